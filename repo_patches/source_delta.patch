From f5886c25452d68fc5988ed4777785405015ea16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 01/21] fix: return redis connections to their pool

Every write batch and every poll took a connection out of the pool and never
gave it back, so the server leaked connections and stopped serving for good
once OM_REDIS_POOL_MAX_ACTIVE of them had been taken.
---
 core/internal/statestore/redis/redis.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index eacd97d..baa840d 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -106,6 +106,7 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 
 	var err error
 	rConn := rr.wConnPool.Get()
+	defer rConn.Close()
 	const redisCmd = "XADD"
 	out := make([]*store.StateResponse, len(updates))
 
@@ -252,6 +253,7 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 	logger.Debugf("Executing redis command: %v %v", redisCmd, redisArgs)
 
 	rConn := rr.rConnPool.Get()
+	defer rConn.Close()
 	data, err := rConn.Do(redisCmd, redisArgs...)
 	if err != nil {
 		logger.Errorf("Redis error: %v", err)
-- 
2.43.0


From 7779d5b3ec56e68df3c2cb7ab3cf57d3d3890470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 02/21] fix: give every state update the redis reply that
 belongs to it

Updates that fail validation are not sent to redis, but replies were matched
to updates by position as if they had been: callers got the ids and errors of
other callers updates. When the pipeline failed as a whole, every update in it
was reported as a success with an empty id.
---
 core/internal/statestore/redis/redis.go | 36 ++++++++++++++-----------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index baa840d..84ae9f1 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -109,10 +109,14 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	defer rConn.Close()
 	const redisCmd = "XADD"
 	out := make([]*store.StateResponse, len(updates))
+	// Indices of the updates that were actually sent to redis, in order.
+	// Redis only replies to these.
+	sent := make([]int, 0, len(updates))
 
 	// Process all the requested redis commands
 	for i, update := range updates {
-		out[i] = &store.StateResponse{Result: "", Err: nil}
+		// Until there is a successful result, the result is the key of the update.
+		out[i] = &store.StateResponse{Result: update.Key, Err: nil}
 		redisArgs := make([]interface{}, 0)
 		redisArgs = append(redisArgs, "om-replication", "*")
 		switch update.Cmd {
@@ -174,7 +178,10 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 		err = rConn.Send(redisCmd, redisArgs...)
 		if err != nil {
 			logger.Errorf("Redis error: %v", err)
+			out[i].Err = fmt.Errorf("Redis error: %w", err)
+			continue
 		}
+		sent = append(sent, i)
 	}
 
 	// Append command to remove expired entries
@@ -189,27 +196,24 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	r, err := rConn.Do("")
 	if err != nil {
 		logger.Errorf("Do error: %v", err)
+		// No results: none of these updates can be reported as written.
+		for _, index := range sent {
+			out[index].Err = fmt.Errorf("Redis error: %w", err)
+		}
+		return out
 	}
 
 	// Last command we sent was the XTRIM above, so read all results but that final one into
 	// the array of strings to return from this function
 	if r != nil { // Make sure we have results before we parse them
-		for index := 0; index < len(r.([]interface{}))-1; index++ {
-			// First, make sure this was a valid update
-			if out[index].Err == nil {
-				t, err := redis.String(r.([]interface{})[index], err)
-				if err != nil {
-					out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
-					t = ""
-				}
-				out[index].Result = t
-				fmt.Printf(" %v - found string: %v\n", index, t)
-			} else {
-				// Error, the update didn't have all the required fields so it was never sent to redis.
-				// Return the error code, and the result is the key that generated the error.
-				fmt.Printf(" %v - had error\n", index)
-				out[index].Result = updates[index].Key
+		for replyIndex, index := range sent {
+			t, err := redis.String(r.([]interface{})[replyIndex], err)
+			if err != nil {
+				// Return the error, and the result is the key that generated the error.
+				out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
+				continue
 			}
+			out[index].Result = t
 		}
 
 		// Last result from redis is a count of number of entries we removed with the XTRIM command.
-- 
2.43.0


From 1c092f595379476e3aab8a8297cf69e32a25ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 03/21] fix: only accept ticket ids that have the form of a
 replication id

The expression was not anchored and accepted empty numbers, so any string
containing a dash was a valid ticket id.
---
 core/internal/statestore/memory/main.go | 2 +-
 core/internal/statestore/redis/redis.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index 4909021..6e728d3 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -40,7 +40,7 @@ func New(cfg *viper.Viper) *memoryReplicator {
 // GetReplIdValidationRegex returns a raw string representing a regular
 // expression that can be used to match replication id strings.
 func (rc *memoryReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
 
 // GetUpdates mocks how the statestore/redis module processes a Redis Stream XRANGE command.
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 84ae9f1..9ae55f2 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -318,5 +318,5 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 // expression that can be used to match replication id strings.
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rr *redisReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
-- 
2.43.0


From 60fe669bb7464111657cf85a2073da117653731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 04/21] fix: filter tickets without attributes

Tickets read from state storage can have no attributes at all; filtering them
on string or double arguments dereferenced nil.
---
 core/internal/filter/filter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/internal/filter/filter.go b/core/internal/filter/filter.go
index c30ebb0..e8896a0 100644
--- a/core/internal/filter/filter.go
+++ b/core/internal/filter/filter.go
@@ -85,8 +85,8 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 		}
 	}
 
-	for _, filter := range pool.DoubleRangeFilters {
-		v, ok := filterableFields.DoubleArgs[filter.GetDoubleArg()]
+	for _, filter := range pool.GetDoubleRangeFilters() {
+		v, ok := filterableFields.GetDoubleArgs()[filter.GetDoubleArg()]
 		if !ok {
 			return false
 		}
@@ -112,8 +112,8 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 
 	}
 
-	for _, f := range pool.StringEqualsFilters {
-		v, ok := filterableFields.StringArgs[f.GetStringArg()]
+	for _, f := range pool.GetStringEqualsFilters() {
+		v, ok := filterableFields.GetStringArgs()[f.GetStringArg()]
 		if !ok {
 			return false
 		}
@@ -124,7 +124,7 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 
 	ticketTags := filterableFields.GetTags()
 tagFilterTest:
-	for _, f := range pool.TagPresentFilters {
+	for _, f := range pool.GetTagPresentFilters() {
 		for _, v := range ticketTags {
 			if v == f.GetTag() {
 				continue tagFilterTest
-- 
2.43.0


From c70c3ad90e1fddf14ee9c4d913ce88e740207001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 05/21] fix: read the time in replication ids as milliseconds

Redis stream ids start with a unix time in milliseconds. The cache, the XTRIM
threshold and WatchAssignments took it for seconds, so that with redis nothing
was ever trimmed from the log, inactive marks and assignments never left the
cache, and watches never timed out. The memory replicator now follows the redis
convention here too.
---
 .../statestore/cache/replicatedticketcache.go       | 13 +++++++------
 core/internal/statestore/memory/main.go             |  4 ++--
 core/internal/statestore/redis/redis.go             |  2 +-
 core/main.go                                        |  4 ++--
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index be18da2..a371494 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -256,9 +256,10 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 		// revisit / possibly do it asynchronously
 		//
 		// Ticket IDs are assigned by Redis in the format of
-		// <unix_timestamp>-<index> where the index increments every time a
-		// ticket is created during the same second. We are only
-		// interested in the ticket creation time (the unix timestamp) here.
+		// <unix_timestamp_ms>-<index> where the index increments every time a
+		// ticket is created during the same millisecond. We are only
+		// interested in the ticket creation time (the unix timestamp in
+		// milliseconds) here.
 		//
 		// The in-memory replication module just follows the redis entry ID
 		// convention so this works fine, but retrieving the creation time
@@ -296,7 +297,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) > int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) > 1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
 					// Ensure that when expiring a ticket from the inactive set, the ticket is always deleted as well.
 					_, existed := tc.Tickets.LoadAndDelete(id)
 					if existed {
@@ -329,8 +330,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) >
-					int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) >
+					1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
 					tc.Assignments.Delete(id)
 					numAssignmentDeletions++
 				}
diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index 6e728d3..a09ad38 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -96,12 +96,12 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 // GetReplId mocks how Redis Streams generate entry IDs
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rc *memoryReplicator) getReplId() string {
-	if time.Now().Unix() == rc.replTS.Unix() {
+	if time.Now().UnixMilli() == rc.replTS.UnixMilli() {
 		rc.replCount += 1
 	} else {
 		rc.replTS = time.Now()
 		rc.replCount = 0
 	}
-	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.Unix(), 10), rc.replCount)
+	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.UnixMilli(), 10), rc.replCount)
 	return id
 }
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 9ae55f2..df2f996 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -185,7 +185,7 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	}
 
 	// Append command to remove expired entries
-	expirationThresh := strconv.FormatInt(time.Now().Unix()-rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
+	expirationThresh := strconv.FormatInt(time.Now().UnixMilli()-1000*rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
 	logger.Debugf("Executing redis command: XTRIM om-replication MINID %v", expirationThresh)
 	err = rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
 	if err != nil {
diff --git a/core/main.go b/core/main.go
index f603ef2..f720535 100644
--- a/core/main.go
+++ b/core/main.go
@@ -838,11 +838,11 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		}(id)
 
 		// Get creation timestamp from ID
-		x, err := strconv.ParseInt(strings.Split(id, "-")[0], 0, 64)
+		x, err := strconv.ParseInt(strings.Split(id, "-")[0], 10, 64)
 		if err != nil {
 			logger.Error(err)
 		}
-		ticketCtime := time.Unix(x, 0)
+		ticketCtime := time.UnixMilli(x)
 
 		// find the newest ticket creation time.
 		if ticketCtime.After(newestTicketCtime) {
-- 
2.43.0


From d4fe23a4104125b0025861499282121386b59dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 06/21] fix: bound the time spent applying updates before
 expiration runs

The timer was started anew for every update, so it never fired while updates
kept coming in and expired tickets stayed in the cache.
---
 core/internal/statestore/cache/replicatedticketcache.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index a371494..9f71f17 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -160,11 +160,11 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 		time.Sleep(time.Millisecond * time.Duration(tc.Cfg.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS")))
 		done := false
 
-		for !done {
-			// Maximum length of time we can process updates access to the
-			// ticket cache is locked during updates, so we need a hard limit here.
-			updateTimeout := time.After(time.Millisecond * 500)
+		// Maximum length of time we can process updates access to the
+		// ticket cache is locked during updates, so we need a hard limit here.
+		updateTimeout := time.After(time.Millisecond * 500)
 
+		for !done {
 			// Process all incoming updates (up to the maximum defined in the
 			// config var OM_CACHE_IN_WAIT_TIMEOUT_MS), up until there
 			// are none left or the lock timeout is reached.
-- 
2.43.0


From be2d7f2be47826ab6996527a25b75f16b40cd970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 07/21] fix: never put tickets created during a pool snapshot
 into pools

A ticket replicated between copying the inactive set and ranging over the
tickets was taken for active although it had never been activated.
---
 core/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index f720535..cec75c1 100644
--- a/core/main.go
+++ b/core/main.go
@@ -951,7 +951,11 @@ func setDifference(tix *sync.Map, inactiveSet *sync.Map) (activeTickets []any) {
 		// not ok means an error was encountered, indicating this
 		// ticket is NOT inactive (meaning it IS active)
 		if _, ok := inactiveTicketIds[id.(string)]; !ok {
-			activeTickets = append(activeTickets, ticket)
+			// The ticket may have been added or deactivated since the
+			// inactive set was copied.
+			if _, ok := inactiveSet.Load(id); !ok {
+				activeTickets = append(activeTickets, ticket)
+			}
 		}
 		return true
 	})
-- 
2.43.0


From 829d00460e088a306bded446b4ee8c2672680632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 08/21] fix: apply OM_MAX_STATE_UPDATES_PER_CALL to assignments

As documented in the configuration, and as for (de-)activations.
---
 core/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/main.go b/core/main.go
index cec75c1..64fd240 100644
--- a/core/main.go
+++ b/core/main.go
@@ -740,6 +740,12 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	if req.GetAssignmentRoster() == nil || req.GetAssignmentRoster().GetAssignment() == nil {
 		return nil, status.Error(codes.InvalidArgument, "roster with assignment is required")
 	}
+	numReqUpdates := len(req.GetAssignmentRoster().GetTickets())
+	if numReqUpdates > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
+		errMsg := fmt.Sprintf("Too many ticket assignments requested in a single call (configured maximum %v, requested %v)",
+			cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL"), numReqUpdates)
+		return nil, status.Error(codes.InvalidArgument, errMsg)
+	}
 	assignmentPb, err := proto.Marshal(req.GetAssignmentRoster().GetAssignment())
 	if assignmentPb == nil || err != nil {
 		err = errors.Wrap(err, "failed to marshal the assignment protobuf")
-- 
2.43.0


From 90031440216c4cd539acc8d4d57575cd7b1c53d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 09/21] fix: report assignments that could not be stored

The error was logged and then dropped; the caller got a success.
---
 core/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/main.go b/core/main.go
index 64fd240..186f6e4 100644
--- a/core/main.go
+++ b/core/main.go
@@ -787,7 +787,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 
 		if results.Err != nil {
 			// Wrap redis error and give it a gRPC internal server error status code
-			err = status.Error(codes.Internal, fmt.Errorf("Unable to delete ticket: %w", results.Err).Error())
+			err = status.Error(codes.Internal, fmt.Errorf("Unable to assign ticket: %w", results.Err).Error())
 			logger.Error(err)
 		}
 	}
@@ -797,7 +797,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	// Record metrics
 	AssignmentsPerCall.Record(parentCtx, int64(numUpdates))
 
-	return &pb.CreateAssignmentsResponse{}, nil
+	return &pb.CreateAssignmentsResponse{}, err
 }
 
 // WatchAssignments should be considered deprecated, and is only provided for
-- 
2.43.0


From a8b132df75118d66c70487d840ca93a7b6e404f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 10/21] fix: do not store assignments for malformed ticket ids

Only empty ids were caught.
---
 core/main.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/main.go b/core/main.go
index 186f6e4..ece50c6 100644
--- a/core/main.go
+++ b/core/main.go
@@ -25,6 +25,7 @@ import (
 	"os"
 	"os/signal"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -755,8 +756,16 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 
 	rChan := make(chan *store.StateResponse, len(req.GetAssignmentRoster().GetTickets()))
 	numUpdates := 0
+
+	// Validate ids against state storage event id format
+	ticketIds := make([]string, 0, numReqUpdates)
+	for _, ticket := range req.GetAssignmentRoster().GetTickets() {
+		ticketIds = append(ticketIds, ticket.GetId())
+	}
+	_, invalidTicketIds := validateTicketIds(ticketIds)
+
 	for _, ticket := range req.GetAssignmentRoster().GetTickets() {
-		if ticket.Id != "" {
+		if !slices.Contains(invalidTicketIds, ticket.GetId()) {
 			logger.Debugf("Assignment request ticket id: %v", ticket.Id)
 			tc.UpRequests <- &cache.UpdateRequest{
 				// This command is replicated to all other om-core instances
@@ -775,7 +784,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 			numUpdates++
 		} else {
 			// Note the error but continue processing
-			err = status.Error(codes.Internal, "Empty ticket ID in assignment request!")
+			err = status.Error(codes.Internal, "Invalid ticket ID in assignment request!")
 			logger.Error(err)
 		}
 	}
-- 
2.43.0


From 8b57c9562af575d8a83a2e3d3b5d52558461731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 11/21] fix: stop watching assignments when the watch ends

The goroutines of unanswered ids outlived the call; when one of those tickets
was assigned later, sending on the closed channel crashed the server. Watches
whose client is gone now end too.
---
 core/main.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index ece50c6..7b7ce78 100644
--- a/core/main.go
+++ b/core/main.go
@@ -828,7 +828,10 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 	// var init
 	newestTicketCtime := time.Now()
 	updateChan := make(chan *pb.StreamedWatchAssignmentsResponse)
-	defer close(updateChan)
+	// Closed when this call returns, to stop the goroutines watching ids
+	// that have not been assigned yet.
+	doneChan := make(chan struct{})
+	defer close(doneChan)
 
 	for _, id := range req.GetTicketIds() {
 		// Launch an asynch goroutine for each ticket ID in the request that just loops,
@@ -840,15 +843,22 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 					assignment := value.(*pb.Assignment)
 					logger.Debugf(" watchassignments loop got assignment %v for ticketid: %v",
 						assignment.Connection, ticketId)
-					updateChan <- &pb.StreamedWatchAssignmentsResponse{
+					select {
+					case updateChan <- &pb.StreamedWatchAssignmentsResponse{
 						Assignment: assignment,
 						Id:         ticketId,
+					}:
+					case <-doneChan:
 					}
 					return
 				}
 				// TODO exp bo + jitter. Not a priority since this API is
 				// marked as deprecated.
-				time.Sleep(1 * time.Second)
+				select {
+				case <-time.After(1 * time.Second):
+				case <-doneChan:
+					return
+				}
 			}
 		}(id)
 
@@ -877,6 +887,9 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		case thisAssignment := <-updateChan:
 			AssignmentWatches.Add(context.Background(), -1)
 			stream.Send(thisAssignment)
+		case <-stream.Context().Done():
+			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
+			return status.FromContextError(stream.Context().Err()).Err()
 		case <-timeout:
 			AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())-i))
 			return nil
-- 
2.43.0


From c779cd10247e8ad22a8fda551ab9c795f7eedaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 12/21] fix: count watches that time out as ended

The gauge was increased instead of decreased.
---
 core/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index 7b7ce78..5f99da2 100644
--- a/core/main.go
+++ b/core/main.go
@@ -891,7 +891,7 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
 			return status.FromContextError(stream.Context().Err()).Err()
 		case <-timeout:
-			AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())-i))
+			AssignmentWatches.Add(context.Background(), -int64(len(req.GetTicketIds())-i))
 			return nil
 		}
 	}
-- 
2.43.0


From f87e8e581e00b26c46f8628d4dc79bc79fa81d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 13/21] fix: wait until the tickets of a match are inactive

The check for the replication of the deactivations ran only once, after 100 ms,
and only looked at the last ticket of the match, so with
OM_MATCH_TICKET_DEACTIVATION_WAIT matches were returned, and otherwise
invocations ended, with tickets still in circulation. A match without tickets
crashed the server.
---
 core/main.go | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/core/main.go b/core/main.go
index 5f99da2..8960fc3 100644
--- a/core/main.go
+++ b/core/main.go
@@ -643,26 +643,34 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						}
 						logger.Debugf("Done deactivating tickets in %v", res.GetId())
 
-						// Function to check if deactivation of the last ticket
-						// in this match's rosters has been replicated to the
-						// local cache
-						deactivationCheck := func(ticketId string) {
+						// Function to wait until the deactivations of all tickets in
+						// this match's rosters have been replicated to the local
+						// cache
+						deactivationCheck := func(ticketIds []string) {
 							// We'd never expect the deactivation to take this
 							// long to replicate, but best practices require
 							// /some/ timeout.
 							timeout := time.After(time.Second * 60)
-							select {
-							case <-timeout:
-								// Log the timeout and continue.
-								logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", ticketId)
-								return
-							default:
-								// There is always /some/ replication delay,
-								// sleep first
-								time.Sleep(100 * time.Millisecond)
-								if _, replComplete := tc.InactiveSet.Load(ticketId); replComplete == true {
-									logger.Debugf("deactivation of ticket %v replicated to local cache", ticketId)
-									return
+							for _, ticketId := range ticketIds {
+								if _, failed := errs[ticketId]; failed {
+									// This deactivation is not going to be replicated.
+									continue
+								}
+								for {
+									// Tickets that are not in the cache (any more) need no deactivation.
+									_, exists := tc.Tickets.Load(ticketId)
+									_, inactive := tc.InactiveSet.Load(ticketId)
+									if !exists || inactive {
+										logger.Debugf("deactivation of ticket %v replicated to local cache", ticketId)
+										break
+									}
+									select {
+									case <-timeout:
+										// Log the timeout and continue.
+										logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", ticketId)
+										return
+									case <-time.After(100 * time.Millisecond):
+									}
 								}
 							}
 						}
@@ -670,7 +678,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Option 1: Wait for deactivation to complete BEFORE
 						// returning the match.
 						if cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck(ticketIdsToDeactivate)
 							logger.Debug("ticket deactivations complete, returning match")
 						}
 
@@ -684,7 +692,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Option 2: Match already returned; clean up
 						// goroutine when deactivation is complete.
 						if !cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck(ticketIdsToDeactivate)
 							logger.Debug("ticket deactivations complete for previously returned match")
 						}
 						return
-- 
2.43.0


From 126123a44b6e7e24c6d6496eaa733bc02107d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 14/21] fix: finish processing the matches of an mmf that ends
 with an error

The matches it had already returned were abandoned: the invocation ended while
they were still being processed, they never reached the caller, and sending
them on the closed channel crashed the server.
---
 core/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index 8960fc3..de351aa 100644
--- a/core/main.go
+++ b/core/main.go
@@ -583,6 +583,9 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// deactivations are complete. (All tickets in matches returned
 				// by the MMF are set to inactive by OM)
 				var tdwg sync.WaitGroup
+				// Wait for all match ticket deactivation goroutines to
+				// complete, however this function ends.
+				defer tdwg.Wait()
 
 				// i counts the number of loops for metrics reporting; this
 				// loop reads streaming match responses from the mmf and runs
@@ -707,9 +710,6 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// problems too, but it's a relatively low-risk assumption that
 				// the user will only deploy a few different mmfs.
 				Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
-
-				// Wait for all match ticket deactivation goroutines to complete.
-				tdwg.Wait()
 			}
 
 			// io.EOF indicates the MMF server closed the stream (mmf is
-- 
2.43.0


From 9741a2080dce8f4e99b5ad3383de381d49fc9e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 15/21] fix: send the last match before ending the stream to
 the caller

The handler returned while the fan-in goroutine was possibly still sending.
---
 core/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/main.go b/core/main.go
index de351aa..002d723 100644
--- a/core/main.go
+++ b/core/main.go
@@ -482,8 +482,11 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	matchChan := make(chan *pb.Match)
 	// Channel that receives a bool flag when all MMFs have closed their streams.
 	waitChan := make(chan bool)
+	// Channel that is closed when the last match has been sent to the caller.
+	fanInDone := make(chan struct{})
 	var mmfwg sync.WaitGroup
 	go func() {
+		defer close(fanInDone)
 		logger.Debug("MMF results fan-in goroutine active")
 		for {
 			select {
@@ -729,6 +732,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	mmfwg.Wait()
 	logger.Debugf("MMF waitgroup done; closing waitchan")
 	close(waitChan)
+	// Returning ends the stream, so wait for the last match to be sent.
+	<-fanInDone
 	return nil
 }
 
-- 
2.43.0


From 2d2b66642e678a56e346cc56ce8bb2e09c96d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 16/21] fix: count the matches of every mmf correctly

The end of the stream was counted as a match, and the matches of mmfs that
ended with an error were not counted.
---
 core/main.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/core/main.go b/core/main.go
index 002d723..661b21d 100644
--- a/core/main.go
+++ b/core/main.go
@@ -590,11 +590,21 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// complete, however this function ends.
 				defer tdwg.Wait()
 
-				// i counts the number of loops for metrics reporting; this
+				// i counts the number of matches for metrics reporting; this
 				// loop reads streaming match responses from the mmf and runs
 				// until a break statement is encountered.
+				//
+				// TODO decide if we want to track profile names as attributes
+				// as well as mmf names. Profile names are user input, so we'd
+				// have to limit cardinality somehow. Really we should address
+				// the possiblity of too many mmf names causing cardinality
+				// problems too, but it's a relatively low-risk assumption that
+				// the user will only deploy a few different mmfs.
 				var i int64
-				for i = 1; true; i++ {
+				defer func() {
+					Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
+				}()
+				for i = 0; true; i++ {
 					// Get results from MMF
 					var result *pb.StreamedMmfResponse
 					result, err = mmfStream.Recv()
@@ -705,14 +715,6 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 					}(resultCopy) // End of match return & ticket deactivation goroutine
 
 				} // End of match stream receiving loop
-
-				// TODO decide if we want to track profile names as attributes
-				// as well as mmf names. Profile names are user input, so we'd
-				// have to limit cardinality somehow. Really we should address
-				// the possiblity of too many mmf names causing cardinality
-				// problems too, but it's a relatively low-risk assumption that
-				// the user will only deploy a few different mmfs.
-				Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
 			}
 
 			// io.EOF indicates the MMF server closed the stream (mmf is
-- 
2.43.0


From c9b44721379405923cdca3e1f7cc62f72e91d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 17/21] fix: send mmfs the pools as requested, also those
 without tickets

Pools arrived at the mmfs without their names, filters and extensions, and not
at all when no ticket was in them.
---
 core/main.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/main.go b/core/main.go
index 661b21d..af4bc05 100644
--- a/core/main.go
+++ b/core/main.go
@@ -458,11 +458,18 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 			Pools:      pools,
 			Extensions: req.GetProfile().GetExtensions(),
 		}
-		for name, participantRoster := range chunk {
+		for name, _ := range validPools {
+			pool := req.GetProfile().GetPools()[name]
 			profile.GetPools()[name] = &pb.Pool{
+				Name:                    pool.GetName(),
+				TagPresentFilters:       pool.GetTagPresentFilters(),
+				StringEqualsFilters:     pool.GetStringEqualsFilters(),
+				DoubleRangeFilters:      pool.GetDoubleRangeFilters(),
+				CreationTimeRangeFilter: pool.GetCreationTimeRangeFilter(),
+				Extensions:              pool.GetExtensions(),
 				Participants: &pb.Roster{
 					Name:    name + "_roster",
-					Tickets: participantRoster,
+					Tickets: chunk[name],
 				},
 			}
 		}
-- 
2.43.0


From a9b6bcae55711f5727f31eb1f020b916b4db190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 18/21] fix: keep request chunks below the maximum message size

The roster names and the framing of every ticket were not counted, so with many
small tickets or long pool names chunks exceeded 4 MiB and no mmf could receive
them.
---
 core/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/main.go b/core/main.go
index af4bc05..fcab0c9 100644
--- a/core/main.go
+++ b/core/main.go
@@ -416,6 +416,10 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	maxPbSize := 4 * 1000 * 1000
 	// Figure out how big the message is with the profile populated, but all pools empty
 	emptyChunkSize := proto.Size(&pb.ChunkedMmfRunRequest{Profile: req.GetProfile(), NumChunks: math.MaxInt32})
+	for name, _ := range validPools {
+		// The roster added to every pool
+		emptyChunkSize += proto.Size(&pb.Pool{Participants: &pb.Roster{Name: name + "_roster"}})
+	}
 	curChunkSize := emptyChunkSize
 
 	// Array of 'chunks', each consisting of a portion of the pools in this profile.
@@ -428,7 +432,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 		for name, _ := range validPools {
 			// All the implementation details of filtering are in internal/filter/filter.go
 			if filter.In(req.GetProfile().GetPools()[name], ticket.(*pb.Ticket)) {
-				ticketSize := proto.Size(ticket.(*pb.Ticket))
+				// Size of the ticket as a field of the roster
+				ticketSize := proto.Size(&pb.Roster{Tickets: []*pb.Ticket{ticket.(*pb.Ticket)}})
 				// Check if this ticket will put us over the max pb size for this chunk
 				if (curChunkSize + ticketSize) >= maxPbSize {
 					// Start a new chunk
-- 
2.43.0


From 12020ed080d6f69f35c04a0c4f9cc724e78389f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 19/21] fix: concatenate pools whose first chunk has no
 participants

Appending the participants of a later chunk dereferenced nil.
---
 mmf/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmf/server/server.go b/mmf/server/server.go
index dbdc0d2..7eee088 100644
--- a/mmf/server/server.go
+++ b/mmf/server/server.go
@@ -92,6 +92,9 @@ func GetChunkedRequest(stream pb.MatchMakingFunctionService_RunServer) (*pb.Prof
 					Extensions:              pool.GetExtensions(),
 					Participants:            pool.GetParticipants(),
 				}
+				if pools[name].Participants == nil {
+					pools[name].Participants = &pb.Roster{}
+				}
 			} else {
 				// concate pools split amoung multiple chunks
 				pools[name].Participants.Tickets = append(pools[name].Participants.Tickets, pool.GetParticipants().GetTickets()...)
-- 
2.43.0


From 0c59afebb77176735f54b714f3aae395bd4cdb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 20/21] fix: wait for every ticket activation call of the
 example matchmaker

---
 matchmaker-example/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 6f2fad3..0f9afe4 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -415,6 +415,8 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 
 			// Kick off activation in a goroutine in case we had to split on
 			// maxActivationsPerCall, this way the calls are made concurrently.
+			// Track the goroutine before it starts, so it is always waited for.
+			activationWg.Add(1)
 			go func(ticketsAwaitingActivation []string) {
 
 				// Quick in-line function to grab information
@@ -429,8 +431,6 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 					return ts
 				}
 
-				// Track this goroutine
-				activationWg.Add(1)
 				defer activationWg.Done()
 
 				// Activate tickets
-- 
2.43.0


From e016d0c478a30ebd8b8241ebbcc1562b822c7b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 21/21] fix: make room for all tickets of rejected matches in
 the example matchmaker

---
 matchmaker-example/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 0f9afe4..cedbb69 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -186,7 +186,6 @@ func main() {
 
 	// Main Matchmaking Loop
 	emptyCycles := 0
-	ticketIdsToActivate := make(chan string, 10000)
 	// Loop for the configured number of cycles
 	for i := *mmCycles; i > 0; i-- {
 		rejectedMatches := []*pb.Match{}
@@ -359,12 +358,19 @@ func main() {
 
 			// re-activate tickets from rejected matches
 			numRejectedTickets := 0
+			for _, match := range rejectedMatches {
+				for _, roster := range match.GetRosters() {
+					numRejectedTickets += len(roster.GetTickets())
+				}
+			}
+			// Nothing reads from the queue until all the ticket IDs are in it,
+			// so it needs room for all of them.
+			ticketIdsToActivate := make(chan string, numRejectedTickets)
 			for _, match := range rejectedMatches {
 				for _, roster := range match.GetRosters() {
 					for _, ticket := range roster.GetTickets() {
 						// queue this ticket ID to be re-activated
 						ticketIdsToActivate <- ticket.GetId()
-						numRejectedTickets++
 					}
 				}
 			}
-- 
2.43.0

