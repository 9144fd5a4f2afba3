import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import seed
CACHE = "core/internal/statestore/cache/replicatedticketcache.go"
REDIS = "core/internal/statestore/redis/redis.go"
MEMORY = "core/internal/statestore/memory/main.go"
MAIN = "core/main.go"
SERVER = "core/server.go"
FILTER = "core/internal/filter/filter.go"

seed("result-channels-pooled", "C01",
     "a caller that gives up while its creation is being written, and another creation that is under way then",
     "the creation that follows an abandoned one is answered with the id of the abandoned ticket",
     [(MAIN, """	// Make a results return channel
	rChan := make(chan *store.StateResponse)
""", """	// Get a results return channel
	rChan := resultChans.Get().(chan *store.StateResponse)
	defer resultChans.Put(rChan)
"""), (MAIN, """	// Get the results
	results := <-rChan

	return &pb.CreateTicketResponse{TicketId: results.Result}, results.Err
""", """	// Get the results
	select {
	case results := <-rChan:
		return &pb.CreateTicketResponse{TicketId: results.Result}, results.Err
	case <-parentCtx.Done():
		return nil, status.FromContextError(parentCtx.Err()).Err()
	}
"""), (MAIN, """	tc cache.ReplicatedTicketCache
)
""", """	tc cache.ReplicatedTicketCache

	// Result channels are reused between ticket creations.
	resultChans = sync.Pool{New: func() any { return make(chan *store.StateResponse, 1) }}
)
""")], """
package main

import (
	"fmt"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "300", "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "5000"})
	for k := 0; k < 6; k++ {
		for n := 0; n < 40; n++ {
			go i.CreateTicket(ctx(time.Duration(150+5*n)*time.Millisecond), &pb.CreateTicketRequest{Ticket: tagged("gone")})
		}
		type got struct{ tag, id string }
		c := make(chan got, 1000)
		n := 0
		for t := time.Now(); time.Since(t) < 1200*time.Millisecond; time.Sleep(10 * time.Millisecond) {
			n++
			tag := fmt.Sprint("mine", k, "-", n)
			go func() {
				r, err := i.CreateTicket(ctx(20*time.Second), &pb.CreateTicketRequest{Ticket: tagged(tag)})
				must(err)
				c <- got{tag, r.GetTicketId()}
			}()
		}
		seen := map[string]bool{}
		for ; n > 0; n-- {
			g := <-c
			check(!seen[g.id], "%s was returned twice", g.id)
			seen[g.id] = true
			t := stored(g.id)
			check(t != nil && has(t.GetAttributes().GetTags(), g.tag), "%s holds %v, not %s", g.id, t, g.tag)
		}
	}
}
""")

seed("expiry-compared-in-nanoseconds", "C02",
     "an expiration time more than 292 years away",
     "such an expiration time is taken for an early one and kept",
     [(MAIN, """	if !exTime.IsValid() ||
		exTime.AsTime().After(defaultExTime) {
""", """	if !exTime.IsValid() ||
		exTime.AsTime().UnixNano() > defaultExTime.UnixNano() {
""")], """
package main

import (
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
)

func demo() {
	i := start(nil)
	for _, y := range []int{2300, 2400, 2500, 2600, 2800, 3000, 4000, 9999} {
		t := tagged("a")
		t.ExpirationTime = timestamppb.New(time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC))
		s := stored(i.create(t))
		d := s.GetExpirationTime().AsTime().Sub(s.GetAttributes().GetCreationTime().AsTime())
		check(d == 600*time.Second, "expiration in %d: kept for %v", y, d)
	}
}
""")

seed("snapshot-reused-while-counts-agree", "C03",
     "a ticket is activated and another one deactivated between two invocations",
     "the second invocation is offered the tickets of the first",
     [(MAIN, """	activeTickets := setDifference(&tc.Tickets, &tc.InactiveSet)
	// TODO""", """	activeTickets := activeSnapshot()
	// TODO"""), (MAIN, """// validateTicketIds checks each id in the input list, and sends back
""", """// activeSnapshot returns the active tickets, without computing them again if
// there are as many tickets and inactive tickets as last time.
func activeSnapshot() []any {
	snapshotMu.Lock()
	defer snapshotMu.Unlock()
	if snapshot == nil || snapshotTickets != cache.TicketCount || snapshotInactive != cache.InactiveCount {
		snapshotTickets, snapshotInactive = cache.TicketCount, cache.InactiveCount
		snapshot = setDifference(&tc.Tickets, &tc.InactiveSet)
	}
	return snapshot
}

var (
	snapshotMu                        sync.Mutex
	snapshot                          []any
	snapshotTickets, snapshotInactive int64
)

// validateTicketIds checks each id in the input list, and sends back
""")], """
package main

import "time"

func demo() {
	i := start(map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "200"})
	a, b := i.create(tagged("a")), i.create(tagged("a"))
	time.Sleep(500 * time.Millisecond)
	for k := 0; k < 4; k++ {
		d := make(chan bool)
		go func() { i.deactivate(b); d <- true }()
		i.activate(a)
		<-d
		time.Sleep(700 * time.Millisecond)
		ids := i.offered(tagPool("a", "a"))
		check(has(ids, a) && !has(ids, b), "%s is active, but offered are %v", a, ids)
		a, b = b, a
	}
}
""")

seed("failed-batch-written-again", "C20",
     "the connection to the storage breaks after the batch was written",
     "the updates of the batch are stored twice",
     [(REDIS, """		logger.Errorf("Do error: %v", err)
""", """		logger.Errorf("Do error: %v", err)
		if !retried {
			// Connections break. Try again with a new one.
			return rr.sendUpdates(updates, true)
		}
"""), (REDIS, """func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.StateResponse {
""", """func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.StateResponse {
	return rr.sendUpdates(updates, false)
}

func (rr *redisReplicator) sendUpdates(updates []*store.StateUpdate, retried bool) []*store.StateResponse {
""")], """
package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"open-match.dev/core/zzdemo/fakeredis"
)

func demo() {
	i := start(nil)
	i.create(tagged("x"))
	once := false
	i.P.SetFault(func(cmd string, _ []string, nth int) fakeredis.Outcome {
		if cmd == "XADD" && !once {
			once = true
			return fakeredis.DropAfter
		}
		return fakeredis.OK
	})
	i.CreateTicket(ctx(20*time.Second), &pb.CreateTicketRequest{Ticket: tagged("y")})
	n := 0
	for _, x := range logged("ticket") {
		if has(stored(x[0]).GetAttributes().GetTags(), "y") {
			n++
		}
	}
	check(n <= 1, "the ticket was stored %d times", n)
}
""")

seed("next-expiry-remembered", "C06",
     "a ticket that expires before those that are there already",
     "it stays until the first of the others expires",
     [(CACHE, """			// cull expired tickets from local cache
			tc.Tickets.Range(func(id, ticket any) bool {
				numTickets++
				if time.Now().After(ticket.(*pb.Ticket).GetExpirationTime().AsTime()) {
					tc.Tickets.Delete(id)
					numTicketDeletions++
				}
				return true
			})
""", """			// cull expired tickets from local cache, once the first of them is due
			if now := time.Now(); !now.Before(nextExpiration) {
				nextExpiration = now.Add(time.Second * time.Duration(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")))
				found := false
				tc.Tickets.Range(func(id, ticket any) bool {
					numTickets++
					exTime := ticket.(*pb.Ticket).GetExpirationTime().AsTime()
					if now.After(exTime) {
						tc.Tickets.Delete(id)
						numTicketDeletions++
					} else {
						found = true
						if exTime.Before(nextExpiration) {
							nextExpiration = exTime
						}
					}
					return true
				})
				if !found {
					nextExpiration = time.Time{}
				}
			}
"""), (CACHE, """	// Check the channel for updates, and apply them
	for {
""", """	// When the next ticket is due to expire
	var nextExpiration time.Time

	// Check the channel for updates, and apply them
	for {
""")], """
package main

import (
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
)

func demo() {
	i := start(nil)
	i.activate(i.create(tagged("a")))
	check(eventually(10*time.Second, func() bool { return len(i.offered(tagPool("a", "a"))) == 1 }), "not offered")
	t := tagged("b")
	t.ExpirationTime = timestamppb.New(time.Now().Add(3 * time.Second))
	i.activate(i.create(t))
	time.Sleep(6 * time.Second)
	check(len(i.offered(tagPool("b", "b"))) == 0, "the ticket is still offered, 3 s after its expiration time")
}
""")

seed("range-with-tolerance", "C07",
     "a double argument very close to a bound of a range, but beyond it",
     "the ticket is put into the pool",
     [(FILTER, """			if !(v >= filter.GetMinimum() && v <= filter.GetMaximum()) {
				return false
			}
		case pb.Pool_EXCLUDE_MIN:
""", """			// Make allowance for rounding.
			eps := 1e-9 * math.Max(math.Abs(filter.GetMinimum()), math.Abs(filter.GetMaximum()))
			if math.IsInf(eps, 0) {
				eps = 0
			}
			if !(v >= filter.GetMinimum()-eps && v <= filter.GetMaximum()+eps) {
				return false
			}
		case pb.Pool_EXCLUDE_MIN:
"""), (FILTER, "import (\n", "import (\n\t\"math\"\n\n")], """
package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(nil)
	var ids []string
	for _, v := range []float64{1000.0000000001, 1000, 999.9999999999} {
		t := tagged("a")
		t.Attributes.DoubleArgs = map[string]float64{"x": v}
		ids = append(ids, i.create(t))
	}
	i.activate(ids...)
	check(eventually(10*time.Second, func() bool { return len(i.offered(tagPool("a", "a"))) == 3 }), "not offered")
	got := i.offered(&pb.Pool{Name: "p", DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{{DoubleArg: "x", Minimum: 1, Maximum: 1000}}})
	check(len(got) == 2 && !has(got, ids[0]), "in the range up to 1000: %v, with x %v", got, ids)
}
""")

seed("repeated-match-id-dropped", "C10",
     "two matches with the same id in one invocation, as from two functions that number their matches",
     "only the first of them is delivered",
     [(MAIN, """		for {
			select {
			case match := <-matchChan:
""", """		returned := map[string]bool{}
		for {
			select {
			case match := <-matchChan:
				if returned[match.GetId()] {
					// Already sent.
					continue
				}
				returned[match.GetId()] = true
""")], """
package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(nil)
	a, b := i.create(tagged("a")), i.create(tagged("a"))
	f := function(func(f *Fn, s pb.MatchMakingFunctionService_RunServer, _ []*pb.ChunkedMmfRunRequest) error {
		return s.Send(match("match-0", a))
	})
	g := function(func(f *Fn, s pb.MatchMakingFunctionService_RunServer, _ []*pb.ChunkedMmfRunRequest) error {
		return s.Send(match("match-0", b))
	})
	ms, err := i.invoke(ctx(60*time.Second), profile(tagPool("a", "a")), f, g)
	must(err)
	check(len(ms) == 2, "delivered: %v", ms)
}
""")

seed("shared-ticket-deactivated-once", "C11",
     "a ticket in two matches of an invocation, with OM_MATCH_TICKET_DEACTIVATION_WAIT, and storage that delivers late",
     "the second match is delivered before its ticket is inactive",
     [(MAIN, """								ticketIdsToDeactivate = append(ticketIdsToDeactivate, ticket.GetId())
""", """								// One deactivation is enough for tickets in several matches.
								if _, requested := deactivated.LoadOrStore(ticket.GetId(), true); !requested {
									ticketIdsToDeactivate = append(ticketIdsToDeactivate, ticket.GetId())
								}
"""), (MAIN, """	var mmfwg sync.WaitGroup
	go func() {
""", """	var mmfwg sync.WaitGroup
	// Tickets whose deactivation has been requested.
	var deactivated sync.Map
	go func() {
""")], """
package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(map[string]string{"OM_MATCH_TICKET_DEACTIVATION_WAIT": "true"})
	id := i.create(tagged("a"))
	i.activate(id)
	check(eventually(20*time.Second, func() bool { return has(i.offered(tagPool("a", "a")), id) }), "the ticket is not offered")
	f := function(func(f *Fn, s pb.MatchMakingFunctionService_RunServer, _ []*pb.ChunkedMmfRunRequest) error {
		i.P.SetGate(R.Total()) // deliveries stop
		s.Send(match("m1", id))
		s.Send(match("m2", id))
		time.Sleep(2 * time.Second)
		return nil
	})
	req := &pb.MmfRequest{Profile: profile(tagPool("a", "a")), Mmfs: []*pb.MatchmakingFunctionSpec{f.spec()}}
	st, err := i.InvokeMatchmakingFunctions(ctx(30*time.Second), req)
	must(err)
	go func() { time.Sleep(3 * time.Second); i.P.SetGate(-1) }()
	t := time.Now()
	_, err = st.Recv()
	must(err)
	check(time.Since(t) > 2500*time.Millisecond, "a match is delivered while its ticket is active")
}
""")

seed("full-batch-written-aside", "C20",
     "more updates than fit a batch, while the storage is slow",
     "updates overtake each other",
     [(CACHE, """			results := tc.Replicator.SendUpdates(pipeline)
			logger.Debug(" got results")

			for index, result := range results {
				// send back this result to it's unique return channel
				pipelineRequests[index].ResultsChan <- result
			}
		}
""", """			if len(pipelineRequests) >= tc.Cfg.GetInt("OM_CACHE_OUT_MAX_QUEUE_THRESHOLD") {
				// More are waiting: do not make them wait for this batch.
				go tc.write(pipelineRequests, pipeline)
				pipelineRequests, pipeline = nil, nil
				continue
			}
			tc.write(pipelineRequests, pipeline)
		}
"""), (CACHE, """// incomingReplicationQueue is an asynchronous""", """// write writes a batch to the state storage, and answers its requests.
func (tc *ReplicatedTicketCache) write(requests []*UpdateRequest, pipeline []*store.StateUpdate) {
	for index, result := range tc.Replicator.SendUpdates(pipeline) {
		// send back this result to it's unique return channel
		requests[index].ResultsChan <- result
	}
}

// incomingReplicationQueue is an asynchronous""")], """
package main

import (
	"fmt"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(map[string]string{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "3"})
	for k := 0; k < 150; k++ {
		n := len(logged("activate"))
		var ids []string
		for j := 1; j <= 40; j++ {
			ids = append(ids, fmt.Sprintf("%d-%d", 1000+k, j))
		}
		_, err := i.ActivateTickets(ctx(60*time.Second), &pb.ActivateTicketsRequest{TicketIds: ids})
		must(err)
		for j, x := range logged("activate")[n:] {
			check(x[1] == ids[j], "update %d of the call is %s, not %s", j, x[1], ids[j])
		}
	}
}
""")

seed("connection-kept-after-error", "C14",
     "as many failed reads of the state storage as there may be connections",
     "no updates are read any more",
     [(REDIS, """	defer rConn.Close()
	data, err := rConn.Do(redisCmd, redisArgs...)
	if err != nil {
		logger.Errorf("Redis error: %v", err)
	}
""", """	data, err := rConn.Do(redisCmd, redisArgs...)
	if err != nil {
		logger.Errorf("Redis error: %v", err)
		return out
	}
	defer rConn.Close()
""")], """
package main

import (
	"time"

	"open-match.dev/core/zzdemo/fakeredis"
)

func demo() {
	i := start(map[string]string{"OM_REDIS_POOL_MAX_ACTIVE": "5", "OM_CACHE_IN_WAIT_TIMEOUT_MS": "5"})
	i.P.SetFault(func(cmd string, _ []string, nth int) fakeredis.Outcome {
		if cmd == "XREAD" && nth <= 12 {
			return fakeredis.ErrReply
		}
		return fakeredis.OK
	})
	time.Sleep(3 * time.Second)
	id := i.create(tagged("a"))
	i.activate(id)
	check(eventually(20*time.Second, func() bool { return has(i.offered(tagPool("a", "a")), id) }), "the ticket is not offered")
}
""")

seed("updates-dropped-when-behind", "C04",
     "more updates waiting than one poll may bring",
     "the instance skips updates that it has read",
     [(CACHE, """				replStream <- *curUpdate
""", """				select {
				case replStream <- *curUpdate:
				case <-time.After(time.Second):
					logger.Errorf("Unable to process update, cache is not keeping up: %v", curUpdate.Key)
				}
""")], """
package main

import "time"

func demo() {
	i := start(map[string]string{"OM_CACHE_IN_MAX_UPDATES_PER_POLL": "4", "OM_CACHE_IN_WAIT_TIMEOUT_MS": "3000"})
	var ids []string
	for k := 0; k < 12; k++ {
		ids = append(ids, i.create(tagged("a")))
	}
	i.activate(ids...)
	check(eventually(60*time.Second, func() bool { return len(i.offered(tagPool("a", "a"))) == 12 }), "offered: %v", i.offered(tagPool("a", "a")))
}
""")
