import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import seed
CACHE = "core/internal/statestore/cache/replicatedticketcache.go"
REDIS = "core/internal/statestore/redis/redis.go"
MEM = "core/internal/statestore/memory/main.go"
FILTER = "core/internal/filter/filter.go"
MAIN = "core/main.go"
SERVER = "mmf/server/server.go"

seed("results-returned-late", "C01",
     "two batches in quick succession, so that the slices of the first one are reused before all of its results have been handed out",
     "callers get the ticket ids of other callers' tickets, or none at all",
     [(CACHE, """			for index, result := range results {
				// send back this result to it's unique return channel
				pipelineRequests[index].ResultsChan <- result
			}
""", """			// Hand out the results without holding up the next batch.
			go func() {
				for index, result := range results {
					// send back this result to it's unique return channel
					pipelineRequests[index].ResultsChan <- result
				}
			}()
""")], """
package main

import (
	"fmt"
	"sync"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(map[string]string{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "8"})
	var mu sync.Mutex
	ids := map[string]string{}
	for round := 0; round < 20; round++ {
		var wg sync.WaitGroup
		for k := 0; k < 200; k++ {
			wg.Add(1)
			go func(tag string) {
				defer wg.Done()
				r, err := i.CreateTicket(ctx(20*time.Second), &pb.CreateTicketRequest{Ticket: tagged(tag)})
				check(err == nil, "creation of %s failed: %v", tag, err)
				mu.Lock()
				defer mu.Unlock()
				check(ids[r.GetTicketId()] == "", "id %s was given to %s and to %s", r.GetTicketId(), ids[r.GetTicketId()], tag)
				ids[r.GetTicketId()] = tag
			}(fmt.Sprintf("t%d.%d", round, k))
		}
		wg.Wait()
	}
	for _, x := range logged("ticket") {
		t := stored(x[0])
		check(ids[x[0]] == "" || t.GetAttributes().GetTags()[0] == ids[x[0]], "%s was told id %s of the ticket of %v", ids[x[0]], x[0], t.GetAttributes().GetTags())
	}
}
""")

seed("default-expiry-from-now", "C02",
     "a creation time that is not the time of the request, and no expiration time or a later one than allowed",
     "the ticket's expiration time is not its creation time plus the configured lifetime",
     [(MAIN, """	defaultExTime := crTime.AsTime().Add(time""", """	defaultExTime := time.Now().Add(time""")], """
package main

import (
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(nil)
	cr := time.Now().Add(-300 * time.Second)
	id := i.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{CreationTime: timestamppb.New(cr)}})
	ex := stored(id).GetExpirationTime().AsTime()
	check(ex.Equal(cr.Add(600*time.Second)), "created %v, expires %v", cr, ex)
}
""")

seed("repeated-update-skipped", "C03",
     "activation, deactivation and again activation of one ticket within a single batch",
     "the last update is taken for a repetition of the first and not written, so the ticket stays inactive",
     [(REDIS, """			redisArgs = append(redisArgs, "activate")
			redisArgs = append(redisArgs, update.Key)
""", """			if activated[update.Key] {
				// One activation of a ticket in a batch is enough.
				continue
			}
			activated[update.Key] = true
			redisArgs = append(redisArgs, "activate")
			redisArgs = append(redisArgs, update.Key)
"""), (REDIS, """	// Process all the requested redis commands
""", """	// Tickets activated by this batch
	activated := map[string]bool{}

	// Process all the requested redis commands
""")], """
package main

import (
	"sync"
	"time"
)

func demo() {
	i := start(map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "3000"})
	id := i.create(tagged("a"))
	var wg sync.WaitGroup
	for _, f := range []func(...string){i.activate, i.deactivate, i.activate} {
		wg.Add(1)
		go func(f func(...string)) { defer wg.Done(); f(id) }(f)
		time.Sleep(200 * time.Millisecond)
	}
	wg.Wait()
	check(eventually(3*time.Second, func() bool { return has(i.offered(tagPool("p", "a")), id) }), "ticket activated last is not offered")
}
""", checks=["C03", "C05"])

seed("resume-after-error", "C04",
     "an error reply to a poll of the state storage while another instance is writing updates",
     "the instance goes on reading behind updates it has not seen",
     [(REDIS, """	data, err := rConn.Do(redisCmd, redisArgs...)
	if err != nil {
		logger.Errorf("Redis error: %v", err)
""", """	data, err := rConn.Do(redisCmd, redisArgs...)
	if err != nil {
		logger.Errorf("Redis error: %v", err)
		if rr.replId != "0-0" {
			// Start over behind whatever could not be read.
			rr.replId = strconv.FormatInt(time.Now().UnixMilli(), 10) + "-0"
		}
""")], """
package main

import (
	"time"

	"open-match.dev/core/zzdemo/fakeredis"
)

func demo() {
	a, b := start(nil), (*Inst)(nil)
	_ = b
	id0 := a.create(tagged("a"))
	a.activate(id0)
	check(eventually(3*time.Second, func() bool { return has(a.offered(tagPool("p", "a")), id0) }), "ticket not offered")
	// reads fail for a while, during which a ticket is created and activated
	a.P.SetFault(func(cmd string, args []string, nth int) fakeredis.Outcome {
		if cmd == "XREAD" {
			return fakeredis.ErrReply
		}
		return fakeredis.OK
	})
	time.Sleep(100 * time.Millisecond)
	id := a.create(tagged("a"))
	a.activate(id)
	time.Sleep(100 * time.Millisecond)
	a.P.SetFault(nil)
	check(eventually(5*time.Second, func() bool { return has(a.offered(tagPool("p", "a")), id) }), "ticket written while reading failed is never offered")
}
""", checks=["C04", "C15"])

seed("future-ticket-forgotten-half", "C06",
     "a ticket with a creation time in the future that is still inactive when the configured lifetime has passed",
     "its inactive mark is dropped but the ticket is kept, so a never activated ticket is offered",
     [(CACHE, """					_, existed := tc.Tickets.LoadAndDelete(id)
					if existed {
						numTickets++
						numTicketDeletions++
					}
""", """					// Active or not, tickets are removed below by their expiration time.
					if t, existed := tc.Tickets.Load(id); existed && !time.Now().Before(t.(*pb.Ticket).GetExpirationTime().AsTime()) {
						tc.Tickets.Delete(id)
						numTickets++
						numTicketDeletions++
					}
""")], """
package main

import (
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(map[string]string{"OM_CACHE_TICKET_TTL_SECS": "2"})
	id := i.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"a"}, CreationTime: timestamppb.New(time.Now().Add(60 * time.Second))}})
	for t := time.Now(); time.Since(t) < 4*time.Second; time.Sleep(50 * time.Millisecond) {
		check(!has(i.offered(tagPool("p", "a")), id), "ticket that was never activated is offered")
	}
}
""", checks=["C06", "C03"])

seed("absent-string-is-empty", "C07",
     "a string filter that requires the empty string, and a ticket without that argument",
     "the ticket is put into the pool",
     [(FILTER, """		v, ok := filterableFields.GetStringArgs()[f.GetStringArg()]
		if !ok {
			return false
		}
		if f.GetValue() != v {""", """		if f.GetValue() != filterableFields.GetStringArgs()[f.GetStringArg()] {""")], """
package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(nil)
	id := i.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{StringArgs: map[string]string{"mode": ""}}})
	without := i.create(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{StringArgs: map[string]string{"other": ""}}})
	i.activate(id, without)
	p := &pb.Pool{Name: "p", StringEqualsFilters: []*pb.Pool_StringEqualsFilter{{StringArg: "mode", Value: ""}}}
	check(eventually(3*time.Second, func() bool { return has(i.offered(p), id) }), "ticket not offered")
	check(!has(i.offered(p), without), "ticket without the argument is offered")
}
""")
