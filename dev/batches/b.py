import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import seed
CACHE = "core/internal/statestore/cache/replicatedticketcache.go"
REDIS = "core/internal/statestore/redis/redis.go"
MAIN = "core/main.go"
SERVER = "core/server.go"
MMF = "mmf/server/server.go"

seed("only-first-chunk-keeps-room", "C08",
     "tickets for more than one chunk, and a profile that is itself not small",
     "every chunk but the first is filled as if the profile took no room, and is too large to be received",
     [(MAIN, """					curChunkSize = emptyChunkSize
					chunkCount++
""", """					curChunkSize = 0
					chunkCount++
""")], """
package main

import (
	"bytes"
	"fmt"
	"time"

	"google.golang.org/protobuf/types/known/anypb"
)

func demo() {
	i := start(nil)
	blob := func(n int) map[string]*anypb.Any {
		return map[string]*anypb.Any{"x": {TypeUrl: "t", Value: bytes.Repeat([]byte("x"), n)}}
	}
	var ids []string
	for k := 0; k < 24; k++ {
		t := tagged("a")
		t.Extensions = blob(400000)
		ids = append(ids, i.create(t))
	}
	i.activate(ids...)
	check(eventually(20*time.Second, func() bool { return len(i.offered(tagPool("a", "a"))) == 24 }), "tickets are not offered")
	p := profile(tagPool("a", "a"))
	p.Extensions = blob(600000)
	f := function(nil)
	_, err := i.invoke(ctx(60*time.Second), p, f)
	must(err)
	n := map[string]bool{}
	for _, c := range f.got {
		for _, t := range c.GetProfile().GetPools()["a"].GetParticipants().GetTickets() {
			n[t.GetId()] = true
		}
	}
	check(len(n) == 24, "the function received %d tickets in %d chunks", len(n), len(f.got))
	fmt.Println(len(f.got))
}
""")

seed("profile-extensions-sent-once", "C08",
     "tickets for more than one chunk",
     "only the last chunk carries the extensions of the profile",
     [(MAIN, """			Extensions: req.GetProfile().GetExtensions(),
		}
""", """		}
		if chunkIndex == len(chunkedPools)-1 {
			// MMFs take the rest of the profile from the last chunk.
			profile.Extensions = req.GetProfile().GetExtensions()
		}
""")], """
package main

import (
	"bytes"
	"time"

	"google.golang.org/protobuf/types/known/anypb"
)

func demo() {
	i := start(nil)
	var ids []string
	for k := 0; k < 12; k++ {
		t := tagged("a")
		t.Extensions = map[string]*anypb.Any{"x": {TypeUrl: "t", Value: bytes.Repeat([]byte("x"), 400000)}}
		ids = append(ids, i.create(t))
	}
	i.activate(ids...)
	check(eventually(20*time.Second, func() bool { return len(i.offered(tagPool("a", "a"))) == 12 }), "tickets are not offered")
	p := profile(tagPool("a", "a"))
	p.Extensions = map[string]*anypb.Any{"mode": {TypeUrl: "t", Value: []byte("ranked")}}
	f := function(nil)
	_, err := i.invoke(ctx(60*time.Second), p, f)
	must(err)
	if len(f.got) < 2 {
		must(ctx(0).Err())
	}
	for k, c := range f.got {
		check(len(c.GetProfile().GetExtensions()) == 1, "chunk %d has no extensions", k)
	}
}
""")

seed("partial-profile-on-eof", "C09",
     "a stream that ends before all chunks have arrived",
     "the function runs on a part of the profile",
     [(MMF, """			// TODO: Check if we got any portion of a valid profile, if so, attempt a run
			return nil, err
""", """			// We got a portion of a valid profile, so attempt a run
			if err == io.EOF && req != nil {
				return req, nil
			}
			return nil, err
"""), (MMF, """		if in.GetNumChunks() == i {
			// Read the rest of the request profile from the last chunk.
			req = &pb.Profile{
				Name:       in.GetProfile().GetName(),
				Pools:      pools,
				Extensions: in.GetProfile().GetExtensions(),
			}
""", """		// Read the rest of the request profile from the latest chunk.
		req = &pb.Profile{
			Name:       in.GetProfile().GetName(),
			Pools:      pools,
			Extensions: in.GetProfile().GetExtensions(),
		}
		if in.GetNumChunks() == i {
"""), (MMF, """	"fmt"
	"net"
""", """	"fmt"
	"io"
	"net"
""")], """
package main

import "open-match.dev/mmf/server"

func demo() {
	cs := chunks(profile(pool("a", tickets("x", 3))), profile(pool("a", tickets("y", 3))), profile(pool("a", tickets("z", 3))))
	p, err := server.GetChunkedRequest(&stream{in: cs})
	check(err == nil && len(p.GetPools()["a"].GetParticipants().GetTickets()) == 9, "%v %v", p, err)
	cs = chunks(profile(pool("a", tickets("x", 3))), profile(pool("a", tickets("y", 3))), profile(pool("a", tickets("z", 3))))
	p, err = server.GetChunkedRequest(&stream{in: cs[:2]})
	check(err != nil && p == nil, "a profile came of two of three chunks: %v", p)
}
""", ws=True)

seed("matches-dropped-at-time-limit", "C10",
     "a function that streams a match and exceeds the time limit while the match still waits for its deactivations",
     "the match never reaches the caller",
     [(MAIN, """						matchChan <- res

""", """						if ctx.Err() != nil {
							// This MMF took too long, nobody is waiting for its results.
							return
						}
						matchChan <- res

""")], """
package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(map[string]string{"OM_MMF_TIMEOUT_SECS": "3", "OM_MATCH_TICKET_DEACTIVATION_WAIT": "true"})
	id := i.create(tagged("a"))
	i.activate(id)
	check(eventually(20*time.Second, func() bool { return has(i.offered(tagPool("a", "a")), id) }), "the ticket is not offered")
	f := function(func(f *Fn, s pb.MatchMakingFunctionService_RunServer, _ []*pb.ChunkedMmfRunRequest) error {
		i.P.SetStall(5 * time.Second) // the storage is slow
		s.Send(match("m", id))
		<-s.Context().Done()
		return nil
	})
	ms, _ := i.invoke(ctx(60*time.Second), profile(tagPool("a", "a")), f)
	check(len(ms) == 1 && ms[0].GetId() == "m", "the matches delivered are %v", ms)
}
""")

seed("no-need-to-deactivate-inactive", "C11",
     "a match with a ticket whose activation has been stored, but has not yet been applied by the serving instance",
     "the ticket is not deactivated: it is offered although it is in a match",
     [(MAIN, """								ticketIdsToDeactivate = append(ticketIdsToDeactivate, ticket.GetId())
""", """								if _, inactive := tc.InactiveSet.Load(ticket.GetId()); inactive {
									continue // nothing to do, save an update
								}
								ticketIdsToDeactivate = append(ticketIdsToDeactivate, ticket.GetId())
""")], """
package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(map[string]string{"OM_CACHE_IN_WAIT_TIMEOUT_MS": "1500"})
	id := i.create(tagged("a"))
	i.activate(id)
	check(eventually(20*time.Second, func() bool { return has(i.offered(tagPool("a", "a")), id) }), "the ticket is not offered")
	// The matchmaker rejects the match the ticket was in: deactivated, and activated again.
	i.deactivate(id)
	check(eventually(20*time.Second, func() bool { return !has(i.offered(tagPool("a", "a")), id) }), "the ticket is offered")
	i.activate(id)
	f := function(func(f *Fn, s pb.MatchMakingFunctionService_RunServer, _ []*pb.ChunkedMmfRunRequest) error {
		return s.Send(match("m", id))
	})
	ms, err := i.invoke(ctx(60*time.Second), profile(tagPool("a", "a")), f)
	must(err)
	check(len(ms) == 1, "the matches delivered are %v", ms)
	time.Sleep(4 * time.Second)
	check(!has(i.offered(tagPool("a", "a")), id), "the ticket of a match is offered")
	check(len(logged("deactivate")) == 2, "deactivations: %v", logged("deactivate"))
}
""")

seed("limit-counts-valid-ids", "C12",
     "a request with more ids than allowed, some of which are no ids",
     "a request with too many updates is processed instead of being rejected",
     [(MAIN, """	// Validate number of requested updates
	numReqUpdates := len(req.GetTicketIds())
	if numReqUpdates == 0 {
		err := status.Error(codes.InvalidArgument, "No Ticket IDs in update request")
		return nil, err
	}
	if numReqUpdates > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
		errMsg := fmt.Sprintf("Too many ticket deactivations""", """	// Validate number of requested updates
	numReqUpdates := len(req.GetTicketIds())
	if numReqUpdates == 0 {
		err := status.Error(codes.InvalidArgument, "No Ticket IDs in update request")
		return nil, err
	}
	// Only valid ids make updates.
	requestedIds, _ := validateTicketIds(req.GetTicketIds())
	if numReqUpdates = len(requestedIds); numReqUpdates > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
		errMsg := fmt.Sprintf("Too many ticket deactivations""")], """
package main

import (
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(map[string]string{"OM_MAX_STATE_UPDATES_PER_CALL": "5"})
	id := i.create(tagged("a"))
	_, err := i.DeactivateTickets(ctx(20*time.Second), &pb.DeactivateTicketsRequest{TicketIds: []string{id, "x", "y", "z", "", "v"}})
	check(status.Code(err) == codes.InvalidArgument, "six ids: %v", err)
	time.Sleep(time.Second)
	check(len(logged("deactivate")) == 0, "updates: %v", logged("deactivate"))
}
""")

seed("watch-only-cached-tickets", "C13",
     "a watch on a ticket that has expired (by its own expiration time), or is not known to the instance yet, and is assigned",
     "the assignment is never delivered",
     [(MAIN, """		go func(ticketId string) {
			for {
				if value""", """		go func(ticketId string) {
			if _, ok := tc.Tickets.Load(ticketId); !ok {
				// There is no such ticket, so don't wait for it.
				return
			}
			for {
				if value""")], """
package main

import (
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(nil)
	t := tagged("a")
	t.ExpirationTime = timestamppb.New(time.Now().Add(4 * time.Second))
	id := i.create(t)
	i.activate(id)
	check(eventually(3*time.Second, func() bool { return has(i.offered(tagPool("a", "a")), id) }), "the ticket is not offered")
	check(eventually(20*time.Second, func() bool { return !has(i.offered(tagPool("a", "a")), id) }), "the ticket does not expire")
	_, err := i.CreateAssignments(ctx(20*time.Second), roster("1.2.3.4", id))
	must(err)
	w, err := i.WatchAssignments(ctx(20*time.Second), &pb.WatchAssignmentsRequest{TicketIds: []string{id}})
	must(err)
	r, err := w.Recv()
	check(err == nil && r.GetAssignment().GetConnection() == "1.2.3.4", "the watch got %v %v", r, err)
}
""")

seed("match-id-of-nothing", "C14",
     "a function that streams a response without a match",
     "the server dies",
     [(MAIN, """						logger.Debugf("Done deactivating tickets in %v", res.GetId())
""", """						logger.Debugf("Done deactivating tickets in %v", res.Id)
""")], """
package main

import (
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(nil)
	f := function(func(f *Fn, s pb.MatchMakingFunctionService_RunServer, _ []*pb.ChunkedMmfRunRequest) error {
		return s.Send(&pb.StreamedMmfResponse{})
	})
	i.invoke(ctx(20*time.Second), profile(tagPool("a", "a")), f)
	check(i.alive(), "the server is dead")
	_, err := i.CreateTicket(ctx(20*time.Second), &pb.CreateTicketRequest{Ticket: tagged("a")})
	check(err == nil, "no ticket can be created: %v", err)
}
""")

seed("lone-updates-do-not-trim", "C15",
     "batches of a single update",
     "the log is not trimmed",
     [(REDIS, """	err = rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
""", """	if len(updates) == 1 && updates[0].Cmd != store.Ticket {
		// Not worth a trim; keep the pipeline's shape.
		expirationThresh = "0"
	}
	err = rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
""")], """
package main

import (
	"fmt"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(map[string]string{"OM_CACHE_TICKET_TTL_SECS": "3"})
	id := i.create(tagged("a"))
	time.Sleep(5 * time.Second)
	_, err := i.DeactivateTickets(ctx(20*time.Second), &pb.DeactivateTicketsRequest{TicketIds: []string{id}})
	must(err)
	for _, x := range logged("ticket") {
		check(false, "the log still holds %v, older than the lifetime of a ticket", fmt.Sprint(x[0]))
	}
}
""")

seed("last-hundred-left", "C16",
     "a pool with an exact multiple of the number of tickets of a match",
     "one match less than possible is made",
     [("functions/golang/battleroyale/battleroyale.go", "i+playersInMatch <= len(tickets)", "i+playersInMatch < len(tickets)")], """
package main

import "open-match.dev/functions/golang/battleroyale"

func demo() {
	for _, n := range []int{99, 101, 100, 300} {
		s := &stream{in: chunks(profile(pool("competitive", tickets("x", n))))}
		err := (&battleroyale.MmfServer{}).Run(s)
		check(err == nil && len(s.out) == n/100, "%d tickets made %d matches", n, len(s.out))
	}
}
""", ws=True)

seed("queue-slice-reused", "C17",
     "more tickets than fit into one call, so that the next batch is collected while the call of the one before is being made",
     "tickets are activated twice, and others never",
     [("matchmaker-example/main.go", """		ticketsAwaitingActivation = nil
""", """		ticketsAwaitingActivation = ticketsAwaitingActivation[:0]
""")], """
package main

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
	pb "open-match.dev/pkg/pb/v2"
)

type client struct {
	pb.OpenMatchServiceClient
	mu  sync.Mutex
	ids map[string]int
}

func (c *client) ActivateTickets(_ context.Context, in *pb.ActivateTicketsRequest, _ ...grpc.CallOption) (*pb.ActivateTicketsResponse, error) {
	time.Sleep(50 * time.Millisecond)
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, id := range in.GetTicketIds() {
		c.ids[id]++
	}
	return &pb.ActivateTicketsResponse{}, nil
}

func TestDemo(t *testing.T) {
	*connType = "grpc"
	for _, n := range []int{3, 500, 501, 1700} {
		q := make(chan string, n)
		for k := 0; k < n; k++ {
			q <- fmt.Sprint(k)
		}
		c := &client{ids: map[string]int{}}
		activateTickets(context.WithValue(context.Background(), "type", "demo"), c, nil, q)
		for k := 0; k < n; k++ {
			if c.ids[fmt.Sprint(k)] != 1 {
				t.Fatalf("of %d tickets, %d was activated %d times", n, k, c.ids[fmt.Sprint(k)])
			}
		}
	}
}
""", ws=True, files={"demo.sh": r'''#!/bin/bash
# Runs the test beside this file in the package of the example matchmaker.
here=$(cd "$(dirname "$0")" && pwd)
top=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here/demo.go.txt" "$t/zz_demo_test.go"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false
{
  echo "go 1.22"; echo "use ("
  for m in core functions/golang/battleroyale functions/golang/soloduel functions/golang/teamshooter matchmaker-example mmf mmf/server pkg/api/v2 pkg/pb/v2; do echo "	$top/$m"; done
  echo ")"
} > "$t/go.work"
[ -f "$top/go.work.sum" ] && cp "$top/go.work.sum" "$t/go.work.sum"
export GOWORK=$t/go.work
echo "{\"Replace\": {\"$top/matchmaker-example/zz_demo_test.go\": \"$t/zz_demo_test.go\"}}" > "$t/overlay.json"
cd "$top/matchmaker-example" && go test -vet=off -overlay "$t/overlay.json" -run '^TestDemo$' -count=1 .
'''})

seed("watch-gauge-after-send", "C18",
     "a caller that goes away while answers of its watch are being sent",
     "the number of open watches never returns to zero",
     [(MAIN, """			AssignmentWatches.Add(context.Background(), -1)
			stream.Send(thisAssignment)
""", """			if err := stream.Send(thisAssignment); err != nil {
				return err
			}
			AssignmentWatches.Add(context.Background(), -1)
""")], """
package main

import (
	"context"
	"io"
	"net/http"
	"strings"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func open() string {
	r, err := http.Get("http://127.0.0.1:2223/metrics")
	must(err)
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	must(err)
	for _, l := range strings.Split(string(b), "\\n") {
		if !strings.HasPrefix(l, "#") && strings.Contains(l, "watch") {
			return l[strings.LastIndex(l, " ")+1:]
		}
	}
	return "none"
}

func demo() {
	i := start(nil)
	var ids []string
	for k := 0; k < 300; k++ {
		ids = append(ids, "")
	}
	for k := range ids {
		ids[k] = R.Inject(time.Now().UnixMilli(), "deactivate", "1-1").ID()
	}
	_, err := i.CreateAssignments(ctx(20*time.Second), roster(strings.Repeat("x", 60000), ids...))
	must(err)
	w, err := i.WatchAssignments(ctx(20*time.Second), &pb.WatchAssignmentsRequest{TicketIds: ids})
	must(err)
	for n := 0; ; n++ {
		if _, err := w.Recv(); err != nil {
			check(n == 300, "%d answers", n)
			break
		}
	}
	for k := 0; k < 12; k++ {
		c, cancel := context.WithCancel(context.Background())
		w, err := i.WatchAssignments(c, &pb.WatchAssignmentsRequest{TicketIds: ids})
		must(err)
		_, err = w.Recv()
		must(err)
		time.Sleep(50 * time.Millisecond)
		cancel()
	}
	check(eventually(10*time.Second, func() bool { return open() == "0" }), "%s watches are open", open())
}
""")

seed("http-write-timeout", "C19",
     "an invocation or watch by HTTP that takes longer than a quarter of a minute",
     "its connection is cut, and later results are lost",
     [(SERVER, """		if err = http.ListenAndServe(":58081", mux); err != nil {
""", """		// Never run a server on the internet without timeouts.
		httpServer := &http.Server{
			Addr:              ":58081",
			Handler:           mux,
			ReadHeaderTimeout: 5 * time.Second,
			WriteTimeout:      15 * time.Second,
		}
		if err = httpServer.ListenAndServe(); err != nil {
"""), (SERVER, """	"syscall"

""", """	"syscall"
	"time"

""")], """
package main

import (
	"io"
	"net/http"
	"strings"
	"time"

	"google.golang.org/protobuf/encoding/protojson"
	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	start(nil)
	f := function(func(f *Fn, s pb.MatchMakingFunctionService_RunServer, _ []*pb.ChunkedMmfRunRequest) error {
		s.Send(match("m1"))
		time.Sleep(22 * time.Second)
		return s.Send(match("m2"))
	})
	b, err := protojson.Marshal(&pb.MmfRequest{Profile: profile(tagPool("a", "a")), Mmfs: []*pb.MatchmakingFunctionSpec{f.spec()}})
	must(err)
	var r *http.Response
	check(eventually(10*time.Second, func() bool {
		r, err = http.Post("http://127.0.0.1:58081/v2/matches:fetch", "application/json", strings.NewReader(string(b)))
		return err == nil
	}), "no HTTP: %v", err)
	out, err := io.ReadAll(r.Body)
	check(err == nil && strings.Contains(string(out), "m1") && strings.Contains(string(out), "m2"), "the response is %s %v", out, err)
}
""")

seed("wait-for-a-pause", "C20",
     "requests that keep coming at intervals shorter than the configured wait time",
     "a batch is written only when it is full, however long its first request has been waiting",
     [(CACHE, """				pipeline = append(pipeline, &req.Update)

""", """				pipeline = append(pipeline, &req.Update)
				// More may follow: write when there is a pause.
				timeout = time.After(time.Millisecond * time.Duration(tc.Cfg.GetInt("OM_CACHE_OUT_WAIT_TIMEOUT_MS")))

""")], """
package main

import (
	"sync"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "300"})
	var wg sync.WaitGroup
	for k := 0; k < 40; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			t := time.Now()
			_, err := i.CreateTicket(ctx(20*time.Second), &pb.CreateTicketRequest{Ticket: tagged("a")})
			must(err)
			check(time.Since(t) < 2*time.Second, "request %d was written after %v", k, time.Since(t))
		}(k)
		time.Sleep(100 * time.Millisecond)
	}
	wg.Wait()
}
""")

seed("cached-before-inactive", "C03",
     "an invocation that takes its snapshot while a new ticket is being put into the cache",
     "a ticket that has never been activated is offered",
     [(CACHE, """					tc.InactiveSet.Store(curUpdate.Key, true)
					tc.Tickets.Store(curUpdate.Key, ticketPb)
					logger""", """					tc.Tickets.Store(curUpdate.Key, ticketPb)
					tc.InactiveSet.Store(curUpdate.Key, true)
					logger""")], """
package main

import (
	"sync"
	"time"

	pb "open-match.dev/pkg/pb/v2"
)

func demo() {
	i := start(map[string]string{"OM_CACHE_IN_WAIT_TIMEOUT_MS": "1", "OM_CACHE_OUT_WAIT_TIMEOUT_MS": "1"})
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < 40; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					i.CreateTicket(ctx(20*time.Second), &pb.CreateTicketRequest{Ticket: tagged("a")})
				}
			}
		}()
	}
	f := function(nil)
	var bad []string
	for t := time.Now(); time.Since(t) < 60*time.Second && len(bad) == 0; {
		_, err := i.invoke(ctx(20*time.Second), profile(tagPool("a", "a")), f)
		must(err)
		f.mu.Lock()
		for _, c := range f.got {
			for _, t := range c.GetProfile().GetPools()["a"].GetParticipants().GetTickets() {
				bad = append(bad, t.GetId())
			}
		}
		f.mu.Unlock()
	}
	close(stop)
	wg.Wait()
	check(len(bad) == 0, "tickets never activated are offered: %v", bad)
}
""")
