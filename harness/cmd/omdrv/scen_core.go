package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
	"vp.local/harness/fakeredis"
)

var allPools = []PoolSpec{{"all", nil}, {"red", []string{"red"}}, {"blue", []string{"blue"}}, {"both", []string{"red", "blue"}}}

func init() {
	families["create"] = func(o *Opts) {
		parallel(o, 4, func(k int, seed int64) { create(o, seed, k) })
	}
	families["outcome"] = func(o *Opts) {
		parallel(o, 4, func(k int, seed int64) { outcome(o, seed, k) })
	}
	families["swap"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { swap(o, seed, k) }) }
	families["slowpoll"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { slowpoll(o, seed, k) }) }
	families["replicas"] = func(o *Opts) {
		parallel(o, 3, func(k int, seed int64) { replicas(o, seed, k) })
	}
	families["memory"] = func(o *Opts) {
		parallel(o, 4, func(k int, seed int64) { memory(o, seed, k) })
	}
}

// Outage makes the storage unreachable while f runs, and then lets the instance get rid of the
// connections that broke.
func (w *World) Outage(c *Core, f func()) {
	w.Fault(c, true)
	c.Redis.SetDown(true)
	c.WRedis.SetDown(true)
	f()
	c.Redis.SetDown(false)
	c.WRedis.SetDown(false)
	for k, ok := 0, 0; k < 60 && ok < 5 && !w.Dead(); k++ {
		if _, err := w.Create(c, w.NewTicket()); err == nil {
			ok++
		} else {
			ok = 0
		}
		time.Sleep(time.Duration(k) * time.Millisecond)
	}
	w.Fault(c, false)
}

// parallel runs o.N scenarios, width at a time.
func parallel(o *Opts, width int, f func(k int, seed int64)) {
	sem := make(chan struct{}, width)
	var wg sync.WaitGroup
	for k := 0; k < o.N; k++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f(k, o.Seed*1000+int64(k))
		}()
	}
	wg.Wait()
}

// each runs f(0..n-1) concurrently.
func each(n int, f func(int)) {
	var wg sync.WaitGroup
	for j := 0; j < n; j++ {
		wg.Add(1)
		go func() { defer wg.Done(); f(j) }()
	}
	wg.Wait()
}

// everywhere makes sure that every instance has applied everything, and looks at all of it there.
func (w *World) everywhere(cores []*Core, asg []string) {
	for _, c := range cores {
		if w.Dead() || !w.Sync(c, cores[0]) {
			return
		}
		w.Look(c, allPools...)
		if len(asg) > 0 {
			x := w.Watch(c, time.Hour, asg...)
			select {
			case <-x.Done:
			case <-time.After(20 * time.Second):
				w.Rec.Add("stuck", Ev{"i": c.Name, "id": fmt.Sprint(asg)})
				w.GiveUp()
				x.Cancel()
				<-x.Done
			}
		}
	}
}

// create: many concurrent creations on several instances, with write failures, cancelled callers and
// crashes; afterwards every acknowledged ticket is activated by its id, and looked for everywhere.
func create(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	w := NewWorld(o.Bin, seed, false, randEnv(r))
	var cores []*Core
	for i := 0; i < 1+k%3; i++ {
		cores = append(cores, w.AddCore(fmt.Sprintf("A%d", i), nil))
	}
	var mu sync.Mutex
	var acked []string
	rounds := 3
	for round := 0; round < rounds && !w.Dead(); round++ {
		fault := round == 1 && k%2 == 0
		if fault {
			for _, c := range cores {
				nth := r.Intn(6)
				kind := pick(r, fakeredis.ErrReply, fakeredis.DropBefore, fakeredis.DropAfter)
				c.Redis.SetFault(func(cmd string, args []string, n int) fakeredis.Outcome {
					if cmd == "XADD" && n%7 == nth {
						return kind
					}
					return fakeredis.OK
				})
			}
		}
		n := 12 + r.Intn(20)
		twin := w.NewTicket("red")
		twin.Attributes.CreationTime = timestamppb.New(time.Now().Add(-time.Second))
		twin.ExpirationTime = timestamppb.New(time.Now().Add(5 * time.Minute))
		each(n, func(j int) {
			c := cores[j%len(cores)]
			t := w.NewTicket([][]string{{}, {"red"}, {"blue"}, {"red", "blue"}}[j%4]...)
			if j%7 > 4 { // alike in everything
				t = proto.Clone(twin).(*pb.Ticket)
			}
			if j%5 == 1 {
				t.Id = pick(rand.New(rand.NewSource(int64(j))), "mine", "1-1", "0-0")
			}
			if j%6 == 5 { // a caller that gives up
				w.CreateAbandoned(c, t, time.Duration(j%4)*2*time.Millisecond)
				return
			}
			if id, err := w.Create(c, t); err == nil {
				mu.Lock()
				acked = append(acked, id)
				mu.Unlock()
			}
		})
		for _, c := range cores {
			c.Redis.SetFault(nil)
		}
		if round == 1 && k%4 == 3 { // outage: nothing can be stored
			c := cores[0]
			w.Outage(c, func() { each(4, func(j int) { w.Create(c, w.NewTicket()) }) })
		}
		if !w.Dead() && round < rounds-1 { // crash of every instance in turn, some with creations in flight
			for _, c := range cores {
				if r.Intn(2) == 0 {
					each(3, func(j int) {
						if j == 0 {
							time.Sleep(time.Duration(r.Intn(15)) * time.Millisecond)
							w.Kill(c)
						} else {
							w.CreateAbandoned(c, w.NewTicket(), 40*time.Millisecond)
						}
					})
				} else {
					w.Kill(c)
				}
			}
			for _, c := range cores {
				w.Restart(c)
			}
		}
	}
	for len(acked) > 0 && !w.Dead() {
		n := min(len(acked), 1+r.Intn(9))
		w.Act(cores[r.Intn(len(cores))], acked[:n]...)
		acked = acked[n:]
	}
	w.everywhere(cores, nil)
	o.Save(w, "create")
}

// CreateAbandoned calls CreateTicket and cancels it after d; what becomes of it is not observed.
func (w *World) CreateAbandoned(c *Core, t *pb.Ticket, d time.Duration) {
	id := fmt.Sprintf("c%d", w.uniq())
	w.Rec.Add("call", Ev{"c": id, "i": c.Name, "kind": "create", "ups": []Ev{up("ticket", "", ticketVal(t), t.GetAttributes().GetTags())}})
	ctx, cancel := context.WithTimeout(context.Background(), d+time.Millisecond)
	defer cancel()
	r, err := c.Cli.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: t})
	if err == nil {
		w.ret(c, id, nil, r.GetTicketId())
	}
}

// outcome: calls of all kinds share batches in which one write (each position in turn) is refused or
// the connection breaks.
func outcome(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	size := []int{6, 4, 9, 1}[k%4]
	w := NewWorld(o.Bin, seed, false, map[string]string{
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": fmt.Sprint(size),
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS":     "25",
	})
	c := w.AddCore("A", nil)
	mk := func(n int) []string {
		var ids []string
		var mu sync.Mutex
		each(n, func(int) {
			if id, err := w.Create(c, w.NewTicket()); err == nil {
				mu.Lock()
				ids = append(ids, id)
				mu.Unlock()
			}
		})
		return ids
	}
	kinds := []fakeredis.Outcome{fakeredis.ErrReply, fakeredis.DropBefore, fakeredis.DropAfter, fakeredis.OK}
	for _, kind := range kinds {
		for pos := 0; pos < 9 && !w.Dead(); pos++ {
			if kind == fakeredis.OK && pos > 1 {
				break
			}
			ids := mk(8)
			if len(ids) < 8 {
				w.GiveUp()
				break
			}
			two := pos%3 == 2
			at := pos
			c.Redis.SetFault(func(cmd string, args []string, n int) fakeredis.Outcome {
				if cmd == "XADD" && (n == at || two && n == at+2) {
					return kind
				}
				return fakeredis.OK
			})
			acts := append([]string{}, ids[0:3]...)
			asg := append([]string{}, ids[5:7]...)
			if r.Intn(2) == 0 {
				acts = append(acts, "bogus")
				r.Shuffle(len(acts), func(a, b int) { acts[a], acts[b] = acts[b], acts[a] })
			}
			if r.Intn(4) == 0 {
				asg = append([]string{"worse"}, asg...)
			}
			fs := []func(){
				func() { w.Act(c, acts...) },
				func() { w.Deact(c, ids[3:5]...) },
				func() { w.Assign(c, w.NewAssignment(), asg...) },
				func() { w.Create(c, w.NewTicket()) },
				func() { w.Act(c, ids[7]) },
			}
			r.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
			each(len(fs), func(j int) { time.Sleep(time.Duration(j) * time.Millisecond); fs[j]() })
			c.Redis.SetFault(nil)
		}
		// one call in which most updates, and one in which all but one fail
		if kind == fakeredis.ErrReply && !w.Dead() {
			ids := mk(36)
			if len(ids) < 36 {
				w.GiveUp()
				break
			}
			nth := 0
			c.Redis.SetFault(func(cmd string, args []string, n int) fakeredis.Outcome {
				if cmd == "XADD" {
					if nth++; nth%7 != 3 {
						return kind
					}
				}
				return fakeredis.OK
			})
			each(3, func(j int) {
				time.Sleep(time.Duration(j) * time.Millisecond)
				switch j {
				case 0:
					w.Act(c, ids[:20]...)
				case 1:
					w.Deact(c, ids[20:34]...)
				case 2:
					w.Assign(c, w.NewAssignment(), ids[18:]...)
				}
			})
			c.Redis.SetFault(nil)
		}
		// nothing can be reached at all
		if !w.Dead() {
			ids := mk(3)
			if len(ids) < 3 {
				w.GiveUp()
				break
			}
			fs := []func(){
				func() { w.Act(c, ids...) },
				func() { w.Create(c, w.NewTicket()) },
				func() { w.Assign(c, w.NewAssignment(), ids[:2]...) },
			}
			w.Outage(c, func() { each(len(fs), func(j int) { fs[j]() }) })
		}
	}
	w.everywhere([]*Core{c}, nil)
	o.Save(w, "outcome")
}

// replicas: instances with different poll sizes and delays, withheld deliveries, failing reads, late
// starters and restarts; they are compared through what they offer and the assignments they report.
func replicas(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	w := NewWorld(o.Bin, seed, false, randEnv(r))
	polls := []string{"1", "2", "3", "7", "10000"}
	r.Shuffle(len(polls), func(a, b int) { polls[a], polls[b] = polls[b], polls[a] })
	var cores []*Core
	add := func() {
		n := len(cores)
		cores = append(cores, w.AddCore(fmt.Sprintf("A%d", n), map[string]string{
			"OM_CACHE_IN_MAX_UPDATES_PER_POLL": polls[n%len(polls)],
			"OM_CACHE_IN_WAIT_TIMEOUT_MS":      pick(r, "1", "4", "25"),
			"OM_REDIS_POOL_MAX_ACTIVE":         "500",
		}))
	}
	add()
	add()
	var ids, asg []string
	isAsg := map[string]bool{}
	for round := 0; round < 4 && !w.Dead(); round++ {
		// one instance falls behind, one has trouble reading
		lag := cores[r.Intn(len(cores))]
		lag.Redis.SetGate(max(0, w.Redis.Total()-r.Intn(3)))
		bad := cores[r.Intn(len(cores))]
		nth := r.Intn(3)
		kind := pick(r, fakeredis.ErrReply, fakeredis.DropBefore)
		bad.Redis.SetFault(func(cmd string, args []string, n int) fakeredis.Outcome {
			if cmd == "XREAD" && n%3 == nth && n < 12 {
				return kind
			}
			return fakeredis.OK
		})
		for op := 0; op < 9 && !w.Dead(); op++ {
			c := cores[r.Intn(len(cores))]
			switch x := r.Intn(8); {
			case x < 3 || len(ids) < 4:
				var mu sync.Mutex
				each(1+r.Intn(5), func(j int) {
					if id, err := w.Create(c, w.NewTicket([][]string{{}, {"red"}, {"blue"}, {"red", "blue"}}[j%4]...)); err == nil {
						mu.Lock()
						ids = append(ids, id)
						mu.Unlock()
					}
				})
			case x < 5:
				sub := append([]string{}, ids...)
				r.Shuffle(len(sub), func(a, b int) { sub[a], sub[b] = sub[b], sub[a] })
				w.Act(c, sub[:1+r.Intn(min(6, len(sub)))]...)
			case x < 6:
				// the same ticket in quick succession: the order decides
				t := ids[r.Intn(len(ids))]
				w.Act(c, t)
				w.Deact(cores[r.Intn(len(cores))], t)
				if r.Intn(2) == 0 {
					w.Act(cores[r.Intn(len(cores))], t)
				}
			case x < 7:
				t := ids[r.Intn(len(ids))]
				if w.Assign(c, w.NewAssignment(), t) == nil && !isAsg[t] {
					isAsg[t] = true
					asg = append(asg, t)
				}
				if r.Intn(2) == 0 {
					w.Assign(cores[r.Intn(len(cores))], w.NewAssignment(), t)
				}
			default:
				w.Look(c, allPools...)
			}
		}
		bad.Redis.SetFault(nil)
		lag.Redis.SetGate(-1)
		if round == 0 {
			add()
		}
		if round == 1 {
			c := cores[r.Intn(len(cores))]
			w.Kill(c)
			w.Restart(c)
		}
		if round == 2 && k%2 == 0 {
			c := cores[r.Intn(len(cores))]
			w.Outage(c, func() {
				w.Look(c, allPools...)
				time.Sleep(30 * time.Millisecond)
			})
		}
		w.everywhere(cores, asg)
	}
	o.Save(w, "replicas")
}

// Applied makes sure that the instance has applied the whole log, without adding or removing anything: the
// assignment of a ticket that has one already is changed.
func (w *World) Applied(c, via *Core, id string) bool {
	a := w.NewAssignment()
	if w.Assign(via, a, id) != nil {
		return false
	}
	for t0 := time.Now(); time.Since(t0) < 30*time.Second; time.Sleep(10 * time.Millisecond) {
		x := w.Watch(c, time.Hour, id)
		select {
		case <-x.Done:
		case <-time.After(20 * time.Second):
			x.Cancel()
			<-x.Done
		}
		if x.Last() == asgVal(a) {
			return true
		}
		if w.Dead() || !w.Check(c) || c.killed {
			return false
		}
	}
	w.Rec.Add("stuck", Ev{"i": c.Name, "id": id})
	w.GiveUp()
	return false
}

// swap: as many tickets become active as become inactive, at once; nothing else changes.
func swap(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	env := randEnv(r)
	env["OM_CACHE_OUT_WAIT_TIMEOUT_MS"] = "60"
	env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = "50"
	env["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = "10000"
	env["OM_REDIS_POOL_MAX_ACTIVE"] = "50"
	w := NewWorld(o.Bin, seed, false, env)
	cores := []*Core{w.AddCore("A0", nil)}
	if k%2 == 1 {
		cores = append(cores, w.AddCore("A1", nil))
	}
	n := 9
	ids := w.Tickets(cores, n, n/2)
	if w.Dead() || w.Assign(cores[0], w.NewAssignment(), ids[0]) != nil {
		o.Save(w, "swap")
		return
	}
	for _, c := range cores {
		if !w.Dead() {
			w.Sync(c, cores[0])
		}
	}
	on, off := append([]string{}, ids[:n/2]...), append([]string{}, ids[n/2:]...)
	for round := 0; round < 7 && !w.Dead(); round++ {
		for _, c := range cores {
			if !w.Dead() && w.Applied(c, cores[0], ids[0]) {
				w.Look(c, allPools...)
			}
		}
		r.Shuffle(len(on), func(a, b int) { on[a], on[b] = on[b], on[a] })
		r.Shuffle(len(off), func(a, b int) { off[a], off[b] = off[b], off[a] })
		m := 1 + r.Intn(n/2)
		x, y := append([]string{}, on[:m]...), append([]string{}, off[:m]...)
		if r.Intn(2) == 0 { // in one batch, if all is well
			each(2, func(j int) {
				if j == 0 {
					w.Deact(cores[len(cores)-1], x...)
				} else {
					w.Act(cores[len(cores)-1], y...)
				}
			})
		} else {
			w.Deact(cores[len(cores)-1], x...)
			w.Act(cores[0], y...)
		}
		on, off = append(on[m:], y...), append(off[m:], x...)
	}
	w.everywhere(cores, ids[:1])
	o.Save(w, "swap")
}

// slowpoll: an instance that reads little at a time, and seldom.
func slowpoll(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	w := NewWorld(o.Bin, seed, false, randEnv(r))
	cores := []*Core{w.AddCore("A0", map[string]string{"OM_CACHE_IN_WAIT_TIMEOUT_MS": "5"}),
		w.AddCore("A1", map[string]string{"OM_CACHE_IN_WAIT_TIMEOUT_MS": pick(r, "1500", "2500"), "OM_CACHE_IN_MAX_UPDATES_PER_POLL": pick(r, "3", "5")})}
	ids := w.Tickets(cores[:1], 10, 6)
	if !w.Dead() {
		w.Deact(cores[0], ids[1], ids[7])
		w.Assign(cores[1], w.NewAssignment(), ids[2:4]...)
	}
	w.everywhere(cores, []string{ids[2], ids[3]})
	o.Save(w, "slowpoll")
}

// memory: the same promises with the in-memory store, whose log cannot be seen: updates are recorded
// when they have been answered, so nothing is looked at while updates are in progress.
func memory(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	env := randEnv(r)
	w := NewWorld(o.Bin, seed, true, env)
	c := w.AddCore("A", nil)
	var ids []string
	var mu sync.Mutex
	for round := 0; round < 4 && !w.Dead(); round++ {
		n := pick(r, 3, 20, 150)
		each(n, func(j int) {
			if id, err := w.Create(c, w.NewTicket([][]string{{}, {"red"}, {"blue"}, {"red", "blue"}}[j%4]...)); err == nil {
				mu.Lock()
				ids = append(ids, id)
				mu.Unlock()
			}
		})
		if len(ids) == 0 {
			break
		}
		r.Shuffle(len(ids), func(a, b int) { ids[a], ids[b] = ids[b], ids[a] })
		act := append([]string{}, ids[:1+r.Intn(len(ids))]...)
		if r.Intn(2) == 0 {
			act = append(act, "bogus", "")
		}
		for len(act) > 0 {
			m := min(len(act), 40)
			w.Act(c, act[:m]...)
			act = act[m:]
		}
		w.Deact(c, ids[0])
		w.everywhere([]*Core{c}, nil)
		if w.Dead() {
			break
		}
		f := &Fn{Kind: pick(r, "ok", "err"), Code: codes.Unavailable}
		f.Make = func(ps map[string][]*pb.Ticket) []Step { return w.makeMatches(r, ps, 2) }
		inv := w.Invoke(c, allPools, 0, f)
		<-inv.Done
		w.everywhere([]*Core{c}, nil)
		a := ids[0]
		w.Assign(c, w.NewAssignment(), a)
		w.everywhere([]*Core{c}, []string{a})
	}
	if !w.Dead() {
		w.Kill(c)
		w.Restart(c)
		each(50, func(j int) { w.Create(c, w.NewTicket()) })
	}
	o.Save(w, "memory")
}

func bigExt(n int) map[string]*anypb.Any {
	a, err := anypb.New(wrapperspb.Bytes(make([]byte, n)))
	must(err)
	return map[string]*anypb.Any{"big": a}
}
