package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"vp.local/harness/fakeredis"
)

func init() {
	families["invalid"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { invalid(o, seed, k) }) }
	families["hostile"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { hostile(o, seed, k) }) }
	families["log"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { logs(o, seed, k) }) }
	families["trim"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { trims(o, seed, k) }) }
}

// InvokeVoid calls InvokeMatchmakingFunctions with a request that must be refused.
func (w *World) InvokeVoid(c *Core, req *pb.MmfRequest) {
	v := fmt.Sprintf("i%d", w.uniq())
	w.Rec.Add("inv", Ev{"v": v, "i": c.Name, "pools": []Ev{}, "fns": []Ev{}, "profile": req.GetProfile() != nil})
	ctx, cancel := ctxT(w.Limit)
	defer cancel()
	s, err := c.Cli.InvokeMatchmakingFunctions(ctx, req)
	if err == nil {
		_, err = s.Recv()
	}
	if err != nil && !w.Check(c) {
		return
	}
	if codeOf(err) == "timeout" {
		w.GiveUp()
	}
	w.Rec.Add("invret", Ev{"v": v, "ok": err == nil, "code": codeOf(err), "early": false, "late": false, "msg": fmt.Sprint(err)})
}

// AssignRaw sends an assignment request that is void.
func (w *World) AssignRaw(c *Core, ro *pb.Roster) {
	call := fmt.Sprintf("c%d", w.uniq())
	w.Rec.Add("call", Ev{"c": call, "i": c.Name, "kind": "assign", "ups": []Ev{}})
	ctx, cancel := ctxT(w.Limit)
	defer cancel()
	_, err := c.Cli.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
	w.ret(c, call, err, "")
}

var badForms = []string{"", "1", "-", "1-", "-1", "a-b", "1-1 ", " 1-1", "1-1\n", "x1-1", "1-1x", "1--1", "1-1-1", "+1-1", "1_1", "1-0x1",
	"٣-١", "1‐1", "1-1\x00", "0", "*", "$", "1-*", "ticket", "1-1;2-2", "1-1,2-2", "\n1-1", "1.0-1", "1-1\n2-2"}

// invalid: requests that must be refused, at, below and above the limits, and ids without the form of an id.
func invalid(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	max := []int{5, 1, 500, 12}[k%4]
	env := randEnv(r)
	if max != 500 {
		env["OM_MAX_STATE_UPDATES_PER_CALL"] = fmt.Sprint(max)
	} else {
		env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = "50"
		env["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = "10000"
	}
	env["OM_REDIS_POOL_MAX_ACTIVE"] = "50"
	w := NewWorld(o.Bin, seed, false, env)
	c := w.AddCore("A0", nil)
	cores := []*Core{c}
	ids := make([]string, max)
	each(max, func(j int) {
		ids[j], _ = w.Create(c, w.NewTicket([][]string{{}, {"red"}, {"blue"}, {"red", "blue"}}[j%4]...))
	})
	for _, id := range ids {
		if id == "" {
			w.GiveUp()
		}
	}
	over := append(append([]string{}, ids...), ids[0])
	overBad := append(append([]string{}, ids...), "bogus")
	steps := []func(){
		func() { w.Create(c, nil) },
		func() { w.Act(c) },
		func() { w.Deact(c) },
		func() { w.AssignRaw(c, nil) },
		func() { w.AssignRaw(c, &pb.Roster{Tickets: []*pb.Ticket{{Id: ids[0]}}}) },
		func() { w.InvokeVoid(c, &pb.MmfRequest{}) },
		func() { w.InvokeVoid(c, &pb.MmfRequest{Profile: &pb.Profile{Name: "p"}}) },
		func() {
			w.InvokeVoid(c, &pb.MmfRequest{Mmfs: []*pb.MatchmakingFunctionSpec{{Host: "127.0.0.1", Port: 9}}})
		},
		func() { w.Act(c, over...) },
		func() { w.Act(c, overBad...) },
		func() { w.Deact(c, over...) },
		func() { w.Deact(c, overBad...) },
		func() { w.Assign(c, w.NewAssignment(), overBad...) },
		func() { w.Assign(c, w.NewAssignment(), over...) },
		func() { w.Act(c, ids...) },
		func() { w.Deact(c, ids...) },
		func() { w.Assign(c, w.NewAssignment(), ids...) },
	}
	for j := 0; j < 9; j++ { // too many ids, but few of them valid
		x := append([]string{}, ids[:r.Intn(max+1)]...)
		for len(x) < max+1+r.Intn(3) {
			x = append(x, badForms[r.Intn(len(badForms))])
		}
		r.Shuffle(len(x), func(a, b int) { x[a], x[b] = x[b], x[a] })
		steps = append(steps, []func(){func() { w.Act(c, x...) }, func() { w.Deact(c, x...) }, func() { w.Assign(c, w.NewAssignment(), x...) }}[j%3])
	}
	mixed := func() []string {
		n := min(max, 1+r.Intn(12))
		var x []string
		for j := 0; j < n; j++ {
			id := ids[r.Intn(len(ids))]
			switch r.Intn(4) {
			case 0, 1:
				x = append(x, id)
			case 2: // nearly the id of a ticket, perhaps of one in the same request
				x = append(x, pick(r, id+"x", id+" ", id+"\n", " "+id, "-"+id, id+"-0", id[:strings.Index(id, "-")+1], id[:strings.Index(id, "-")], id+".0", strings.Replace(id, "-", "--", 1)))
			default:
				x = append(x, badForms[r.Intn(len(badForms))])
			}
		}
		return x
	}
	for j := 0; j < 40 && max != 500; j++ {
		x := mixed()
		switch r.Intn(3) {
		case 0:
			steps = append(steps, func() { w.Act(c, x...) })
		case 1:
			steps = append(steps, func() { w.Deact(c, x...) })
		case 2:
			steps = append(steps, func() { w.Assign(c, w.NewAssignment(), x...) })
		}
	}
	// every bad form on its own and next to a good id
	for _, b := range badForms {
		if max == 500 {
			break
		}
		steps = append(steps, func() { w.Act(c, b) }, func() { w.Deact(c, b) }, func() { w.Assign(c, w.NewAssignment(), b) })
		if max > 1 {
			steps = append(steps, func() { w.Act(c, b, ids[1]) }, func() { w.Assign(c, w.NewAssignment(), ids[1], b) })
		}
	}
	r.Shuffle(len(steps), func(a, b int) { steps[a], steps[b] = steps[b], steps[a] })
	// one after the other, so that each update in the log can be told which call it belongs to; creations
	// go on at the same time, and share the batches
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(5 * time.Millisecond):
			}
			each(2, func(int) { w.Create(c, w.NewTicket()) })
		}
	}()
	for _, f := range steps {
		if w.Dead() {
			break
		}
		f()
	}
	close(stop)
	wg.Wait()
	w.everywhere(cores, []string{})
	o.Save(w, "invalid")
}

// Serviceable finds out whether tickets can be created, activated, offered and matched.
func (w *World) Serviceable(c *Core, what string) bool {
	deadline := time.Now().Add(40 * time.Second)
	last := ""
	for time.Now().Before(deadline) {
		if !w.Check(c) {
			return false
		}
		last = w.serve1(c)
		if last == "" {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	w.Rec.Add("unserviceable", Ev{"i": c.Name, "after": what, "why": last})
	w.GiveUp()
	return false
}

func (w *World) serve1(c *Core) string {
	ctx, cancel := ctxT(8 * time.Second)
	defer cancel()
	tag := fmt.Sprintf("serve%d", w.uniq())
	r, err := c.Cli.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{tag}}}})
	if err != nil {
		return "create: " + err.Error()
	}
	id := r.GetTicketId()
	if _, err = c.Cli.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{id}}); err != nil {
		return "activate: " + err.Error()
	}
	for {
		v := fmt.Sprintf("s%d", w.uniq())
		f := &Fn{Kind: "ok", Make: func(ps map[string][]*pb.Ticket) []Step {
			if len(ps["p"]) == 0 {
				return nil
			}
			return []Step{{Match: w.MatchOf([]string{ps["p"][0].GetId()})}}
		}}
		spec := w.MMF.Register(v, f)
		s, err := c.Cli.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Mmfs: []*pb.MatchmakingFunctionSpec{spec},
			Profile: &pb.Profile{Name: v, Pools: map[string]*pb.Pool{"p": {Name: "p", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: tag}}}}}})
		if err != nil {
			return "invoke: " + err.Error()
		}
		got := ""
		for {
			m, err := s.Recv()
			if err != nil {
				if err.Error() != "EOF" {
					return "invoke: " + err.Error()
				}
				break
			}
			got = m.GetMatch().GetRosters()["team0"].GetTickets()[0].GetId()
		}
		if got == id {
			return ""
		}
		if ctx.Err() != nil {
			return "not offered: " + tag
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// hostile: odd requests, odd functions, odd rosters, vanishing callers and outages, all at once; after
// each round the server must still serve.
func hostile(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	env := randEnv(r)
	env["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = "1"
	env["OM_MMF_TIMEOUT_SECS"] = "1"
	lim := fmt.Sprint(1 + k%4)
	env["OM_REDIS_POOL_MAX_ACTIVE"] = lim
	env["OM_REDIS_POOL_MAX_IDLE"] = pick(r, "1", lim, "500")
	w := NewWorld(o.Bin, seed, k%5 == 4, env)
	w.Rec.Only = map[string]bool{"start": true, "died": true, "unserviceable": true, "round": true}
	c := w.AddCore("A0", nil)
	w.Serviceable(c, "start")
	for round := 0; round < 5 && !w.Dead(); round++ {
		what := []string{}
		ctx, cancel := context.WithTimeout(context.Background(), 4*time.Second)
		var acts []func(*rand.Rand)
		add := func(n string, f func(*rand.Rand)) { what = append(what, n); acts = append(acts, f) }
		for j := 0; j < 6; j++ {
			switch r.Intn(9) {
			case 0:
				add("create", func(r *rand.Rand) {
					for j := 0; j < 20; j++ {
						c.Cli.CreateTicket(ctx, oddTicket(r))
					}
				})
			case 1:
				add("update", func(r *rand.Rand) {
					for j := 0; j < 20; j++ {
						ids := oddIds(r)
						switch r.Intn(3) {
						case 0:
							c.Cli.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
						case 1:
							c.Cli.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
						default:
							ro := &pb.Roster{Assignment: pick(r, nil, &pb.Assignment{}, &pb.Assignment{Connection: "x"})}
							for _, i := range ids {
								ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: i})
							}
							c.Cli.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: pick(r, ro, ro, ro, nil)})
						}
					}
				})
			case 2:
				add("watch", func(r *rand.Rand) {
					for j := 0; j < 5; j++ {
						cx, cc := context.WithTimeout(ctx, time.Duration(r.Intn(400))*time.Millisecond)
						s, err := c.Cli.WatchAssignments(cx, &pb.WatchAssignmentsRequest{TicketIds: oddIds(r)})
						for err == nil {
							_, err = s.Recv()
						}
						cc()
					}
				})
			case 3, 4, 5:
				add("invoke", func(r *rand.Rand) {
					for j := 0; j < 4; j++ {
						w.oddInvoke(ctx, c, r)
					}
				})
			case 6:
				add("outage", func(r *rand.Rand) {
					if c.Redis == nil {
						return
					}
					time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
					if r.Intn(2) == 0 {
						c.Redis.SetDown(true)
						time.Sleep(time.Duration(50+r.Intn(400)) * time.Millisecond)
						c.Redis.SetDown(false)
						return
					}
					kind := pick(r, fakeredis.ErrReply, fakeredis.DropBefore, fakeredis.DropAfter)
					cmd := pick(r, "XADD", "XREAD", "XTRIM")
					c.Redis.SetFault(func(x string, args []string, n int) fakeredis.Outcome {
						if x == cmd || x == "PING" {
							return kind
						}
						return fakeredis.OK
					})
					time.Sleep(time.Duration(50+r.Intn(400)) * time.Millisecond)
					c.Redis.SetFault(nil)
				})
			case 7:
				add("impatient", func(r *rand.Rand) {
					for j := 0; j < 15; j++ {
						cx, cc := context.WithTimeout(ctx, time.Duration(r.Intn(20))*time.Millisecond)
						switch r.Intn(3) {
						case 0:
							c.Cli.CreateTicket(cx, oddTicket(r))
						case 1:
							c.Cli.ActivateTickets(cx, &pb.ActivateTicketsRequest{TicketIds: oddIds(r)})
						default:
							w.oddInvoke(cx, c, r)
						}
						cc()
					}
				})
			case 8:
				add("garbage", func(r *rand.Rand) {
					for _, p := range []int{c.Port, c.HTTP} {
						nc, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", p), time.Second)
						if err != nil {
							continue
						}
						b := make([]byte, 400)
						r.Read(b)
						if r.Intn(2) == 0 {
							copy(b, []byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"))
						} else {
							copy(b, []byte("POST /v2/tickets HTTP/1.1\r\nHost: x\r\nContent-Length: 300\r\n\r\n{\"ticket\":["))
						}
						nc.Write(b)
						time.Sleep(20 * time.Millisecond)
						nc.Close()
					}
				})
			}
		}
		seeds := make([]int64, len(acts))
		for j := range seeds {
			seeds[j] = r.Int63()
		}
		each(len(acts), func(j int) { acts[j](rand.New(rand.NewSource(seeds[j]))) })
		cancel()
		if c.Redis != nil {
			c.Redis.SetDown(false)
			c.Redis.SetFault(nil)
		}
		w.Rec.Add("round", Ev{"i": c.Name, "what": what})
		w.Serviceable(c, strings.Join(what, ","))
	}
	// over many polls
	if !w.Dead() && k%2 == 0 {
		time.Sleep(time.Second)
		w.Serviceable(c, "many polls")
	}
	o.Save(w, "hostile")
}

func oddTicket(r *rand.Rand) *pb.CreateTicketRequest {
	switch r.Intn(8) {
	case 0:
		return &pb.CreateTicketRequest{}
	case 1:
		return &pb.CreateTicketRequest{Ticket: &pb.Ticket{}}
	case 2:
		return &pb.CreateTicketRequest{Ticket: &pb.Ticket{Id: "x", Attributes: &pb.Ticket_FilterableData{CreationTime: &timestamppb.Timestamp{Seconds: math.MaxInt64, Nanos: -5}}}}
	case 3:
		return &pb.CreateTicketRequest{Ticket: &pb.Ticket{ExpirationTime: &timestamppb.Timestamp{Seconds: math.MinInt64}, Attributes: &pb.Ticket_FilterableData{CreationTime: &timestamppb.Timestamp{Seconds: 253402300799, Nanos: 999999999}}}}
	case 4:
		return &pb.CreateTicketRequest{Ticket: &pb.Ticket{ExpirationTime: &timestamppb.Timestamp{Seconds: 1}}}
	case 5:
		return &pb.CreateTicketRequest{Ticket: &pb.Ticket{Extensions: map[string]*anypb.Any{"": nil, "x": {TypeUrl: "no/such.Type", Value: []byte{255}}}}}
	case 6:
		return &pb.CreateTicketRequest{Ticket: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{DoubleArgs: map[string]float64{"a": math.NaN(), "": math.Inf(-1)}, Tags: []string{"", "", "x"}}}}
	}
	return &pb.CreateTicketRequest{Ticket: &pb.Ticket{Extensions: bigExt(3500000)}}
}

func oddIds(r *rand.Rand) []string {
	var out []string
	n := pick(r, 0, 1, 3, 30, 700)
	for j := 0; j < n; j++ {
		switch r.Intn(5) {
		case 0:
			out = append(out, badForms[r.Intn(len(badForms))])
		case 1:
			out = append(out, fmt.Sprintf("%d-%d", r.Int63(), r.Intn(3)))
		case 2:
			out = append(out, "99999999999999999999999999-0")
		case 3:
			out = append(out, strings.Repeat("9", r.Intn(2000))+"-1")
		default:
			out = append(out, fmt.Sprintf("%d-0", time.Now().UnixMilli()))
		}
	}
	for i := range out { // must be sendable
		out[i] = strings.ToValidUTF8(out[i], "?")
	}
	return out
}

// oddInvoke invokes functions that behave oddly, or cannot be reached, with odd pools.
func (w *World) oddInvoke(ctx context.Context, c *Core, r *rand.Rand) {
	v := fmt.Sprintf("o%d", w.uniq())
	req := &pb.MmfRequest{Profile: &pb.Profile{Name: v, Pools: map[string]*pb.Pool{"p": {Name: "p"}}}}
	switch r.Intn(8) {
	case 0:
		req.Profile.Pools = map[string]*pb.Pool{"": nil, "x": {}}
	case 1:
		req.Profile.Pools["q"] = &pb.Pool{TagPresentFilters: []*pb.Pool_TagPresentFilter{nil, {}}, StringEqualsFilters: []*pb.Pool_StringEqualsFilter{nil, {}},
			DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{nil, {Bounds: 77, Minimum: math.NaN()}}, CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{}}
	case 2:
		req.Profile.Pools["q"] = &pb.Pool{CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: &timestamppb.Timestamp{Seconds: math.MaxInt64}}}
	case 3:
		req.Profile.Pools["q"] = &pb.Pool{Participants: &pb.Roster{Tickets: []*pb.Ticket{nil, {Id: "x"}}}}
	case 4:
		req.Profile.Extensions = map[string]*anypb.Any{"x": nil}
	case 5:
		req.Profile.Pools["p"].Extensions = bigExt(4100000)
	}
	for j := 0; j < 1+r.Intn(3); j++ {
		switch r.Intn(8) {
		case 0:
			req.Mmfs = append(req.Mmfs, nil)
		case 1:
			req.Mmfs = append(req.Mmfs, &pb.MatchmakingFunctionSpec{})
		case 2:
			req.Mmfs = append(req.Mmfs, &pb.MatchmakingFunctionSpec{Host: pick(r, "", ":::", "256.256.256.256", "http://x", "127.0.0.1", "%zz", "unix:///nonexistent"), Port: pick(r, int32(0), -1, 70000, 9)})
		default:
			f := &Fn{Kind: pick(r, "ok", "err", "hang", "gone", "dead", "rest"), Code: codes.Code(1 + r.Intn(16)), NoRead: r.Intn(4) == 0}
			for n := r.Intn(6); n > 0; n-- {
				f.Steps = append(f.Steps, Step{Match: oddMatch(r), Empty: true, Sleep: time.Duration(r.Intn(3)) * time.Millisecond})
			}
			req.Mmfs = append(req.Mmfs, w.MMF.Register(v, f))
		}
	}
	if r.Intn(12) == 0 {
		req.Profile = nil
	}
	cx, cc := context.WithCancel(ctx)
	defer cc()
	s, err := c.Cli.InvokeMatchmakingFunctions(cx, req)
	stop := r.Intn(6)
	for n := 0; err == nil; n++ {
		_, err = s.Recv()
		if n == stop {
			cc()
		}
	}
}

func oddMatch(r *rand.Rand) *pb.Match {
	switch r.Intn(9) {
	case 0:
		return nil
	case 1:
		return &pb.Match{}
	case 2:
		return &pb.Match{Id: "x", Rosters: map[string]*pb.Roster{}}
	case 3:
		return &pb.Match{Id: "x", Rosters: map[string]*pb.Roster{"": nil, "b": {}}}
	case 4:
		return &pb.Match{Rosters: map[string]*pb.Roster{"a": {Tickets: []*pb.Ticket{nil, {}, {Id: "1-1"}, {Id: "1-1"}}}}}
	case 5:
		m := &pb.Match{Id: "x", Rosters: map[string]*pb.Roster{}}
		for j := 0; j < 3; j++ {
			ro := &pb.Roster{}
			for _, id := range oddIds(r) {
				ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
			}
			m.Rosters[fmt.Sprint(j)] = ro
		}
		return m
	case 6:
		return &pb.Match{Id: "big", Extensions: bigExt(4000000)}
	case 7:
		return &pb.Match{Id: "too big", Extensions: bigExt(5000000)}
	}
	return &pb.Match{Id: "y", Rosters: map[string]*pb.Roster{"a": {Tickets: []*pb.Ticket{{Id: "no-such"}, {Id: ""}}}}}
}

// logs: how the shared log is read and trimmed, and over how many connections.
func logs(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	env := randEnv(r)
	ttl := pick(r, 20, 60, 600)
	limit := 1 + k%3
	env["OM_CACHE_TICKET_TTL_SECS"] = fmt.Sprint(ttl)
	env["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = pick(r, "1", "2", "20")
	env["OM_REDIS_POOL_MAX_ACTIVE"] = fmt.Sprint(limit)
	env["OM_REDIS_POOL_MAX_IDLE"] = pick(r, "1", "500")
	w := NewWorld(o.Bin, seed, false, env)
	w.Two = true
	w.TTL = time.Duration(ttl) * time.Second
	now := time.Now().UnixMilli()
	// what other instances have written before this one came; most is too old by now
	var ages []int
	for j := 0; j < 12+r.Intn(30); j++ {
		ages = append(ages, pick(r, 3*ttl, 2*ttl, ttl+8, ttl+6, ttl+5, ttl-5, ttl-4, ttl-9, ttl/2, 2, 1)*1000+r.Intn(900))
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ages)))
	for _, a := range ages {
		t := w.NewTicket("old")
		b := w.Marshal(t, time.UnixMilli(now-int64(a)), w.TTL)
		e := w.Redis.Inject(now-int64(a), "ticket", b)
		if r.Intn(3) == 0 {
			w.Redis.Inject(now-int64(a), pick(r, "activate", "deactivate"), e.ID())
		}
	}
	c := w.AddCore("A0", nil)
	var mu sync.Mutex
	rr := rand.New(rand.NewSource(seed + 1))
	ids := []string{}
	for round := 0; round < 6 && !w.Dead(); round++ {
		bad := round%2 == 1
		if bad {
			for _, p := range []*fakeredis.Port{c.Redis, c.WRedis} {
				p.SetFault(func(cmd string, args []string, n int) fakeredis.Outcome {
					mu.Lock()
					defer mu.Unlock()
					if (cmd == "XREAD" || cmd == "XADD" || cmd == "XTRIM") && rr.Intn(5) == 0 {
						return pick(rr, fakeredis.ErrReply, fakeredis.DropBefore, fakeredis.DropAfter)
					}
					return fakeredis.OK
				})
			}
		}
		n := 1 + r.Intn(12)
		each(n, func(j int) {
			id, err := w.Create(c, w.NewTicket([][]string{{}, {"red"}, {"blue"}, {"red", "blue"}}[j%4]...))
			if err == nil {
				mu.Lock()
				ids = append(ids, id)
				mu.Unlock()
			}
		})
		if len(ids) > 0 {
			w.Act(c, ids[r.Intn(len(ids)):]...)
			w.Assign(c, w.NewAssignment(), ids[r.Intn(len(ids))])
		}
		if r.Intn(3) == 0 {
			c.Redis.SetGate(w.Redis.Total())
			w.Create(c, w.NewTicket())
			time.Sleep(20 * time.Millisecond)
			c.Redis.SetGate(-1)
		}
		if bad {
			c.Redis.SetFault(nil)
			c.WRedis.SetFault(nil)
			// two writes get rid of what a failed trim left
			w.Create(c, w.NewTicket())
		}
		w.Create(c, w.NewTicket())
		time.Sleep(30 * time.Millisecond) // the trim follows the additions
		w.Rec.Add("logage", Ev{"oldest": w.Redis.OldestAge(), "ttl": ttl * 1000, "slack": 3000})
		if round == 3 {
			w.Outage(c, func() { time.Sleep(40 * time.Millisecond) })
		}
		if round == 4 {
			w.Kill(c)
			w.Restart(c)
		}
	}
	// the tickets of others may have expired by now; those of this run have not
	if !w.Dead() && w.Sync(c, c) {
		w.Look(c, PoolSpec{"r", []string{"red"}}, PoolSpec{"b", []string{"blue"}}, PoolSpec{"rb", []string{"red", "blue"}})
	}
	for _, p := range []*fakeredis.Port{c.Redis, c.WRedis} {
		_, most := p.Open()
		w.Rec.Add("conns", Ev{"most": most, "limit": limit})
	}
	o.Save(w, "log")
}

// trims: whatever is written, it is followed by the removal of what is too old by then.
func trims(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	env := randEnv(r)
	env["OM_CACHE_TICKET_TTL_SECS"] = "1"
	env["OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS"] = fmt.Sprint(r.Intn(30))
	env["OM_CACHE_OUT_WAIT_TIMEOUT_MS"] = pick(r, "1", "20", "100")
	w := NewWorld(o.Bin, seed, false, env)
	w.Two = r.Intn(2) == 0
	w.Rec.Only = map[string]bool{"start": true, "died": true, "unserviceable": true, "logage": true}
	c := w.AddCore("A0", nil)
	kinds := []string{"create", "activate", "deactivate", "assign", "activate+", "assign+"}
	r.Shuffle(len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
	for _, kind := range kinds {
		if w.Dead() {
			break
		}
		var ids []string
		for j := 0; j < 1+r.Intn(3); j++ {
			if id, err := w.Create(c, w.NewTicket()); err == nil {
				ids = append(ids, id)
			}
		}
		if len(ids) == 0 {
			w.Rec.Add("unserviceable", Ev{"i": c.Name, "what": "create"})
			break
		}
		time.Sleep(3600 * time.Millisecond)
		var err error
		switch kind {
		case "create":
			_, err = w.Create(c, w.NewTicket())
		case "activate":
			err = w.Act(c, ids[0])
		case "deactivate":
			err = w.Deact(c, ids[0])
		case "assign":
			err = w.Assign(c, w.NewAssignment(), ids[0])
		case "activate+":
			err = w.Act(c, ids...)
		case "assign+":
			err = w.Assign(c, w.NewAssignment(), ids...)
		}
		if err != nil {
			continue
		}
		time.Sleep(30 * time.Millisecond)
		w.Rec.Add("logage", Ev{"after": kind, "oldest": w.Redis.OldestAge(), "ttl": 1000, "slack": 1900})
	}
	w.Close()
	o.Save(w, "trim")
}
