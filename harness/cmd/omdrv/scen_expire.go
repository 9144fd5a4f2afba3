package main

import (
	"context"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func init() {
	families["expire"] = func(o *Opts) { parallel(o, 6, func(k int, seed int64) { expire(o, seed, k) }) }
}

// xticket is a ticket whose life is followed.
type xticket struct {
	k  int
	id string
}

// xscen follows the lives of tickets on one instance against the clock.
type xscen struct {
	w     *World
	c     *Core
	base  time.Time
	ttl   time.Duration
	add   time.Duration
	tix   []*xticket
	by    map[string]int
	extra atomic.Int64 // tickets that are not followed
	obs   []Ev         // what was observed
	wg    sync.WaitGroup
	mu    sync.Mutex
	dead  bool
}

func (x *xscen) ms(t time.Time) int64 { return t.UnixMilli() - x.base.UnixMilli() }

// life records a ticket that has entered the log.
func (x *xscen) life(id string, exp time.Time, a, b time.Time) *xticket {
	t := &xticket{k: len(x.tix) + 1, id: id}
	x.tix = append(x.tix, t)
	x.by[id] = t.k
	n, err := strconv.ParseInt(strings.Split(id, "-")[0], 10, 64)
	must(err)
	x.w.Rec.Add("xt", Ev{"k": t.k, "c": n - x.base.UnixMilli(), "x": x.ms(exp), "a": x.ms(a), "b": x.ms(b) + 1})
	return t
}

// sync waits until the instance has applied everything up to now.
func (x *xscen) sync() bool {
	x.extra.Add(1)
	return x.w.Sync(x.c, x.c)
}

// create makes n tickets at once.  created: their creation time (zero: now); exp: their expiration
// relative to now (0: the default).
func (x *xscen) create(n int, created func(int) time.Duration, exp func(int) time.Duration) []*xticket {
	ids := make([]string, n)
	exps := make([]time.Time, n)
	a := time.Now()
	each(n, func(j int) {
		t := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"x"}}}
		ct := a
		if created != nil {
			ct = a.Add(created(j))
		}
		t.Attributes.CreationTime = timestamppb.New(ct)
		exps[j] = ct.Add(x.ttl)
		if exp != nil && exp(j) > 0 {
			t.ExpirationTime = timestamppb.New(a.Add(exp(j)))
			if a.Add(exp(j)).Before(exps[j]) {
				exps[j] = a.Add(exp(j))
			}
		}
		ctx, cancel := ctxT(30 * time.Second)
		defer cancel()
		r, err := x.c.Cli.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: t})
		if err == nil {
			ids[j] = r.GetTicketId()
		}
	})
	for _, id := range ids {
		if id == "" {
			x.broken("a creation failed")
			return nil
		}
	}
	if !x.sync() {
		x.broken("cannot sync")
		return nil
	}
	b := time.Now()
	var out []*xticket
	for j, id := range ids {
		out = append(out, x.life(id, exps[j], a, b))
	}
	return out
}

func (x *xscen) gone() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.dead
}

func (x *xscen) saw(e string, v Ev) {
	v["e"] = e
	x.mu.Lock()
	defer x.mu.Unlock()
	x.obs = append(x.obs, v)
}

// save puts what was observed behind what was done, of which everything is known by now.
func (x *xscen) save(o *Opts, name string) {
	sort.SliceStable(x.obs, func(i, j int) bool { return x.obs[i]["a"].(int64) < x.obs[j]["a"].(int64) })
	for _, v := range x.obs {
		if ids, ok := v["ids"].([]string); ok {
			got := []int{}
			for _, id := range ids {
				got = append(got, x.by[id]) // 0: not one of the followed tickets
			}
			sort.Ints(got)
			delete(v, "ids")
			v["got"] = got
		}
		e := v["e"].(string)
		delete(v, "e")
		x.w.Rec.Add(e, v)
	}
	o.Save(x.w, name)
}

func (x *xscen) broken(why string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if !x.dead && x.w.Check(x.c) {
		x.w.Rec.Add("unserviceable", Ev{"why": why})
	}
	x.dead = true
}

func idsOf(ts []*xticket) (ids []string, ks []int) {
	for _, t := range ts {
		ids = append(ids, t.id)
		ks = append(ks, t.k)
	}
	return
}

func (x *xscen) state(on bool, ts []*xticket) {
	ids, ks := idsOf(ts)
	if len(ids) == 0 || x.gone() {
		return
	}
	a := time.Now()
	for k := 0; k < len(ids); k += 500 {
		ctx, cancel := ctxT(30 * time.Second)
		var err error
		if on {
			_, err = x.c.Cli.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids[k:min(len(ids), k+500)]})
		} else {
			_, err = x.c.Cli.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids[k:min(len(ids), k+500)]})
		}
		cancel()
		if err != nil {
			x.broken("a change of state failed: " + err.Error())
			return
		}
	}
	if !x.sync() {
		x.broken("cannot sync")
		return
	}
	x.w.Rec.Add("xs", Ev{"ks": ks, "on": on, "a": x.ms(a), "b": x.ms(time.Now()) + 1})
}

func (x *xscen) assign(ts []*xticket) {
	ids, ks := idsOf(ts)
	if len(ids) == 0 || x.gone() {
		return
	}
	a := time.Now()
	ro := &pb.Roster{Assignment: &pb.Assignment{Connection: "c:1"}}
	for _, id := range ids {
		ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
	}
	ctx, cancel := ctxT(30 * time.Second)
	_, err := x.c.Cli.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
	cancel()
	if err != nil || !x.sync() {
		x.broken("an assignment failed")
		return
	}
	x.w.Rec.Add("xa", Ev{"ks": ks, "a": x.ms(a), "b": x.ms(time.Now()) + 1})
}

// look records which of the followed tickets are offered.
func (x *xscen) look() {
	if x.gone() {
		return
	}
	x.swept()
	f := &Fn{Kind: "ok"}
	a := time.Now()
	err := x.w.RunProfile(x.c, &pb.Profile{Name: "x", Pools: map[string]*pb.Pool{"x": {Name: "x", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "x"}}}}}, f)
	if err != nil {
		x.broken("an invocation failed: " + err.Error())
		return
	}
	b := time.Now()
	ids := []string{}
	for _, t := range f.pools["x"] {
		ids = append(ids, t.GetId())
	}
	x.saw("xlook", Ev{"a": x.ms(a), "b": x.ms(b) + 1, "ids": ids})
}

// watch watches each of the tickets for a while.
func (x *xscen) watch(ts []*xticket, d time.Duration) {
	if x.gone() {
		return
	}
	var wg sync.WaitGroup
	type res struct {
		a, b time.Time
		got  bool
	}
	rs := make([]res, len(ts))
	for j, t := range ts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(context.Background(), d)
			defer cancel()
			rs[j].a = time.Now()
			s, err := x.c.Cli.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: []string{t.id}})
			for err == nil {
				_, err = s.Recv()
				if err == nil {
					rs[j].got = true
				}
			}
			rs[j].b = time.Now()
		}()
	}
	wg.Wait()
	for j, t := range ts {
		x.saw("xwatch", Ev{"k": t.k, "a": x.ms(rs[j].a), "b": x.ms(rs[j].b) + 1, "got": rs[j].got})
	}
}

// scrape reads the metrics of an instance: name{labels} -> value.
func (c *Core) scrape() (map[string]float64, error) {
	cl := http.Client{Timeout: 10 * time.Second}
	r, err := cl.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", c.Metrics))
	if err != nil {
		return nil, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, err
	}
	out := map[string]float64{}
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		i := strings.LastIndexByte(l, ' ')
		v, err := strconv.ParseFloat(l[i+1:], 64)
		if err == nil && !math.IsNaN(v) {
			out[l[:i]] = v
		}
	}
	return out, nil
}

// metric sums the values whose name (without labels) is the given one and whose labels contain all of ls.
func metric(m map[string]float64, name string, ls ...string) (float64, bool) {
	sum, found := 0.0, false
next:
	for k, v := range m {
		n, l := k, ""
		if i := strings.IndexByte(k, '{'); i >= 0 {
			n, l = k[:i], k[i:]
		}
		if n != name {
			continue
		}
		for _, x := range ls {
			if !strings.Contains(l, x) {
				continue next
			}
		}
		sum += v
		found = true
	}
	return sum, found
}

// swept records how many maintenance cycles the instance has finished.
func (x *xscen) swept() {
	a := time.Now()
	m, err := x.c.scrape()
	if err != nil {
		return
	}
	for k := range m {
		if strings.HasPrefix(k, "om_core_cache_expiration_duration") && strings.Contains(k, "_count{") {
			x.saw("xsweep", Ev{"a": x.ms(a), "b": x.ms(time.Now()) + 1, "n": int64(m[k])})
			return
		}
	}
}

func (x *xscen) gauge() {
	a := time.Now()
	m, err := x.c.scrape()
	if err != nil {
		return
	}
	act, ok1 := metric(m, "om_core_cache_tickets_active")
	ina, ok2 := metric(m, "om_core_cache_tickets_inactive")
	asg, ok3 := metric(m, "om_core_cache_assignments")
	if ok1 && ok2 && ok3 {
		x.saw("xgauge", Ev{"a": x.ms(a), "b": x.ms(time.Now()) + 1, "tix": int(act + ina), "inact": int(ina), "asg": int(asg), "extra": x.extra.Load()})
	}
}

func newX(o *Opts, seed int64, mem bool, ttl, add int, in int, poll int) *xscen {
	env := map[string]string{
		"OM_CACHE_TICKET_TTL_SECS":                fmt.Sprint(ttl),
		"OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": fmt.Sprint(add),
		"OM_CACHE_IN_WAIT_TIMEOUT_MS":             fmt.Sprint(in),
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS":            "5",
		"OM_REDIS_POOL_MAX_ACTIVE":                "20",
	}
	if poll > 0 {
		env["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = fmt.Sprint(poll)
	}
	w := NewWorld(o.Bin, seed, mem, env)
	w.Rec.Only = map[string]bool{"xcfg": true, "xt": true, "xs": true, "xa": true, "xlook": true, "xwatch": true, "xgauge": true, "xsweep": true, "died": true, "unserviceable": true, "stuck": true}
	x := &xscen{w: w, base: time.Now(), ttl: time.Duration(ttl) * time.Second, add: time.Duration(add) * time.Second, by: map[string]int{}}
	w.Rec.Add("xcfg", Ev{"ttl": ttl * 1000, "add": add * 1000, "cycle": in + 500 + 2000})
	return x
}

func expire(o *Opts, seed int64, k int) {
	switch k % 6 {
	case 0:
		past(o, seed, 600, 600)
	case 1:
		live(o, seed, false, false, 15)
	case 2:
		live(o, seed, false, true, 10)
	case 3:
		live(o, seed, true, false, 40)
	case 4:
		live(o, seed, false, false, 400)
	default:
		r := rand.New(rand.NewSource(seed))
		past(o, seed, pick(r, 30, 90, 5, 3600), pick(r, 0, 10, 3600))
	}
}

// live follows tickets whose times are all short.
func live(o *Opts, seed int64, mem, stream bool, in int) {
	r := rand.New(rand.NewSource(seed))
	const sec = time.Second
	poll := 0
	if stream {
		poll = 50
	}
	x := newX(o, seed, mem, 4, 2, in, poll)
	w := x.w
	x.c = w.AddCore("A0", nil)
	start := time.Now()
	stop := make(chan struct{})
	if stream { // updates keep coming in without a pause, faster than they can be applied
		id, err := w.Create(x.c, w.NewTicket())
		big := &pb.Assignment{Connection: "c:2", Extensions: map[string]*anypb.Any{}}
		for j := 0; j < 4000; j++ {
			big.Extensions[fmt.Sprintf("extension-%06d", j)] = &anypb.Any{TypeUrl: "t", Value: []byte("v")}
		}
		v, err2 := proto.Marshal(big)
		if err == nil && err2 == nil {
			x.extra.Add(1)
			x.wg.Add(1)
			go func() {
				defer x.wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					for w.Redis.Total() < x.c.Redis.DeliveredUpto()+100 {
						w.Redis.Inject(-1, "assign", id, "connection", string(v))
					}
					time.Sleep(time.Millisecond)
				}
			}()
		}
	}
	// look all the time, whatever else is done
	lr := rand.New(rand.NewSource(seed + 1))
	x.wg.Add(1)
	go func() {
		defer x.wg.Done()
		for !x.gone() && !w.Dead() {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(30+lr.Intn(60)) * time.Millisecond):
			}
			x.look()
			if !stream && lr.Intn(4) == 0 {
				x.gauge()
			}
		}
	}()
	later := func(int) time.Duration { return 6 * sec } // a creation time yet to come: expires at 10 s
	ga := x.create(120, nil, func(j int) time.Duration { return time.Duration(300+j*33) * time.Millisecond })
	x.state(true, ga)
	x.assign(ga[:15])
	gb := x.create(20, nil, nil)
	x.state(true, gb)
	gh := x.create(300, nil, func(j int) time.Duration { return 3 * sec }) // all at once
	x.state(true, gh[:200])
	gc := x.create(10, later, nil)
	x.state(true, gc)
	gd := x.create(400, later, nil)
	ge := x.create(10, later, nil)
	x.state(true, ge)
	gf := x.create(10, later, nil)
	x.state(true, gf)
	gg := x.create(10, later, nil)
	// to expire before, at or soon after the creation time that they bear
	gi := x.create(24, func(j int) time.Duration { return time.Duration(j%3+1) * 1500 * time.Millisecond },
		func(j int) time.Duration { return time.Duration(j%8/2+1) * 1500 * time.Millisecond })
	x.state(true, gi)
	x.assign(append(append([]*xticket{}, gd[:4]...), gb[:4]...))
	type op struct {
		at time.Duration
		f  func()
	}
	some := func(ts ...[]*xticket) (out []*xticket) {
		for _, t := range ts {
			out = append(out, t[r.Intn(len(t))])
		}
		return
	}
	ws := func() []*xticket { return append(append(ga[:15:15], gd[:4]...), gb[:4]...) }
	ops := []op{
		{1500 * time.Millisecond, func() { x.state(false, ge) }},
		{1800 * time.Millisecond, func() { x.watch(ws(), 1300*time.Millisecond) }},
		{3200 * time.Millisecond, func() { x.state(true, gg) }},
		{3400 * time.Millisecond, func() { x.watch(some(ga, gb, gc, gd), 1200*time.Millisecond) }},
		{4500 * time.Millisecond, func() { x.watch(ws()[5:], 1100*time.Millisecond) }},
		{5800 * time.Millisecond, func() { x.state(false, gf) }},
		{6000 * time.Millisecond, func() { x.assign(gc[:3]) }},
		{7800 * time.Millisecond, func() { x.state(true, append(gd[:200:200], ge...)) }},
		{9000 * time.Millisecond, func() { x.state(true, gf) }},
		{9200 * time.Millisecond, func() { x.watch(append(ws(), gc[:3]...), 1200*time.Millisecond) }},
	}
	for !x.gone() && !w.Dead() && w.Check(x.c) {
		if time.Since(start) > 13*sec && len(ops) == 0 {
			break
		}
		if len(ops) > 0 && ops[0].at < time.Since(start) {
			ops[0].f()
			ops = ops[1:]
		}
		time.Sleep(10 * time.Millisecond)
	}
	close(stop)
	x.wg.Wait()
	x.save(o, "live")
}

// past starts an instance on a log that was written over a long time, in which everything has the
// configured lifetimes.
func past(o *Opts, seed int64, ttl, add int) {
	r := rand.New(rand.NewSource(seed))
	x := newX(o, seed, false, ttl, add, 20, 0)
	w := x.w
	now := time.Now()
	type op struct {
		at  time.Time
		cmd string
		k   int
	}
	type tk struct {
		id  string
		exp time.Time
		on  []bool
		asg bool
	}
	var ops []op
	var ts []*tk
	sec := time.Second
	for j := 0; j < 260; j++ {
		// ages around each of the limits, and others
		var age time.Duration
		switch j % 5 {
		case 0:
			age = x.ttl - time.Duration(r.Intn(8000)-2000)*time.Millisecond
		case 1:
			age = x.ttl + x.add - time.Duration(r.Intn(8000)-2000)*time.Millisecond
		case 2:
			age = time.Duration(r.Int63n(int64(x.ttl)))
		case 3:
			age = x.ttl + time.Duration(r.Int63n(int64(x.ttl+x.add)))
		default:
			age = time.Duration(r.Intn(5000)) * time.Millisecond
		}
		if age < sec {
			age = sec
		}
		at := now.Add(-age)
		t := &tk{}
		// expirations: the default, around now, or far away (a creation time that lay in the future)
		switch r.Intn(4) {
		case 0:
			t.exp = at.Add(x.ttl)
		case 1:
			t.exp = now.Add(time.Duration(r.Intn(10000)-3000) * time.Millisecond)
		default:
			t.exp = now.Add(x.ttl)
		}
		ts = append(ts, t)
		ops = append(ops, op{at, "ticket", j})
		for n, on := r.Intn(3), true; n > 0; n-- {
			t.on = append(t.on, on)
			cmd := "activate"
			if !on {
				cmd = "deactivate"
			}
			at = at.Add(time.Duration(r.Int63n(int64(now.Sub(at)))))
			ops = append(ops, op{at, cmd, j})
			on = !on
		}
		if r.Intn(2) == 0 {
			t.asg = true
			ops = append(ops, op{at.Add(time.Duration(r.Int63n(int64(now.Sub(at))))), "assign", j})
		}
	}
	sort.SliceStable(ops, func(a, b int) bool { return ops[a].at.Before(ops[b].at) })
	av, err := proto.Marshal(&pb.Assignment{Connection: "c:1"})
	must(err)
	for _, p := range ops {
		t := ts[p.k]
		ms := p.at.UnixMilli()
		switch p.cmd {
		case "ticket":
			b, err := proto.Marshal(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"x"}, CreationTime: timestamppb.New(t.exp.Add(-x.ttl))}, ExpirationTime: timestamppb.New(t.exp)})
			must(err)
			t.id = w.Redis.Inject(ms, "ticket", string(b)).ID()
		case "assign":
			w.Redis.Inject(ms, "assign", t.id, "connection", string(av))
		default:
			w.Redis.Inject(ms, p.cmd, t.id)
		}
	}
	a := time.Now()
	x.c = w.AddCore("A0", nil)
	if !x.sync() {
		x.broken("cannot sync")
	}
	b := time.Now()
	var idle, asgd []*xticket
	for _, t := range ts {
		xt := x.life(t.id, t.exp, a, b)
		for _, on := range t.on {
			w.Rec.Add("xs", Ev{"ks": []int{xt.k}, "on": on, "a": x.ms(a), "b": x.ms(b) + 1})
		}
		if t.asg {
			w.Rec.Add("xa", Ev{"ks": []int{xt.k}, "a": x.ms(a), "b": x.ms(b) + 1})
			asgd = append(asgd, xt)
		}
		if len(t.on)%2 == 0 {
			idle = append(idle, xt)
		}
	}
	some := func(ts []*xticket, n int) []*xticket {
		out := append([]*xticket{}, ts...)
		r.Shuffle(len(out), func(a, b int) { out[a], out[b] = out[b], out[a] })
		return out[:min(n, len(out))]
	}
	for round := 0; round < 4 && !x.gone() && w.Check(x.c); round++ {
		x.watch(asgd, 1200*time.Millisecond)
		for j := 0; j < 8; j++ {
			x.look()
			x.gauge()
			time.Sleep(60 * time.Millisecond)
		}
		if round > 0 {
			// some that are inactive, many of them forgotten by now
			s := some(idle, 25)
			x.state(true, s)
			n := idle[:0]
			for _, t := range idle {
				keep := true
				for _, y := range s {
					keep = keep && y != t
				}
				if keep {
					n = append(n, t)
				}
			}
			idle = n
		}
	}
	x.save(o, "past")
}
