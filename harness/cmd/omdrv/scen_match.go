package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
	"vp.local/harness/fakeredis"
)

func init() {
	families["matches"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { matches(o, seed, k) }) }
	families["deact"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { deact(o, seed, k) }) }
	families["watch"] = func(o *Opts) { parallel(o, 8, func(k int, seed int64) { watch(o, seed, k) }) }
}

// Tickets creates n tickets, spread over the colours, and activates the given share of them.
func (w *World) Tickets(cores []*Core, n, active int) []string {
	ids := make([]string, n)
	each(n, func(j int) {
		t := w.NewTicket([][]string{{}, {"red"}, {"blue"}, {"red", "blue"}}[j%4]...)
		id, err := w.Create(cores[j%len(cores)], t)
		if err == nil {
			ids[j] = id
		}
	})
	for _, id := range ids {
		if id == "" {
			w.GiveUp()
			return nil
		}
	}
	for k := 0; k < active; k += 50 {
		if w.Act(cores[0], ids[k:min(active, k+50)]...) != nil {
			w.GiveUp()
			return nil
		}
	}
	return ids
}

func ext(v string) map[string]*anypb.Any {
	a, err := anypb.New(wrapperspb.String(v))
	must(err)
	return map[string]*anypb.Any{"e": a}
}

// Decorate gives a match further content.
func decorate(r *rand.Rand, m *pb.Match) *pb.Match {
	if r.Intn(2) == 0 {
		m.Extensions = ext("match " + m.Id)
	}
	for _, ro := range m.Rosters {
		if r.Intn(3) == 0 {
			ro.Extensions = ext("roster " + ro.Name)
		}
		if r.Intn(4) == 0 {
			ro.Assignment = &pb.Assignment{Connection: "c-" + m.Id}
		}
	}
	return m
}

// matches: every kind of function, alone and together, with fast and slow callers and functions.
func matches(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	limit := 2
	env := randEnv(r)
	env["OM_MMF_TIMEOUT_SECS"] = fmt.Sprint(limit)
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = []string{"true", "false"}[k%2]
	env["OM_REDIS_POOL_MAX_ACTIVE"] = "50"
	w := NewWorld(o.Bin, seed, false, env)
	cores := []*Core{w.AddCore("A0", nil)}
	if k%3 == 1 {
		cores = append(cores, w.AddCore("A1", nil))
	}
	ids := w.Tickets(cores, 24, 24)
	rounds := 5
	for round := 0; round < rounds && !w.Dead(); round++ {
		for _, c := range cores {
			if !w.Dead() {
				w.Sync(c, cores[0])
			}
		}
		var invs []*Invocation
		hang := (round+k)%4 == 3
		for j := 0; j < 1+r.Intn(3); j++ {
			var fns []*Fn
			for f := 0; f < 1+r.Intn(4); f++ {
				fns = append(fns, w.randFn(r, hang))
			}
			if hang {
				fns = append(fns, &Fn{Kind: "hang", Make: w.maker(r.Int63(), 2)})
			}
			// the same name, or even the same function, several times
			if r.Intn(2) == 0 {
				for _, f := range fns {
					f.Wire = pick(r, ptr("f"), ptr("f"), ptr(""))
				}
			}
			for _, f := range fns {
				if r.Intn(4) == 0 && (f.Kind == "ok" || f.Kind == "err") {
					g := w.randFn(r, false)
					if g.Kind == "ok" || g.Kind == "err" {
						g.Twin = f
						fns = append(fns, g)
					}
				}
			}
			w.Slow = time.Duration(r.Intn(3)/2) * time.Duration(1+r.Intn(8)) * time.Millisecond
			invs = append(invs, w.Invoke(cores[r.Intn(len(cores))], allPools, time.Duration(limit)*time.Second, fns...))
		}
		for _, inv := range invs {
			<-inv.Done
		}
		if !w.Dead() && len(ids) > 0 {
			a := ids[r.Intn(len(ids)):]
			w.Act(cores[r.Intn(len(cores))], a...)
		}
	}
	w.overdue(r, cores[0], time.Duration(limit)*time.Second, ids)
	if k%4 == 2 && !w.Dead() {
		w.flood(cores[0], 12000)
	}
	w.everywhere(cores, nil)
	o.Save(w, "matches")
}

// overdue: matches that still wait for their deactivations, or for a slow caller, when the time is up for
// the function that sent them, or when it ends.
func (w *World) overdue(r *rand.Rand, c *Core, limit time.Duration, ids []string) {
	for _, how := range []string{"gate", "stall"} {
		if w.Dead() || len(ids) == 0 || w.Act(c, ids...) != nil || !w.Sync(c, c) {
			return
		}
		notes := []chan struct{}{}
		fn := func(kind string, n int) *Fn {
			note := make(chan struct{})
			notes = append(notes, note)
			sd := r.Int63()
			return &Fn{Kind: kind, Code: codes.Internal, Make: func(ps map[string][]*pb.Ticket) []Step {
				return append(w.maker(sd, n)(ps), Step{Note: note}, Step{Sleep: time.Duration(sd%2) * 300 * time.Millisecond})
			}}
		}
		fs := []*Fn{fn("hang", 3), fn(pick(r, "ok", "err", "hang"), 2)}
		if how == "gate" {
			c.Redis.SetGate(w.Redis.Total())
		}
		w.Slow = time.Duration(r.Intn(2)) * 700 * time.Millisecond
		inv := w.Invoke(c, allPools, limit, fs...)
		w.Slow = 0
		for j, n := range notes {
			select {
			case <-n:
			case <-inv.Done:
			case <-time.After(limit):
			}
			if how == "stall" && j == 0 {
				c.Redis.SetStall(limit + time.Second)
			}
		}
		time.Sleep(limit + 700*time.Millisecond)
		c.Redis.SetStall(0)
		c.Redis.SetGate(-1)
		<-inv.Done
	}
}

func (w *World) maker(seed int64, n int) func(ps map[string][]*pb.Ticket) []Step {
	return func(ps map[string][]*pb.Ticket) []Step {
		r := rand.New(rand.NewSource(seed))
		st := w.makeMatches(r, ps, n)
		for _, x := range st {
			decorate(r, x.Match)
		}
		return st
	}
}

// randFn is a function of a random kind and pace.
func (w *World) randFn(r *rand.Rand, hang bool) *Fn {
	f := &Fn{Kind: pick(r, "ok", "ok", "ok", "err", "err", "gone"), Code: pick(r, codes.Internal, codes.Unavailable, codes.Canceled, codes.DeadlineExceeded, codes.Unknown)}
	if hang && r.Intn(2) == 0 {
		f.Kind = "dead" // costs the whole time limit, as the connection is tried again
	}
	if r.Intn(12) == 0 {
		f.Kind = "rest"
	}
	sd := r.Int63()
	switch r.Intn(8) {
	case 7: // under ids that others use, too, or the same match again
		f.Make = func(ps map[string][]*pb.Ticket) []Step {
			rr := rand.New(rand.NewSource(sd))
			var out []Step
			for _, x := range w.maker(sd, 5)(ps) {
				x.Match.Id = pick(rr, "", "0", "match-0", "match-0", "match-1")
				out = append(out, x)
				if rr.Intn(3) == 0 {
					out = append(out, x)
				}
			}
			return out
		}
	case 0: // many small matches, quickly
		f.Make = func(ps map[string][]*pb.Ticket) []Step {
			st := w.maker(sd, 3)(ps)
			for j := 0; j < 40; j++ {
				st = append(st, Step{Match: decorate(rand.New(rand.NewSource(sd+int64(j))), w.MatchOf(nil, nil))})
			}
			return st
		}
	case 1: // large ones
		f.Make = func(ps map[string][]*pb.Ticket) []Step {
			st := w.maker(sd, 2)(ps)
			for _, x := range st {
				x.Match.Extensions = bigExt(1500000)
			}
			return st
		}
	case 2: // slowly
		f.Make = func(ps map[string][]*pb.Ticket) []Step {
			st := w.maker(sd, 4)(ps)
			for j := range st {
				st[j].Sleep = time.Duration(20+10*j) * time.Millisecond
			}
			return st
		}
	case 3: // without looking at the request
		f.NoRead = true
		n := r.Intn(3)
		for j := 0; j < n; j++ {
			f.Steps = append(f.Steps, Step{Match: w.MatchOf(nil)})
		}
	case 4: // nothing at all
	default:
		f.Make = w.maker(sd, 4)
	}
	return f
}

// deact: what becomes of the tickets of returned matches, when the log is withheld from the serving
// instance, when writes are refused, and when the caller goes away.
func deact(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	env := randEnv(r)
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = []string{"true", "false"}[k%2]
	env["OM_REDIS_POOL_MAX_ACTIVE"] = "50"
	env["OM_MMF_TIMEOUT_SECS"] = "8"
	n := 30
	if k%4 == 3 {
		n = 160
		env["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = "10000"
		env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = "50"
		env["OM_MAX_STATE_UPDATES_PER_CALL"] = pick(r, "50", "100", "119") // a match may have more tickets
	}
	w := NewWorld(o.Bin, seed, false, env)
	cores := []*Core{w.AddCore("A0", nil), w.AddCore("A1", nil)}
	ids := w.Tickets(cores, n, n)
	kinds := []string{"gate", "refuse", "cancel", "gate", "plain", "cancel-gate", "late"}
	r.Shuffle(len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
	if n > 100 {
		kinds = kinds[:3]
	}
	long := k%6 == 1 && n < 100
	for _, kind := range kinds {
		if w.Dead() {
			break
		}
		c := cores[r.Intn(2)]
		other := cores[r.Intn(2)]
		ok := true
		for j := 0; j < len(ids) && ok; j += 50 {
			ok = w.Act(other, ids[j:min(len(ids), j+50)]...) == nil
		}
		if !ok || !w.Sync(c, other) {
			break
		}
		note := make(chan struct{})
		sd := r.Int63()
		var fresh []string
		f := &Fn{Kind: pick(r, "ok", "ok", "err")}
		f.Make = func(ps map[string][]*pb.Ticket) []Step {
			rr := rand.New(rand.NewSource(sd))
			var all []string
			for _, t := range ps["all"] {
				all = append(all, t.GetId())
			}
			rr.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
			var st []Step
			if len(fresh) > 0 && len(all) > 2 { // among them tickets the instance has not heard of yet
				st = append(st, Step{Match: w.MatchOf(append(fresh[:1:1], all[:1]...), fresh[1:])})
				all = all[1:]
			}
			if n > 100 && len(all) > 120 { // one match that fills more than one batch
				st = append(st, Step{Match: w.MatchOf(all[:40], all[40:80], all[80:120])})
				all = all[120:]
			}
			for j := 0; j < 3 && len(all) > 3; j++ {
				switch rr.Intn(5) {
				case 4: // a roster per ticket
					for len(all) < 5 {
						all = append(all, all[0])
					}
					st = append(st, Step{Match: w.MatchOf(all[:1], all[1:2], nil, all[2:3], nil, all[3:4], all[4:5])})
					all = all[2:]
				case 0:
					st = append(st, Step{Match: w.MatchOf(all[:1], all[1:3])})
				case 1:
					st = append(st, Step{Match: w.MatchOf(nil, all[:3], []string{all[0], "no", ""})})
				case 2:
					st = append(st, Step{Match: w.MatchOf(all[:2], all[2:3], all[1:3])})
				default:
					st = append(st, Step{Match: w.MatchOf(nil, nil, all[:3])})
				}
				if rr.Intn(2) == 0 {
					all = all[2:] // the next match shares a ticket with this one
				} else {
					all = all[3:]
				}
				if kind == "late" {
					st[len(st)-1].Sleep = 120 * time.Millisecond
				}
			}
			st = append(st, Step{Note: note})
			return st
		}
		g := &Fn{Kind: "ok", Make: w.maker(r.Int63(), 2)}
		if kind == "refuse" {
			every := 2 + r.Intn(3)
			c.Redis.SetFault(func(cmd string, args []string, nth int) fakeredis.Outcome {
				if cmd == "XADD" && nth%every == 0 {
					return fakeredis.ErrReply
				}
				return fakeredis.OK
			})
		}
		if kind == "gate" || kind == "cancel-gate" {
			c.Redis.SetGate(w.Redis.Total() + pick(r, 0, 0, 1, 2))
			for j := 0; j < 4; j++ {
				if id, err := w.Create(other, w.NewTicket("red")); err == nil {
					fresh = append(fresh, id)
				}
			}
			if r.Intn(2) == 0 && len(fresh) > 0 {
				w.Act(other, fresh...)
			}
		}
		inv := w.Invoke(c, allPools, 0, f, g)
		cancelled := kind == "cancel" || kind == "cancel-gate" || kind == "late"
		if cancelled {
			if kind == "late" { // before any match
				<-f.ready
			} else {
				select {
				case <-note:
				case <-inv.Done:
				}
			}
			inv.Abort()
		}
		if kind == "gate" || kind == "cancel-gate" {
			hold := time.Duration(130+r.Intn(300)) * time.Millisecond
			if long { // once in a while much longer, though less than the minute it may take
				hold = 9 * time.Second
				if k >= 12 {
					hold = 20 * time.Second
				}
				long = false
			}
			time.Sleep(hold)
			if kind == "gate" && r.Intn(2) == 0 {
				w.Look(c, allPools...)
			}
			c.Redis.SetGate(-1)
		}
		<-inv.Done
		<-f.done
		if cancelled {
			// all that is left to do is writing the deactivations
			for t0 := time.Now(); time.Since(t0) < 5*time.Second && w.Rec.Count("mend") < w.Rec.Count("inv"); {
				time.Sleep(10 * time.Millisecond)
			}
			time.Sleep(1500 * time.Millisecond)
			w.Rec.Add("quiet", Ev{"v": inv.V})
		}
		c.Redis.SetFault(nil)
		if !w.Dead() {
			w.Look(c, allPools...)
		}
	}
	w.everywhere(cores, nil)
	o.Save(w, "deact")
}

// watch: watches that begin before and after the assignments, on the same and on another instance, with
// repeated, unknown and malformed ids, cancelled ones, and ones that end with the ticket lifetime.
func watch(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	ttl := 7
	env := randEnv(r)
	env["OM_CACHE_TICKET_TTL_SECS"] = fmt.Sprint(ttl)
	env["OM_REDIS_POOL_MAX_ACTIVE"] = "50"
	life := time.Duration(ttl) * time.Second
	mem := k%4 == 3
	w := NewWorld(o.Bin, seed, mem, env)
	cores := []*Core{w.AddCore("A0", nil)}
	if !mem {
		cores = append(cores, w.AddCore("A1", nil))
	}
	core := func() *Core { return cores[r.Intn(len(cores))] }
	ids := w.Tickets(cores, 20, 10)
	if w.Dead() {
		o.Save(w, "watch")
		return
	}
	var all []*Watching
	start := func(c *Core, ids ...string) *Watching {
		x := w.Watch(c, life, ids...)
		all = append(all, x)
		return x
	}
	// ids 0-4 are assigned now, 5-9 later, 10-13 again and again, 14-16 only when the watches have ended
	for j := 0; j < 5; j++ {
		w.Assign(core(), w.NewAssignment(), ids[j])
	}
	w.Assign(core(), w.NewAssignment(), ids[0], "bad id", ids[1])
	w.Assign(core(), w.NewAssignment(), ids[10:14]...)
	for _, c := range cores {
		w.Sync(c, cores[0])
		start(c, ids[0:5]...)
		start(c, ids[3:8]...)
		start(c, ids[8], ids[8], ids[0], ids[9])
		start(c, ids[14], ids[2], ids[15])
		start(c, ids[14:17]...)
		start(c, "1-1", ids[1], "nonsense", "", "99-", ids[6])
		start(c, ids[10:14]...)
		start(c)
	}
	cancelled := start(core(), ids[5], ids[17])
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { // reassigned all the time
		defer wg.Done()
		for j := 0; j < 25 && !w.Dead(); j++ {
			w.Assign(cores[j%len(cores)], w.NewAssignment(), ids[10+j%4])
			time.Sleep(60 * time.Millisecond)
			if j%5 == 0 {
				w.Watch(cores[(j+1)%len(cores)], life, ids[10:14]...)
			}
		}
	}()
	for j := 5; j < 10; j++ {
		time.Sleep(time.Duration(r.Intn(400)) * time.Millisecond)
		w.Assign(core(), w.NewAssignment(), ids[j])
	}
	cancelled.Cancel()
	<-cancelled.Done
	wg.Wait()
	w.Assign(core(), w.NewAssignment(), ids[17])
	for _, x := range all {
		<-x.Done
	}
	// watches have ended; what is assigned now is stored, and found by a new watch
	if !w.Dead() {
		for j := 14; j < 17; j++ {
			w.Assign(core(), w.NewAssignment(), ids[j])
		}
		for _, c := range cores {
			x := w.Watch(c, life, ids[14], ids[15], ids[17], ids[16])
			<-x.Done
		}
	}
	o.Save(w, "watch")
}

func ptr[T any](v T) *T { return &v }

// torrent is a function that streams n small matches.
type torrent struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	n int
}

func (t torrent) match(j int) *pb.Match {
	m := &pb.Match{Id: fmt.Sprintf("t%d", j)}
	if j%7 == 0 {
		m.Extensions = ext(m.Id)
	}
	return m
}

func (t torrent) Run(s pb.MatchMakingFunctionService_RunServer) error {
	if _, err := s.Recv(); err != nil {
		return err
	}
	for j := 0; j < t.n; j++ {
		if err := s.Send(&pb.StreamedMmfResponse{Match: t.match(j)}); err != nil {
			return err
		}
	}
	return nil
}

// flood: more matches than any buffer has room for.
func (w *World) flood(c *Core, n int) {
	t := torrent{n: n}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	srv := grpc.NewServer()
	pb.RegisterMatchMakingFunctionServiceServer(srv, t)
	go srv.Serve(ln)
	defer srv.Stop()
	ctx, cancel := ctxT(w.Limit)
	defer cancel()
	seen := make([]bool, n)
	got, twice, other := 0, 0, 0
	s, err := c.Cli.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: "flood"},
		Mmfs: []*pb.MatchmakingFunctionSpec{{Name: "torrent", Host: "127.0.0.1", Port: int32(ln.Addr().(*net.TCPAddr).Port), Type: pb.MatchmakingFunctionSpec_GRPC}}})
	for err == nil {
		var r *pb.StreamedMmfResponse
		r, err = s.Recv()
		if err != nil {
			break
		}
		j, bad := strconv.Atoi(strings.TrimPrefix(r.GetMatch().GetId(), "t"))
		switch {
		case bad != nil || j < 0 || j >= n || !proto.Equal(r.GetMatch(), t.match(j)):
			other++
		case seen[j]:
			twice++
		default:
			seen[j] = true
			got++
		}
	}
	if err != io.EOF && !w.Check(c) {
		return
	}
	w.Rec.Add("flood", Ev{"i": c.Name, "n": n, "got": got, "twice": twice, "other": other, "ok": err == io.EOF})
}
