package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
	"vp.local/harness/fakeredis"
)

var formRe = regexp.MustCompile(`^[0-9]+-[0-9]+$`)

// World is one scenario: instances, their shared storage, functions, and the trace.
type World struct {
	Bin   string
	Rec   *Rec
	Redis *fakeredis.Server // nil: memory store (one instance)
	Cores map[string]*Core
	Env   map[string]string
	Rng   *rand.Rand
	seq   int64
	MMF   *MMFHost
	mu    sync.Mutex
	memN  int
	dead  bool
	Limit time.Duration         // client deadline: longer means the server never answered
	TTL   time.Duration         // configured ticket lifetime, if removals from the log are to be judged
	Two   bool                  // instances read and write at different addresses
	Spy   func(fakeredis.Event) // called with whatever happens at the storage
	Dial  []grpc.DialOption     // how to connect to instances
	Slow  time.Duration         // how long the callers of invocations started from now on wait before each message
}

func NewWorld(bin string, seed int64, memory bool, env map[string]string) *World {
	w := &World{Bin: bin, Rec: NewRec(), Cores: map[string]*Core{}, Env: env, Rng: rand.New(rand.NewSource(seed)), Limit: 30 * time.Second}
	if !memory {
		w.Redis = fakeredis.New()
		w.Redis.Observe = w.observe
	}
	w.MMF = NewMMFHost(w)
	return w
}

// observe translates what happens at the storage into trace events (under the storage's lock).
func (w *World) observe(e fakeredis.Event) {
	if w.Spy != nil {
		w.Spy(e)
	}
	if w.Rec.Only != nil && !w.Rec.Only["add"] {
		return
	}
	switch e.Kind {
	case "add":
		ev := w.decode(e.Entry.Fields)
		ev["i"], ev["idx"], ev["id"] = e.Port, e.Entry.N, e.Entry.ID()
		if e.Port == "direct" {
			w.Rec.Add("inject", ev)
		} else {
			w.Rec.Add("add", ev)
		}
	case "addfail":
		ev := w.decode(e.Args)
		ev["i"] = e.Port
		w.Rec.Add("addfail", ev)
	case "lost":
		ns := e.Ns
		if ns == nil {
			ns = []int{}
		}
		w.Rec.Add("lost", Ev{"i": e.Port, "ns": ns})
	case "read":
		w.Rec.Add("read", Ev{"i": e.Port, "from": e.From, "upto": e.Upto})
	case "trim":
		up := 0
		for _, n := range e.Ns {
			if n > up {
				up = n
			}
		}
		if up > 0 {
			w.Rec.Add("trim", Ev{"i": e.Port, "upto": up, "young": e.Young, "ttl": w.TTL.Milliseconds()})
		}
	}
}

// decode turns the fields of a log entry into [cmd, key, val].
func (w *World) decode(f []string) Ev {
	ev := Ev{"cmd": "?", "key": "", "val": "", "tags": []string{}}
	if len(f) < 2 {
		return ev
	}
	ev["cmd"] = f[0]
	switch f[0] {
	case "ticket":
		t := &pb.Ticket{}
		if err := proto.Unmarshal([]byte(f[1]), t); err != nil {
			ev["val"] = "undecodable"
		} else {
			ev["val"] = ticketVal(t)
			if t.GetAttributes().GetTags() != nil {
				ev["tags"] = t.GetAttributes().GetTags()
			}
		}
	case "assign":
		ev["key"] = f[1]
		a := &pb.Assignment{}
		if len(f) < 4 || proto.Unmarshal([]byte(f[3]), a) != nil {
			ev["val"] = "undecodable"
		} else {
			ev["val"] = asgVal(a)
		}
	default:
		ev["key"] = f[1]
	}
	return ev
}

func hash8(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	must(err)
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:5])
}

// ticketVal names the content of a ticket that the server has to keep unchanged.
func ticketVal(t *pb.Ticket) string {
	c := proto.Clone(t).(*pb.Ticket)
	c.Id = ""
	c.ExpirationTime = nil
	if c.Attributes == nil {
		c.Attributes = &pb.Ticket_FilterableData{}
	}
	c.Attributes.CreationTime = nil
	return t.GetAttributes().GetStringArgs()["vp"] + "#" + hash8(c)
}

func asgVal(a *pb.Assignment) string {
	c := a.GetConnection()
	return c[:min(len(c), 40)] + "#" + hash8(a)
}

func (w *World) uniq() int64 { return atomic.AddInt64(&w.seq, 1) }

// AddCore prepares and starts an instance.
func (w *World) AddCore(name string, env map[string]string) *Core {
	var port, wport *fakeredis.Port
	if w.Redis != nil {
		var err error
		port, err = w.Redis.AddPort(name)
		must(err)
		wport = port
		if w.Two {
			wport, err = w.Redis.AddPortAs(name+"/write", name)
			must(err)
		}
	}
	e := map[string]string{}
	for k, v := range w.Env {
		e[k] = v
	}
	for k, v := range env {
		e[k] = v
	}
	c := NewCore(w.Bin, name, port, e, w.Rec)
	c.WRedis = wport
	c.Dial = w.Dial
	if w.Two {
		c.env["OM_REDIS_WRITE_HOST"], c.env["OM_REDIS_WRITE_PORT"] = wport.HostPort()
	}
	w.mu.Lock()
	w.Cores[name] = c
	w.mu.Unlock()
	w.start(c)
	return c
}

func (w *World) start(c *Core) {
	max := 500
	if v, ok := c.env["OM_MAX_STATE_UPDATES_PER_CALL"]; ok {
		fmt.Sscan(v, &max)
	}
	store := "redis"
	if c.Redis == nil {
		store = "memory"
	}
	w.Rec.Add("start", Ev{"i": c.Name, "max": max, "wait": c.env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] == "true", "store": store})
	if err := c.Start(); err != nil {
		if c.Died() {
			w.Rec.Add("died", Ev{"i": c.Name, "why": c.Tail(600)})
		}
		must(err)
	}
}

// Kill ends an instance as a crash does.
func (w *World) Kill(c *Core) {
	c.Kill()
	if c.Redis != nil {
		c.Redis.DropAll()
		c.WRedis.DropAll()
	}
	w.Rec.Add("kill", Ev{"i": c.Name})
}

func (w *World) Restart(c *Core) { w.start(c) }

// Check records the death of an instance, once.
func (w *World) Check(c *Core) bool {
	if c.Died() {
		w.mu.Lock()
		first := !w.dead
		w.dead = true
		w.mu.Unlock()
		if first {
			w.Rec.Add("died", Ev{"i": c.Name, "why": c.Tail(600)})
		}
		return false
	}
	return true
}

// Close ends everything, first recording instances that died on their own.
func (w *World) Close() {
	for _, c := range w.Cores {
		if c.cmd == nil || c.killed {
			continue
		}
		w.Check(c)
		c.Kill()
	}
	w.MMF.Close()
	if w.Redis != nil {
		w.Redis.Close()
	}
}

// Fault marks the beginning or end of a time in which the storage misbehaves for an instance.
func (w *World) Fault(c *Core, down bool) { w.Rec.Add("fault", Ev{"i": c.Name, "down": down}) }

func up(cmd, key, val string, tags []string) Ev {
	if tags == nil {
		tags = []string{}
	}
	return Ev{"cmd": cmd, "key": key, "val": val, "form": cmd == "ticket" || formRe.MatchString(key), "tags": tags}
}

func codeOf(err error) string {
	if err == nil {
		return "OK"
	}
	c := status.Code(err)
	if c == codes.DeadlineExceeded {
		return "timeout"
	}
	return c.String()
}

// badIds extracts the ids an error names as failed.
func badIds(err error) []string {
	out := []string{}
	if err == nil {
		return out
	}
	for _, d := range status.Convert(err).Details() {
		if br, ok := d.(*errdetails.BadRequest); ok {
			for _, f := range br.GetFieldViolations() {
				x := f.GetField()
				if i := strings.LastIndex(x, "/"); i >= 0 {
					x = x[i+1:]
				}
				out = append(out, x)
			}
		}
	}
	sort.Strings(out)
	return out
}

// memAdd stands in for the unobservable log of the memory store.
func (w *World) memAdd(c *Core, id, cmd, key, val string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.memN++
	if id == "" {
		id = fmt.Sprintf("mem%d", w.memN)
	}
	w.Rec.Add("add", Ev{"i": c.Name, "idx": w.memN, "id": id, "cmd": cmd, "key": key, "val": val})
	w.Rec.Add("read", Ev{"i": c.Name, "from": w.memN, "upto": w.memN})
}

// mixedForms: some ids have the form of an id, and some do not.  The memory store refuses nothing, so
// this is what an error is about.
func mixedForms(ids []string) bool {
	n := 0
	for _, x := range ids {
		if formRe.MatchString(x) {
			n++
		}
	}
	return n > 0 && n < len(ids)
}

func (w *World) memTotal() int { w.mu.Lock(); defer w.mu.Unlock(); return w.memN }

// memDeact notes, once, the deactivations that match k of invocation v entails.
func (w *World) memDeact(c *Core, v, k string) {
	for _, t := range w.MMF.TakeTix(v, k) {
		w.memAdd(c, "", "deactivate", t, "")
	}
}

// NewTicket makes a ticket with a unique mark, the given tags, and varied other content.
func (w *World) NewTicket(tags ...string) *pb.Ticket {
	n := w.uniq()
	t := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{
		Tags:       append([]string{}, tags...),
		StringArgs: map[string]string{"vp": fmt.Sprintf("v%d", n)},
	}}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.Rng.Intn(4) == 0 {
		t.Attributes.Tags = append(t.Attributes.Tags, append([]string{"zz", "", "aa", "zz"}, tags...)...)
	}
	if w.Rng.Intn(2) == 0 {
		t.Attributes.DoubleArgs = map[string]float64{"mmr": w.Rng.NormFloat64() * 100, "z": math.Inf(1)}
	}
	if w.Rng.Intn(3) == 0 {
		t.Attributes.StringArgs["näme"] = "vålue/" + strings.Repeat("x", w.Rng.Intn(40))
		t.Attributes.StringArgs[""] = ""
	}
	if w.Rng.Intn(3) == 0 {
		a, err := anypb.New(wrapperspb.Bytes([]byte{0, 1, 255, '\r', '\n', byte(n)}))
		must(err)
		t.Extensions = map[string]*anypb.Any{"ext": a}
	}
	return t
}

// Marshal gives the stored form of a ticket.
func (w *World) Marshal(t *pb.Ticket, created time.Time, life time.Duration) string {
	c := proto.Clone(t).(*pb.Ticket)
	c.Attributes.CreationTime = timestamppb.New(created)
	c.ExpirationTime = timestamppb.New(created.Add(life))
	b, err := proto.Marshal(c)
	must(err)
	return string(b)
}

// Create calls CreateTicket; the returned id is empty when it failed.
func (w *World) Create(c *Core, t *pb.Ticket) (string, error) {
	id := fmt.Sprintf("c%d", w.uniq())
	val := ""
	ups := []Ev{}
	if t != nil {
		val = ticketVal(t)
		ups = append(ups, up("ticket", "", val, t.GetAttributes().GetTags()))
	}
	w.Rec.Add("call", Ev{"c": id, "i": c.Name, "kind": "create", "ups": ups})
	ctx, cancel := ctxT(w.Limit)
	defer cancel()
	r, err := c.Cli.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: t})
	if c.Redis == nil && err == nil {
		w.memAdd(c, r.GetTicketId(), "ticket", "", val)
	}
	w.ret(c, id, err, r.GetTicketId())
	return r.GetTicketId(), err
}

func (w *World) ret(c *Core, call string, err error, id string) {
	if c.killed {
		return
	}
	if err != nil && !w.Check(c) {
		return
	}
	if status.Code(err) == codes.Unavailable {
		time.Sleep(50 * time.Millisecond)
		if c.killed || !w.Check(c) {
			return
		}
	}
	msg := ""
	if err != nil {
		msg = err.Error()
		if len(msg) > 300 {
			msg = msg[:300]
		}
	}
	if codeOf(err) == "timeout" {
		w.GiveUp()
	}
	w.Rec.Add("ret", Ev{"c": call, "ok": err == nil, "code": codeOf(err), "id": id, "bad": badIds(err), "msg": msg})
}

func (w *World) state(c *Core, kind, cmd string, ids []string) error {
	call := fmt.Sprintf("c%d", w.uniq())
	ups := []Ev{}
	for _, x := range ids {
		ups = append(ups, up(cmd, x, "", nil))
	}
	w.Rec.Add("call", Ev{"c": call, "i": c.Name, "kind": kind, "ups": ups})
	ctx, cancel := ctxT(w.Limit)
	defer cancel()
	var err error
	if kind == "act" {
		_, err = c.Cli.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
	} else {
		_, err = c.Cli.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
	}
	if c.Redis == nil && (err == nil || mixedForms(ids)) {
		for _, x := range ids {
			if formRe.MatchString(x) {
				w.memAdd(c, "", cmd, x, "")
			}
		}
	}
	w.ret(c, call, err, "")
	return err
}

func (w *World) Act(c *Core, ids ...string) error   { return w.state(c, "act", "activate", ids) }
func (w *World) Deact(c *Core, ids ...string) error { return w.state(c, "deact", "deactivate", ids) }

// Assign calls CreateAssignments. roster nil or without assignment: the invalid forms.
func (w *World) Assign(c *Core, a *pb.Assignment, ids ...string) error {
	call := fmt.Sprintf("c%d", w.uniq())
	ups := []Ev{}
	ro := &pb.Roster{Assignment: a}
	for _, x := range ids {
		ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: x})
	}
	if a != nil {
		for _, x := range ids {
			ups = append(ups, up("assign", x, asgVal(a), nil))
		}
	}
	w.Rec.Add("call", Ev{"c": call, "i": c.Name, "kind": "assign", "ups": ups})
	ctx, cancel := ctxT(w.Limit)
	defer cancel()
	_, err := c.Cli.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
	if c.Redis == nil && (err == nil || mixedForms(ids)) {
		for _, x := range ids {
			if formRe.MatchString(x) {
				w.memAdd(c, "", "assign", x, asgVal(a))
			}
		}
	}
	w.ret(c, call, err, "")
	return err
}

func (w *World) NewAssignment() *pb.Assignment {
	n := w.uniq()
	a := &pb.Assignment{Connection: fmt.Sprintf("10.0.0.%d:%d", n%256, n)}
	if n%5 == 0 {
		a.Connection = "" // all is in the extensions
	}
	if n%2 == 0 || n%5 == 0 {
		x, err := anypb.New(wrapperspb.String(fmt.Sprintf("ext%d", n)))
		must(err)
		a.Extensions = map[string]*anypb.Any{"e": x}
	}
	if n%7 == 3 { // the same server for all
		a.Connection = "10.1.1.1:7777"
		x, err := anypb.New(wrapperspb.Int64(int64(n)))
		must(err)
		a.Extensions = map[string]*anypb.Any{"e": x}
	}
	return a
}

// PoolSpec asks for the tickets with all the given tags.
type PoolSpec struct {
	Name string
	Tags []string
}

// Invocation is one InvokeMatchmakingFunctions call in progress.
type Invocation struct {
	V       string
	Done    chan struct{}
	Err     error
	Got     int
	Cancel  context.CancelFunc
	W       *World
	C       *Core
	fns     []*Fn
	started time.Time
}

// Invoke starts an invocation of the scripted functions fns with the given pools.
// limit: the server's time limit for functions, if one of them may reach it (0: none does).
func (w *World) Invoke(c *Core, pools []PoolSpec, limit time.Duration, fns ...*Fn) *Invocation {
	v := fmt.Sprintf("i%d", w.uniq())
	prof := &pb.Profile{Name: v, Pools: map[string]*pb.Pool{}}
	ps := []Ev{}
	for _, p := range pools {
		tags := p.Tags
		if tags == nil {
			tags = []string{}
		}
		ps = append(ps, Ev{"name": p.Name, "tags": tags})
		pp := &pb.Pool{Name: p.Name}
		for _, t := range tags {
			pp.TagPresentFilters = append(pp.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: t})
		}
		prof.Pools[p.Name] = pp
	}
	req := &pb.MmfRequest{Profile: prof}
	fs := []Ev{}
	for _, f := range fns {
		spec := w.MMF.Register(v, f)
		req.Mmfs = append(req.Mmfs, spec)
		fs = append(fs, Ev{"m": f.name, "kind": f.Kind})
	}
	ctx, cancel := context.WithTimeout(context.Background(), w.Limit+limit)
	inv := &Invocation{V: v, Done: make(chan struct{}), Cancel: cancel, W: w, C: c, fns: fns, started: time.Now()}
	w.Rec.Add("inv", Ev{"v": v, "i": c.Name, "pools": ps, "fns": fs, "profile": true})
	slow := w.Slow
	go func() {
		defer close(inv.Done)
		defer cancel()
		stream, err := c.Cli.InvokeMatchmakingFunctions(ctx, req)
		for err == nil {
			time.Sleep(slow)
			var r *pb.StreamedMmfResponse
			r, err = stream.Recv()
			if err == nil {
				inv.Got++
				same, k := w.MMF.Same(v, r.GetMatch())
				if c.Redis == nil {
					w.memDeact(c, v, k)
				}
				w.Rec.Add("mrecv", Ev{"v": v, "k": k, "same": same})
			}
		}
		if err == io.EOF {
			err = nil
		}
		inv.Err = err
		if c.killed || (err != nil && status.Code(err) != codes.Canceled && !w.Check(c)) {
			return
		}
		if status.Code(err) == codes.Unavailable {
			time.Sleep(50 * time.Millisecond)
			if c.killed || !w.Check(c) {
				return
			}
		}
		el := time.Since(inv.started)
		hang := false
		for _, f := range fns {
			hang = hang || f.Kind == "hang"
		}
		if codeOf(err) == "timeout" {
			w.GiveUp()
		}
		if c.Redis == nil {
			for _, k := range w.MMF.Sent(v) {
				w.memDeact(c, v, k)
			}
		}
		msg := ""
		if err != nil {
			msg = err.Error()
		}
		w.Rec.Add("invret", Ev{"v": v, "msg": msg, "ok": err == nil, "code": codeOf(err),
			"early": hang && err == nil && el < limit-100*time.Millisecond, "late": hang && el > limit+20*time.Second})
	}()
	return inv
}

// Abort cancels the invocation on the caller's side.
func (inv *Invocation) Abort() {
	inv.W.Rec.Add("cancel", Ev{"v": inv.V})
	inv.Cancel()
	<-inv.Done
}

// Look makes an invocation whose only function reads the pools and ends.
func (w *World) Look(c *Core, pools ...PoolSpec) map[string][]string {
	f := &Fn{Kind: "ok"}
	inv := w.Invoke(c, pools, 0, f)
	<-inv.Done
	return f.Pools()
}

// Sync makes sure that the instance has applied the whole log, by means of a marker ticket.
func (w *World) Sync(c *Core, via *Core) bool { return w.sync(c, via, false) }

// sync waits until c has applied what was stored so far; if gone, until the ticket used for this is out of all pools, too.
func (w *World) sync(c *Core, via *Core, gone bool) bool {
	tag := fmt.Sprintf("sync%d", w.uniq())
	id, err := w.Create(via, w.NewTicket(tag))
	if err != nil {
		return false
	}
	if w.Act(via, id) != nil {
		return false
	}
	deadline := time.Now().Add(30 * time.Second)
	for {
		if len(w.Look(c, PoolSpec{"sync", []string{tag}})["sync"]) > 0 {
			if !gone {
				w.Deact(via, id)
				return true
			}
			if w.Deact(via, id) != nil {
				return false
			}
			for len(w.Look(c, PoolSpec{"sync", []string{tag}})["sync"]) > 0 && time.Now().Before(deadline) && !w.Dead() && w.Check(c) {
				time.Sleep(5 * time.Millisecond)
			}
			return time.Now().Before(deadline)
		}
		if w.Dead() || !w.Check(c) || c.killed {
			return false
		}
		if time.Now().After(deadline) {
			w.Rec.Add("stuck", Ev{"i": c.Name, "id": id})
			w.GiveUp()
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// GiveUp ends the scenario early: something that must happen did not.
func (w *World) GiveUp() { w.mu.Lock(); w.dead = true; w.mu.Unlock() }

func (w *World) Dead() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.dead }

// Watching is one WatchAssignments call.
type Watching struct {
	Wid    string
	Done   chan struct{}
	Cancel context.CancelFunc
	mu     sync.Mutex
	n      int
	last   string
}

// Last is the assignment in the latest answer.
func (x *Watching) Last() string { x.mu.Lock(); defer x.mu.Unlock(); return x.last }

func (x *Watching) N() int { x.mu.Lock(); defer x.mu.Unlock(); return x.n }

// Watch starts a watch; ttl is the configured ticket lifetime.
func (w *World) Watch(c *Core, ttl time.Duration, ids ...string) *Watching {
	return w.watch(c, ttl, -1, ids...)
}

// watch: after the given number of answers, nothing is read any more.
func (w *World) watch(c *Core, ttl time.Duration, most int, ids ...string) *Watching {
	wid := fmt.Sprintf("w%d", w.uniq())
	ctx, cancel := context.WithTimeout(context.Background(), ttl+w.Limit)
	x := &Watching{Wid: wid, Done: make(chan struct{}), Cancel: cancel}
	idl := append([]string{}, ids...)
	w.Rec.Add("watch", Ev{"w": wid, "i": c.Name, "ids": idl})
	t0 := time.Now()
	// positions known well before the end
	known := int64(0)
	go func() {
		select {
		case <-x.Done:
		case <-time.After(ttl - 4*time.Second):
			n := w.memTotal()
			if w.Redis != nil {
				n = w.Redis.Total()
			}
			atomic.StoreInt64(&known, int64(n))
		}
	}()
	go func() {
		defer close(x.Done)
		s, err := c.Cli.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: ids})
		for err == nil {
			if x.N() == most {
				<-ctx.Done()
			}
			var r *pb.StreamedWatchAssignmentsResponse
			r, err = s.Recv()
			if err == nil {
				x.mu.Lock()
				x.n++
				x.last = asgVal(r.GetAssignment())
				x.mu.Unlock()
				w.Rec.Add("wmsg", Ev{"w": wid, "id": r.GetId(), "val": asgVal(r.GetAssignment())})
			}
		}
		if c.killed || (err != io.EOF && status.Code(err) != codes.Canceled && !w.Check(c)) {
			return
		}
		how := "done"
		switch {
		case status.Code(err) == codes.Canceled:
			how = "cancel"
		case codeOf(err) == "timeout":
			how = "timeout"
		case err != io.EOF:
			how = "error"
		}
		w.Rec.Add("wend", Ev{"w": wid, "how": how, "expired": time.Since(t0) >= ttl-time.Second-100*time.Millisecond, "known": atomic.LoadInt64(&known)})
	}()
	return x
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+f+"\n", a...)
	os.Exit(2)
}
