package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"vp.local/harness/fakeredis"
)

func init() {
	families["metrics"] = func(o *Opts) { parallel(o, 6, func(k int, seed int64) { metrics(o, seed, k) }) }
}

// meter notes the end of every RPC that the client made.
type meter struct {
	w *World
	n int64
}
type methodKey struct{}

func (m *meter) TagRPC(ctx context.Context, i *stats.RPCTagInfo) context.Context {
	return context.WithValue(ctx, methodKey{}, i.FullMethodName[strings.LastIndexByte(i.FullMethodName, '/')+1:])
}
func (m *meter) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (m *meter) HandleConn(context.Context, stats.ConnStats)                       {}
func (m *meter) HandleRPC(ctx context.Context, s stats.RPCStats) {
	e, ok := s.(*stats.End)
	if !ok {
		return
	}
	res := "ok"
	if e.Error != nil {
		res = "err"
		// how a call ends that its caller has given up is up to the server
		if c := status.Code(e.Error); c == codes.Canceled || c == codes.DeadlineExceeded {
			res = "maybe"
		}
	}
	m.end(ctx.Value(methodKey{}).(string), res, e.EndTime.Sub(e.BeginTime))
}
func (m *meter) end(name, res string, d time.Duration) {
	m.w.Rec.Add("rpc", Ev{"m": name, "res": res, "d": 2*d.Milliseconds() + 3000})
	atomic.AddInt64(&m.n, 1)
}

// metscen is one scenario of the family.
type metscen struct {
	w *World
	c *Core
	m *meter
	r *rand.Rand
}

func (x *metscen) start() {
	atomic.StoreInt64(&x.m.n, 0)
	x.w.start(x.c)
}

var labelRe = regexp.MustCompile(`([a-z_]+)="((?:[^"\\]|\\.)*)"`)

// by sums the values of a metric per value of a label.
func by(m map[string]float64, name, label string) []Ev {
	sums := map[string]float64{}
	for k, v := range m {
		i := strings.IndexByte(k, '{')
		if i < 0 || k[:i] != name {
			continue
		}
		val := ""
		for _, x := range labelRe.FindAllStringSubmatch(k[i:], -1) {
			if x[1] == label {
				val = strings.NewReplacer(`\"`, `"`, `\\`, `\`, `\n`, "\n").Replace(x[2])
			}
		}
		sums[val] += v
	}
	keys := []string{}
	for k := range sums {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []Ev{}
	for _, k := range keys {
		out = append(out, Ev{"k": k, "n": int64(sums[k])})
	}
	return out
}

func (x *metscen) figures() Ev {
	m, err := x.c.scrape()
	if err != nil {
		return nil
	}
	one := func(name string) int64 { v, _ := metric(m, name); return int64(v) }
	e := Ev{
		"rpc": by(m, "om_core_rpc_duration_milliseconds_count", "rpc"),
		"dur": by(m, "om_core_rpc_duration_milliseconds_sum", "rpc"),
		"err": by(m, "om_core_rpc_errors_total", "rpc"),
		"mat": by(m, "om_core_match_received_total", "mmf_name"),
	}
	cnt, sum := []Ev{}, []Ev{}
	for kind, name := range map[string]string{"act": "om_core_ticket_activation_requests", "deact": "om_core_ticket_deactivation_requests", "assign": "om_core_ticket_assignment"} {
		cnt = append(cnt, Ev{"k": kind, "n": one(name + "_count")})
		sum = append(sum, Ev{"k": kind, "n": one(name + "_sum")})
	}
	e["cnt"], e["sum"] = cnt, sum
	e["open"] = one("om_core_ticket_assigment_watch")
	return e
}

func total(e Ev, name string) int64 {
	n := int64(0)
	for _, x := range e[name].([]Ev) {
		n += x["n"].(int64)
	}
	return n
}

// scrape records the figures, once they have stopped changing and all RPCs are in, or after a while.
// open: how many ids are being watched.
func (x *metscen) scrape(open int) {
	var last Ev
	t0 := time.Now()
	since := t0
	for {
		e := x.figures()
		if e == nil {
			if !x.w.Check(x.c) {
				return
			}
			time.Sleep(50 * time.Millisecond)
			if time.Since(t0) > 20*time.Second {
				x.w.Rec.Add("unserviceable", Ev{"what": "metrics"})
				return
			}
			continue
		}
		if last == nil || fmt.Sprint(e) != fmt.Sprint(last) {
			last, since = e, time.Now()
		}
		done := total(e, "rpc") == atomic.LoadInt64(&x.m.n) && int(e["open"].(int64)) == open
		if done && time.Since(since) > 250*time.Millisecond || time.Since(t0) > 8*time.Second {
			x.w.Rec.Add("scrape", e)
			return
		}
		time.Sleep(40 * time.Millisecond)
	}
}

// post makes a call by HTTP, which the server turns into an RPC.
func (x *metscen) post(verb, path, name, body string) {
	t0 := time.Now()
	q, err := http.NewRequest(verb, fmt.Sprintf("http://127.0.0.1:%d%s", x.c.HTTP, path), bytes.NewBufferString(body))
	must(err)
	r, err := http.DefaultClient.Do(q)
	if err != nil {
		x.w.Check(x.c)
		return
	}
	io.Copy(io.Discard, r.Body)
	r.Body.Close()
	res := "ok"
	if r.StatusCode != 200 {
		res = "err"
	}
	x.m.end(name, res, time.Since(t0))
}

// fnNames are used over and over, also within one invocation.
var fnNames = []string{"alpha", "beta", "beta gamma/1", `q"uote`, "", "alph"}

func (x *metscen) fn() *Fn {
	f := x.w.randFn(x.r, false)
	if f.Kind == "gone" {
		f.Kind = "ok"
	}
	f.name = pick(x.r, fnNames...)
	f.Named = true
	if x.r.Intn(4) == 0 {
		f.Steps = append(f.Steps, Step{Empty: true})
	}
	return f
}

// invoke runs an invocation to its end.
func (x *metscen) invoke(limit time.Duration, fs ...*Fn) *Invocation {
	return x.w.Invoke(x.c, allPools, limit, fs...)
}

func metrics(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	env := randEnv(r)
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = []string{"true", "false"}[k%2]
	env["OM_MMF_TIMEOUT_SECS"] = "4"
	env["OM_REDIS_POOL_MAX_ACTIVE"] = "50"
	env["OM_MAX_STATE_UPDATES_PER_CALL"] = "12"
	ttl := 3
	env["OM_CACHE_TICKET_TTL_SECS"] = fmt.Sprint(ttl)
	mem := k%4 == 3
	w := NewWorld(o.Bin, seed, mem, env)
	w.Rec.Only = map[string]bool{"start": true, "call": true, "fault": true, "rpc": true, "inv": true, "msend": true, "mrecv": true, "invret": true,
		"watch": true, "wmsg": true, "wend": true, "scrape": true, "died": true, "unserviceable": true, "stuck": true}
	x := &metscen{w: w, m: &meter{w: w}, r: r}
	w.Dial = []grpc.DialOption{grpc.WithStatsHandler(x.m)}
	x.c = w.AddCore("A0", nil)
	life := time.Duration(ttl) * time.Second
	rounds := 2
	if o.Thorough() {
		rounds = 4
	}
	for round := 0; round < rounds && !w.Dead(); round++ {
		var ids []string
		for j := 0; j < 8; j++ {
			if id, err := w.Create(x.c, w.NewTicket("all")); err == nil {
				ids = append(ids, id)
			}
		}
		if len(ids) < 4 {
			break
		}
		odd := func() string { return pick(r, "no", "", "12", "-3", "5-", "a-1", "1-2-3") }
		some := func() []string {
			var out []string
			for n := pick(r, 0, 1, 2, 3, 5, 11, 12, 13, 14); n > 0; n-- {
				switch r.Intn(4) {
				case 0:
					out = append(out, odd())
				case 1:
					out = append(out, "1700000000000-0")
				default:
					out = append(out, ids[r.Intn(len(ids))])
				}
			}
			return out
		}
		// draw chooses a call.
		draw := func() func() {
			l := some()
			switch r.Intn(9) {
			case 0:
				return func() { w.Create(x.c, nil) }
			case 1:
				return func() { x.post("POST", "/v2/tickets:activate", "ActivateTickets", `{}`) }
			case 2:
				return func() { x.post("POST", "/v2/tickets", "CreateTicket", `{"ticket":{}}`) }
			case 3, 4:
				return func() { w.Act(x.c, l...) }
			case 5, 6:
				return func() { w.Deact(x.c, l...) }
			case 7:
				if r.Intn(4) == 0 {
					return func() { w.Assign(x.c, nil, l...) }
				}
				if len(l) == 0 { // whether that is a request at all is left open
					l = ids[:1]
				}
				return func() { w.Assign(x.c, w.NewAssignment(), l...) }
			default:
				return func() { w.Act(x.c, ids...) }
			}
		}
		// calls, several at a time
		var wg sync.WaitGroup
		for j := 0; j < 3; j++ {
			var cs []func()
			for n := 2 + r.Intn(5); n > 0; n-- {
				cs = append(cs, draw())
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, f := range cs {
					f()
				}
			}()
		}
		wg.Wait()
		if w.Dead() {
			break
		}
		if !mem && r.Intn(2) == 0 { // storage trouble
			w.Fault(x.c, true)
			every := 1 + r.Intn(3)
			x.c.Redis.SetFault(func(cmd string, args []string, nth int) fakeredis.Outcome {
				if cmd == "XADD" && nth%every == 0 {
					return fakeredis.ErrReply
				}
				return fakeredis.OK
			})
			for j := 0; j < 4; j++ {
				draw()()
			}
			x.c.Redis.SetFault(nil)
			w.Fault(x.c, false)
		}
		x.scrape(0)
		if w.Dead() {
			break
		}
		// functions
		w.Act(x.c, ids...)
		var invs []*Invocation
		for j := 0; j < 1+r.Intn(3); j++ {
			var fs []*Fn
			for i := 0; i < 1+r.Intn(4); i++ {
				fs = append(fs, x.fn())
			}
			limit := time.Duration(0)
			if r.Intn(4) == 0 {
				f := x.fn()
				f.Kind = "hang"
				fs = append(fs, f)
				limit = 4 * time.Second
			}
			invs = append(invs, x.invoke(limit, fs...))
		}
		if r.Intn(2) == 0 { // one that its caller gives up
			f := &Fn{Kind: pick(r, "ok", "err"), Named: true, name: pick(r, fnNames...)}
			f.Make = func(map[string][]*pb.Ticket) []Step {
				return []Step{{Match: w.MatchOf(nil)}, {Sleep: 300 * time.Millisecond}, {Match: w.MatchOf(nil, nil)}}
			}
			inv := x.invoke(0, f)
			<-f.ready
			inv.Abort()
			<-f.done
		}
		for _, inv := range invs {
			<-inv.Done
		}
		x.scrape(0)
		if w.Dead() {
			break
		}
		// watches: some answered, some given up, some that run out
		for j := 0; j < 3; j++ {
			w.Assign(x.c, w.NewAssignment(), ids[j])
		}
		fresh := ids[4:]
		gives := w.Watch(x.c, life, append([]string{ids[0]}, fresh[:2]...)...)
		all := w.Watch(x.c, life, ids[0], ids[1], ids[0])
		ends := w.Watch(x.c, life, fresh[1], fresh[2], ids[2])
		none := w.Watch(x.c, life)
		never := w.Watch(x.c, life, "999-9", "nonsense")
		<-all.Done
		<-none.Done
		for t0 := time.Now(); time.Since(t0) < 2*time.Second && (gives.N() < 1 || ends.N() < 1) && w.Check(x.c); {
			time.Sleep(5 * time.Millisecond)
		}
		gives.Cancel()
		<-gives.Done
		if round == 0 { // some of the others' are left open
			x.scrape(2 + 2)
		} else if r.Intn(2) == 0 {
			w.Assign(x.c, w.NewAssignment(), fresh[1:3]...)
		}
		<-ends.Done
		<-never.Done
		x.scrape(0)
		// some whose callers go away while they are being answered
		a := w.NewAssignment()
		a.Connection += strings.Repeat("x", 500000)
		if w.Assign(x.c, a, ids...) == nil && !w.Dead() {
			seen := w.Watch(x.c, life, ids...)
			for t0 := time.Now(); time.Since(t0) < 2*time.Second && seen.N() < len(ids) && w.Check(x.c); {
				time.Sleep(5 * time.Millisecond)
			}
			seen.Cancel()
			<-seen.Done
			for j := 0; j < 3; j++ {
				q := w.watch(x.c, life, 1+r.Intn(2), ids...)
				for t0 := time.Now(); time.Since(t0) < time.Second && q.N() < 1 && w.Check(x.c); {
					time.Sleep(5 * time.Millisecond)
				}
				time.Sleep(30 * time.Millisecond)
				q.Cancel()
				<-q.Done
			}
			x.scrape(0)
		}
		if round < rounds-1 && r.Intn(3) == 0 {
			w.Kill(x.c)
			x.start()
		}
	}
	w.Close()
	o.Save(w, "metrics")
}
