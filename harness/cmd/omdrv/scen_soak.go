package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"regexp"
	"strconv"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	pb "open-match.dev/pkg/pb/v2"
	"vp.local/harness/fakeredis"
)

func init() {
	families["soak"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { soak(o, seed, k) }) }
}

var goroutinesRE = regexp.MustCompile(`(?m)^(?:go_goroutines|goroutine profile: total) (\d+)`)

// held is what the process holds: goroutines (-1: it does not tell) and open files.
func (c *Core) held() (gor, files int) {
	gor = -1
	cl := &http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	for _, u := range []string{fmt.Sprintf("http://127.0.0.1:%d/metrics", c.Metrics), fmt.Sprintf("http://127.0.0.1:%d/debug/pprof/goroutine?debug=1", c.Pprof)} {
		r, err := cl.Get(u)
		if err != nil {
			continue
		}
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		if m := goroutinesRE.FindSubmatch(b); m != nil {
			gor, _ = strconv.Atoi(string(m[1]))
			break
		}
	}
	d, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", c.cmd.Process.Pid))
	if err != nil {
		return gor, -1
	}
	return gor, len(d)
}

// rest waits until the process holds no more than the given amounts, or does not get there.
func (c *Core) rest(gor, files int, atMost time.Duration) (g, f int) {
	for end := time.Now().Add(atMost); ; time.Sleep(250 * time.Millisecond) {
		g1, f1 := c.held()
		if g == 0 || g1 < g {
			g = g1
		}
		if f == 0 || f1 < f {
			f = f1
		}
		if g <= gor && f <= files || time.Now().After(end) {
			return
		}
	}
}

const soakEach = 40 // calls of a kind in a round

// soak: rounds of calls that end in every way there is. Once they have ended, the server holds what it held before.
func soak(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	env := randEnv(r)
	env["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = "5"
	env["OM_CACHE_OUT_WAIT_TIMEOUT_MS"] = "5"
	env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = pick(r, "10", "50")
	env["OM_CACHE_TICKET_TTL_SECS"] = "2"
	env["OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS"] = "1"
	env["OM_MMF_TIMEOUT_SECS"] = "1"
	env["OM_REDIS_POOL_MAX_ACTIVE"] = pick(r, "4", "50")
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = []string{"true", "false"}[k%2]
	w := NewWorld(o.Bin, seed, false, env)
	w.Two = true
	w.Rec.Only = map[string]bool{"start": true, "died": true, "unserviceable": true, "held": true}
	c := w.AddCore("A0", nil)

	var kinds []func()
	var mu sync.Mutex
	rnd := func(n int) int { mu.Lock(); defer mu.Unlock(); return r.Intn(n) }
	newTicket := func() string {
		ctx, cancel := ctxT(10 * time.Second)
		defer cancel()
		x, _ := c.GCli.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"s"}}}})
		return x.GetTicketId()
	}
	some := func(n int) (ids []string) {
		for ; n > 0; n-- {
			if id := newTicket(); id != "" {
				ids = append(ids, id)
			}
		}
		return
	}
	drain := func(recv func() error, most int) {
		for n := 0; n != most; n++ {
			if recv() != nil {
				return
			}
		}
	}
	watch := func(life time.Duration, most int, ids ...string) {
		ctx, cancel := ctxT(life)
		defer cancel()
		s, err := c.GCli.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: ids})
		if err == nil {
			drain(func() error { _, err := s.Recv(); return err }, most)
		}
	}
	invoke := func(life time.Duration, most int, fns ...*Fn) {
		v := fmt.Sprintf("s%d", w.uniq())
		req := &pb.MmfRequest{Profile: &pb.Profile{Name: v, Pools: map[string]*pb.Pool{"p": {Name: "p", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "s"}}}}}}
		for _, f := range fns {
			req.Mmfs = append(req.Mmfs, w.MMF.Register(v, f))
		}
		ctx, cancel := ctxT(life)
		defer cancel()
		s, err := c.GCli.InvokeMatchmakingFunctions(ctx, req)
		if err == nil {
			drain(func() error { _, err := s.Recv(); return err }, most)
		}
	}
	matches := func(n int, sleep time.Duration, ids ...string) (st []Step) {
		for ; n > 0; n-- {
			st = append(st, Step{Match: w.MatchOf(ids)}, Step{Sleep: sleep})
		}
		return
	}
	post := func(life time.Duration, verb, path, body string) {
		ctx, cancel := ctxT(life)
		defer cancel()
		q, err := http.NewRequestWithContext(ctx, verb, fmt.Sprintf("http://127.0.0.1:%d%s", c.HTTP, path), bytes.NewBufferString(body))
		must(err)
		cl := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}
		if p, err := cl.Do(q); err == nil {
			io.Copy(io.Discard, p.Body)
			p.Body.Close()
		}
	}
	ms := time.Millisecond
	long := 20 * time.Second
	kinds = []func(){
		func() { ids := some(4); watch(time.Duration(20+rnd(200))*ms, -1, ids...) }, // given up
		func() { ids := some(3); watch(long, -1, ids...) },                          // nothing to be had
		func() { watch(long, -1, "", "x", "1-1", fmt.Sprintf("%d-7", time.Now().UnixMilli())) },
		func() { // answered, at once or by and by
			ids := some(3)
			go func() {
				ctx, cancel := ctxT(long)
				defer cancel()
				ro := &pb.Roster{Assignment: &pb.Assignment{Connection: "here"}}
				for _, id := range ids {
					ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
				}
				c.GCli.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
			}()
			watch(long, []int{-1, 1, 2}[rnd(3)], append(ids, ids[:min(1, len(ids))]...)...)
		},
		func() { // creations given up
			ctx, cancel := ctxT(time.Duration(1+rnd(8)) * ms)
			defer cancel()
			c.GCli.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
		},
		func() { // state updates given up
			ids := some(2)
			ctx, cancel := ctxT(time.Duration(1+rnd(8)) * ms)
			defer cancel()
			c.GCli.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: append(ids, "no")})
			c.GCli.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
			c.GCli.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{}, Tickets: []*pb.Ticket{{Id: "1-1"}}}})
		},
		func() { invoke(long, -1, &Fn{Kind: "ok"}, &Fn{Kind: "dead"}, &Fn{Kind: "gone"}, &Fn{Kind: "rest"}) },
		func() { invoke(long, -1, &Fn{Kind: "hang", Steps: matches(2, 0, some(2)...)}) }, // until the limit
		func() { // fails with matches under way
			invoke(long, -1, &Fn{Kind: "err", Code: codes.Internal, Steps: matches(3, 0, some(1)...)}, &Fn{Kind: "ok", Steps: matches(3, 2*ms, "1-1")})
		},
		func() { // given up with matches under way
			invoke(time.Duration(1+rnd(40))*ms, 1+rnd(3), &Fn{Kind: "ok", Steps: matches(8, 20*ms, "1-1", "no")}, &Fn{Kind: "err", Steps: matches(4, 30*ms)})
		},
		func() { // functions that do not read
			invoke(long, -1, &Fn{Kind: "ok", NoRead: true, Steps: matches(1, 0)}, &Fn{Kind: "err", NoRead: true})
		},
		func() { // over HTTP
			post(time.Duration(20+rnd(100))*ms, "POST", "/v2/assignments:watch", `{"ticketIds":["1-1","2-2"]}`)
			post(long, "POST", "/v2/tickets", `{"ticket":{}}`)
			post(2*ms, "POST", "/v2/tickets", `{"ticket":{}}`)
			post(long, "POST", "/v2/tickets", `{"tick`)
		},
	}
	round := func(n int, bad bool) {
		if bad {
			for _, p := range []*fakeredis.Port{c.Redis, c.WRedis} {
				p.SetFault(func(cmd string, args []string, _ int) fakeredis.Outcome {
					if rnd(12) == 0 {
						return []fakeredis.Outcome{fakeredis.ErrReply, fakeredis.DropBefore, fakeredis.DropAfter}[rnd(3)]
					}
					return fakeredis.OK
				})
			}
		}
		each(n*len(kinds), func(j int) { kinds[j%len(kinds)]() })
		c.Redis.SetFault(nil)
		c.WRedis.SetFault(nil)
	}
	round(4, false)
	c.conn.Close() // the harness connects anew, so that nothing of its own is counted
	g0, f0 := c.rest(0, 0, 5*time.Second)
	const slackG, slackF = soakEach * 3 / 4, soakEach / 2
	for j := 0; j < 2 && w.Check(c); j++ {
		cc, err := dial(fmt.Sprintf("127.0.0.1:%d", c.Port))
		must(err)
		c.conn, c.GCli = cc, pb.NewOpenMatchServiceClient(cc)
		c.Cli = c.GCli
		round(soakEach, j == 1)
		w.Serviceable(c, "soak")
		cc.Close()
		if w.Dead() {
			break
		}
		g, f := c.rest(g0+slackG/2, f0+slackF/2, 12*time.Second)
		if !w.Check(c) {
			break
		}
		for _, x := range []struct {
			what             string
			first, now, more int
		}{{"goroutines", g0, g, slackG}, {"files", f0, f, slackF}} {
			if x.first >= 0 && x.now >= 0 {
				w.Rec.Add("held", Ev{"i": c.Name, "what": x.what, "first": x.first, "now": x.now, "calls": soakEach, "slack": x.more, "round": j})
			}
		}
	}
	o.Save(w, "soak")
}
