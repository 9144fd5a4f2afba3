package main

import (
	"context"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
	"vp.local/harness/fakeredis"
)

func init() {
	families["gateway"] = func(o *Opts) {
		viaHTTP = 0.5
		parallel(o, 6, func(k int, seed int64) { gateway(o, seed, k) })
	}
}

// gscen makes the same calls by gRPC and by HTTP, and compares what they do and what they return.
type gscen struct {
	w   *World
	c   *Core
	r   *rand.Rand
	mu  sync.Mutex
	log []string // what reached the storage
}

func (x *gscen) spy(e fakeredis.Event) {
	if e.Kind != "add" {
		return
	}
	f := e.Entry.Fields
	s := fmt.Sprintf("%q", f)
	if len(f) >= 2 && f[0] == "ticket" {
		t := &pb.Ticket{}
		if proto.Unmarshal([]byte(f[1]), t) == nil {
			s = "ticket " + hash8(t)
		}
	}
	if len(f) >= 4 && f[0] == "assign" {
		a := &pb.Assignment{}
		if proto.Unmarshal([]byte(f[3]), a) == nil {
			s = "assign " + f[1] + " " + hash8(a)
		}
	}
	x.mu.Lock()
	x.log = append(x.log, s)
	x.mu.Unlock()
}

func (x *gscen) take() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	sort.Strings(x.log) // those of several matches are stored in any order
	s := strings.Join(x.log, "\n")
	x.log = nil
	return s
}

// said is the outcome of a call.
func said(err error) string {
	if err == nil || err == io.EOF {
		return "OK"
	}
	s := status.Convert(err)
	out := s.Code().String() + ": " + s.Message()
	var ds []string
	for _, d := range s.Proto().GetDetails() {
		m, err := d.UnmarshalNew()
		if err != nil {
			ds = append(ds, d.GetTypeUrl())
			continue
		}
		ds = append(ds, string(m.ProtoReflect().Descriptor().FullName())+" "+prototext.MarshalOptions{}.Format(m))
	}
	for i := range ds { // the text form varies on purpose
		ds[i] = strings.Join(strings.Fields(ds[i]), " ")
	}
	return out + " " + strings.Join(ds, ";")
}

// pair makes a call both ways, and records what came of it: the answer, and what reached the storage.
func (x *gscen) pair(what string, f func(ctx context.Context, c pb.OpenMatchServiceClient) string) {
	if !x.w.Check(x.c) {
		return
	}
	two := []pb.OpenMatchServiceClient{x.c.GCli, x.c.HCli}
	res := [2]string{}
	first := x.r.Intn(2)
	for k := 0; k < 2; k++ {
		j := (first + k) % 2
		x.take()
		ctx, cancel := ctxT(30 * time.Second)
		res[j] = f(ctx, two[j])
		cancel()
		res[j] += "\n" + x.take()
	}
	if x.w.Check(x.c) {
		x.w.Rec.Add("pair", Ev{"what": what, "g": res[0], "h": res[1]})
	}
}

// anys are extensions of types that the server knows: only those have a JSON form.
func anys(r *rand.Rand) map[string]*anypb.Any {
	out := map[string]*anypb.Any{}
	for n := r.Intn(4); n > 0; n-- {
		st, err := structpb.NewStruct(map[string]any{"b": []any{"x", nil, true, -0.1}})
		must(err)
		b := make([]byte, r.Intn(40))
		r.Read(b)
		m := pick[proto.Message](r, wrapperspb.String("é\x00\"\n"), wrapperspb.Int32(-7), wrapperspb.Int64(math.MaxInt64), wrapperspb.Bytes(b), wrapperspb.Double(math.Inf(1)),
			wrapperspb.Bool(true), durationpb.New(1500*time.Millisecond), timestamppb.New(time.Unix(1e9, 5)), st, &pb.Ticket{Id: "in"}, &pb.Assignment{Connection: "c"}, wrapperspb.UInt64(math.MaxUint64))
		a, err := anypb.New(m)
		must(err)
		out[pick(r, "", "e", "x y", "é", "@type", "type_url")] = a
	}
	return out
}

// jsonTicket is a ticket that can be written as JSON.
func jsonTicket(r *rand.Rand, tags ...string) *pb.Ticket {
	t := richTicket(r)
	t.Extensions = anys(r)
	if t.Attributes == nil {
		t.Attributes = &pb.Ticket_FilterableData{}
	}
	t.Attributes.Tags = append(t.Attributes.Tags, tags...)
	now := time.Now()
	t.Attributes.CreationTime = timestamppb.New(now.Add(-time.Duration(r.Intn(1e9)) - time.Second))
	t.ExpirationTime = timestamppb.New(now.Add(200*time.Second + time.Duration(r.Intn(1e9))))
	return t
}

func bounds(r *rand.Rand) pb.Pool_FilterBounds { return pb.Pool_FilterBounds(r.Intn(4)) }

func richPool(r *rand.Rand, name string) *pb.Pool {
	p := &pb.Pool{Name: pick(r, name, "", "é"), Extensions: anys(r)}
	for n := r.Intn(3); n > 0; n-- {
		p.TagPresentFilters = append(p.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: pick(r, "all", "", "x")})
	}
	for n := r.Intn(2); n > 0; n-- {
		p.StringEqualsFilters = append(p.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: "a", Value: pick(r, "", "b")})
	}
	for n := r.Intn(2); n > 0; n-- {
		p.DoubleRangeFilters = append(p.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{DoubleArg: "d", Minimum: pick(r, 0, -1.5, math.Inf(-1)), Maximum: pick(r, 3.25, math.Inf(1), math.MaxFloat64), Bounds: bounds(r)})
	}
	if r.Intn(3) == 0 {
		p.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: timestamppb.New(time.Unix(r.Int63n(1e9), 17)), End: timestamppb.New(time.Now().Add(time.Hour)), Bounds: bounds(r)}
	}
	return p
}

// seen describes the profile that a function received.
func seen(f *Fn) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	spec, tix := map[string]string{}, map[string][]string{}
	head := ""
	for j, c := range f.Chunks {
		if j == 0 {
			head = hash8(&pb.Profile{Name: c.GetProfile().GetName(), Extensions: c.GetProfile().GetExtensions()})
		}
		for n, p := range c.GetProfile().GetPools() {
			spec[n] = specOf(p)
			for _, t := range p.GetParticipants().GetTickets() {
				tix[n] = append(tix[n], t.GetId()+"="+hash8(t))
			}
		}
	}
	var out []string
	for n := range spec {
		sort.Strings(tix[n])
		out = append(out, n+":"+spec[n]+":"+strings.Join(tix[n], ","))
	}
	sort.Strings(out)
	return head + "|" + strings.Join(out, "|")
}

func (x *gscen) invoke(ctx context.Context, c pb.OpenMatchServiceClient, prof *pb.Profile, ms [][]*pb.Match, kinds []string) string {
	req := &pb.MmfRequest{Profile: prof}
	v := fmt.Sprintf("i%d", x.w.uniq())
	var fs []*Fn
	for j, k := range kinds {
		f := &Fn{Kind: k, Keep: true, Named: true, name: fmt.Sprintf("f%d", j)}
		for _, m := range ms[j] {
			f.Steps = append(f.Steps, Step{Match: m})
		}
		req.Mmfs = append(req.Mmfs, x.w.MMF.Register(v, f))
		fs = append(fs, f)
	}
	st, err := c.InvokeMatchmakingFunctions(ctx, req)
	var got []string
	for err == nil {
		var m *pb.StreamedMmfResponse
		m, err = st.Recv()
		if err == nil {
			got = append(got, m.GetMatch().GetId()+"="+hash8(m))
		}
	}
	sort.Strings(got)
	out := said(err) + " " + strings.Join(got, " ")
	for j, f := range fs {
		if kinds[j] == "ok" || kinds[j] == "err" {
			<-f.done
			out += "\n" + seen(f)
		}
	}
	return out
}

func (x *gscen) watch(ctx context.Context, c pb.OpenMatchServiceClient, ids []string) string {
	st, err := c.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: ids})
	var got []string
	for err == nil {
		var m *pb.StreamedWatchAssignmentsResponse
		m, err = st.Recv()
		if err == nil {
			got = append(got, m.GetId()+"="+hash8(m))
		}
	}
	sort.Strings(got)
	return said(err) + " " + strings.Join(got, " ")
}

// prompt: a result is there as soon as it has been sent, however long the next one takes.
func (x *gscen) prompt() {
	ctx, cancel := ctxT(30 * time.Second)
	defer cancel()
	got := make(chan struct{})
	v := fmt.Sprintf("i%d", x.w.uniq())
	f := &Fn{Kind: "ok", NoRead: true, Steps: []Step{{Match: x.w.MatchOf(nil)}, {Until: got}, {Match: x.w.MatchOf(nil)}}}
	st, err := x.c.HCli.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: v}, Mmfs: []*pb.MatchmakingFunctionSpec{x.w.MMF.Register(v, f)}})
	n := 0
	late := time.AfterFunc(15*time.Second, cancel)
	for err == nil {
		_, err = st.Recv()
		if err == nil {
			n++
			if n == 1 {
				late.Stop()
				close(got)
			}
		}
	}
	if !x.w.Check(x.c) {
		return
	}
	x.w.Rec.Add("prompt", Ev{"what": "matches", "n": n, "want": 2, "end": said(err)})
}

// patient: a call may take its time; nothing in between cuts it off.
func (x *gscen) patient(d time.Duration) {
	ctx, cancel := ctxT(d + 30*time.Second)
	defer cancel()
	v := fmt.Sprintf("i%d", x.w.uniq())
	gap := Step{Sleep: d / 2}
	f := &Fn{Kind: "ok", NoRead: true, Steps: []Step{gap, {Match: x.w.MatchOf(nil)}, gap, {Match: x.w.MatchOf(nil)}}}
	st, err := x.c.HCli.InvokeMatchmakingFunctions(ctx, &pb.MmfRequest{Profile: &pb.Profile{Name: v}, Mmfs: []*pb.MatchmakingFunctionSpec{x.w.MMF.Register(v, f)}})
	n := 0
	for err == nil {
		if _, err = st.Recv(); err == nil {
			n++
		}
	}
	if !x.w.Check(x.c) {
		return
	}
	x.w.Rec.Add("prompt", Ev{"what": "slow matches", "n": n, "want": 2, "end": said(err)})
}

// promptWatch: the same, for assignments.
func (x *gscen) promptWatch(a, b string) {
	ctx, cancel := ctxT(30 * time.Second)
	defer cancel()
	assign := func(id string) {
		x.c.GCli.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: x.w.NewAssignment(), Tickets: []*pb.Ticket{{Id: id}}}})
	}
	assign(a)
	st, err := x.c.HCli.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: []string{a, b}})
	n := 0
	late := time.AfterFunc(15*time.Second, cancel)
	for err == nil {
		_, err = st.Recv()
		if err == nil {
			n++
			if n == 1 {
				late.Stop()
				assign(b)
			}
		}
	}
	if !x.w.Check(x.c) {
		return
	}
	x.w.Rec.Add("prompt", Ev{"what": "assignments", "n": n, "want": 2, "end": said(err)})
}

// raw sends something that is no message, or a message in an unusual dress.
func (x *gscen) raw(name, body string, want ...codes.Code) {
	ctx, cancel := ctxT(20 * time.Second)
	defer cancel()
	x.take()
	var err error
	if name == "InvokeMatchmakingFunctions" || name == "WatchAssignments" {
		f := &frames{h: x.c.HCli, ctx: ctx, name: name, body: []byte(body)}
		for err == nil {
			var out proto.Message = &pb.StreamedMmfResponse{}
			if name == "WatchAssignments" {
				out = &pb.StreamedWatchAssignmentsResponse{}
			}
			err = f.next(out)
		}
	} else {
		var out proto.Message = &pb.CreateTicketResponse{}
		if name != "CreateTicket" {
			out = &pb.ActivateTicketsResponse{}
		}
		err = x.c.HCli.raw(ctx, name, []byte(body), out)
	}
	if err == io.EOF {
		err = nil
	}
	if !x.w.Check(x.c) {
		return
	}
	ws := []string{}
	for _, c := range want {
		ws = append(ws, c.String())
	}
	n := 0
	if s := x.take(); s != "" {
		n = len(strings.Split(s, "\n"))
	}
	x.w.Rec.Add("raw", Ev{"m": name, "body": short([]byte(body)), "code": status.Code(err).String(), "want": ws, "stored": n, "msg": said(err)})
}

func gateway(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	env := randEnv(r)
	env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = "50"
	env["OM_REDIS_POOL_MAX_ACTIVE"] = "50"
	env["OM_MAX_STATE_UPDATES_PER_CALL"] = "12"
	env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = []string{"true", "false"}[k%2]
	env["OM_MMF_TIMEOUT_SECS"] = []string{"200", "20"}[min(k, 1)]
	env["OM_CACHE_TICKET_TTL_SECS"] = "600"
	w := NewWorld(o.Bin, seed, false, env)
	w.Rec.Only = map[string]bool{"http": true, "pair": true, "prompt": true, "raw": true, "died": true, "stuck": true, "unserviceable": true}
	x := &gscen{w: w, r: r}
	w.Spy = x.spy
	x.c = w.AddCore("A0", nil)
	var ids []string
	for j := 0; j < 10; j++ {
		if id, err := w.Create(x.c, jsonTicket(r, "all")); err == nil {
			ids = append(ids, id)
		}
	}
	if len(ids) < 10 {
		w.Rec.Add("unserviceable", Ev{"what": "tickets"})
		o.Save(w, "gateway")
		return
	}
	w.Act(x.c, ids...)
	w.Sync(x.c, x.c)
	unary := func(what string, f func(ctx context.Context, c pb.OpenMatchServiceClient) error) {
		x.pair(what, func(ctx context.Context, c pb.OpenMatchServiceClient) string { return said(f(ctx, c)) })
	}
	some := func() []string {
		var out []string
		for n := pick(r, 0, 1, 2, 5, 11, 12, 13); n > 0; n-- {
			if r.Intn(4) == 0 {
				out = append(out, strings.ToValidUTF8(badForms[r.Intn(len(badForms))], ""))
			} else {
				out = append(out, ids[r.Intn(len(ids))])
			}
		}
		return out
	}
	steps := []func(){
		func() {
			t := jsonTicket(r)
			unary("ticket", func(ctx context.Context, c pb.OpenMatchServiceClient) error {
				_, err := c.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: t})
				return err
			})
		},
		func() {
			unary("no ticket", func(ctx context.Context, c pb.OpenMatchServiceClient) error {
				_, err := c.CreateTicket(ctx, &pb.CreateTicketRequest{})
				return err
			})
		},
		func() { // larger than a message may be
			t := jsonTicket(r)
			t.Extensions = bigExt(pick(r, 5000000, 4200000, 3900000))
			unary("big ticket", func(ctx context.Context, c pb.OpenMatchServiceClient) error {
				_, err := c.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: t})
				return err
			})
		},
		func() {
			l := some()
			unary("activate", func(ctx context.Context, c pb.OpenMatchServiceClient) error {
				_, err := c.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: l})
				return err
			})
		},
		func() {
			l := some()
			unary("deactivate", func(ctx context.Context, c pb.OpenMatchServiceClient) error {
				_, err := c.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: l})
				return err
			})
		},
		func() {
			ro := &pb.Roster{Name: "r", Assignment: pick(r, nil, &pb.Assignment{Connection: "1.2.3.4:5", Extensions: anys(r)}, &pb.Assignment{Connection: "é\"\n\x00", Extensions: anys(r)})}
			for _, id := range some() {
				ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
			}
			if r.Intn(8) == 0 {
				ro = nil
			}
			unary("assign", func(ctx context.Context, c pb.OpenMatchServiceClient) error {
				_, err := c.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
				return err
			})
		},
		func() { // with functions
			w.Act(x.c, ids...)
			if !w.sync(x.c, x.c, true) {
				return
			}
			prof := &pb.Profile{Name: pick(r, "", "p", "é \"\n"), Pools: map[string]*pb.Pool{"all": tagPool("all", "all")}, Extensions: anys(r)}
			for n := r.Intn(3); n > 0; n-- {
				key := pick(r, "x", "", "é/1")
				prof.Pools[key] = richPool(r, key)
			}
			var ms [][]*pb.Match
			var kinds []string
			for n := 1 + r.Intn(3); n > 0; n-- {
				var l []*pb.Match
				for j := r.Intn(5); j > 0; j-- {
					m := w.MatchOf(nil, nil)
					m.Extensions = anys(r)
					for _, ro := range m.Rosters {
						ro.Name = pick(r, "", "n")
						ro.Assignment = &pb.Assignment{Connection: "c", Extensions: anys(r)}
						for i := r.Intn(3); i > 0; i-- {
							ro.Tickets = append(ro.Tickets, jsonTicket(r)) // with ids that are none
						}
					}
					if r.Intn(8) == 0 {
						m.Extensions = bigExt(3000000)
					}
					l = append(l, m)
				}
				ms = append(ms, l)
				kinds = append(kinds, pick(r, "ok", "ok", "err"))
			}
			x.pair("invoke", func(ctx context.Context, c pb.OpenMatchServiceClient) string {
				return x.invoke(ctx, c, prof, ms, kinds)
			})
		},
		func() {
			prof := &pb.Profile{Name: "p"}
			ff := []*pb.MatchmakingFunctionSpec{{Name: "n", Host: "127.0.0.1", Port: 9, Type: pb.MatchmakingFunctionSpec_REST}}
			q := pick(r, &pb.MmfRequest{}, &pb.MmfRequest{Profile: prof}, &pb.MmfRequest{Mmfs: ff}, &pb.MmfRequest{Profile: prof, Mmfs: ff})
			x.pair("invoke void", func(ctx context.Context, c pb.OpenMatchServiceClient) string {
				st, err := c.InvokeMatchmakingFunctions(ctx, q)
				n := 0
				for err == nil {
					_, err = st.Recv()
					n++
				}
				return fmt.Sprint(said(err), n)
			})
		},
		func() {
			a := &pb.Assignment{Connection: "w", Extensions: anys(r)}
			ro := &pb.Roster{Assignment: a, Tickets: []*pb.Ticket{{Id: ids[0]}, {Id: ids[1]}, {Id: ids[2]}}}
			x.c.GCli.CreateAssignments(context.Background(), &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
			w.Sync(x.c, x.c)
			l := pick(r, []string{}, []string{ids[0]}, []string{ids[2], ids[1], ids[2]})
			x.pair("watch", func(ctx context.Context, c pb.OpenMatchServiceClient) string { return x.watch(ctx, c, l) })
		},
		func() { x.prompt() },
		func() { x.promptWatch(ids[r.Intn(3)], ids[3+r.Intn(7)]) },
		func() {
			name := pick(r, "CreateTicket", "ActivateTickets", "DeactivateTickets", "CreateAssignments", "InvokeMatchmakingFunctions")
			x.raw(name, pick(r, "{", "[]", "nonsense", `{"ticketIds": 5, "ticket": 5, "assignmentRoster": 5, "profile": 5}`, "\"x\"", "{\"ticket_ids\": [\"1-1\", {}], \"ticket\": {\"id\": {}}, \"profile\": [], \"assignment_roster\": []}", "null,"), codes.InvalidArgument)
		},
		func() { // the body of a message without content may be missing
			name := pick(r, "CreateTicket", "ActivateTickets", "DeactivateTickets", "CreateAssignments", "InvokeMatchmakingFunctions")
			x.raw(name, pick(r, "", "{}"), codes.InvalidArgument)
		},
		func() { x.raw("WatchAssignments", pick(r, "", "{}", `{"ticketIds":[]}`), codes.OK) },
		func() {
			x.raw(pick(r, "ActivateTickets", "DeactivateTickets"), fmt.Sprintf(pick(r, `{"ticketIds":["%s"]}`, `{"ticket_ids":["%s"]}`, "\n{ \"ticketIds\" :\n[\"%s\"]\n}\n"), ids[r.Intn(len(ids))]), codes.OK)
		},
	}
	slow := make(chan struct{})
	go func() {
		defer close(slow)
		switch {
		case k == 0 && o.Thorough():
			x.patient(130 * time.Second)
		case k == 0:
			x.patient(34 * time.Second)
		}
	}()
	rounds := 4
	if o.Thorough() {
		rounds = 12
	}
	for j := 0; j < rounds; j++ {
		for _, i := range r.Perm(len(steps)) {
			if w.Dead() || !w.Check(x.c) {
				break
			}
			steps[i]()
		}
	}
	<-slow
	o.Save(w, "gateway")
}
