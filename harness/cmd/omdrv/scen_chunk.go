package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
)

func init() {
	families["chunk"] = func(o *Opts) { parallel(o, 3, func(k int, seed int64) { chunk(o, seed, k) }) }
}

const grpcLimit = 4194304

type cgroup struct {
	a, b int
	tags []string
}

type cscen struct {
	w      *World
	c      *Core
	r      *rand.Rand
	n      int
	num    map[string]int
	groups []cgroup
	all    []*pb.Ticket
	mute   bool
}

func junk(r *rand.Rand, n int) *anypb.Any {
	b := make([]byte, n)
	r.Read(b)
	a, err := anypb.New(wrapperspb.Bytes(b))
	must(err)
	return a
}

// fill adds n active tickets of about the given size, all with the same tags.
func (x *cscen) fill(n, size int, tags ...string) bool {
	return x.sizes(tags, func(int) int { return size + x.r.Intn(1+size/10) }, n)
}

func (x *cscen) sizes(tags []string, size func(int) int, n int) bool {
	a := x.n + 1
	ids := make([]string, n)
	ts := make([]*pb.Ticket, n)
	for j := range ts {
		s := size(j)
		t := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: append([]string{}, tags...), StringArgs: map[string]string{"vp": fmt.Sprint(a + j)}}}
		if s < 0 { // as small as can be
			t.Attributes.StringArgs = nil
		}
		if s > 60 {
			t.Extensions = map[string]*anypb.Any{"e": junk(x.r, s-60)}
		}
		ts[j] = t
	}
	if x.w.Redis != nil {
		now := time.Now()
		for j, t := range ts {
			ids[j] = x.w.Redis.Inject(-1, "ticket", x.w.Marshal(t, now, time.Hour)).ID()
			x.w.Redis.Inject(-1, "activate", ids[j])
		}
	} else {
		each(n, func(j int) { ids[j], _ = x.w.Create(x.c, ts[j]) })
		for j := 0; j < n; j += 400 {
			if x.w.Act(x.c, ids[j:min(n, j+400)]...) != nil {
				x.broken("activation failed")
				return false
			}
		}
	}
	for j, id := range ids {
		if id == "" {
			x.broken("creation failed")
			return false
		}
		x.num[id] = a + j
		c := proto.Clone(ts[j]).(*pb.Ticket)
		c.Id = id
		c.Attributes.CreationTime, c.ExpirationTime = timestamppb.Now(), timestamppb.Now()
		x.all = append(x.all, c)
	}
	x.n += n
	x.groups = append(x.groups, cgroup{a, x.n, tags})
	return true
}

func (x *cscen) sync() bool {
	if !x.w.Sync(x.c, x.c) {
		x.broken("not applied")
		return false
	}
	return true
}

func (x *cscen) broken(what string) {
	if !x.mute {
		x.mute = true
		x.w.Rec.Add("noanswer", Ev{"what": what})
	}
}

func specOf(p *pb.Pool) string {
	if p == nil {
		p = &pb.Pool{}
	}
	q := proto.Clone(p).(*pb.Pool)
	q.Participants = nil
	return hash8(q)
}
func extOf(p *pb.Profile) string { return hash8(&pb.Profile{Extensions: p.GetExtensions()}) }
func nameOf(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%d:%s", len(s), hash8(&pb.Profile{Name: s}))
	}
	return s
}

func tagPool(name string, tags ...string) *pb.Pool {
	p := &pb.Pool{Name: name}
	for _, t := range tags {
		p.TagPresentFilters = append(p.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: t})
	}
	return p
}

// within says by how much the empty profile with any one of its tickets stays below what can be sent.
func (x *cscen) room(prof *pb.Profile) int {
	most := 0
	for key, p := range prof.GetPools() {
		big := &pb.Ticket{}
		for _, t := range x.all {
			if proto.Size(t) > proto.Size(big) {
				ok := true
				for _, f := range p.GetTagPresentFilters() {
					has := false
					for _, g := range t.GetAttributes().GetTags() {
						has = has || g == f.GetTag()
					}
					ok = ok && has
				}
				if ok {
					big = t
				}
			}
		}
		q := proto.Clone(prof).(*pb.Profile)
		for k2 := range q.Pools {
			if q.Pools[k2] == nil {
				q.Pools[k2] = &pb.Pool{}
			}
			q.Pools[k2].Participants = &pb.Roster{Name: k2 + "_roster"}
		}
		q.Pools[key].Participants.Tickets = []*pb.Ticket{big}
		if s := proto.Size(&pb.ChunkedMmfRunRequest{Profile: q, NumChunks: 1 << 30}); s > most {
			most = s
		}
		if len(prof.GetPools()) > 40 {
			most += 300 // near enough
			break
		}
	}
	return grpcLimit - most
}

// ask sends the profile through nf functions and records the chunks that each received.
func (x *cscen) ask(prof *pb.Profile, nf int) {
	if x.mute {
		return
	}
	fs := make([]*Fn, nf)
	for j := range fs {
		fs[j] = &Fn{Kind: "ok", Keep: true}
	}
	err := x.w.RunProfile(x.c, prof, fs...)
	if err != nil {
		if !x.w.Check(x.c) {
			return
		}
	}
	groups, pools := []Ev{}, []Ev{}
	for _, g := range x.groups {
		groups = append(groups, Ev{"a": g.a, "b": g.b, "tags": append([]string{}, g.tags...)})
	}
	for k, p := range prof.GetPools() {
		tags := []string{}
		for _, f := range p.GetTagPresentFilters() {
			tags = append(tags, f.GetTag())
		}
		ct := p.GetCreationTimeRangeFilter()
		ok := (ct.GetStart() == nil || ct.GetStart().IsValid()) && (ct.GetEnd() == nil || ct.GetEnd().IsValid())
		pools = append(pools, Ev{"key": nameOf(k), "spec": specOf(p), "tags": tags, "ok": ok})
	}
	room := x.room(prof)
	req := Ev{"name": nameOf(prof.GetName()), "ext": extOf(prof), "big": room < 0, "pools": pools, "groups": groups}
	for _, f := range fs {
		f.mu.Lock()
		chunks := []Ev{}
		for j, c := range f.Chunks {
			ps := []Ev{}
			for k, p := range c.GetProfile().GetPools() {
				tix := []int{}
				for _, t := range p.GetParticipants().GetTickets() {
					if n, ok := x.num[t.GetId()]; ok {
						tix = append(tix, n)
					} else if !strings.HasPrefix(strings.Join(t.GetAttributes().GetTags(), ""), "sync") {
						tix = append(tix, 0)
					}
				}
				ps = append(ps, Ev{"key": nameOf(k), "spec": specOf(p), "tix": tix})
			}
			chunks = append(chunks, Ev{"n": c.GetNumChunks(), "size": f.Sizes[j], "name": nameOf(c.GetProfile().GetName()), "ext": extOf(c.GetProfile()), "pools": ps})
		}
		x.w.Rec.Add("cfn", Ev{"f": f.name, "req": req, "chunks": chunks, "extra": f.Extra, "short": f.Short})
		f.mu.Unlock()
	}
	if err != nil {
		x.broken(err.Error())
	}
}

func chunk(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	kind := k % 7
	w := NewWorld(o.Bin, seed, kind == 6, map[string]string{"OM_CACHE_TICKET_TTL_SECS": "3600", "OM_REDIS_POOL_MAX_ACTIVE": "50"})
	w.Rec.Only = map[string]bool{"cfn": true, "died": true, "noanswer": true}
	w.Limit = 40 * time.Second
	x := &cscen{w: w, c: w.AddCore("A0", nil), r: r, num: map[string]int{}}
	defer o.Save(w, "chunk")
	prof := func(name string) *pb.Profile {
		p := &pb.Profile{Name: name, Pools: map[string]*pb.Pool{}}
		if r.Intn(2) == 0 {
			p.Extensions = map[string]*anypb.Any{"x": junk(r, 1+r.Intn(2000)), "": junk(r, 0)}
		}
		return p
	}
	invalid := func(p *pb.Pool) *pb.Pool {
		p.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: &timestamppb.Timestamp{Nanos: -1}}
		return p
	}
	switch kind {
	case 0, 6: // small ones, none at all, missing parts
		p := prof("none")
		p.Pools = nil
		x.ask(p, 1)
		p = prof("")
		p.Pools["p"] = nil
		p.Pools[""] = tagPool("other name", "a")
		x.ask(p, 2)
		if !x.fill(7, 0, "a") || !x.fill(5, 200, "a", "b") || !x.fill(1, 0) || !x.sync() {
			return
		}
		for j := 0; j < 4; j++ {
			p := prof(pick(r, "", "prof", "ü\n", strings.Repeat("n", 500)))
			p.Pools["all"] = pick(r, nil, &pb.Pool{}, &pb.Pool{Name: "all"})
			p.Pools["a"] = tagPool("a", "a")
			p.Pools["ab"] = tagPool("AB", "b", "a")
			p.Pools[""] = tagPool("", "c")
			c := p.Pools[""] // no tickets, but filters of every kind
			c.DoubleRangeFilters = []*pb.Pool_DoubleRangeFilter{{DoubleArg: "x", Minimum: -1, Maximum: 2.5, Bounds: pb.Pool_FilterBounds(r.Intn(4))}, {}}
			c.StringEqualsFilters = []*pb.Pool_StringEqualsFilter{{StringArg: "s", Value: "v"}, {}}
			c.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: timestamppb.New(time.Unix(5, 7)), End: timestamppb.Now(), Bounds: pb.Pool_FilterBounds(r.Intn(4))}
			c.Extensions = map[string]*anypb.Any{"q": junk(r, r.Intn(300)), "r": nil}
			p.Pools["b"] = tagPool("b", "b")
			p.Pools["b"].Extensions = map[string]*anypb.Any{"q": junk(r, r.Intn(300))}
			p.Pools["b"].DoubleRangeFilters = []*pb.Pool_DoubleRangeFilter{}
			if j%2 == 1 {
				p.Pools["bad"] = invalid(tagPool("bad", "a"))
				// what the caller puts into a pool does not count
				p.Pools["a"].Participants = &pb.Roster{Name: "mine", Tickets: []*pb.Ticket{{Id: "1-1"}, {Id: "2-2"}}}
				p.Pools["ab"].Participants = &pb.Roster{Tickets: []*pb.Ticket{x.all[0]}}
			}
			x.ask(p, 1+r.Intn(4))
		}
	case 1: // many small tickets
		n := 9000 + r.Intn(9000)
		if !x.fill(n, 200, "a") || !x.sizes([]string{"t"}, func(int) int { return -1 }, 16000) || !x.fill(3000, 500, "a", "b") || !x.fill(10, 100, "c") || !x.sync() {
			return
		}
		p := prof("many")
		p.Pools["a"], p.Pools["b"], p.Pools["c"], p.Pools["d"] = tagPool("a", "a"), tagPool("b", "b"), tagPool("c", "c"), tagPool("d", "d")
		x.ask(p, 2)
		p = prof("tiny")
		for j := 0; j < 10; j++ { // the same ones in many pools
			p.Pools[fmt.Sprint(j)] = tagPool("", "t")
		}
		x.ask(p, 1)
		p = prof("one")
		p.Pools["a"] = tagPool("a", "a")
		p.Extensions = map[string]*anypb.Any{"x": junk(r, 3000000)}
		x.ask(p, 1)
	case 2: // tickets of some hundred kB
		if !x.fill(8, 300000, "a") || !x.fill(12, 150000, "a", "b") || !x.fill(20, 1000, "b", "c") || !x.fill(3, 1000000+r.Intn(1000000), "c") || !x.sync() {
			return
		}
		for j := 0; j < 3; j++ {
			p := prof("medium")
			for _, t := range []string{"a", "b", "c", "d"} {
				p.Pools[t+"pool"] = tagPool(t, t)
			}
			p.Pools["bc"] = tagPool("bc", "b", "c")
			if j > 0 {
				p.Extensions = map[string]*anypb.Any{"x": junk(r, r.Intn(2000000))}
			}
			if j == 2 {
				p.Pools["ipool"] = invalid(tagPool("i"))
			}
			x.ask(p, 1+j)
		}
	case 3: // tickets that nearly fill a chunk, or need it whole
		if !x.sizes([]string{"a"}, func(j int) int { return []int{4180000, 3999500, 2000100, 1999000, 3990000, 10, 1000000}[j] }, 7) || !x.fill(3, 50, "a") || !x.sync() {
			return
		}
		p := prof("nearly")
		p.Extensions = nil
		p.Pools["a"] = tagPool("a", "a")
		p.Pools["none"] = tagPool("none", "none")
		x.ask(p, 2)
		p.Pools["again"] = tagPool("again", "a")
		x.ask(p, 1)
	case 4: // a big profile
		if !x.fill(30, 20000, "a") || !x.fill(40, 500, "b", "a") || !x.sizes([]string{"d"}, func(int) int { return 100000 }, 1) || !x.sync() {
			return
		}
		for _, s := range []int{3500000, 3950000, 4000000, 4085000} {
			p := prof("big")
			p.Extensions = map[string]*anypb.Any{"x": junk(r, s)}
			p.Pools["a"], p.Pools["b"], p.Pools["none"] = tagPool("a", "a"), tagPool("b", "b"), tagPool("none", "none")
			if s < 4000000 {
				p.Pools["d"] = tagPool("d", "d")
			}
			x.ask(p, 1+r.Intn(2))
		}
	case 5: // big pools, and many
		if !x.fill(25, 40000, "a") || !x.fill(15, 300, "a", "b") || !x.sync() {
			return
		}
		p := prof("bigpools")
		for j := 0; j < 6; j++ {
			q := tagPool(strings.Repeat("x", 100000*(j%2)), pick(r, "a", "b"))
			q.Extensions = map[string]*anypb.Any{"x": junk(r, r.Intn(400000))}
			p.Pools[strings.Repeat("k", 1+150000*(j/3))+fmt.Sprint(j)] = q
		}
		x.ask(p, 2)
		p = prof("manypools")
		for j := 0; j < 600+r.Intn(600); j++ {
			p.Pools[fmt.Sprintf("pool number %d", j)] = tagPool(fmt.Sprint(j), pick(r, "b", "none"))
		}
		x.ask(p, 1)
		p = prof("full pools")
		p.Pools["a"] = tagPool("a", "a")
		p.Pools["a"].Participants = &pb.Roster{Tickets: []*pb.Ticket{{Id: "9-9", Extensions: map[string]*anypb.Any{"x": junk(r, 3000000)}}}}
		p.Pools["b"] = tagPool("b", "b")
		x.ask(p, 1)
	}
}
