package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func init() {
	families["times"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { times(o, seed, k) }) }
}

// stamp gives the exact parts of a timestamp, within the integers TLC has.
func stamp(t *timestamppb.Timestamp) []int64 {
	d := t.GetSeconds() / 86400
	s := t.GetSeconds() % 86400
	if s < 0 {
		s += 86400
		d--
	}
	if d > 1<<30 {
		d = 1 << 30
	}
	if d < -1<<30 {
		d = -1 << 30
	}
	return []int64{d, s, int64(t.GetNanos())}
}

func sub(t *timestamppb.Timestamp) Ev { return Ev{"has": t != nil, "at": stamp(t)} }

// content is everything a creator puts into a ticket except the times and the id.
func content(t *pb.Ticket) Ev {
	strs, dbls, exts := [][]string{}, [][]string{}, [][]string{}
	for k, v := range t.GetAttributes().GetStringArgs() {
		strs = append(strs, []string{k, v})
	}
	for k, v := range t.GetAttributes().GetDoubleArgs() {
		x := fmt.Sprintf("%016x", math.Float64bits(v))
		if math.IsNaN(v) {
			x = "nan"
		}
		dbls = append(dbls, []string{k, x})
	}
	for k, v := range t.GetExtensions() {
		b := v.GetValue()
		if len(b) > 64 {
			b = append([]byte(fmt.Sprintf("%d:%s:", len(b), hash8(v))), b[:32]...)
		}
		exts = append(exts, []string{k, v.GetTypeUrl(), hex.EncodeToString(b)})
	}
	for _, l := range [][][]string{strs, dbls, exts} {
		sort.Slice(l, func(a, b int) bool { return l[a][0] < l[b][0] })
	}
	tags := t.GetAttributes().GetTags()
	if tags == nil {
		tags = []string{}
	}
	return Ev{"tags": tags, "strs": strs, "dbls": dbls, "exts": exts, "unknown": hex.EncodeToString(append(append([]byte{}, t.ProtoReflect().GetUnknown()...), t.GetAttributes().ProtoReflect().GetUnknown()...))}
}

// richTicket is a ticket with random content of every kind.
func richTicket(r *rand.Rand) *pb.Ticket {
	t := &pb.Ticket{}
	if r.Intn(8) == 0 {
		return t
	}
	t.Attributes = &pb.Ticket_FilterableData{}
	words := []string{"", "a", "A", "é日本", "\x00", "a b", "\"q\"", strings.Repeat("long", 200), "\r\n", "$5", "*", "\\"}
	for n := r.Intn(4); n > 0; n-- {
		t.Attributes.Tags = append(t.Attributes.Tags, words[r.Intn(len(words))])
	}
	for n := r.Intn(4); n > 0; n-- {
		if t.Attributes.StringArgs == nil {
			t.Attributes.StringArgs = map[string]string{}
		}
		t.Attributes.StringArgs[words[r.Intn(len(words))]] = words[r.Intn(len(words))]
	}
	fl := []float64{0, math.Copysign(0, -1), 1.5, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1 << 60}
	for n := r.Intn(4); n > 0; n-- {
		if t.Attributes.DoubleArgs == nil {
			t.Attributes.DoubleArgs = map[string]float64{}
		}
		t.Attributes.DoubleArgs[words[r.Intn(len(words))]] = fl[r.Intn(len(fl))]
	}
	for n := r.Intn(3); n > 0; n-- {
		if t.Extensions == nil {
			t.Extensions = map[string]*anypb.Any{}
		}
		b := make([]byte, r.Intn(40))
		r.Read(b)
		if r.Intn(20) == 0 {
			b = make([]byte, 1000000)
			r.Read(b)
		}
		t.Extensions[words[r.Intn(len(words))]] = &anypb.Any{TypeUrl: pick(r, "", "type.googleapis.com/x", "no such"), Value: b}
	}
	if r.Intn(3) == 0 {
		t.Id = pick(r, "x", "1-1", "0-0", "999999999999999-0")
	}
	return t
}

// times creates tickets with all kinds of submitted times and contents.
func times(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	ttl := pick(r, 600, 30, 90000, 3600)
	mem := k%4 == 3
	env := randEnv(r)
	env["OM_CACHE_TICKET_TTL_SECS"] = fmt.Sprint(ttl)
	env["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = "20"
	w := NewWorld(o.Bin, seed, mem, env)
	w.Rec.Only = map[string]bool{"made": true, "notmade": true, "died": true, "unserviceable": true}
	c := w.AddCore("A0", nil)
	life := time.Duration(ttl) * time.Second
	now := time.Now()
	ts := timestamppb.New
	cs := []*timestamppb.Timestamp{nil, ts(now), ts(now.Add(-10 * time.Second)), ts(now.Add(10 * time.Second)), ts(now.Add(-life)), ts(now.Add(-life - time.Hour)),
		ts(now.Add(100 * life)), {}, {Seconds: -62135596800}, {Seconds: 253402300799, Nanos: 999999999}, {Seconds: now.Unix(), Nanos: 999999999},
		{Seconds: -62135596801}, {Seconds: 253402300800}, {Seconds: now.Unix(), Nanos: -1}, {Seconds: now.Unix(), Nanos: 1000000000}, {Seconds: math.MaxInt64}, {Seconds: math.MinInt64}, {Seconds: -1, Nanos: 1}}
	type job struct {
		t             *pb.Ticket
		id            string
		before, after time.Time
	}
	var jobs []*job
	for _, ct := range cs {
		base := now
		if ct.IsValid() {
			base = ct.AsTime()
		}
		lim := base.Add(life)
		es := []*timestamppb.Timestamp{nil, ts(lim), ts(lim.Add(-1)), ts(lim.Add(1)), ts(lim.Add(time.Second)), ts(lim.Add(-time.Second)), ts(base), ts(base.Add(-1)),
			ts(base.Add(-1000 * time.Hour)), ts(now), ts(now.Add(-time.Second)), ts(now.Add(life)), ts(now.Add(5 * time.Second)), {}, {Seconds: -62135596800}, {Seconds: 253402300799, Nanos: 999999999},
			{Seconds: 253402300800}, {Seconds: now.Unix() + 1, Nanos: -1}, {Seconds: now.Unix() + 1, Nanos: 1000000000}, {Seconds: math.MinInt64}, ts(lim.Add(1000 * time.Hour))}
		for _, et := range es {
			t := richTicket(r)
			if ct != nil {
				if t.Attributes == nil {
					t.Attributes = &pb.Ticket_FilterableData{}
				}
				t.Attributes.CreationTime = ct
			}
			t.ExpirationTime = et
			jobs = append(jobs, &job{t: t})
		}
	}
	r.Shuffle(len(jobs), func(a, b int) { jobs[a], jobs[b] = jobs[b], jobs[a] })
	var mu sync.Mutex
	by := map[string]*job{}
	for k := 0; k < len(jobs); k += 60 {
		g := jobs[k:min(len(jobs), k+60)]
		each(len(g), func(j int) {
			x := g[j]
			x.before = time.Now()
			id, err := w.Create(c, proto.Clone(x.t).(*pb.Ticket))
			x.after = time.Now()
			if err != nil {
				if w.Check(c) {
					w.Rec.Add("notmade", Ev{"why": err.Error(), "ticket": fmt.Sprint(content(x.t))})
				}
				return
			}
			x.id = id
			mu.Lock()
			by[id] = x
			mu.Unlock()
		})
	}
	made := func(where string, x *job, t *pb.Ticket) {
		w.Rec.Add("made", Ev{"where": where, "id": x.id, "ttl": ttl, "before": stamp(ts(x.before.Add(-20 * time.Millisecond))), "after": stamp(ts(x.after.Add(20 * time.Millisecond))),
			"sub": Ev{"content": content(x.t), "c": sub(x.t.GetAttributes().GetCreationTime()), "e": sub(x.t.ExpirationTime)},
			"got": Ev{"content": content(t), "c": sub(t.GetAttributes().GetCreationTime()), "e": sub(t.ExpirationTime), "id": t.Id}})
	}
	if !mem {
		for _, e := range w.Redis.Log() {
			x := by[e.ID()]
			if e.Fields[0] != "ticket" || x == nil {
				continue
			}
			t := &pb.Ticket{}
			if proto.Unmarshal([]byte(e.Fields[1]), t) != nil {
				w.Rec.Add("notmade", Ev{"why": "stored undecodably", "ticket": fmt.Sprint(content(x.t))})
				continue
			}
			made("log", x, t)
		}
	}
	// and as functions see them
	var ids []string
	for id := range by {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	max := 500
	if v, ok := env["OM_MAX_STATE_UPDATES_PER_CALL"]; ok {
		fmt.Sscan(v, &max)
	}
	for k := 0; k < len(ids); k += max {
		w.Act(c, ids[k:min(len(ids), k+max)]...)
	}
	w.Sync(c, c)
	f := &Fn{Kind: "ok"}
	if w.Check(c) && w.RunProfile(c, &pb.Profile{Name: "all", Pools: map[string]*pb.Pool{"all": {}}}, f) == nil {
		for _, t := range f.pools["all"] {
			if x := by[t.GetId()]; x != nil {
				made("pool", x, t)
			}
		}
	}
	o.Save(w, "times")
}
