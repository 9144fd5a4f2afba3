package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func init() {
	families["filter"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { filters(o, seed, k) }) }
}

// The abstract cases as the specification writes them (Filters.tla).
type aDbl struct {
	Arg    string `json:"arg"`
	Min    int    `json:"min"`
	Max    int    `json:"max"`
	Bounds int    `json:"bounds"`
}
type aTime struct {
	On     bool `json:"on"`
	Start  int  `json:"start"`
	End    int  `json:"end"`
	Bounds int  `json:"bounds"`
}
type aPool struct {
	Tags []string    `json:"tags"`
	Strs [][2]string `json:"strs"`
	Dbls []aDbl      `json:"dbls"`
	Ct   aTime       `json:"ct"`
}
type aTicket struct {
	Tags []string `json:"tags"`
	Strs [][]any  `json:"strs"`
	Dbls [][]any  `json:"dbls"`
	Ct   int      `json:"ct"`
}
type aCases struct {
	Tickets []aTicket `json:"tickets"`
	Pools   []aPool   `json:"pools"`
}

const (
	aNaN     = 1000
	aNone    = 1001
	aInvalid = 1002
)

// concrete maps abstract values to concrete ones: order-preserving for numbers and times, one-to-one for strings.
type concrete struct {
	r     *rand.Rand
	dbl   map[int]float64
	tim   map[int]time.Time
	str   map[string]string
	spare []string
}

func newConcrete(r *rand.Rand) *concrete {
	c := &concrete{r: r, dbl: map[int]float64{}, tim: map[int]time.Time{}, str: map[string]string{}}
	x := r.NormFloat64() * 1000
	vals := []float64{math.Inf(-1), -math.MaxFloat64, -1e300, -12.5, -1, math.Nextafter(-1, 0), -math.SmallestNonzeroFloat64, 0,
		math.SmallestNonzeroFloat64, 0.1, math.Nextafter(0.1, 1), 1, 2, 1 << 53, 1<<53 + 2, 1e300, math.MaxFloat64, math.Inf(1), x, math.Nextafter(x, 1e9)}
	sort.Float64s(vals)
	r.Shuffle(len(vals), func(a, b int) { vals[a], vals[b] = vals[b], vals[a] })
	sel := []float64{}
	for _, v := range vals {
		dup := false
		for _, w := range sel {
			dup = dup || w == v
		}
		if !dup && len(sel) < 11 {
			sel = append(sel, v)
		}
	}
	sort.Float64s(sel)
	for i, v := range sel {
		c.dbl[i-5] = v
	}
	t := time.Date(1980+r.Intn(40), 1+time.Month(r.Intn(12)), 1, 0, 0, 0, r.Intn(1e9), time.UTC)
	gaps := []time.Duration{1, 1, 999, time.Microsecond, time.Millisecond, time.Second, 24 * time.Hour, time.Second - 1}
	for i := 0; i <= 4; i++ {
		c.tim[i] = t
		t = t.Add(gaps[r.Intn(len(gaps))])
	}
	c.spare = []string{"elo", "Elo", "ELO", "x ", " x", "x", "é", "é", "null", "0", "false", "\x00", "%d", "a.b", "日本", "ß", "SS", "key", "Key", strings.Repeat("k", 300), "\n", "'"}
	r.Shuffle(len(c.spare), func(a, b int) { c.spare[a], c.spare[b] = c.spare[b], c.spare[a] })
	return c
}

// s keeps letter case related strings related: "a" and "A" may become "elo" and "ELO".
func (c *concrete) s(x string) string {
	if x == "" {
		return ""
	}
	if y, ok := c.str[x]; ok {
		return y
	}
	var y string
	if o, ok := c.str[strings.ToLower(x)]; ok && strings.ToLower(x) != x && strings.ToUpper(o) != o {
		y = strings.ToUpper(o)
		for _, z := range c.str {
			if z == y {
				y = ""
			}
		}
	}
	for y == "" {
		y = c.spare[0]
		c.spare = c.spare[1:]
		for _, z := range c.str {
			if z == y {
				y = ""
				break
			}
		}
	}
	c.str[x] = y
	return y
}

func (c *concrete) d(v int) float64 {
	if v == aNaN {
		return []float64{math.NaN(), math.Float64frombits(0xfff8000000000001), -math.NaN()}[c.r.Intn(3)]
	}
	f, ok := c.dbl[v]
	if !ok {
		fatalf("no double %d", v)
	}
	if f == 0 && c.r.Intn(2) == 0 {
		return math.Copysign(0, -1)
	}
	return f
}

func (c *concrete) t(v int) *timestamppb.Timestamp {
	switch v {
	case aNone:
		return nil
	case aInvalid:
		return []*timestamppb.Timestamp{{Seconds: 1, Nanos: -1}, {Nanos: 1000000000}, {Seconds: 253402300800}, {Seconds: -62135596801}, {Seconds: math.MaxInt64}}[c.r.Intn(5)]
	}
	x, ok := c.tim[v]
	if !ok {
		fatalf("no time %d", v)
	}
	return timestamppb.New(x)
}

func (c *concrete) pool(p aPool, name string) *pb.Pool {
	q := &pb.Pool{Name: name}
	for _, g := range p.Tags {
		q.TagPresentFilters = append(q.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: c.s(g)})
	}
	for _, s := range p.Strs {
		q.StringEqualsFilters = append(q.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: c.s(s[0]), Value: c.s(s[1])})
	}
	for _, d := range p.Dbls {
		q.DoubleRangeFilters = append(q.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{DoubleArg: c.s(d.Arg), Minimum: c.d(d.Min), Maximum: c.d(d.Max), Bounds: pb.Pool_FilterBounds(d.Bounds)})
	}
	if p.Ct.On {
		q.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: c.t(p.Ct.Start), End: c.t(p.Ct.End), Bounds: pb.Pool_FilterBounds(p.Ct.Bounds)}
	}
	return q
}

func (c *concrete) ticket(t aTicket) *pb.Ticket {
	a := &pb.Ticket_FilterableData{CreationTime: c.t(t.Ct)}
	for _, g := range t.Tags {
		a.Tags = append(a.Tags, c.s(g))
	}
	for _, s := range t.Strs {
		if a.StringArgs == nil {
			a.StringArgs = map[string]string{}
		}
		a.StringArgs[c.s(s[0].(string))] = c.s(s[1].(string))
	}
	for _, d := range t.Dbls {
		if a.DoubleArgs == nil {
			a.DoubleArgs = map[string]float64{}
		}
		a.DoubleArgs[c.s(d[0].(string))] = c.d(int(toF(d[1])))
	}
	return &pb.Ticket{Attributes: a}
}

func toF(x any) float64 {
	switch v := x.(type) {
	case float64:
		return v
	case int:
		return float64(v)
	}
	return 0
}

// randCases adds tickets and pools over a larger domain.
func randCases(r *rand.Rand, ntix, npools int) (ts []aTicket, ps []aPool) {
	args := []string{"x", "y", "X"}
	keys := []string{"s", "q", "S", ""}
	vals := []string{"", "a", "A", "b"}
	tags := []string{"t", "T", "u", ""}
	dv := func() int {
		if r.Intn(8) == 0 {
			return aNaN
		}
		return r.Intn(11) - 5
	}
	tg := func(n int) []string {
		out := []string{}
		for i := r.Intn(n); i > 0; i-- {
			out = append(out, tags[r.Intn(len(tags))])
		}
		return out
	}
	for i := 0; i < ntix; i++ {
		t := aTicket{Tags: tg(5), Strs: [][]any{}, Dbls: [][]any{}, Ct: r.Intn(5)}
		for _, k := range keys {
			if r.Intn(2) == 0 {
				t.Strs = append(t.Strs, []any{k, vals[r.Intn(len(vals))]})
			}
		}
		for _, k := range args {
			if r.Intn(3) > 0 {
				t.Dbls = append(t.Dbls, []any{k, dv()})
			}
		}
		ts = append(ts, t)
	}
	for i := 0; i < npools; i++ {
		p := aPool{Tags: tg(3), Strs: [][2]string{}, Dbls: []aDbl{}, Ct: aTime{Start: aNone, End: aNone}}
		for j := r.Intn(3); j > 0; j-- {
			p.Strs = append(p.Strs, [2]string{keys[r.Intn(len(keys))], vals[r.Intn(len(vals))]})
		}
		for j := r.Intn(3); j > 0; j-- {
			d := aDbl{args[r.Intn(len(args))], dv(), dv(), r.Intn(4)}
			if d.Min != aNaN && d.Max != aNaN && d.Min > d.Max && r.Intn(3) > 0 {
				d.Min, d.Max = d.Max, d.Min
			}
			p.Dbls = append(p.Dbls, d)
		}
		if r.Intn(6) == 0 {
			p.Ct = aTime{true, pick(r, 0, 1, 2, 3, 4, aNone), pick(r, 0, 1, 2, 3, 4, aNone), r.Intn(4)}
		}
		ps = append(ps, p)
	}
	return
}

// RunProfile makes an unrecorded invocation.
func (w *World) RunProfile(c *Core, prof *pb.Profile, fs ...*Fn) error {
	v := fmt.Sprintf("u%d", w.uniq())
	ctx, cancel := ctxT(w.Limit)
	defer cancel()
	req := &pb.MmfRequest{Profile: prof}
	for _, f := range fs {
		req.Mmfs = append(req.Mmfs, w.MMF.Register(v, f))
	}
	s, err := c.Cli.InvokeMatchmakingFunctions(ctx, req)
	for err == nil {
		_, err = s.Recv()
	}
	if err.Error() == "EOF" {
		return nil
	}
	return err
}

// filters fills pools of all kinds from tickets of all kinds.
func filters(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	b, err := os.ReadFile(o.Arg)
	must(err)
	cs := aCases{}
	must(json.Unmarshal(b, &cs))
	ts, ps := randCases(r, 120, 150)
	cs.Tickets = append(cs.Tickets, ts...)
	cs.Pools = append(cs.Pools, ps...)
	con := newConcrete(r)
	w := NewWorld(o.Bin, seed, k%4 == 3, map[string]string{"OM_CACHE_TICKET_TTL_SECS": "1500000000", "OM_REDIS_POOL_MAX_ACTIVE": "50"})
	w.Rec.Only = map[string]bool{"tickets": true, "fpool": true, "died": true, "noanswer": true, "unserviceable": true}
	c := w.AddCore("A0", nil)
	// one without any attributes; it is created now, after all the times that filters name
	cs.Tickets = append(cs.Tickets, aTicket{Tags: []string{}, Strs: [][]any{}, Dbls: [][]any{}, Ct: 5})
	index := map[string]int{}
	ids := make([]string, len(cs.Tickets))
	each(len(cs.Tickets), func(j int) {
		t := &pb.Ticket{}
		if j < len(cs.Tickets)-1 {
			portMu.Lock() // con is not for concurrent use
			t = con.ticket(cs.Tickets[j])
			portMu.Unlock()
		}
		ids[j], _ = w.Create(c, t)
	})
	for j, id := range ids {
		if id == "" {
			w.Rec.Add("noanswer", Ev{"what": fmt.Sprint("creation of ", cs.Tickets[j])})
			o.Save(w, "filter")
			return
		}
		index[id] = j + 1
	}
	for j := 0; j < len(ids); j += 400 {
		w.Act(c, ids[j:min(len(ids), j+400)]...)
	}
	w.Rec.Add("tickets", Ev{"tix": cs.Tickets})
	if !w.Sync(c, c) {
		w.Rec.Add("noanswer", Ev{"what": "sync"})
		o.Save(w, "filter")
		return
	}
	r.Shuffle(len(cs.Pools), func(a, b int) { cs.Pools[a], cs.Pools[b] = cs.Pools[b], cs.Pools[a] })
	for j := 0; j < len(cs.Pools); j += 80 {
		prof := &pb.Profile{Name: "filters", Pools: map[string]*pb.Pool{}}
		g := cs.Pools[j:min(len(cs.Pools), j+80)]
		for n, p := range g {
			if len(p.Tags)+len(p.Strs)+len(p.Dbls) == 0 && !p.Ct.On && r.Intn(2) == 0 {
				prof.Pools[fmt.Sprintf("p%d", n)] = nil
				continue
			}
			prof.Pools[fmt.Sprintf("p%d", n)] = con.pool(p, pick(r, "", "pool", fmt.Sprintf("p%d", n)))
		}
		f := &Fn{Kind: "ok"}
		if err := w.RunProfile(c, prof, f); err != nil {
			w.Rec.Add("noanswer", Ev{"what": err.Error()})
			break
		}
		for n, p := range g {
			got := []int{}
			_, filled := f.pools[fmt.Sprintf("p%d", n)]
			for _, t := range f.pools[fmt.Sprintf("p%d", n)] {
				if x, ok := index[t.GetId()]; ok {
					got = append(got, x)
				} else if !strings.HasPrefix(strings.Join(t.GetAttributes().GetTags(), ""), "sync") {
					got = append(got, 999999)
				}
			}
			sort.Ints(got)
			w.Rec.Add("fpool", Ev{"pool": p, "got": got, "filled": filled})
		}
	}
	o.Save(w, "filter")
}
