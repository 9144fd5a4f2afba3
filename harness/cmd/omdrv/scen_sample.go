package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"time"

	"github.com/sirupsen/logrus"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"open-match.dev/functions/golang/battleroyale"
	"open-match.dev/functions/golang/soloduel"
	"open-match.dev/functions/golang/teamshooter"
	"open-match.dev/mmf/server"
	pb "open-match.dev/pkg/pb/v2"
)

func init() {
	families["samples"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { samples(o, seed, k) }) }
}

func sampleFn(name string) pb.MatchMakingFunctionServiceServer {
	switch name {
	case "solo":
		return &soloduel.MmfServer{}
	case "team":
		return &teamshooter.MmfServer{}
	}
	return &battleroyale.MmfServer{}
}

// guardedFn notes a panic of the function.
type guardedFn struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	fn  pb.MatchMakingFunctionServiceServer
	rec *Rec
}

func (g *guardedFn) Run(s pb.MatchMakingFunctionService_RunServer) (err error) {
	defer func() {
		if x := recover(); x != nil {
			g.rec.Add("panic", Ev{"how": fmt.Sprint(x)})
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	return g.fn.Run(s)
}

func strExt(m *pb.Match, key string) string {
	v := &wrapperspb.StringValue{}
	if x, ok := m.GetExtensions()[key]; !ok || x.UnmarshalTo(v) != nil {
		return "<none>"
	}
	return v.GetValue()
}

// matchList gives matches with their tickets by number: that of the offered ticket which they equal.
func matchList(ms []*pb.Match, num map[string]int) []Ev {
	out := []Ev{}
	for _, m := range ms {
		keys := []string{}
		for k := range m.GetRosters() {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		rs := [][]int{}
		for _, k := range keys {
			tix := []int{}
			for _, t := range m.GetRosters()[k].GetTickets() {
				b, err := proto.MarshalOptions{Deterministic: true}.Marshal(t)
				must(err)
				tix = append(tix, num[string(b)])
			}
			rs = append(rs, tix)
		}
		out = append(out, Ev{"id": m.GetId(), "fn": strExt(m, "mmfName"), "profile": strExt(m, "profileName"), "rosters": rs})
	}
	return out
}

// cut sends the profile in pieces, as the server may.
func cut(r *rand.Rand, p *pb.Profile, pieces int) []*pb.ChunkedMmfRunRequest {
	cs := make([]*pb.ChunkedMmfRunRequest, pieces)
	for j := range cs {
		q := proto.Clone(p).(*pb.Profile)
		for k := range q.Pools {
			q.Pools[k].Participants = &pb.Roster{Name: k + "_roster"}
		}
		cs[j] = &pb.ChunkedMmfRunRequest{Profile: q, NumChunks: int32(pieces)}
	}
	keys := []string{}
	for k := range p.Pools {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for _, t := range p.Pools[k].GetParticipants().GetTickets() {
			q := cs[r.Intn(pieces)].Profile.Pools[k].Participants
			q.Tickets = append(q.Tickets, t)
		}
	}
	return cs
}

func samples(o *Opts, seed int64, k int) {
	logrus.SetOutput(io.Discard)
	r := rand.New(rand.NewSource(seed))
	rec := NewRec()
	defer func() {
		p := o.Path("samples")
		rec.Write(p)
		fmt.Printf("TRACE %s events=%d\n", p, rec.Len())
	}()
	type acase struct {
		Fn    string         `json:"fn"`
		Sizes map[string]int `json:"sizes"`
	}
	var cases []acase
	b, err := os.ReadFile(o.Arg)
	must(err)
	must(json.Unmarshal(b, &cases))
	mine := []acase{}
	for j := k % o.N; j < len(cases); j += o.N {
		mine = append(mine, cases[j])
	}
	for j := 0; j < 30; j++ { // larger ones
		switch r.Intn(3) {
		case 0:
			mine = append(mine, acase{"solo", map[string]int{"a": r.Intn(300), "b": r.Intn(300), "c": r.Intn(5), "": r.Intn(3)}})
		case 1:
			mine = append(mine, acase{"team", map[string]int{"tank": r.Intn(80), "healer": r.Intn(80), "dps": r.Intn(250), "Tank": r.Intn(5)}})
		case 2:
			mine = append(mine, acase{"br", map[string]int{"competitive": r.Intn(2000), "casual": r.Intn(200)}})
		}
	}
	// one server of each serves all runs, some of them at the same time
	ports := map[string]int{}
	fns := map[string]pb.MatchMakingFunctionServiceServer{}
	for _, fn := range []string{"solo", "team", "br"} {
		ports[fn] = freePort()
		fns[fn] = &guardedFn{fn: sampleFn(fn), rec: rec}
		go server.StartServer(int32(ports[fn]), fns[fn])
	}
	jobs := []func(){}
	r.Shuffle(len(mine), func(a, b int) { mine[a], mine[b] = mine[b], mine[a] })
	for j, c := range mine {
		p := &pb.Profile{Name: pick(r, "", "prof", "a profile/ü"), Pools: map[string]*pb.Pool{}}
		num := map[string]int{}
		keys := []string{}
		for key := range c.Sizes {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		pools := []Ev{}
		n := 0
		for _, key := range keys {
			if c.Sizes[key] == 0 && r.Intn(2) == 0 {
				continue
			}
			q := &pb.Pool{Name: key, Participants: &pb.Roster{}}
			tix := []int{}
			for i := 0; i < c.Sizes[key]; i++ {
				n++
				t := someTicket(r, n)
				t.Id = fmt.Sprintf("17-%d", n)
				b, err := proto.MarshalOptions{Deterministic: true}.Marshal(t)
				must(err)
				num[string(b)] = n
				tix = append(tix, n)
				q.Participants.Tickets = append(q.Participants.Tickets, t)
			}
			p.Pools[key] = q
			pools = append(pools, Ev{"key": key, "tix": tix})
		}
		ev := Ev{"fn": c.Fn, "prof": p.Name, "pools": pools}
		chunks := cut(r, p, 1+r.Intn(3)*r.Intn(3))
		jobs = append(jobs, func() {
			ms := []*pb.Match{}
			how := ""
			var err error
			if j%10 == 0 { // over a connection
				how = guarded(func() { ms, err = remote(ports[c.Fn], chunks) })
			} else {
				s := &runStream{avail: len(chunks), err: io.EOF}
				for _, x := range chunks {
					s.chunks = append(s.chunks, through(x))
				}
				how = guarded(func() { err = fns[c.Fn].Run(s) })
				if how == "" {
					for _, m := range s.sent {
						ms = append(ms, m.GetMatch())
					}
				}
			}
			if how == "hang" {
				rec.Add("hang", ev)
				return
			}
			if how != "" {
				ev["how"] = how
				rec.Add("panic", ev)
				return
			}
			ev["ok"], ev["why"] = err == nil, fmt.Sprint(err)
			ev["matches"] = matchList(ms, num)
			rec.Add("sf", ev)
		})
	}
	for j := 0; j < len(jobs); j += 4 {
		g := jobs[j:min(len(jobs), j+4)]
		each(len(g), func(i int) { g[i]() })
	}
}

// remote runs a function behind a server.
func remote(port int, chunks []*pb.ChunkedMmfRunRequest) ([]*pb.Match, error) {
	conn, err := dial(fmt.Sprintf("127.0.0.1:%d", port))
	must(err)
	defer conn.Close()
	out := []*pb.Match{}
	for try := 0; ; try++ {
		ctx, cancel := ctxT(15 * time.Second)
		defer cancel()
		st, err := pb.NewMatchMakingFunctionServiceClient(conn).Run(ctx)
		if err == nil {
			for _, c := range chunks {
				st.Send(c)
			}
			for err == nil {
				var m *pb.StreamedMmfResponse
				if m, err = st.Recv(); err == nil {
					out = append(out, m.GetMatch())
				}
			}
			if err == io.EOF {
				return out, nil
			}
		}
		if try > 100 || len(out) > 0 { // until it listens
			return out, err
		}
		time.Sleep(30 * time.Millisecond)
	}
}
