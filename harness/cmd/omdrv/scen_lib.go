package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sirupsen/logrus"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"open-match.dev/mmf/server"
	pb "open-match.dev/pkg/pb/v2"
)

func init() {
	families["reassemble"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { reassemble(o, seed, k) }) }
}

// runStream is the function's end of a stream, without a network.
type runStream struct {
	mu     sync.Mutex
	chunks []*pb.ChunkedMmfRunRequest
	avail  int
	err    error
	reads  int
	sent   []*pb.StreamedMmfResponse
	stuck  chan struct{}
}

func (s *runStream) Recv() (*pb.ChunkedMmfRunRequest, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reads++
	if s.reads > s.avail+1000 {
		panic("reads on and on")
	}
	if s.reads > s.avail {
		return nil, s.err
	}
	return s.chunks[s.reads-1], nil
}
func (s *runStream) Send(m *pb.StreamedMmfResponse) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.sent = append(s.sent, proto.Clone(m).(*pb.StreamedMmfResponse))
	return nil
}
func (s *runStream) SetHeader(metadata.MD) error  { return nil }
func (s *runStream) SendHeader(metadata.MD) error { return nil }
func (s *runStream) SetTrailer(metadata.MD)       {}
func (s *runStream) Context() context.Context     { return context.Background() }
func (s *runStream) SendMsg(any) error            { return nil }
func (s *runStream) RecvMsg(any) error            { return io.EOF }

// through passes a message over the wire.
func through(c *pb.ChunkedMmfRunRequest) *pb.ChunkedMmfRunRequest {
	b, err := proto.Marshal(c)
	must(err)
	d := &pb.ChunkedMmfRunRequest{}
	must(proto.Unmarshal(b, d))
	return d
}

// numbering names tickets by their whole content.
type numbering struct {
	m map[string]int
}

func (n *numbering) of(t *pb.Ticket) int {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(t)
	must(err)
	k := string(b)
	if x, ok := n.m[k]; ok {
		return x
	}
	n.m[k] = len(n.m) + 1
	return n.m[k]
}

func poolList(n *numbering, pools map[string]*pb.Pool) []Ev {
	out := []Ev{}
	keys := []string{}
	for k := range pools {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		tix := []int{}
		for _, t := range pools[k].GetParticipants().GetTickets() {
			tix = append(tix, n.of(t))
		}
		out = append(out, Ev{"key": nameOf(k), "spec": specOf(pools[k]), "tix": tix})
	}
	return out
}

// guarded runs f, and says how it ended if not by returning.
func guarded(f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				done <- fmt.Sprint("panic: ", x)
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case x := <-done:
		return x
	case <-time.After(20 * time.Second):
		return "hang"
	}
}

func rat(w *Rec, chunks []*pb.ChunkedMmfRunRequest, avail, more int, r *rand.Rand) bool {
	n := &numbering{m: map[string]int{}}
	cs := []Ev{}
	for _, c := range chunks {
		cs = append(cs, Ev{"n": c.GetNumChunks(), "name": nameOf(c.GetProfile().GetName()), "ext": extOf(c.GetProfile()), "pools": poolList(n, c.GetProfile().GetPools())})
	}
	s := &runStream{avail: avail, err: pick(r, io.EOF, io.ErrUnexpectedEOF, context.Canceled, status.Error(codes.Unavailable, "gone"))}
	for _, c := range chunks {
		s.chunks = append(s.chunks, through(c))
	}
	if avail == len(chunks) {
		for ; more > 0; more-- { // of no interest
			s.chunks = append(s.chunks, through(chunks[r.Intn(len(chunks))]))
			s.avail++
		}
	}
	var p *pb.Profile
	var err error
	how := guarded(func() { p, err = server.GetChunkedRequest(s) })
	if strings.HasPrefix(how, "panic") && !strings.Contains(how, "reads on") {
		w.Add("panic", Ev{"what": how, "chunks": cs, "avail": avail})
		return true
	}
	if how != "" {
		w.Add("hang", Ev{"what": how, "chunks": cs, "avail": avail})
		return false
	}
	w.Add("ra", Ev{"chunks": cs, "avail": avail, "reads": s.reads, "ok": err == nil, "none": p == nil,
		"name": nameOf(p.GetName()), "ext": extOf(p), "pools": poolList(n, p.GetPools())})
	return true
}

// someTicket is a ticket with a bit of everything.
func someTicket(r *rand.Rand, k int) *pb.Ticket {
	t := &pb.Ticket{Id: fmt.Sprintf("%d-%d", 1700000000000+k, r.Intn(3))}
	switch r.Intn(4) {
	case 0:
		t.Attributes = &pb.Ticket_FilterableData{Tags: []string{"a", ""}, StringArgs: map[string]string{"k": fmt.Sprint(k)}, CreationTime: timestamppb.Now()}
	case 1:
		t.Extensions = map[string]*anypb.Any{"x": junk(r, r.Intn(40))}
	case 2:
		t.Id = ""
		t.ExpirationTime = &timestamppb.Timestamp{Seconds: int64(k)}
	}
	return t
}

func somePool(r *rand.Rand, key string) *pb.Pool {
	p := &pb.Pool{Name: pick(r, key, key, "", "other")}
	if r.Intn(2) == 0 {
		p.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: "t"}, {}}
	}
	if r.Intn(2) == 0 {
		p.DoubleRangeFilters = []*pb.Pool_DoubleRangeFilter{{DoubleArg: "x", Minimum: r.NormFloat64(), Maximum: 9, Bounds: pb.Pool_FilterBounds(r.Intn(4))}}
	}
	if r.Intn(2) == 0 {
		p.StringEqualsFilters = []*pb.Pool_StringEqualsFilter{{StringArg: "s", Value: fmt.Sprint(r.Intn(100))}}
	}
	if r.Intn(2) == 0 {
		p.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: timestamppb.New(time.Unix(r.Int63n(1e9), 5)), Bounds: pb.Pool_FilterBounds(r.Intn(4))}
	}
	if r.Intn(2) == 0 {
		p.Extensions = map[string]*anypb.Any{"e": junk(r, r.Intn(60))}
	}
	return p
}

func reassemble(o *Opts, seed int64, k int) {
	logrus.SetOutput(io.Discard)
	r := rand.New(rand.NewSource(seed))
	rec := NewRec()
	defer func() {
		p := o.Path("reassemble")
		rec.Write(p)
		fmt.Printf("TRACE %s events=%d\n", p, rec.Len())
	}()
	var cases []struct {
		Shape []map[string]int `json:"shape"`
		Avail int              `json:"avail"`
	}
	b, err := os.ReadFile(o.Arg)
	must(err)
	must(json.Unmarshal(b, &cases))
	// every case of the specification, shared out among the scenarios
	for j := k % o.N; j < len(cases); j += o.N {
		c := cases[j]
		specs := map[string]*pb.Pool{}
		ext := map[string]*anypb.Any{}
		if r.Intn(2) == 0 {
			ext["e"] = junk(r, r.Intn(20))
		}
		same := r.Intn(2) == 0
		chunks := []*pb.ChunkedMmfRunRequest{}
		seq := 0
		for _, sh := range c.Shape {
			p := &pb.Profile{Name: pick(r, "prof", "prof", "first"), Pools: map[string]*pb.Pool{}, Extensions: ext}
			if same {
				p.Name = "prof"
			}
			keys := []string{}
			for key := range sh {
				keys = append(keys, key)
			}
			sort.Strings(keys)
			for _, key := range keys {
				if sh[key] == 100 {
					continue
				}
				if specs[key] == nil {
					specs[key] = somePool(r, key)
				}
				q := proto.Clone(specs[key]).(*pb.Pool)
				if sh[key] != 101 {
					q.Participants = &pb.Roster{Name: key + "_roster"}
					for i := 0; i < sh[key]; i++ {
						seq++
						q.Participants.Tickets = append(q.Participants.Tickets, someTicket(r, seq))
					}
				}
				p.Pools[key] = q
			}
			if len(p.Pools) == 0 && r.Intn(2) == 0 {
				p.Pools = nil
			}
			chunks = append(chunks, &pb.ChunkedMmfRunRequest{Profile: p, NumChunks: int32(len(c.Shape))})
		}
		if !rat(rec, chunks, c.Avail, r.Intn(3)*r.Intn(2), r) {
			return
		}
	}
	overNet(rec, r, 6)
	// larger ones
	for j := 0; j < 40; j++ {
		n := 1 + r.Intn(pick(r, 3, 10, 150))
		keys := []string{"", "a", "A", "pool", "ü", strings.Repeat("k", 300)}[:1+r.Intn(6)]
		specs := map[string]*pb.Pool{}
		for _, key := range keys {
			specs[key] = somePool(r, key)
		}
		chunks := []*pb.ChunkedMmfRunRequest{}
		density := r.Float64()
		few := r.Intn(4)
		again := someTicket(r, 1)
		for i := 0; i < n; i++ {
			p := &pb.Profile{Name: "prof", Pools: map[string]*pb.Pool{}}
			for _, key := range keys {
				if r.Float64() > density {
					continue
				}
				q := proto.Clone(specs[key]).(*pb.Pool)
				if r.Intn(5) > 0 {
					q.Participants = &pb.Roster{}
					for h := r.Intn(1 + 10*few); h > 0; h-- {
						t := someTicket(r, i*1000+h)
						if r.Intn(9) == 0 {
							t = again // nothing is left out, however often it is there
						}
						q.Participants.Tickets = append(q.Participants.Tickets, t)
					}
				}
				p.Pools[key] = q
			}
			chunks = append(chunks, &pb.ChunkedMmfRunRequest{Profile: p, NumChunks: int32(n)})
		}
		if r.Intn(6) == 0 {
			chunks[n-1].Profile = nil
			if r.Intn(2) == 0 && n > 1 {
				chunks[0].Profile = nil
			}
		}
		avail := n
		if r.Intn(4) == 0 {
			avail = r.Intn(n + 1)
		}
		if !rat(rec, chunks, avail, r.Intn(3), r) {
			return
		}
	}
}

// netServer puts the server library behind a real connection.
type netServer struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	got chan netGot
}
type netGot struct {
	p     *pb.Profile
	err   error
	reads int
	how   string
}
type countingStream struct {
	pb.MatchMakingFunctionService_RunServer
	n int
}

func (s *countingStream) Recv() (*pb.ChunkedMmfRunRequest, error) {
	s.n++
	if s.n > 3000 {
		panic("reads on and on")
	}
	return s.MatchMakingFunctionService_RunServer.Recv()
}

func (s *netServer) Run(st pb.MatchMakingFunctionService_RunServer) error {
	g := netGot{}
	cs := &countingStream{MatchMakingFunctionService_RunServer: st}
	g.how = guarded(func() { g.p, g.err = server.GetChunkedRequest(cs) })
	g.reads = cs.n
	s.got <- g
	return nil
}

// overNet sends chunks, some as big as they may be, to the server library over a connection.
func overNet(rec *Rec, r *rand.Rand, rounds int) {
	srv := &netServer{got: make(chan netGot, 10)}
	port := freePort()
	go server.StartServer(int32(port), srv)
	conn, err := dial(fmt.Sprintf("127.0.0.1:%d", port))
	must(err)
	defer conn.Close()
	cli := pb.NewMatchMakingFunctionServiceClient(conn)
	for try := 0; ; try++ { // until it listens
		ctx, cancel := ctxT(time.Second)
		st, err := cli.Run(ctx)
		if err == nil {
			st.CloseSend()
			_, err = st.Recv()
		}
		cancel()
		if err == io.EOF {
			<-srv.got
			break
		}
		if try > 200 {
			rec.Add("hang", Ev{"what": "StartServer: " + err.Error(), "chunks": []Ev{}, "avail": 0})
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	for j := 0; j < rounds; j++ {
		n := 1 + r.Intn(4)
		chunks := []*pb.ChunkedMmfRunRequest{}
		a, b := somePool(r, "a"), somePool(r, "b")
		for i := 0; i < n; i++ {
			p := &pb.Profile{Name: "prof", Pools: map[string]*pb.Pool{}}
			p.Pools["a"], p.Pools["b"] = proto.Clone(a).(*pb.Pool), proto.Clone(b).(*pb.Pool)
			p.Pools["a"].Participants = &pb.Roster{Tickets: []*pb.Ticket{someTicket(r, i), {Id: fmt.Sprint("big", i), Extensions: map[string]*anypb.Any{"x": junk(r, 4100000)}}}}
			c := &pb.ChunkedMmfRunRequest{Profile: p, NumChunks: int32(n)}
			if r.Intn(2) == 0 { // to the brim
				p.Pools["b"].Participants = &pb.Roster{Name: strings.Repeat("x", grpcLimit-proto.Size(c)-200)}
				p.Pools["b"].Participants.Name += strings.Repeat("x", grpcLimit-proto.Size(c))
			} else {
				p.Pools["a"].Participants.Tickets = p.Pools["a"].Participants.Tickets[:1]
			}
			chunks = append(chunks, c)
		}
		avail := n
		if r.Intn(3) == 0 {
			avail = r.Intn(n)
		}
		ctx, cancel := ctxT(30 * time.Second)
		st, err := cli.Run(ctx)
		must(err)
		for _, c := range chunks[:avail] {
			st.Send(c)
		}
		if avail < n {
			if r.Intn(2) == 0 {
				st.CloseSend()
			} else {
				time.Sleep(100 * time.Millisecond)
				cancel()
			}
		}
		var g netGot
		select {
		case g = <-srv.got:
		case <-time.After(25 * time.Second):
			g.how = "hang"
		}
		cancel()
		nn := &numbering{m: map[string]int{}}
		cs := []Ev{}
		for _, c := range chunks {
			cs = append(cs, Ev{"n": c.GetNumChunks(), "name": nameOf(c.GetProfile().GetName()), "ext": extOf(c.GetProfile()), "pools": poolList(nn, c.GetProfile().GetPools())})
		}
		if g.how != "" {
			rec.Add(map[bool]string{true: "hang", false: "panic"}[g.how == "hang"], Ev{"what": g.how, "chunks": cs, "avail": avail})
			return
		}
		reads := g.reads
		if avail < n && g.err != nil && reads < avail+1 {
			reads = avail + 1 // a cancelled stream fails before everything has been read
		}
		rec.Add("ra", Ev{"chunks": cs, "avail": avail, "reads": reads, "ok": g.err == nil, "none": g.p == nil,
			"name": nameOf(g.p.GetName()), "ext": extOf(g.p), "pools": poolList(nn, g.p.GetPools())})
	}
}
