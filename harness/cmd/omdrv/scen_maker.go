package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

func init() {
	families["maker"] = func(o *Opts) { parallel(o, 6, func(k int, seed int64) { maker(o, seed, k) }) }
}

const wide = 20000

// standIn answers the example matchmaker in place of Open Match core.
type standIn struct {
	pb.UnimplementedOpenMatchServiceServer
	rec     *Rec
	r       *rand.Rand
	mu      sync.Mutex
	created int           // tickets created
	acts    map[int]bool  // ids sent for activation
	cycle   int           // cycles begun
	matches int           // matches streamed
	cycles  [][]int       // the sizes of the matches of each cycle
	calls   int           // activation calls
	failing int           // every so many-th creation fails (0: none)
	delay   func() int    // how long an activation call takes, in ms
	refuse  func() bool   // whether an activation call is answered with an error
	gate    chan struct{} // creations are answered once it is closed
	breaks  bool          // streams end with an error
	last    chan struct{} // closed when all cycles are over
	stop    chan struct{} // ends what is open
	fetches chan struct{} // gets an item when a cycle begins
	alive   func() []byte // the matchmaker's metrics
}

func (s *standIn) CreateTicket(ctx context.Context, q *pb.CreateTicketRequest) (*pb.CreateTicketResponse, error) {
	if s.gate != nil {
		select {
		case <-s.gate:
		case <-s.stop:
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.created++
	if s.failing > 0 && s.created%s.failing == 0 {
		return nil, status.Error(codes.Internal, "no ticket")
	}
	s.rec.Add("made", Ev{"id": s.created})
	return &pb.CreateTicketResponse{TicketId: ident(s.created)}, nil
}

func ident(n int) string { return fmt.Sprintf("%d-%d", 1700000000000+n, n%3) }

// number is the inverse of ident; -1 for anything else.
func number(id string) int {
	if id == "" {
		return 0
	}
	a, _, ok := strings.Cut(id, "-")
	n, err := strconv.Atoi(a)
	if n -= 1700000000000; !ok || err != nil || n <= 0 || ident(n) != id {
		return 1<<30 + len(id)
	}
	return n
}

func (s *standIn) ActivateTickets(ctx context.Context, q *pb.ActivateTicketsRequest) (*pb.ActivateTicketsResponse, error) {
	ids := []int{}
	s.mu.Lock()
	for _, x := range q.GetTicketIds() {
		n := number(x)
		ids = append(ids, n)
		s.acts[n] = true
	}
	s.calls++
	a := fmt.Sprintf("a%d", s.calls)
	d, bad := s.delay(), s.refuse()
	s.rec.Add("act", Ev{"a": a, "ids": ids})
	s.mu.Unlock()
	time.Sleep(time.Duration(d) * time.Millisecond)
	s.rec.Add("acted", Ev{"a": a})
	if bad {
		return nil, status.Error(codes.InvalidArgument, "not activated")
	}
	return &pb.ActivateTicketsResponse{}, nil
}

var rejectedRe = regexp.MustCompile(`(?m)^\S*matches_rejected\S* (\S+)$`)

func (s *standIn) fetch(send func(*pb.StreamedMmfResponse) error) error {
	s.mu.Lock()
	c := s.cycle
	s.cycle++
	s.mu.Unlock()
	s.rec.Add("fetch", nil)
	n := 0.0
	for _, x := range rejectedRe.FindAllSubmatch(s.alive(), -1) {
		v, err := strconv.ParseFloat(string(x[1]), 64)
		must(err)
		n += v
	}
	s.rec.Add("rejects", Ev{"n": int(n)})
	select {
	case s.fetches <- struct{}{}:
	default:
	}
	if c >= len(s.cycles) {
		if c == len(s.cycles) {
			close(s.last)
		}
		<-s.stop
		return nil
	}
	for _, size := range s.cycles[c] {
		s.mu.Lock()
		s.matches++
		k := s.matches
		s.mu.Unlock()
		m := &pb.Match{Id: fmt.Sprintf("m%d", k), Rosters: map[string]*pb.Roster{}}
		var ro *pb.Roster
		for j := 1; j <= size; j++ {
			if ro == nil || s.r.Intn(max(4, size/3)) == 0 {
				name := fmt.Sprintf("r%d", len(m.Rosters))
				ro = &pb.Roster{Name: name}
				m.Rosters[name] = ro
			}
			ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: ident(k*wide + j)})
		}
		s.rec.Add("match", Ev{"k": k, "n": size})
		if err := send(&pb.StreamedMmfResponse{Match: m}); err != nil {
			return err
		}
	}
	s.rec.Add("fetched", nil)
	if s.breaks && c%2 == 1 {
		return status.Error(codes.Unavailable, "a function failed")
	}
	return nil
}

func (s *standIn) InvokeMatchmakingFunctions(q *pb.MmfRequest, st pb.OpenMatchService_InvokeMatchmakingFunctionsServer) error {
	return s.fetch(st.Send)
}

func compact(m proto.Message) []byte {
	b, err := protojson.Marshal(m)
	must(err)
	var out bytes.Buffer
	must(json.Compact(&out, b))
	return out.Bytes()
}

func (s *standIn) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	b, _ := io.ReadAll(q.Body)
	w.Header().Set("Content-Type", "application/json")
	reply := func(m proto.Message, err error) {
		if err != nil {
			w.WriteHeader(http.StatusBadRequest)
			m = status.Convert(err).Proto()
		}
		w.Write(compact(m))
	}
	switch q.Method + " " + q.URL.Path {
	case "POST /v2/tickets":
		x := &pb.CreateTicketRequest{}
		if err := protojson.Unmarshal(b, x); err != nil {
			reply(nil, err)
			return
		}
		m, err := s.CreateTicket(q.Context(), x)
		reply(m, err)
	case "POST /v2/tickets:activate":
		x := &pb.ActivateTicketsRequest{}
		if err := protojson.Unmarshal(b, x); err != nil {
			reply(nil, err)
			return
		}
		m, err := s.ActivateTickets(q.Context(), x)
		reply(m, err)
	case "POST /v2/matches:fetch":
		s.fetch(func(m *pb.StreamedMmfResponse) error {
			_, err := w.Write([]byte(`{"result":` + string(compact(m)) + "}\n"))
			return err
		})
	default:
		w.WriteHeader(http.StatusNotFound)
	}
}

// maker lets the example matchmaker work against the stand-in.
func maker(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	s := &standIn{rec: NewRec(), r: rand.New(rand.NewSource(seed)), acts: map[int]bool{}, last: make(chan struct{}), stop: make(chan struct{}), fetches: make(chan struct{}, 1)}
	s.rec.Add("mcfg", Ev{"most": 500})
	over := func(n int) int { return n*500 + pick(r, -1, 0, 0, 1, 37) }
	s.delay = func() int { return s.r.Intn(60) }
	s.refuse = func() bool { return false }
	httpMode := k%9 >= 5 && k%9 < 8 || k%18 == 17
	tix, dur := 0, 0
	repeat := func(n int, size func() int) []int {
		out := make([]int, n)
		for j := range out {
			out[j] = size()
		}
		return out
	}
	small := func() int { return 1 + r.Intn(6) }
	lots := func() int { return pick(r, 1, 30, 120, 250, 499, 500, 501, 1000, 1003) }
	switch k % 9 {
	case 0: // players: a known number of them at once
		tix, dur = over(1+r.Intn(3)), 1
		s.gate = make(chan struct{})
	case 1: // players, all the time, some failures, slow activation
		tix, dur = 200+r.Intn(900), 3
		s.failing = 7
		s.delay = func() int { return s.r.Intn(900) }
	case 2: // many rejected tickets
		s.cycles = [][]int{repeat(220, lots), repeat(150, lots), repeat(200, func() int { return 250 })}
		s.delay = func() int { return 30 + s.r.Intn(300) }
	case 3: // many small matches, failures of both kinds
		s.breaks = true
		s.cycles = [][]int{repeat(300, small), repeat(40, small), repeat(500, small), repeat(90, small)}
		s.refuse = func() bool { return s.r.Intn(2) == 0 }
	case 4: // more rejected tickets than any queue has room for
		s.cycles = [][]int{repeat(150, func() int { return 5200 }), repeat(100, func() int { return 5003 })}
		s.delay = func() int { return 20 }
	case 5:
		tix, dur = over(1+r.Intn(2)), 1
		s.gate = make(chan struct{})
	case 6:
		s.cycles = [][]int{repeat(150, lots), repeat(150, small)}
		s.delay = func() int { return 30 + s.r.Intn(300) }
	case 7: // everything at once
		tix, dur = 300+r.Intn(400), 2
		s.cycles = [][]int{repeat(120, small), repeat(120, lots)}
		s.delay = func() int { return s.r.Intn(500) }
	case 8: // hardly anything, but often: cycles in which all, or most, is rejected
		for j := 0; j < 350; j++ {
			s.cycles = append(s.cycles, repeat(pick(r, 1, 1, 1, 2, 3), small))
		}
		s.delay = func() int { return s.r.Intn(5) }
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	srv := grpc.NewServer()
	pb.RegisterOpenMatchServiceServer(srv, s)
	go srv.Serve(ln)
	hl, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	hs := &http.Server{Handler: s}
	go hs.Serve(hl)
	metrics := freePort()
	s.alive = func() []byte {
		for try := 0; try < 20; try++ {
			p, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", metrics))
			if err == nil {
				b, err := io.ReadAll(p.Body)
				p.Body.Close()
				if err == nil {
					return b
				}
			}
			time.Sleep(20 * time.Millisecond)
		}
		return nil
	}
	mode := "grpc"
	if httpMode {
		mode = "http"
	}
	cmd := exec.Command(o.Bin, "-conn", mode, "-omhost", ln.Addr().String(), "-ignoreempty",
		"-sim="+fmt.Sprint(tix > 0), "-tix", fmt.Sprint(tix), "-dur", fmt.Sprint(dur))
	cmd.Dir = "/"
	cmd.Env = []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", fmt.Sprintf(
		"VP_LISTEN_MAP=:2233=127.0.0.1:%d,:8081=127.0.0.1:%d,:8082=127.0.0.1:%d,:8083=127.0.0.1:%d,localhost:58081=%s",
		metrics, freePort(), freePort(), freePort(), hl.Addr())}
	var mu sync.Mutex
	var out bytes.Buffer
	cmd.Stdout = lockedWriter{&mu, &out}
	cmd.Stderr = cmd.Stdout
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(cmd.Start())
	exited := make(chan struct{})
	go func() { cmd.Wait(); close(exited) }()
	tail := func() string {
		mu.Lock()
		defer mu.Unlock()
		t := strings.ToValidUTF8(out.String(), "?")
		return t[max(0, len(t)-600):]
	}

	if s.gate != nil {
		// all are asked for, then all are answered within a moment
		time.Sleep(time.Duration(1200+r.Intn(400)) * time.Millisecond)
		close(s.gate)
	}
	ok := true
	for done := false; !done && ok; {
		select {
		case <-s.fetches:
		case <-s.last:
			done = true
		case <-exited:
			s.rec.Add("died", Ev{"tail": tail()})
			ok = false
		case <-time.After(40 * time.Second):
			s.rec.Add("stuck", Ev{"tail": tail()})
			ok = false
		}
	}
	if ok && tix > 0 {
		// everyone that came has been activated, and nothing happens any more
		since, seen := time.Now(), -1
		for begin := time.Now(); time.Since(begin) < 40*time.Second; time.Sleep(20 * time.Millisecond) {
			s.mu.Lock()
			now := s.created + len(s.acts) + s.calls
			all := s.created >= tix*dur
			s.mu.Unlock()
			if now != seen {
				since, seen = time.Now(), now
			}
			if d := time.Since(since); all && d > 2600*time.Millisecond || d > 12*time.Second {
				break
			}
		}
	}
	if ok {
		s.rec.Add("end", nil)
	}
	close(s.stop)
	cmd.Process.Kill()
	<-exited
	srv.Stop()
	hs.Close()
	p := o.Path("maker")
	s.rec.Write(p)
	fmt.Printf("TRACE %s events=%d\n", p, s.rec.Len())
}
