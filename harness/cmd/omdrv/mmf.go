package main

import (
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

// Step is one action of a scripted function, after it has read its request.
type Step struct {
	Match *pb.Match     // send this match
	Sleep time.Duration // wait
	Until chan struct{} // wait for the channel to be closed
	Note  chan struct{} // close this channel
	Empty bool          // send a response without a match
}

// Fn is one invocation of a scripted matchmaking function.
type Fn struct {
	Kind   string // ok, err, hang, dead (nothing listens), gone (connection cut)
	Steps  []Step
	Make   func(pools map[string][]*pb.Ticket) []Step // computed after the request has been read
	Code   codes.Code
	NoRead bool // do not read the request
	name   string
	Named  bool    // name is to be kept, also if it is empty
	Wire   *string // the name it is invoked under, if that is another one
	Twin   *Fn     // listed once more under the same name and address as this one
	spec   *pb.MatchmakingFunctionSpec
	srv    *mmfSrv
	v      string
	mu     sync.Mutex
	pools  map[string][]*pb.Ticket
	Chunks []*pb.ChunkedMmfRunRequest
	Sizes  []int
	Keep   bool // keep the chunks, and look whether more come than announced
	Extra  int  // chunks beyond the announced number
	Short  bool // fewer came
	done   chan struct{}
	ready  chan struct{} // closed once the request has been read
}

func (f *Fn) Pools() map[string][]string {
	f.mu.Lock()
	defer f.mu.Unlock()
	out := map[string][]string{}
	for n, ts := range f.pools {
		for _, t := range ts {
			out[n] = append(out[n], t.GetId())
		}
	}
	return out
}

// MMFHost serves all scripted functions of a scenario; each registered function has a port of its own.
type MMFHost struct {
	w    *World
	mu   sync.Mutex
	srvs []*grpc.Server
	sent map[string]*pb.Match // "v/key" -> match
	keys map[string][]string  // "v/match id" -> keys of the matches sent under that id
	back map[string]bool      // "v/key": received
	idle []*mmfSrv
	took map[string]bool
}

// Sent lists the matches sent in invocation v.
func (h *MMFHost) Sent(v string) []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	out := []string{}
	for x := range h.sent {
		if strings.HasPrefix(x, v+"/") {
			out = append(out, x[len(v)+1:])
		}
	}
	sort.Strings(out)
	return out
}

// TakeTix returns the tickets of a sent match, the first time it is asked.
func (h *MMFHost) TakeTix(v, k string) []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	out := []string{}
	if h.took[v+"/"+k] {
		return out
	}
	h.took[v+"/"+k] = true
	for _, r := range h.sent[v+"/"+k].GetRosters() {
		for _, t := range r.GetTickets() {
			out = append(out, t.GetId())
		}
	}
	return out
}

func NewMMFHost(w *World) *MMFHost {
	return &MMFHost{w: w, sent: map[string]*pb.Match{}, keys: map[string][]string{}, back: map[string]bool{}, took: map[string]bool{}}
}

type mmfSrv struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	h    *MMFHost
	ln   net.Listener
	port int
	s    *grpc.Server
	mu   sync.Mutex
	fns  []*Fn // yet to be called
	busy int   // not yet finished
	cut  *cutListener
}

// cutListener lets the harness cut all its connections.
type cutListener struct {
	net.Listener
	mu    sync.Mutex
	conns []net.Conn
}

func (l *cutListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		l.mu.Lock()
		l.conns = append(l.conns, c)
		l.mu.Unlock()
	}
	return c, err
}
func (l *cutListener) Cut() {
	l.mu.Lock()
	for _, c := range l.conns {
		c.Close()
	}
	l.conns = nil
	l.mu.Unlock()
}

// Register gives the function a server for the invocation v, and returns how to reach it.
func (h *MMFHost) Register(v string, f *Fn) *pb.MatchmakingFunctionSpec {
	f.v = v
	f.done = make(chan struct{})
	f.ready = make(chan struct{})
	if f.name == "" && !f.Named {
		f.name = fmt.Sprintf("f%d", h.w.uniq())
	}
	if t := f.Twin; t != nil && t.srv != nil {
		t.srv.mu.Lock()
		t.srv.fns = append(t.srv.fns, f)
		t.srv.busy++
		t.srv.mu.Unlock()
		return proto.Clone(t.spec).(*pb.MatchmakingFunctionSpec)
	}
	spec := &pb.MatchmakingFunctionSpec{Name: f.name, Host: "127.0.0.1", Type: pb.MatchmakingFunctionSpec_GRPC}
	if f.Wire != nil {
		spec.Name = *f.Wire
	}
	f.spec = spec
	if f.Kind == "rest" {
		spec.Type = pb.MatchmakingFunctionSpec_REST
		spec.Port = 9
		f.Kind = "dead"
		return spec
	}
	if f.Kind == "dead" {
		spec.Port = int32(freePort())
		return spec
	}
	h.mu.Lock()
	var s *mmfSrv
	if len(h.idle) > 0 {
		s = h.idle[len(h.idle)-1]
		h.idle = h.idle[:len(h.idle)-1]
	}
	h.mu.Unlock()
	if s == nil {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		s = &mmfSrv{h: h, ln: ln, port: ln.Addr().(*net.TCPAddr).Port, s: grpc.NewServer(grpc.MaxRecvMsgSize(64 << 20))}
		s.cut = &cutListener{Listener: ln}
		pb.RegisterMatchMakingFunctionServiceServer(s.s, s)
		go s.s.Serve(s.cut)
		h.mu.Lock()
		h.srvs = append(h.srvs, s.s)
		h.mu.Unlock()
	}
	s.mu.Lock()
	s.fns = []*Fn{f}
	s.busy = 1
	s.mu.Unlock()
	f.srv = s
	spec.Port = int32(s.port)
	if v2 := h.w.uniq(); v2%3 == 0 { // the other way to name an address
		spec.Host = fmt.Sprintf("127.0.0.1:%d", s.port)
		spec.Port = 0
	}
	return spec
}

func (h *MMFHost) Close() {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, s := range h.srvs {
		s.Stop()
	}
}

// Same looks up the match that was sent, and compares it with the one received.  Matches are known by
// their ids; where several were sent under the same id, by their content, too.
func (h *MMFHost) Same(v string, m *pb.Match) (bool, string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if m == nil {
		x, ok := h.sent[v+"/"]
		return ok && x == nil, ""
	}
	keys := h.keys[v+"/"+m.GetId()]
	if len(keys) == 0 {
		return false, "?" + m.GetId()
	}
	found, same := keys[0], false
	for _, k := range keys {
		if !proto.Equal(h.sent[v+"/"+k], m) {
			continue
		}
		if !same || h.back[v+"/"+found] {
			found, same = k, true
		}
	}
	h.back[v+"/"+found] = true
	return same, found
}

func (s *mmfSrv) Run(stream pb.MatchMakingFunctionService_RunServer) error {
	s.mu.Lock()
	if len(s.fns) == 0 {
		s.mu.Unlock()
		return status.Error(codes.FailedPrecondition, "called twice")
	}
	f := s.fns[0]
	s.fns = s.fns[1:]
	s.mu.Unlock()
	err := s.h.run(s, f, stream)
	s.mu.Lock()
	s.busy--
	free := s.busy == 0
	s.mu.Unlock()
	if f.Kind != "gone" && free {
		s.h.mu.Lock()
		s.h.idle = append(s.h.idle, s)
		s.h.mu.Unlock()
	}
	return err
}

func (h *MMFHost) run(s *mmfSrv, f *Fn, stream pb.MatchMakingFunctionService_RunServer) (err error) {
	rec := h.w.Rec
	defer close(f.done)
	ended := false
	end := func() {
		if !ended {
			ended = true
			rec.Add("mend", Ev{"v": f.v, "f": f.name})
		}
	}
	defer end()
	if !f.NoRead {
		pools := map[string][]*pb.Ticket{}
		for n := 1; ; n++ {
			c, err := f.recv(stream)
			if err != nil {
				rec.Add("mshort", Ev{"v": f.v, "f": f.name, "err": err.Error(), "eof": err == io.EOF})
				return err
			}
			if f.Keep {
				f.mu.Lock()
				f.Chunks = append(f.Chunks, c)
				f.Sizes = append(f.Sizes, proto.Size(c))
				f.mu.Unlock()
			}
			for name, p := range c.GetProfile().GetPools() {
				pools[name] = append(pools[name], p.GetParticipants().GetTickets()...)
			}
			if int(c.GetNumChunks()) == n {
				if f.Keep {
					f.more(stream)
				}
				break
			}
		}
		f.mu.Lock()
		f.pools = pools
		f.mu.Unlock()
		names := []string{}
		for n := range pools {
			names = append(names, n)
		}
		sort.Strings(names)
		ps := []Ev{}
		for _, n := range names {
			ts := pools[n]
			sort.Slice(ts, func(a, b int) bool { return ts[a].GetId() < ts[b].GetId() })
			tix := []Ev{}
			for _, t := range ts {
				tix = append(tix, Ev{"id": t.GetId(), "val": ticketVal(t)})
			}
			ps = append(ps, Ev{"name": n, "tix": tix})
		}
		rec.Add("pool", Ev{"v": f.v, "f": f.name, "pools": ps})
		close(f.ready)
		if f.Make != nil {
			f.Steps = append(f.Steps, f.Make(pools)...)
		}
	}
	for _, st := range f.Steps {
		if st.Sleep > 0 {
			select {
			case <-time.After(st.Sleep):
			case <-stream.Context().Done():
				return stream.Context().Err()
			}
		}
		if st.Until != nil {
			select {
			case <-st.Until:
			case <-stream.Context().Done():
				return stream.Context().Err()
			}
		}
		if st.Note != nil {
			close(st.Note)
		}
		if st.Match != nil {
			h.send(f, st.Match, stream)
		} else if st.Empty {
			h.send(f, nil, stream)
		}
	}
	switch f.Kind {
	case "err":
		end()
		c := f.Code
		if c == codes.OK {
			c = codes.Internal
		}
		return status.Error(c, "scripted failure")
	case "hang":
		<-stream.Context().Done()
		return stream.Context().Err()
	case "gone":
		end()
		s.cut.Cut()
		return nil
	}
	end()
	return nil
}

type received struct {
	c   *pb.ChunkedMmfRunRequest
	err error
}

func (f *Fn) async(stream pb.MatchMakingFunctionService_RunServer, d time.Duration) (received, bool) {
	ch := make(chan received, 1)
	go func() {
		c, err := stream.Recv()
		ch <- received{c, err}
	}()
	select {
	case r := <-ch:
		return r, true
	case <-time.After(d):
		return received{}, false
	}
}

// recv receives one chunk; a function that keeps its chunks does not wait for ever.
func (f *Fn) recv(stream pb.MatchMakingFunctionService_RunServer) (*pb.ChunkedMmfRunRequest, error) {
	if !f.Keep {
		return stream.Recv()
	}
	r, ok := f.async(stream, 15*time.Second)
	if !ok {
		r.err = status.Error(codes.Aborted, "fewer chunks than announced")
	}
	if r.err != nil {
		f.mu.Lock()
		f.Short = true
		f.mu.Unlock()
	}
	return r.c, r.err
}

// more notes messages beyond the announced number.
func (f *Fn) more(stream pb.MatchMakingFunctionService_RunServer) {
	for {
		r, ok := f.async(stream, 150*time.Millisecond)
		if !ok || r.err != nil {
			return
		}
		f.mu.Lock()
		f.Extra++
		f.mu.Unlock()
	}
}

func (h *MMFHost) send(f *Fn, m *pb.Match, stream pb.MatchMakingFunctionService_RunServer) {
	tix := []string{}
	for _, r := range m.GetRosters() {
		for _, t := range r.GetTickets() {
			tix = append(tix, t.GetId())
		}
	}
	h.mu.Lock()
	k := m.GetId()
	if m != nil {
		l := f.v + "/" + k
		if n := len(h.keys[l]); n > 0 || k == "" {
			k = fmt.Sprintf("%s~%d", k, n)
		}
		h.keys[l] = append(h.keys[l], k)
	}
	h.sent[f.v+"/"+k] = m
	h.mu.Unlock()
	h.w.Rec.Add("msend", Ev{"v": f.v, "f": f.name, "k": k, "tix": tix})
	stream.Send(&pb.StreamedMmfResponse{Match: m})
}

// MatchOf builds a match with a unique id from rosters of ticket ids.
func (w *World) MatchOf(rosters ...[]string) *pb.Match {
	m := &pb.Match{Id: fmt.Sprintf("m%d", w.uniq()), Rosters: map[string]*pb.Roster{}}
	for i, r := range rosters {
		ro := &pb.Roster{Name: fmt.Sprintf("team%d", i)}
		for _, id := range r {
			ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id, Attributes: &pb.Ticket_FilterableData{Tags: []string{"in-" + m.Id}}})
		}
		m.Rosters[ro.Name] = ro
	}
	return m
}
