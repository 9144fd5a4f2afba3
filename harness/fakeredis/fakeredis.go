// Package fakeredis is a small in-process Redis server (RESP2 over loopback TCP) that implements the
// stream commands om-core uses.  It is the linearization point of the replicated system: every
// executed XADD is given its place in the log, and reported to the observer, under one lock.
//
// Each om-core instance gets its own port, so that commands can be attributed to instances, and so
// that faults (error replies, dropped connections, outages, withheld deliveries) can be injected per
// instance.
package fakeredis

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Entry is one element of the stream. N is its position among all entries ever added, from 1.
type Entry struct {
	N       int
	Ms, Seq int64
	Fields  []string
	Port    string
}

func (e Entry) ID() string { return fmt.Sprintf("%d-%d", e.Ms, e.Seq) }

// Outcome of a command as decided by a fault plan.
type Outcome int

const (
	OK         Outcome = iota
	ErrReply           // not executed, -ERR reply
	DropBefore         // not executed, connection closed
	DropAfter          // executed, no reply, connection closed
)

// Event is reported to the observer under the server's lock, in order.
type Event struct {
	Kind  string // add, addfail, lost, trim, read, conn, close
	Port  string
	Conn  int
	Entry Entry    // add
	Args  []string // addfail: fields;  trim: arguments
	Upto  int      // read: highest position handed out
	From  int      // read: lowest position handed out
	Ns    []int    // lost: positions whose replies may not have arrived; trim: positions removed
	Conns int      // conn/close: open connections on the port
	Young int64    // trim: age in ms of the youngest entry removed
}

type Server struct {
	mu      sync.Mutex
	streams map[string]*stream
	wake    chan struct{}
	closed  bool
	Observe func(Event) // set before the first connection
	ports   map[string]*Port
	nconn   int
	// Now gives the server clock in ms (defaults to the real clock).
	Now func() int64
}

type stream struct {
	log    []Entry
	total  int
	lastMs int64
	lastSq int64
}

const Stream = "om-replication"

func New() *Server {
	return &Server{streams: map[string]*stream{}, wake: make(chan struct{}), ports: map[string]*Port{},
		Now: func() int64 { return time.Now().UnixMilli() }}
}

// Port is one listening address.
type Port struct {
	s     *Server
	Name  string
	ln    net.Listener
	addr  string
	conns map[int]*conn
	down  bool
	gate  int // highest position that XREAD may deliver; <0: no limit
	// Fault, if set, is called (under the lock) for every command with its name, its arguments and
	// its number among the commands of this name seen on this port, from 0.
	Fault   func(cmd string, args []string, nth int) Outcome
	counts  map[string]int
	MaxOpen int
	Reads   int
	Polls   int // XREAD commands answered
	upto    int
	stall   time.Duration
}

func (s *Server) AddPort(name string) (*Port, error) { return s.AddPortAs(name, name) }

// AddPortAs adds a port under the given key; its commands are reported as those of name.
func (s *Server) AddPortAs(key, name string) (*Port, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	p := &Port{s: s, Name: name, ln: ln, addr: ln.Addr().String(), conns: map[int]*conn{}, gate: -1, counts: map[string]int{}}
	s.mu.Lock()
	s.ports[key] = p
	s.mu.Unlock()
	go p.accept(ln)
	go p.sample()
	return p, nil
}

func (p *Port) HostPort() (string, string) { h, q, _ := net.SplitHostPort(p.addr); return h, q }

// SetFault installs a fault plan, and restarts its command counts.
func (p *Port) SetFault(f func(cmd string, args []string, nth int) Outcome) {
	p.s.mu.Lock()
	p.Fault = f
	p.counts = map[string]int{}
	p.s.mu.Unlock()
}

// SetStall delays the replies to everything written from now on; the end of each delay is reported as "reply".
func (p *Port) SetStall(d time.Duration) {
	p.s.mu.Lock()
	p.stall = d
	p.s.mu.Unlock()
}

// SetGate limits what XREAD delivers on this port to log positions <= n (n < 0: no limit).
func (p *Port) SetGate(n int) {
	p.s.mu.Lock()
	p.gate = n
	p.s.broadcast()
	p.s.mu.Unlock()
}

// SetDown closes all connections of the port and refuses new ones, or accepts them again.
func (p *Port) SetDown(down bool) {
	p.s.mu.Lock()
	p.down = down
	if down {
		for _, c := range p.conns {
			p.s.dropLocked(c)
		}
	}
	p.s.mu.Unlock()
}

// DropAll closes all current connections of the port.
func (p *Port) DropAll() {
	p.s.mu.Lock()
	for _, c := range p.conns {
		p.s.dropLocked(c)
	}
	p.s.mu.Unlock()
}

func (p *Port) Open() (open, max int) {
	p.s.mu.Lock()
	defer p.s.mu.Unlock()
	return len(p.conns), p.MaxOpen
}

// DeliveredUpto is the last position that was handed out.
func (p *Port) DeliveredUpto() int { p.s.mu.Lock(); defer p.s.mu.Unlock(); return p.upto }

func (p *Port) PollCount() int { p.s.mu.Lock(); defer p.s.mu.Unlock(); return p.Polls }

func (s *Server) Close() {
	s.mu.Lock()
	s.closed = true
	for _, p := range s.ports {
		p.ln.Close()
		for _, c := range p.conns {
			c.c.Close()
		}
	}
	s.mu.Unlock()
}

// Log returns a copy of the stream as it is now.
func (s *Server) Log() []Entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Entry(nil), s.st(Stream).log...)
}

func (s *Server) Total() int { s.mu.Lock(); defer s.mu.Unlock(); return s.st(Stream).total }

// OldestAge is the age in ms of the oldest entry in the log.
func (s *Server) OldestAge() int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.st(Stream).log
	if len(l) == 0 {
		return 0
	}
	return s.Now() - l[0].Ms
}

// Inject appends an entry directly (ms<0: current time); it is reported like an XADD of port "direct".
func (s *Server) Inject(ms int64, fields ...string) Entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	e := s.append(Stream, ms, fields, "direct")
	s.emit(Event{Kind: "add", Port: "direct", Entry: e})
	s.broadcast()
	return e
}

func (s *Server) st(name string) *stream {
	x := s.streams[name]
	if x == nil {
		x = &stream{}
		s.streams[name] = x
	}
	return x
}

func (s *Server) append(name string, ms int64, fields []string, port string) Entry {
	st := s.st(name)
	if ms < 0 {
		ms = s.Now()
	}
	seq := int64(0)
	if ms <= st.lastMs {
		ms, seq = st.lastMs, st.lastSq+1
	}
	st.lastMs, st.lastSq = ms, seq
	st.total++
	e := Entry{N: st.total, Ms: ms, Seq: seq, Fields: append([]string(nil), fields...), Port: port}
	st.log = append(st.log, e)
	return e
}

func (s *Server) broadcast() { close(s.wake); s.wake = make(chan struct{}) }

func (s *Server) emit(e Event) {
	if s.Observe != nil {
		s.Observe(e)
	}
}

type conn struct {
	id    int
	p     *Port
	c     net.Conn
	batch []int // positions added on this connection since the last non-XADD command was answered
	dead  bool
	multi [][]string
	inTx  bool
}

func (s *Server) dropLocked(c *conn) {
	if c.dead {
		return
	}
	c.dead = true
	s.emit(Event{Kind: "lost", Port: c.p.Name, Conn: c.id, Ns: append([]int{}, c.batch...)})
	c.c.Close()
}

// sample keeps MaxOpen: the most connections that were open for a whole second.  (The other side may
// have closed one and opened another some time before this side gets to know of the former.)
func (p *Port) sample() {
	const window = 40
	var last []int
	for {
		time.Sleep(25 * time.Millisecond)
		p.s.mu.Lock()
		if p.s.closed {
			p.s.mu.Unlock()
			return
		}
		n := 0
		for _, c := range p.conns {
			if !c.dead {
				n++
			}
		}
		last = append(last, n)
		if len(last) >= window {
			last = last[len(last)-window:]
			low := last[0]
			for _, x := range last {
				low = min(low, x)
			}
			p.MaxOpen = max(p.MaxOpen, low)
		}
		p.s.mu.Unlock()
	}
}

func (p *Port) accept(ln net.Listener) {
	for {
		nc, err := ln.Accept()
		if err != nil {
			return
		}
		s := p.s
		s.mu.Lock()
		if p.down {
			s.mu.Unlock()
			nc.Close()
			continue
		}
		s.nconn++
		c := &conn{id: s.nconn, p: p, c: nc}
		p.conns[c.id] = c
		s.emit(Event{Kind: "conn", Port: p.Name, Conn: c.id, Conns: len(p.conns)})
		s.mu.Unlock()
		go c.serve()
	}
}

var errProto = errors.New("protocol error")

func readLine(r *bufio.Reader) (string, error) {
	l, err := r.ReadString('\n')
	if err != nil {
		return "", err
	}
	return strings.TrimRight(l, "\r\n"), nil
}

func readCommand(r *bufio.Reader) ([]string, error) {
	l, err := readLine(r)
	if err != nil {
		return nil, err
	}
	if len(l) == 0 {
		return nil, errProto
	}
	if l[0] != '*' {
		return strings.Fields(l), nil
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil || n < 0 {
		return nil, errProto
	}
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		h, err := readLine(r)
		if err != nil {
			return nil, err
		}
		if len(h) == 0 || h[0] != '$' {
			return nil, errProto
		}
		k, err := strconv.Atoi(h[1:])
		if err != nil || k < 0 {
			return nil, errProto
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}

func bulk(w *strings.Builder, x string) { fmt.Fprintf(w, "$%d\r\n%s\r\n", len(x), x) }

func (c *conn) serve() {
	s := c.p.s
	defer func() {
		c.c.Close()
		s.mu.Lock()
		delete(c.p.conns, c.id)
		if !c.dead {
			c.dead = true
			s.emit(Event{Kind: "close", Port: c.p.Name, Conn: c.id, Conns: len(c.p.conns), Ns: append([]int{}, c.batch...)})
		}
		s.mu.Unlock()
	}()
	r := bufio.NewReaderSize(c.c, 1<<16)
	w := bufio.NewWriterSize(c.c, 1<<16)
	for {
		cmd, err := readCommand(r)
		if err != nil {
			return
		}
		if len(cmd) == 0 {
			continue
		}
		reply, drop := c.exec(cmd, w)
		if drop {
			return
		}
		if _, err := w.WriteString(reply); err != nil {
			return
		}
		if r.Buffered() == 0 {
			if n := strings.ToUpper(cmd[0]); n == "XADD" || n == "XTRIM" || n == "EXEC" {
				s.mu.Lock()
				d := c.p.stall
				s.mu.Unlock()
				if d > 0 {
					time.Sleep(d)
					s.mu.Lock()
					s.emit(Event{Kind: "reply", Port: c.p.Name, Conn: c.id})
					s.mu.Unlock()
				}
			}
			if w.Flush() != nil {
				return
			}
		}
	}
}

func (c *conn) exec(cmd []string, w *bufio.Writer) (string, bool) {
	s := c.p.s
	name := strings.ToUpper(cmd[0])
	s.mu.Lock()
	if c.dead {
		s.mu.Unlock()
		return "", true
	}
	switch name {
	case "MULTI":
		c.inTx = true
		c.multi = nil
		s.mu.Unlock()
		return "+OK\r\n", false
	case "EXEC":
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(c.multi))
		q := c.multi
		c.inTx, c.multi = false, nil
		for _, m := range q {
			rep, drop := c.one(strings.ToUpper(m[0]), m)
			if drop {
				s.mu.Unlock()
				return "", true
			}
			b.WriteString(rep)
		}
		s.mu.Unlock()
		return b.String(), false
	}
	if c.inTx {
		c.multi = append(c.multi, cmd)
		s.mu.Unlock()
		return "+QUEUED\r\n", false
	}
	if name == "XREAD" {
		return c.xread(cmd, w) // unlocks
	}
	rep, drop := c.one(name, cmd)
	s.mu.Unlock()
	return rep, drop
}

func (c *conn) fault(name string, args []string) Outcome {
	n := c.p.counts[name]
	c.p.counts[name] = n + 1
	if c.p.Fault == nil {
		return OK
	}
	return c.p.Fault(name, args, n)
}

// one executes a non-blocking command; called with the lock held.
func (c *conn) one(name string, cmd []string) (string, bool) {
	s := c.p.s
	f := c.fault(name, cmd[1:])
	if f == ErrReply {
		if name == "XADD" {
			s.emit(Event{Kind: "addfail", Port: c.p.Name, Conn: c.id, Args: xaddFields(cmd)})
		}
		return "-ERR injected failure\r\n", false
	}
	if f == DropBefore {
		if name == "XADD" {
			s.emit(Event{Kind: "addfail", Port: c.p.Name, Conn: c.id, Args: xaddFields(cmd)})
		}
		s.dropLocked(c)
		return "", true
	}
	rep := c.run(name, cmd)
	if f == DropAfter {
		s.dropLocked(c)
		return "", true
	}
	if name != "XADD" {
		c.batch = nil
	}
	return rep, false
}

func xaddFields(cmd []string) []string {
	i := 2
	for i < len(cmd) {
		switch strings.ToUpper(cmd[i]) {
		case "NOMKSTREAM":
			i++
		case "MAXLEN", "MINID":
			i++
			if i < len(cmd) && (cmd[i] == "~" || cmd[i] == "=") {
				i++
			}
			i++
			if i+1 < len(cmd) && strings.ToUpper(cmd[i]) == "LIMIT" {
				i += 2
			}
		default:
			return cmd[i+1:]
		}
	}
	return nil
}

func parseID(x string, defSeq int64) (int64, int64, error) {
	a, b, ok := strings.Cut(x, "-")
	ms, err := strconv.ParseInt(a, 10, 64)
	if err != nil {
		return 0, 0, err
	}
	if !ok {
		return ms, defSeq, nil
	}
	sq, err := strconv.ParseInt(b, 10, 64)
	return ms, sq, err
}

func less(ms, sq, ms2, sq2 int64) bool { return ms < ms2 || (ms == ms2 && sq < sq2) }

func (c *conn) run(name string, cmd []string) string {
	s := c.p.s
	switch name {
	case "PING":
		return "+PONG\r\n"
	case "AUTH", "SELECT", "CLIENT", "ECHO", "COMMAND", "CONFIG":
		return "+OK\r\n"
	case "HELLO":
		return "-ERR unknown command 'HELLO'\r\n"
	case "XADD":
		if len(cmd) < 4 {
			return "-ERR wrong number of arguments for 'xadd' command\r\n"
		}
		fields := xaddFields(cmd)
		idArg := ""
		if len(fields) < len(cmd) {
			idArg = cmd[len(cmd)-len(fields)-1]
		}
		if len(fields) == 0 || len(fields)%2 != 0 {
			return "-ERR wrong number of arguments for 'xadd' command\r\n"
		}
		if idArg != "*" {
			return "-ERR only * ids are supported here\r\n"
		}
		e := s.append(cmd[1], -1, fields, c.p.Name)
		c.batch = append(c.batch, e.N)
		s.emit(Event{Kind: "add", Port: c.p.Name, Conn: c.id, Entry: e})
		// inline trimming
		for i := 2; i < len(cmd)-len(fields)-1; i++ {
			switch strings.ToUpper(cmd[i]) {
			case "MAXLEN", "MINID":
				a := cmd[i+1]
				near := a == "~"
				if near || a == "=" {
					a = cmd[i+2]
				}
				s.trim(c, cmd[1], strings.ToUpper(cmd[i]), a, near)
			}
		}
		s.broadcast()
		var b strings.Builder
		bulk(&b, e.ID())
		return b.String()
	case "XTRIM":
		if len(cmd) < 4 {
			return "-ERR wrong number of arguments for 'xtrim' command\r\n"
		}
		a := cmd[3]
		near := a == "~"
		if near || a == "=" {
			a = cmd[4]
		}
		n, err := s.trim(c, cmd[1], strings.ToUpper(cmd[2]), a, near)
		if err != nil {
			return "-ERR Invalid stream ID specified as stream command argument\r\n"
		}
		return fmt.Sprintf(":%d\r\n", n)
	case "XLEN":
		return fmt.Sprintf(":%d\r\n", len(s.st(cmd[1]).log))
	case "XRANGE":
		st := s.st(cmd[1])
		var lo, loS, hi, hiS int64 = 0, 0, 1 << 62, 1 << 62
		excl := false
		if len(cmd) < 4 {
			return "-ERR args\r\n"
		}
		if cmd[2] != "-" {
			x := cmd[2]
			if strings.HasPrefix(x, "(") {
				excl = true
				x = x[1:]
			}
			lo, loS, _ = parseID(x, 0)
		}
		if cmd[3] != "+" {
			hi, hiS, _ = parseID(cmd[3], 1<<62)
		}
		var es []Entry
		max := 1 << 30
		if len(cmd) >= 6 && strings.ToUpper(cmd[4]) == "COUNT" {
			max, _ = strconv.Atoi(cmd[5])
		}
		for _, e := range st.log {
			if c.p.gate >= 0 && e.N > c.p.gate {
				break
			}
			if less(e.Ms, e.Seq, lo, loS) || (excl && e.Ms == lo && e.Seq == loS) || less(hi, hiS, e.Ms, e.Seq) {
				continue
			}
			if len(es) >= max {
				break
			}
			es = append(es, e)
		}
		if len(es) > 0 {
			c.p.Reads++
			s.emit(Event{Kind: "read", Port: c.p.Name, Conn: c.id, From: es[0].N, Upto: es[len(es)-1].N})
		}
		var b strings.Builder
		writeEntries(&b, es)
		return b.String()
	}
	return fmt.Sprintf("-ERR unknown command '%s'\r\n", cmd[0])
}

func writeEntries(b *strings.Builder, es []Entry) {
	fmt.Fprintf(b, "*%d\r\n", len(es))
	for _, e := range es {
		b.WriteString("*2\r\n")
		bulk(b, e.ID())
		fmt.Fprintf(b, "*%d\r\n", len(e.Fields))
		for _, f := range e.Fields {
			bulk(b, f)
		}
	}
}

// An approximate trim removes only whole nodes of the stream, of 100 entries each by default.
func (s *Server) trim(c *conn, name, how, arg string, near bool) (int, error) {
	st := s.st(name)
	var cut int
	switch how {
	case "MINID":
		ms, sq, err := parseID(arg, 0)
		if err != nil {
			return 0, err
		}
		cut = sort.Search(len(st.log), func(i int) bool { return !less(st.log[i].Ms, st.log[i].Seq, ms, sq) })
	case "MAXLEN":
		n, err := strconv.Atoi(arg)
		if err != nil {
			return 0, err
		}
		if len(st.log) > n {
			cut = len(st.log) - n
		}
	default:
		return 0, errProto
	}
	if near {
		cut -= cut % 100
	}
	var ns []int
	for _, e := range st.log[:cut] {
		ns = append(ns, e.N)
	}
	var last Entry
	if cut > 0 {
		last = st.log[cut-1]
	}
	st.log = append([]Entry(nil), st.log[cut:]...)
	var young int64
	if cut > 0 {
		young = s.Now() - last.Ms
	}
	s.emit(Event{Kind: "trim", Port: c.p.Name, Conn: c.id, Args: []string{how, arg}, Ns: ns, Young: young})
	return cut, nil
}

// xread is called with the lock held, and releases it.
func (c *conn) xread(cmd []string, w *bufio.Writer) (string, bool) {
	s := c.p.s
	count, block := 1<<30, int64(-1)
	var name, id string
	for i := 1; i < len(cmd); i++ {
		switch strings.ToUpper(cmd[i]) {
		case "COUNT":
			if i+1 < len(cmd) {
				n, err := strconv.Atoi(cmd[i+1])
				if err == nil && n > 0 {
					count = n
				}
				i++
			}
		case "BLOCK":
			if i+1 < len(cmd) {
				block, _ = strconv.ParseInt(cmd[i+1], 10, 64)
				i++
			}
		case "STREAMS":
			if i+2 < len(cmd) {
				name, id = cmd[i+1], cmd[i+2]
			}
			i = len(cmd)
		}
	}
	if name == "" {
		s.mu.Unlock()
		return "-ERR syntax error\r\n", false
	}
	switch c.fault("XREAD", cmd[1:]) {
	case ErrReply:
		s.mu.Unlock()
		return "-ERR injected failure\r\n", false
	case DropBefore:
		s.dropLocked(c)
		s.mu.Unlock()
		return "", true
	case DropAfter:
		s.dropLocked(c)
		s.mu.Unlock()
		return "", true
	}
	st := s.st(name)
	ms, sq := st.lastMs, st.lastSq
	if id != "$" {
		var err error
		ms, sq, err = parseID(id, 0)
		if err != nil {
			s.mu.Unlock()
			return "-ERR Invalid stream ID specified as stream command argument\r\n", false
		}
	}
	var deadline <-chan time.Time
	if block > 0 {
		deadline = time.After(time.Duration(block) * time.Millisecond)
	}
	for {
		if c.dead {
			s.mu.Unlock()
			return "", true
		}
		i := sort.Search(len(st.log), func(i int) bool { return less(ms, sq, st.log[i].Ms, st.log[i].Seq) })
		var es []Entry
		for ; i < len(st.log) && len(es) < count; i++ {
			if c.p.gate >= 0 && st.log[i].N > c.p.gate {
				break
			}
			es = append(es, st.log[i])
		}
		if len(es) > 0 {
			c.p.Reads++
			c.p.Polls++
			c.p.upto = es[len(es)-1].N
			s.emit(Event{Kind: "read", Port: c.p.Name, Conn: c.id, From: es[0].N, Upto: es[len(es)-1].N})
			s.mu.Unlock()
			var b strings.Builder
			b.WriteString("*1\r\n*2\r\n")
			bulk(&b, name)
			writeEntries(&b, es)
			return b.String(), false
		}
		if block < 0 {
			c.p.Polls++
			s.mu.Unlock()
			return "*-1\r\n", false
		}
		wk := s.wake
		s.mu.Unlock()
		if w != nil {
			w.Flush()
		}
		select {
		case <-wk:
		case <-deadline:
			s.mu.Lock()
			c.p.Polls++
			s.mu.Unlock()
			return "*-1\r\n", false
		}
		s.mu.Lock()
	}
}
