package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	pb "open-match.dev/pkg/pb/v2"
	"vp.local/harness/fakeredis"
)

// freePort returns a loopback TCP port that was free a moment ago, below the ephemeral range.
var portMu sync.Mutex
var nextPort = 15000 + (os.Getpid()*37)%12000

func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		nextPort++
		if nextPort > 31000 {
			nextPort = 15000
		}
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", nextPort))
		if err == nil {
			ln.Close()
			return nextPort
		}
	}
}

// Core is one running om-core process.
type Core struct {
	Name    string
	bin     string
	env     map[string]string
	Port    int
	HTTP    int
	Metrics int
	Pprof   int
	Redis   *fakeredis.Port // nil: memory
	WRedis  *fakeredis.Port // where it writes
	cmd     *exec.Cmd
	conn    *grpc.ClientConn
	Cli     pb.OpenMatchServiceClient
	GCli    pb.OpenMatchServiceClient // by gRPC
	HCli    *httpClient               // by HTTP, if viaHTTP
	out     *bytes.Buffer
	outMu   sync.Mutex
	exited  chan struct{}
	killed  bool
	rec     *Rec
	Dial    []grpc.DialOption // how to connect to it
}

type lockedWriter struct {
	mu *sync.Mutex
	b  *bytes.Buffer
}

func (w lockedWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.b.Len() > 4<<20 {
		t := append([]byte{}, w.b.Bytes()[w.b.Len()-1<<20:]...)
		w.b.Reset()
		w.b.Write(t)
	}
	return w.b.Write(p)
}

// NewCore prepares (does not start) an instance. redis may be nil for the memory store.
func NewCore(bin, name string, redis *fakeredis.Port, env map[string]string, rec *Rec) *Core {
	c := &Core{Name: name, bin: bin, Redis: redis, rec: rec, env: map[string]string{}}
	base := map[string]string{
		"OM_LOGGING_LEVEL":             "fatal",
		"OM_CACHE_IN_WAIT_TIMEOUT_MS":  "10",
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "10",
	}
	for k, v := range base {
		c.env[k] = v
	}
	if redis == nil {
		c.env["OM_STATE_STORAGE_TYPE"] = "memory"
	} else {
		h, p := redis.HostPort()
		for _, d := range []string{"READ", "WRITE"} {
			c.env["OM_REDIS_"+d+"_HOST"] = h
			c.env["OM_REDIS_"+d+"_PORT"] = p
		}
		c.env["OM_STATE_STORAGE_TYPE"] = "redis"
	}
	for k, v := range env {
		c.env[k] = v
	}
	return c
}

func (c *Core) Start() error {
	for try := 0; ; try++ {
		err := c.start1()
		if err == nil {
			return nil
		}
		if try >= 3 {
			return fmt.Errorf("%v; output: %s", err, c.Tail(1500))
		}
	}
}

func (c *Core) start1() error {
	c.Port, c.HTTP, c.Metrics, c.Pprof = freePort(), freePort(), freePort(), freePort()
	c.out = &bytes.Buffer{}
	c.cmd = exec.Command(c.bin)
	e := []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin",
		fmt.Sprintf("VP_LISTEN_MAP=:58081=127.0.0.1:%d,:2223=127.0.0.1:%d,localhost:2224=127.0.0.1:%d", c.HTTP, c.Metrics, c.Pprof),
		fmt.Sprintf("PORT=%d", c.Port)}
	for k, v := range c.env {
		e = append(e, k+"="+v)
	}
	c.cmd.Env = e
	c.cmd.Dir = "/"
	c.cmd.Stdout = lockedWriter{&c.outMu, c.out}
	c.cmd.Stderr = c.cmd.Stdout
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	c.killed = false
	if err := c.cmd.Start(); err != nil {
		return err
	}
	ex := make(chan struct{})
	c.exited = ex
	cmd := c.cmd
	go func() { cmd.Wait(); close(ex) }()
	deadline := time.Now().Add(20 * time.Second)
	for {
		nc, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", c.Port), time.Second)
		if err == nil {
			nc.Close()
			break
		}
		select {
		case <-ex:
			return fmt.Errorf("om-core exited during start")
		default:
		}
		if time.Now().After(deadline) {
			c.killed = true
			c.cmd.Process.Kill()
			return fmt.Errorf("om-core did not listen")
		}
		time.Sleep(5 * time.Millisecond)
	}
	cc, err := dial(fmt.Sprintf("127.0.0.1:%d", c.Port), c.Dial...)
	if err != nil {
		return err
	}
	c.conn = cc
	c.Cli = pb.NewOpenMatchServiceClient(cc)
	c.GCli = c.Cli
	if viaHTTP > 0 {
		if !waitTCP(fmt.Sprintf("127.0.0.1:%d", c.HTTP), 20*time.Second) {
			return fmt.Errorf("om-core does not serve HTTP")
		}
		c.HCli = newHTTP(c.HTTP, c.rec, int64(c.HTTP))
		c.Cli = &either{g: c.GCli, h: c.HCli, r: rand.New(rand.NewSource(int64(c.Port))), part: viaHTTP}
	}
	return nil
}

func dial(addr string, more ...grpc.DialOption) (*grpc.ClientConn, error) {
	return grpc.Dial(addr, append([]grpc.DialOption{grpc.WithTransportCredentials(insecure.NewCredentials())}, more...)...)
}

func netDial(addr string) (net.Conn, error) { return net.DialTimeout("tcp", addr, time.Second) }

// Alive says whether the process is running.
func (c *Core) Alive() bool {
	select {
	case <-c.exited:
		return false
	default:
		return true
	}
}

// Died says whether the process ended without having been killed by the harness.
func (c *Core) Died() bool { return !c.killed && !c.Alive() }

func (c *Core) Kill() {
	c.killed = true
	c.cmd.Process.Kill()
	<-c.exited
	if c.conn != nil {
		c.conn.Close()
	}
	if c.HCli != nil {
		c.HCli.cl.CloseIdleConnections()
	}
}

func (c *Core) Tail(n int) string {
	c.outMu.Lock()
	defer c.outMu.Unlock()
	s := c.out.String()
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
		if len(s) > n {
			s = s[:n]
		}
		return s
	}
	if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
		if len(s) > n {
			s = s[:n]
		}
		return s
	}
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

func ctxT(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}
