package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"vp.local/harness/fakeredis"
)

func init() {
	families["batch"] = func(o *Opts) { parallel(o, 6, func(k int, seed int64) { batch(o, seed, k) }) }
}

// bscen queues updates, each of which can be told apart, and records when they are written.
type bscen struct {
	w    *World
	c    *Core
	rec  *Rec
	r    *rand.Rand
	mu   sync.Mutex
	n    int
	rank int
	dead bool
}

func (x *bscen) key(n int) string { return fmt.Sprintf("%d-%d", n, 0) }

// number tells which update an entry of the log is.
func (x *bscen) number(fields []string) int {
	ev := x.w.decode(fields)
	n := 0
	if ev["cmd"] == "ticket" {
		for _, t := range ev["tags"].([]string) {
			fmt.Sscanf(t, "n%d", &n)
		}
		return n
	}
	fmt.Sscanf(ev["key"].(string), "%d-", &n)
	return n
}

func (x *bscen) spy(e fakeredis.Event) {
	switch e.Kind {
	case "add":
		x.rec.Add("write", Ev{"n": x.number(e.Entry.Fields), "conn": e.Conn})
	case "addfail":
		x.rec.Add("write", Ev{"n": x.number(e.Args), "conn": e.Conn})
	case "trim":
		x.rec.Add("flush", Ev{"conn": e.Conn})
	case "reply":
		x.rec.Add("reply", Ev{"conn": e.Conn})
	}
}

// ask makes one call with size updates, all of the current rank, and waits for its end.
func (x *bscen) ask(kind string, size int) {
	x.mu.Lock()
	ns := []int{}
	for j := 0; j < size; j++ {
		x.n++
		ns = append(ns, x.n)
	}
	rank := x.rank
	x.mu.Unlock()
	ids := make([]string, size)
	for j, n := range ns {
		ids[j] = x.key(n)
	}
	x.rec.Add("ask", Ev{"ns": ns, "rank": rank})
	ctx, cancel := ctxT(60 * time.Second)
	defer cancel()
	var err error
	switch kind {
	case "create":
		_, err = x.c.Cli.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{
			Attributes: &pb.Ticket_FilterableData{Tags: []string{fmt.Sprintf("n%d", ns[0])}}}})
	case "act":
		_, err = x.c.Cli.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
	case "deact":
		_, err = x.c.Cli.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
	case "assign":
		ro := &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}}
		for _, id := range ids {
			ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: id})
		}
		_, err = x.c.Cli.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: ro})
	}
	x.rec.Add("ret", Ev{"ns": ns, "ok": err == nil, "code": codeOf(err)})
}

func (x *bscen) kind() string { return pick(x.r, "create", "act", "deact", "assign") }

// burst makes n calls of one update each at once.
func (x *bscen) burst(n int) {
	kinds := make([]string, n)
	for j := range kinds {
		kinds[j] = x.kind()
	}
	each(n, func(j int) { x.ask(kinds[j], 1) })
}

func batch(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	kind := k % 7
	most, wait := 5, 6000
	switch kind {
	case 1, 5:
		most, wait = 1000, 700+r.Intn(200)
	case 2:
		most, wait = 2+r.Intn(3), 300
	case 3:
		most, wait = 1000, 2500
	case 4, 6:
		most, wait = 2+r.Intn(9), 100
	}
	x := &bscen{r: r, rec: NewRec()}
	x.w = NewWorld(o.Bin, seed, kind == 5, map[string]string{
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": fmt.Sprint(most), "OM_CACHE_OUT_WAIT_TIMEOUT_MS": fmt.Sprint(wait)})
	x.w.Rec.Only = map[string]bool{"died": true}
	x.rec.Add("bcfg", Ev{"most": most, "wait": wait, "slack": 2500, "memory": kind == 5})
	x.w.Spy = x.spy
	x.c = x.w.AddCore("A", nil)
	switch kind {
	case 0: // full batches are not kept waiting
		for j := 0; j < 4; j++ {
			x.burst(most)
			if j%2 == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
			}
		}
		x.burst(2*most + 2)
	case 1, 5: // incomplete batches are written though more keeps coming
		var wg sync.WaitGroup
		for j := 0; j < 45; j++ {
			wg.Add(1)
			kd := x.kind()
			go func() { defer wg.Done(); x.ask(kd, 1) }()
			time.Sleep(time.Duration(80+r.Intn(120)) * time.Millisecond)
		}
		wg.Wait()
	case 2: // the storage is slow
		x.c.WRedis.SetStall(1200 * time.Millisecond)
		var wg sync.WaitGroup
		for j := 0; j < 12; j++ {
			wg.Add(1)
			kd := x.kind()
			size := 1
			if kd != "create" {
				size = 1 + r.Intn(3)
			}
			go func() { defer wg.Done(); x.ask(kd, size) }()
			time.Sleep(time.Duration(r.Intn(150)) * time.Millisecond)
		}
		wg.Wait()
		x.c.WRedis.SetStall(0)
	case 3: // the order of queueing is kept within a batch
		for round := 0; round < 3; round++ {
			x.rec.Add("round", nil)
			var wg sync.WaitGroup
			for j := 0; j < 12; j++ {
				x.mu.Lock()
				x.rank++
				x.mu.Unlock()
				wg.Add(1)
				kd := x.kind()
				size := 1
				if kd != "create" {
					size = 1 + r.Intn(3)
				}
				go func() { defer wg.Done(); x.ask(kd, size) }()
				time.Sleep(60 * time.Millisecond)
			}
			wg.Wait()
		}
	case 4: // long calls side by side
		each(4, func(j int) {
			rr := rand.New(rand.NewSource(seed + int64(j)))
			for a := 0; a < 3; a++ {
				x.ask(pick(rr, "act", "deact", "assign"), pick(rr, 1, 3, 40, 200))
			}
		})
	case 6: // ... and with failures of single commands
		var mu sync.Mutex
		x.c.WRedis.SetFault(func(cmd string, args []string, nth int) fakeredis.Outcome {
			mu.Lock()
			defer mu.Unlock()
			if cmd == "XADD" && r.Intn(6) == 0 {
				return fakeredis.ErrReply
			}
			return fakeredis.OK
		})
		each(4, func(j int) {
			rr := rand.New(rand.NewSource(seed + int64(j)))
			for a := 0; a < 4; a++ {
				x.ask(pick(rr, "act", "deact", "assign"), pick(rr, 1, 3, 30))
			}
		})
		x.c.WRedis.SetFault(nil)
	}
	time.Sleep(200 * time.Millisecond)
	x.rec.Add("bend", nil)
	if !x.w.Check(x.c) {
		x.rec.Add("died", Ev{"why": x.c.Tail(600)})
	}
	x.w.Close()
	p := o.Path("batch")
	x.rec.Write(p)
	fmt.Printf("TRACE %s events=%d\n", p, x.rec.Len())
}
