package main

import (
	"fmt"
	"math/rand"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"

	pb "open-match.dev/pkg/pb/v2"
)

func init() {
	families["bulk"] = func(o *Opts) { parallel(o, 3, func(k int, seed int64) { bulk(o, seed, k) }) }
}

// bulk: thousands of updates are delivered at once, to instances that read them in portions of
// different sizes, or that start when all has been written.  What an instance then offers and reports
// as assigned is compared with what the log says.
func bulk(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	w := NewWorld(o.Bin, seed, false, map[string]string{
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "10",
		"OM_CACHE_IN_WAIT_TIMEOUT_MS":  "20",
	})
	w.Rec.Only = map[string]bool{"start": true, "died": true, "unserviceable": true, "bulk": true}
	total := 2500 + r.Intn(2500)
	if k%2 == 1 { // more than is read at once
		total = 13000
	}
	portions := []string{"10000", fmt.Sprint(300 + r.Intn(1500)), fmt.Sprint(total / 2)}
	var cores []*Core
	add := func() {
		cores = append(cores, w.AddCore(fmt.Sprintf("A%d", len(cores)), map[string]string{"OM_CACHE_IN_MAX_UPDATES_PER_POLL": portions[len(cores)%3]}))
	}
	type tk struct {
		id  string
		on  bool
		asg string
	}
	var ts []*tk
	tag := fmt.Sprintf("bulk%d", k)
	write := func() {
		for j := 0; j < total; j++ {
			ms := time.Now().UnixMilli()
			switch x := r.Intn(9); {
			case x < 4 || len(ts) < 50:
				now := time.Now()
				b, err := proto.Marshal(&pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{tag}, CreationTime: timestamppb.New(now)}, ExpirationTime: timestamppb.New(now.Add(10 * time.Minute))})
				must(err)
				ts = append(ts, &tk{id: w.Redis.Inject(ms, "ticket", string(b)).ID()})
			case x < 7:
				t := ts[r.Intn(len(ts))]
				t.on = true
				w.Redis.Inject(ms, "activate", t.id)
			case x < 8:
				t := ts[r.Intn(len(ts))]
				t.on = false
				w.Redis.Inject(ms, "deactivate", t.id)
			default:
				t := ts[r.Intn(len(ts))]
				t.asg = fmt.Sprintf("c:%d", j)
				v, err := proto.Marshal(&pb.Assignment{Connection: t.asg})
				must(err)
				w.Redis.Inject(ms, "assign", t.id, "connection", string(v))
			}
		}
	}
	look := func(c *Core) {
		if w.Dead() {
			return
		}
		if !w.Sync(c, cores[0]) {
			w.Rec.Add("unserviceable", Ev{"i": c.Name, "what": "bulk"})
			w.GiveUp()
			return
		}
		got := map[string]int{}
		for _, id := range w.Look(c, PoolSpec{"bulk", []string{tag}})["bulk"] {
			got[id]++
		}
		missing, extra, twice := 0, 0, 0
		var ids []string
		want := map[string]string{}
		for _, t := range ts {
			switch {
			case got[t.id] > 1:
				twice++
			case t.on && got[t.id] == 0:
				missing++
			case !t.on && got[t.id] > 0:
				extra++
			}
			if t.asg != "" {
				ids = append(ids, t.id)
				want[t.id] = t.asg
			}
		}
		// some of the assigned ones
		r.Shuffle(len(ids), func(a, b int) { ids[a], ids[b] = ids[b], ids[a] })
		ids = ids[:min(len(ids), 120)]
		unassigned, wrong := len(ids), 0
		ctx, cancel := ctxT(20 * time.Second)
		s, err := c.Cli.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: ids})
		for err == nil && unassigned > 0 {
			var a *pb.StreamedWatchAssignmentsResponse
			if a, err = s.Recv(); err == nil {
				unassigned--
				if want[a.GetId()] != a.GetAssignment().GetConnection() {
					wrong++
				}
			}
		}
		cancel()
		if !w.Check(c) {
			return
		}
		w.Rec.Add("bulk", Ev{"i": c.Name, "n": len(ts), "missing": missing, "extra": extra, "twice": twice, "unassigned": unassigned, "wrong": wrong})
	}
	all := func() {
		for _, c := range cores {
			look(c)
		}
	}
	add()
	add()
	for round := 0; round < 2 && !w.Dead(); round++ {
		for _, c := range cores { // everything arrives at once
			c.Redis.SetGate(w.Redis.Total())
		}
		write()
		for _, c := range cores {
			c.Redis.SetGate(-1)
		}
		if round == 0 {
			all()
		}
	}
	add()
	all()
	w.Close()
	o.Save(w, "bulk")
}
