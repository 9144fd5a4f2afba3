package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"time"

	"vp.local/harness/fakeredis"
)

func init() {
	families["burst"] = func(o *Opts) { parallel(o, 4, func(k int, seed int64) { burst(o, seed, k) }) }
}

// burst: updates of the same ticket meet in a batch of the outgoing queue, and in a batch of the log
// as it is read, in each of the ways enumerated by BurstCases.
func burst(o *Opts, seed int64, k int) {
	r := rand.New(rand.NewSource(seed))
	var cases []struct {
		Ops []string
		On  bool
	}
	b, err := os.ReadFile(o.Arg)
	must(err)
	must(json.Unmarshal(b, &cases))
	const parts = 3
	env := map[string]string{
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": "1000",
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS":     "250",
		"OM_CACHE_IN_MAX_UPDATES_PER_POLL": pick(r, "10000", "100", "3"),
		"OM_CACHE_IN_WAIT_TIMEOUT_MS":      "15",
	}
	if k/parts%3 == 2 {
		env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = pick(r, "1", "5", "23")
		env["OM_CACHE_OUT_WAIT_TIMEOUT_MS"] = "40"
	}
	w := NewWorld(o.Bin, seed, false, env)
	cores := []*Core{w.AddCore("A0", nil), w.AddCore("A1", map[string]string{"OM_CACHE_IN_MAX_UPDATES_PER_POLL": "10000"})}
	c := cores[0]
	ids := map[int]string{}
	var mine []int
	for j := range cases {
		if j%parts == k%parts {
			mine = append(mine, j)
		}
	}
	tix := make([]string, len(mine))
	each(len(mine), func(j int) {
		tix[j], _ = w.Create(c, w.NewTicket([][]string{{}, {"red"}, {"blue"}, {"red", "blue"}}[j%4]...))
	})
	for j, n := range mine {
		ids[n] = tix[j]
	}
	if k/parts%3 != 0 && !w.Dead() {
		// some have been active before
		var on []string
		for j := range tix {
			if j%2 == 1 {
				on = append(on, tix[j])
			}
		}
		w.Act(c, on...)
		w.Sync(cores[1], c)
	}
	if k/parts%3 == 1 {
		kind := pick(r, fakeredis.ErrReply, fakeredis.ErrReply, fakeredis.DropBefore, fakeredis.DropAfter)
		rr := rand.New(rand.NewSource(seed))
		c.Redis.SetFault(func(cmd string, args []string, nth int) fakeredis.Outcome {
			if cmd == "XADD" && rr.Intn(9) == 0 && (kind == fakeredis.ErrReply || nth%120 == 100) {
				return kind
			}
			return fakeredis.OK
		})
	}
	// the other instance gets all of it at once
	gate := w.Redis.Total()
	cores[1].Redis.SetGate(gate)
	one, two := w.NewAssignment(), w.NewAssignment()
	each(len(mine), func(j int) {
		cs := cases[mine[j]]
		id := ids[mine[j]]
		if id == "" {
			return
		}
		start := time.Now()
		each(len(cs.Ops), func(n int) {
			time.Sleep(time.Until(start.Add(time.Duration(n) * 25 * time.Millisecond)))
			op := cs.Ops[n]
			if k/parts%3 == 1 && op < "a" {
				// which of two calls that update a ticket twice was hit by an error cannot be told
				op = map[string]string{"A": "a", "D": "d", "S": "s"}[op]
			}
			switch op {
			case "a":
				w.Act(c, id)
			case "A":
				w.Act(c, id, id)
			case "d":
				w.Deact(c, id)
			case "D":
				w.Deact(c, id, id)
			case "s":
				w.Assign(c, one, id)
			case "t":
				w.Assign(c, two, id)
			case "S":
				w.Assign(c, one, id, id)
			}
		})
	})
	c.Redis.SetFault(nil)
	cores[1].Redis.SetGate(-1)
	var asg []string
	for _, n := range mine {
		for _, x := range cases[n].Ops {
			if (x == "s" || x == "t" || x == "S") && ids[n] != "" && k/parts%3 != 1 {
				asg = append(asg, ids[n])
				break
			}
		}
	}
	w.everywhere(cores, asg)
	o.Save(w, "burst")
}
