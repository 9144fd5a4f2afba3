package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"vp.local/harness/fakeredis"
)

func init() {
	families["mix"] = func(o *Opts) {
		for k := 0; k < o.N; k++ {
			mix(o, o.Seed*1000+int64(k), MixOpts{Cores: 1 + k%3, Kill: k%2 == 1, Faults: k%4 == 2, Invoke: true})
		}
	}
}

type MixOpts struct {
	Cores  int
	Kill   bool
	Faults bool
	Invoke bool
	Memory bool
	Ops    int
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func randEnv(r *rand.Rand) map[string]string {
	return map[string]string{
		"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD":  pick(r, "1", "2", "3", "7", "50"),
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS":      pick(r, "1", "5", "20"),
		"OM_CACHE_IN_MAX_UPDATES_PER_POLL":  pick(r, "1", "2", "3", "10", "10000"),
		"OM_CACHE_IN_WAIT_TIMEOUT_MS":       pick(r, "1", "5", "15"),
		"OM_MATCH_TICKET_DEACTIVATION_WAIT": pick(r, "true", "false"),
		"OM_REDIS_POOL_MAX_ACTIVE":          pick(r, "2", "5", "500"),
		"OM_REDIS_POOL_MAX_IDLE":            pick(r, "1", "2", "500"),
	}
}

// mix: several clients work on several instances at once, each with tickets of its own.
func mix(o *Opts, seed int64, mo MixOpts) {
	r := rand.New(rand.NewSource(seed))
	w := NewWorld(o.Bin, seed, mo.Memory, randEnv(r))
	var cores []*Core
	for i := 0; i < mo.Cores; i++ {
		cores = append(cores, w.AddCore(fmt.Sprintf("A%d", i), nil))
	}
	pools := []PoolSpec{{"all", nil}, {"red", []string{"red"}}, {"blue", []string{"blue"}}, {"both", []string{"red", "blue"}}}
	ops := mo.Ops
	if ops == 0 {
		ops = 14
	}
	var wg sync.WaitGroup
	usable := sync.RWMutex{} // held for reading by an operation, for writing by a kill
	flow := sync.RWMutex{}
	clients := 4
	if mo.Memory {
		clients = 2
	}
	for cl := 0; cl < clients; cl++ {
		wg.Add(1)
		rr := rand.New(rand.NewSource(seed*31 + int64(cl)))
		go func() {
			defer wg.Done()
			var mine, active []string
			tried := map[string]bool{}
			for k := 0; k < ops && !w.Dead(); k++ {
				usable.RLock()
				c := cores[rr.Intn(len(cores))]
				switch x := rr.Intn(10); {
				case x < 4 || len(mine) == 0:
					n := 1 + rr.Intn(4)
					var iw sync.WaitGroup
					var mu sync.Mutex
					for j := 0; j < n; j++ {
						tags := [][]string{{}, {"red"}, {"blue"}, {"red", "blue"}}[rr.Intn(4)]
						iw.Add(1)
						t := w.NewTicket(tags...)
						go func() {
							defer iw.Done()
							id, err := w.Create(c, t)
							if err == nil {
								mu.Lock()
								mine = append(mine, id)
								mu.Unlock()
							}
						}()
					}
					iw.Wait()
				case x < 6:
					// activate some, with ids that are not ours to name mixed in
					ids := append([]string{}, mine[rr.Intn(len(mine)):]...)
					if rr.Intn(3) == 0 {
						ids = append(ids, "no-such-form", "")
						rr.Shuffle(len(ids), func(a, b int) { ids[a], ids[b] = ids[b], ids[a] })
					}
					// A ticket that may have been activated before is not activated again while an
					// invocation is in progress: the server looks at intervals whether the tickets of a
					// match are inactive, and takes a minute to complete when they became active again.
					again := false
					for _, x := range ids {
						again = again || tried[x]
						tried[x] = true
					}
					if again && !flow.TryLock() {
						break
					}
					if w.Act(c, ids...) == nil {
						active = ids
					}
					if again {
						flow.Unlock()
					}
				case x < 7:
					if len(active) > 0 {
						w.Deact(c, active[rr.Intn(len(active))])
					}
				case x < 8:
					w.Assign(c, w.NewAssignment(), mine[rr.Intn(len(mine))])
				default:
					if !mo.Invoke {
						w.Look(c, pools...)
						break
					}
					f := &Fn{Kind: pick(rr, "ok", "ok", "err")}
					sd := rr.Int63()
					f.Make = func(ps map[string][]*pb.Ticket) []Step {
						return w.makeMatches(rand.New(rand.NewSource(sd)), ps, 3)
					}
					flow.RLock()
					inv := w.Invoke(c, pools, 0, f)
					<-inv.Done
					flow.RUnlock()
				}
				usable.RUnlock()
			}
		}()
	}
	stop := make(chan struct{})
	var dis sync.WaitGroup
	if mo.Kill {
		dis.Add(1)
		go func() {
			defer dis.Done()
			for j := 0; j < 2; j++ {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(30+r.Intn(120)) * time.Millisecond):
				}
				c := cores[r.Intn(len(cores))]
				// half of the crashes hit operations in flight
				if r.Intn(2) == 0 {
					usable.Lock()
					w.Kill(c)
					w.Restart(c)
					usable.Unlock()
				} else {
					w.Kill(c)
					usable.Lock()
					w.Restart(c)
					usable.Unlock()
				}
			}
		}()
	}
	if mo.Faults {
		for _, c := range cores {
			rr := rand.New(rand.NewSource(seed * 77))
			var mu sync.Mutex
			c.Redis.SetFault(func(cmd string, args []string, nth int) fakeredis.Outcome {
				mu.Lock()
				defer mu.Unlock()
				if cmd != "XADD" && cmd != "XREAD" && cmd != "XTRIM" {
					return fakeredis.OK
				}
				if rr.Intn(12) == 0 {
					return pick(rr, fakeredis.ErrReply, fakeredis.DropBefore, fakeredis.DropAfter)
				}
				return fakeredis.OK
			})
		}
	}
	wg.Wait()
	close(stop)
	dis.Wait()
	if mo.Faults {
		for _, c := range cores {
			c.Redis.SetFault(nil)
		}
	}
	for _, c := range cores {
		if !w.Dead() && w.Sync(c, cores[0]) {
			w.Look(c, pools...)
		}
	}
	o.Save(w, "mix")
}

// makeMatches builds up to n matches of tickets offered in the pools, with odd ids mixed in.
func (w *World) makeMatches(r *rand.Rand, ps map[string][]*pb.Ticket, n int) []Step {
	seen := map[string]bool{}
	var ids []string
	for _, ts := range ps {
		for _, t := range ts {
			if !seen[t.GetId()] {
				seen[t.GetId()] = true
				ids = append(ids, t.GetId())
			}
		}
	}
	sort.Strings(ids)
	r.Shuffle(len(ids), func(a, b int) { ids[a], ids[b] = ids[b], ids[a] })
	var st []Step
	for len(st) < n && len(ids) > 0 {
		k := 1 + r.Intn(min(3, len(ids)))
		a := append([]string{}, ids[:k]...)
		ids = ids[k:]
		var b []string
		switch r.Intn(6) {
		case 0:
			b = []string{"odd-id", "", "x1-1"}
		case 1:
			b = append(b, a[0]) // listed twice
		case 2:
			b, a = a[:1], a[1:]
		}
		rosters := [][]string{a, b, nil}
		for len(a) > 1 && r.Intn(3) == 0 { // more rosters of one ticket each
			rosters = append(rosters, a[len(a)-1:])
			a = a[:len(a)-1]
			rosters[0] = a
		}
		st = append(st, Step{Match: w.MatchOf(rosters...), Sleep: time.Duration(r.Intn(3)) * time.Millisecond})
	}
	return st
}
