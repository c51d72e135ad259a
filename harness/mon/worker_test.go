package mon

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/pojol/braid/lib/log"
)

// job is what the driver asks a worker to do (environment variable MON_JOB).
type job struct {
	Prop     string
	Mode     string // virtual, real, list
	Scenario string // only this one, if set
	Seed     uint64 // base seed
	Replay   bool   // run exactly the case Seed of Scenario
	Worker   int
	Workers  int
	Thorough bool
	BudgetMS int64
	Out      string
	Procs    int
	Level    uint32
	Repeat   int
}

var progress atomic.Int64

func TestWorker(t *testing.T) {
	spec := os.Getenv("MON_JOB")
	if spec == "" {
		t.Skip("no job")
	}
	var j job
	if err := json.Unmarshal([]byte(spec), &j); err != nil {
		t.Fatal(err)
	}
	if j.Mode == "list" {
		for _, s := range scenarios {
			b, _ := json.Marshal(map[string]interface{}{"prop": s.Prop, "name": s.Name, "real": s.Mode == Real, "quick": s.Quick,
				"thorough": s.Thorough, "rule": s.Rule, "races": s.Races})
			fmt.Println("SCN " + string(b))
		}
		return
	}
	f, err := os.OpenFile(j.Out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	w := &writer{f: f}
	if j.Procs > 0 {
		runtime.GOMAXPROCS(j.Procs)
	}
	log.SetSLog(&log.ServerLog{Helper: logSink{}})

	// a goroutine outside every bubble that notices when nothing moves any more in real time
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			p := progress.Load()
			if p != last {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > freezeLimit {
				// which goroutines are stuck or spin inside braid, in every one of a few looks?
				dumps := []string{}
				for i := 0; i < 4; i++ {
					dumps = append(dumps, stacks())
					time.Sleep(700 * time.Millisecond)
				}
				if progress.Load() != p {
					continue
				}
				w.put(map[string]interface{}{"t": "frozen", "dump": interesting(dumps[0]), "braid": frozenIn(dumps)})
				os.Exit(97)
			}
		}
	}()

	run := func() {
		start := wall()
		for _, s := range scenarios {
			if s.Prop != j.Prop || (j.Mode == "real") != (s.Mode == Real) || (j.Scenario != "" && j.Scenario != s.Name) {
				continue
			}
			if j.Replay {
				for i := 0; i < j.Repeat; i++ {
					c := runCase(w, s, j.Seed, j.Level)
					progress.Add(1)
					if c.Failed() {
						break
					}
				}
				continue
			}
		}
		if !j.Replay {
			var mine []*Scenario
			for _, s := range scenarios {
				if s.Prop != j.Prop || (j.Mode == "real") != (s.Mode == Real) || (j.Scenario != "" && j.Scenario != s.Name) {
					continue
				}
				mine = append(mine, s)
			}
			// round robin over the scenarios, so that a short budget still covers all of them
			left := 0
			for _, s := range mine {
				left = max(left, s.n(j.Thorough))
			}
		rounds:
			for i := j.Worker; i < left; i += j.Workers {
				// spread the cases of smaller scenarios evenly over the rounds
				for _, s := range mine {
					n := s.n(j.Thorough)
					if n == 0 || (i*n)/left == ((i+1)*n)/left && i != 0 {
						continue
					}
					if (wall()-start)/1e6 > j.BudgetMS {
						w.put(map[string]interface{}{"t": "note", "msg": "budget reached"})
						break rounds
					}
					seed := mix(j.Seed, uint64(i), hash(s.Name))
					c := runCase(w, s, seed, j.Level)
					progress.Add(1)
					if c.Failed() {
						break rounds
					}
				}
			}
		}
		w.put(map[string]interface{}{"t": "done"})
		os.Exit(0)
	}
	if j.Mode == "virtual" {
		synctest.Test(t, func(*testing.T) { run() })
	} else {
		run()
	}
}

func (s *Scenario) n(thorough bool) int {
	if thorough {
		return s.Thorough
	}
	return s.Quick
}
