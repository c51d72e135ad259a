// Package mon holds the monitors that decide the properties in /verif/properties.jsonl: workloads that run the real
// braid code, and oracles that watch what it does. The driver (/verif/check.py) builds it as a test binary and runs it
// as worker processes, see worker_test.go.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/pojol/braid/lib/log"
	"github.com/pojol/braid/lib/vsched"
	"go.uber.org/zap/zapcore"
)

// Mode says in which kind of time a scenario runs.
type Mode int

const (
	Virtual Mode = iota // inside a synctest bubble: time is virtual, a stuck system is found at once
	Real                // real time, for what needs the network
)

// Scenario is a generator of executions together with its oracle.
type Scenario struct {
	Prop, Name string
	Mode       Mode
	Quick      int // cases of the quick tier, over all workers
	Thorough   int
	Rule       string // what one case is and what makes it non-trivial
	Limit      time.Duration
	Races      bool // race reports of this scenario are violations of Prop
	NoNoise    bool
	Lag        time.Duration // every command of braid takes up to this to reach the store (in real time only: what waits for a mutex stops virtual time)
	Hot        bool          // little code runs, so that more of it can be delayed for long
	Run        func(c *Case)
}

var scenarios []*Scenario

func reg(s Scenario) {
	if s.Limit == 0 {
		s.Limit = 3 * time.Minute
		if s.Mode == Real {
			s.Limit = 60 * time.Second
		}
	}
	scenarios = append(scenarios, &s)
}

// Case is one execution.
type Case struct {
	S    *Scenario
	Seed uint64
	R    *rand.Rand
	w    *writer

	mu       sync.Mutex
	viols    int
	counts   map[string]int64
	sigs     map[uint64]struct{}
	samples  []string
	cleanups []func()
	evals    int64
}

// Fail reports a violation. key identifies what failed independently of the seed.
func (c *Case) Fail(key, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	c.mu.Lock()
	c.viols++
	n := c.viols
	c.mu.Unlock()
	if n <= 5 {
		c.w.put(map[string]interface{}{"t": "viol", "prop": c.S.Prop, "scn": c.S.Name, "seed": c.Seed, "key": key, "msg": msg})
	}
}

// Check counts one oracle evaluation and reports a violation if it does not hold.
func (c *Case) Check(ok bool, key, format string, args ...interface{}) bool {
	c.mu.Lock()
	c.evals++
	c.mu.Unlock()
	if !ok {
		c.Fail(key, format, args...)
	}
	return ok
}

// N counts observed events.
func (c *Case) N(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
}

// Sig records something the oracle observed (an order, a state, an outcome) so that distinct ones can be counted.
func (c *Case) Sig(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, c.S.Name)
	for _, p := range parts {
		fmt.Fprintf(h, "|%v", p)
	}
	c.mu.Lock()
	c.sigs[h.Sum64()] = struct{}{}
	c.mu.Unlock()
}

// Sample keeps a description of this case for the evidence.
func (c *Case) Sample(format string, args ...interface{}) {
	c.mu.Lock()
	if len(c.samples) < 3 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

func (c *Case) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.viols > 0
}

// Defer registers a cleanup that runs when the case ends.
func (c *Case) Defer(f func()) {
	c.mu.Lock()
	c.cleanups = append(c.cleanups, f)
	c.mu.Unlock()
}

// Rand returns an independent generator, for use in one other goroutine.
func (c *Case) Rand() *rand.Rand { return rand.New(rand.NewSource(c.R.Int63())) }

// writer appends JSON lines to the worker's result file.
type writer struct {
	mu sync.Mutex
	f  *os.File
}

func (w *writer) put(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(map[string]string{"t": "error", "msg": "marshal: " + err.Error()})
	}
	w.mu.Lock()
	w.f.Write(append(b, '\n'))
	w.mu.Unlock()
}

func stacks() string {
	buf := make([]byte, 8<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// interesting keeps the goroutines that involve braid.
func interesting(dump string) string {
	var out []string
	for _, g := range strings.Split(dump, "\n\n") {
		if strings.Contains(g, "github.com/pojol/braid/") {
			out = append(out, g)
		}
		if len(out) > 30 {
			break
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 20000 {
		s = s[:20000]
	}
	return s
}

// freezeLimit is how long, in real time, one case may take.
const freezeLimit = 75 * time.Second

var gHead = regexp.MustCompile(`^goroutine (\d+) .*\[([^\],]+)`)

// frozenIn reports whether some goroutine is, in all dumps, waiting for a lock or running inside braid.
func frozenIn(dumps []string) bool {
	in := map[string]int{}
	for _, d := range dumps {
		for _, g := range strings.Split(d, "\n\n") {
			m := gHead.FindStringSubmatch(g)
			if m == nil {
				continue
			}
			state := strings.TrimSuffix(m[2], " (durable)")
			switch {
			case strings.HasPrefix(state, "sync.Mutex"), strings.HasPrefix(state, "sync.RWMutex"), strings.HasPrefix(state, "semacquire"),
				strings.HasPrefix(state, "running"), strings.HasPrefix(state, "runnable"):
			default:
				continue
			}
			b, h := strings.Index(g, "github.com/pojol/braid/"), strings.Index(g, "verif/harness/mon.")
			if b >= 0 && (h < 0 || b < h) {
				in[m[1]]++
			}
		}
	}
	for _, n := range in {
		if n == len(dumps) {
			return true
		}
	}
	return false
}

// runCase runs one case, in the current goroutine's kind of time.
func runCase(w *writer, s *Scenario, seed uint64, level uint32) *Case {
	c := &Case{S: s, Seed: seed, R: rand.New(rand.NewSource(int64(seed))), w: w,
		counts: map[string]int64{}, sigs: map[uint64]struct{}{}}
	w.put(map[string]interface{}{"t": "begin", "scn": s.Name, "seed": seed})
	start := wall()
	if s.NoNoise {
		level = 0
	}
	if s.Hot && level == 2 {
		level = 3
	}
	vsched.Set(level, uint32(seed*2654435761>>7))
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				st := make([]byte, 64<<10)
				st = st[:runtime.Stack(st, false)]
				// the panic belongs to braid if one of its frames is between the panic and the scenario
				body := string(st)
				if i := strings.LastIndex(body, "panic("); i >= 0 {
					body = body[i:]
				}
				first := strings.Index(body, "verif/harness/mon.")
				b := strings.Index(body, "github.com/pojol/braid/")
				if b >= 0 && (first < 0 || b < first) {
					c.Fail("panic", "panic in braid code: %v\n%s", r, st)
				} else {
					w.put(map[string]interface{}{"t": "error", "msg": fmt.Sprintf("harness panic in %s seed %d: %v\n%s", s.Name, seed, r, st)})
				}
			}
		}()
		s.Run(c)
	}()
	select {
	case <-done:
	case <-time.After(s.Limit):
		c.Fail("hang", "the case did not end within %v\n%s", s.Limit, interesting(stacks()))
		c.flush(start)
		w.put(map[string]interface{}{"t": "stuck"})
		os.Exit(0)
	}
	cdone := make(chan struct{})
	go func() {
		defer close(cdone)
		defer func() {
			if r := recover(); r != nil {
				st := make([]byte, 64<<10)
				st = st[:runtime.Stack(st, false)]
				w.put(map[string]interface{}{"t": "error", "msg": fmt.Sprintf("cleanup panic in %s seed %d: %v\n%s", s.Name, seed, r, st)})
			}
		}()
		for i := len(c.cleanups) - 1; i >= 0; i-- {
			c.cleanups[i]()
		}
	}()
	select {
	case <-cdone:
	case <-time.After(2 * time.Minute):
		// the oracle of exit decides what this means, here it is only noted
		c.N("cleanup_timeouts", 1)
		if c.viols == 0 {
			w.put(map[string]interface{}{"t": "note", "msg": fmt.Sprint("cleanup timed out in ", s.Name, " seed ", seed, "\n") + interesting(stacks())})
		}
		c.flush(start)
		w.put(map[string]interface{}{"t": "stuck"})
		os.Exit(0)
	}
	vsched.Set(0, 0)
	c.flush(start)
	return c
}

func (c *Case) flush(start int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	sigs := make([]string, 0, len(c.sigs))
	for s := range c.sigs {
		sigs = append(sigs, fmt.Sprintf("%x", s))
	}
	c.w.put(map[string]interface{}{"t": "end", "scn": c.S.Name, "seed": c.Seed, "evals": c.evals, "counts": c.counts,
		"sigs": sigs, "samples": c.samples, "ms": (wall() - start) / 1e6})
}

// logSink silences braid's log and perturbs the schedule at every log call.
type logSink struct{}

func (logSink) SystemReqInfo(id log.LogAccID, path log.LogPath, token log.LogToken, ip log.LogRealIP, format string, v ...interface{}) {
}
func (logSink) SystemLog(level zapcore.Level, code log.LogECode, id log.LogAccID, path log.LogPath, token log.LogToken, ip log.LogRealIP, format string, v ...interface{}) {
}

var echoLog = os.Getenv("MON_LOG") != ""

func (logSink) Log(level zapcore.Level, format string, v ...interface{}) {
	if echoLog {
		fmt.Fprintf(os.Stderr, format+"\n", v...)
	}
	vsched.Noise()
}
func (logSink) Sync() {}
