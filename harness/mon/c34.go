package mon

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojol/braid/lib/timer"
)

func init() {
	reg(Scenario{Prop: "C34", Name: "schedule", Quick: 2500, Thorough: 200000, Run: runSchedule, Races: true,
		Rule: "1-4 tasks of one service with due times of 0-3 s, intervals of 1-2100 ms, handlers that take 0-3 intervals and succeed, fail or panic, hooks, and 1-12 starts and stops " +
			"(by name, all, from the handler, twice, back to back, during an execution, unknown names, removals); an outcome is the operations and the number of executions"})
	reg(Scenario{Prop: "C34", Name: "contend", Quick: 1200, Thorough: 100000, Run: runScheduleContend, Races: true,
		Rule: "2-6 goroutines start, stop, add and remove 1-4 tasks concurrently, all stop, then some are started; an outcome is the schedule of operations"})
}

type schedTask struct {
	id       string
	isRun    bool
	due, itv time.Duration
	takes    time.Duration // of the handler
	data     any
	bare     bool // without a service
	t        timer.Timer

	mu     sync.Mutex
	r      *rand.Rand
	starts []time.Duration // of executions
	ends   []time.Duration
	inside int
	before int
	after  int
	done   int // executions that did not panic
	fails  []string
	excs   []string
	calm   bool
	stopIn int // stops itself in this execution
	stop   func()
}

func (c *Case) schedTask(id string, unit time.Duration, t0 time.Time, svc *timer.TimerService) *schedTask {
	s := &schedTask{id: id, isRun: c.pick(8) > 0, r: c.Rand(), stopIn: -1, data: fmt.Sprint("data of ", id)}
	odd := func() time.Duration {
		if unit > time.Millisecond && c.pick(2) == 0 {
			return time.Duration(c.pick(100)) * time.Millisecond
		}
		return 0
	}
	s.itv = unit*time.Duration([]int{1, 2, 7, 10, 1 + c.pick(20)}[c.pick(5)]) + odd()
	if c.pick(2) == 0 {
		s.due = unit*time.Duration([]int{1, 10, 1 + c.pick(30), int(s.itv / unit), -5}[c.pick(5)]) + odd()
	}
	switch c.pick(4) {
	case 0:
		s.takes = s.itv * time.Duration(1+c.pick(9)) / 10
	case 1:
		s.takes = s.itv*time.Duration(1+c.pick(3)) + time.Duration(c.pick(1000))*time.Microsecond
	}
	s.calm = c.pick(3) == 0
	h := func(ctx *timer.TimerContext) error {
		now := time.Since(t0)
		s.mu.Lock()
		n := len(s.starts)
		s.starts = append(s.starts, now)
		s.inside++
		c.Check(s.inside == 1 || s.takes > 0, "overlap", "two executions of task %s run at once", s.id)
		k := s.r.Intn(4)
		stop := s.stopIn == n
		s.mu.Unlock()
		c.Check(ctx != nil && ctx.TimerID == s.id && ctx.TimerData == s.data, "context", "the handler of task %s gets the context %+v", s.id, ctx)
		c.Check(ctx == s.t.Context(), "context", "the handler of task %s does not get the context of its task", s.id)
		if s.takes > 0 {
			time.Sleep(s.takes)
		}
		if stop {
			s.stop()
		}
		s.mu.Lock()
		s.inside--
		s.ends = append(s.ends, time.Since(t0))
		text := fmt.Sprintf("failure %d of %s", n, s.id)
		if s.calm || k > 1 {
			k = 2
		}
		if k != 1 {
			s.done++
		}
		if k < 2 {
			s.fails = append(s.fails, text)
		}
		s.mu.Unlock()
		switch k {
		case 0:
			return errors.New(text)
		case 1:
			if n%2 == 0 {
				panic(text)
			}
			panic(errors.New(text))
		}
		return nil
	}
	var err error
	if c.pick(6) == 0 {
		s.bare = true
		s.t, err = timer.NewTickTimer(id, s.isRun, s.due.Milliseconds(), s.itv.Milliseconds(), h, s.data)
		if err == nil {
			svc.AddTask(s.t)
		}
	} else {
		s.t, err = svc.NewTickTask(id, s.isRun, s.due.Milliseconds(), s.itv.Milliseconds(), h, s.data)
	}
	c.Check(err == nil && s.t.TimerID() == id, "new", "creating a task failed: %v", err)
	return s
}

func runSchedule(c *Case) {
	t0 := time.Now()
	svc := timer.Init()
	byID := map[string]*schedTask{}
	hooks, exc := c.pick(2) == 0, c.pick(8) > 0
	if hooks {
		svc.SetOnBeforeHandler(func(ctx *timer.TimerContext) error {
			s := byID[ctx.TimerID]
			s.mu.Lock()
			s.before++
			c.Check(s.before == len(s.starts)+1 || s.takes > 0, "before", "the hook before execution %d of %s has run %d times", len(s.starts)+1, s.id, s.before)
			s.mu.Unlock()
			return nil
		})
		svc.SetOnEndHandler(func(ctx *timer.TimerContext) error {
			s := byID[ctx.TimerID]
			s.mu.Lock()
			s.after++
			c.Check(s.after <= len(s.ends), "after", "the hook after executions of %s has run %d times after %d executions", s.id, s.after, len(s.ends))
			s.mu.Unlock()
			return nil
		})
	}
	if exc {
		svc.SetExceptionHandler(func(ctx *timer.TimerContext, err error) {
			s := byID[ctx.TimerID]
			s.mu.Lock()
			s.excs = append(s.excs, fmt.Sprint(err))
			s.mu.Unlock()
			c.Check(ctx == s.t.Context(), "context", "the exception handler does not get the context of task %s", s.id)
		})
	} else {
		svc.SetExceptionHandler(nil)
	}
	unit := []time.Duration{time.Millisecond, 100 * time.Millisecond}[c.pick(2)]
	var tasks []*schedTask
	nTasks := 1 + c.pick(4)
	if c.pick(25) == 0 {
		nTasks = 17 + c.pick(24)
	}
	for i := 0; i < nTasks; i++ {
		s := c.schedTask(fmt.Sprint("task", i), unit, t0, svc)
		tasks = append(tasks, s)
		byID[s.id] = s
	}
	if c.pick(4) == 0 {
		_, err := svc.NewTickTask("bad", true, 0, -int64(c.pick(3)), func(*timer.TimerContext) error { return nil }, nil)
		c.Check(err != nil, "interval", "a task without a positive interval was created")
		svc.StartTask("bad")
		svc.StopTask("bad")
	}
	type seg struct {
		from, to time.Duration // to < 0: until the end
		n        int           // executions before
		self     bool
	}
	segs := map[string][]seg{}
	running := map[string]bool{}
	removed := map[string]bool{}
	log := ""
	now := func() time.Duration { return time.Since(t0) }
	began := func(s *schedTask) {
		if s.isRun && !running[s.id] {
			running[s.id] = true
			s.mu.Lock()
			segs[s.id] = append(segs[s.id], seg{now(), -1, len(s.starts), false})
			s.mu.Unlock()
		}
	}
	ended := func(s *schedTask) {
		if running[s.id] {
			running[s.id] = false
			segs[s.id][len(segs[s.id])-1].to = now()
		}
	}
	for _, s := range tasks {
		s.stop = func() { svc.StopTask(s.id) }
	}
	// no operation is at the time of an execution, except the one that starts it
	time.Sleep(500 * time.Microsecond)
	for i := 0; i < 1+c.pick(12); i++ {
		s := tasks[c.pick(len(tasks))]
		k := c.pick(12)
		log += fmt.Sprintf(" %v:%d/%s", now(), k, s.id)
		switch k {
		case 0, 1, 2, 3:
			// not while an execution of an earlier start may be in progress
			if !running[s.id] && len(segs[s.id]) > 0 && s.takes > 0 {
				time.Sleep(s.takes + time.Millisecond)
			}
			if !removed[s.id] {
				began(s)
			}
			svc.StartTask(s.id)
		case 4, 5:
			if c.pick(2) == 0 {
				svc.StopTask(s.id)
			} else {
				err := svc.Stop(s.id)
				c.Check((err == nil) == !removed[s.id], "stop", "stopping task %s (removed: %v): %v", s.id, removed[s.id], err)
			}
			if !removed[s.id] {
				ended(s)
			}
		case 6:
			time.Sleep(maxTakes(tasks) + time.Millisecond)
			for _, s := range tasks {
				if !removed[s.id] {
					began(s)
				}
			}
			svc.StartAllTask()
		case 7:
			svc.StopAllTask()
			for _, s := range tasks {
				if !removed[s.id] {
					ended(s)
				}
			}
		case 8:
			// stop and start back to back
			if s.takes == 0 && !removed[s.id] {
				svc.StopTask(s.id)
				ended(s)
				if c.pick(2) == 0 {
					svc.StopTask(s.id)
				}
				began(s)
				svc.StartTask(s.id)
			}
		case 9:
			svc.StartTask("nobody")
			svc.StopTask("nobody")
			c.Check(svc.Stop("nobody") != nil, "stop", "stopping an unknown task succeeded")
		case 10:
			if !running[s.id] && c.pick(3) == 0 {
				svc.RemoveTask(s.id)
				removed[s.id] = true
			}
		case 11:
			// it stops itself
			if running[s.id] && !removed[s.id] {
				s.mu.Lock()
				s.stopIn = len(s.starts) + s.inside
				s.mu.Unlock()
				time.Sleep(60*unit + 3*s.takes)
				segs[s.id][len(segs[s.id])-1].to = now()
				segs[s.id][len(segs[s.id])-1].self = true
				running[s.id] = false
				s.mu.Lock()
				n := len(s.starts)
				c.Check(s.stopIn == n-1, "self", "a task of %v that stopped itself in execution %d has been executed %d times", s.itv, s.stopIn, n)
				s.stopIn = -1
				s.mu.Unlock()
			}
		}
		time.Sleep(20 * time.Microsecond)
		if d := c.pick(4); d > 0 {
			gap := unit * time.Duration(c.pick([]int{0, 4, 10, 30}[d]))
			time.Sleep(gap)
		}
	}
	time.Sleep(20 * unit)
	svc.StopAllTask()
	end := now()
	for _, s := range tasks {
		if !removed[s.id] {
			ended(s)
		}
	}
	time.Sleep(100*unit + 4*maxTakes(tasks))
	total := 0
	for _, s := range tasks {
		s.mu.Lock()
		total += len(s.starts)
		desc := fmt.Sprintf("task %s (started %v, due %v, interval %v, takes %v);%s", s.id, s.isRun, s.due, s.itv, s.takes, log)
		due := max(s.due, 0)
		i := 0
		for x, g := range segs[s.id] {
			var in []time.Duration
			again := x+1 < len(segs[s.id]) && segs[s.id][x+1].from == g.to
			for i < len(s.starts) && (s.starts[i] < g.to || s.starts[i] == g.to && !again) {
				in = append(in, s.starts[i])
				i++
			}
			for _, e := range in {
				c.Check(e >= g.from+due, "due", "an execution at %v, started at %v: %s", e, g.from, desc)
			}
			want := time.Duration(0)
			if len(in) > 0 {
				want = in[0]
				c.Check(in[0] <= g.from+due+s.itv, "first", "the first execution is at %v, started at %v: %s", in[0], g.from, desc)
			} else {
				c.Check(g.from+due+s.itv >= g.to, "first", "no execution, started from %v to %v: %s", g.from, g.to, desc)
			}
			if s.takes < s.itv {
				for y, e := range in {
					if !c.Check(e == want+time.Duration(y)*s.itv, "period", "execution %d after the start at %v is at %v, the first was at %v: %s", y, g.from, e, want, desc) {
						break
					}
				}
				if len(in) > 0 && !g.self {
					c.Check(in[len(in)-1]+s.itv >= g.to, "period", "the last execution is at %v, stopped at %v: %s", in[len(in)-1], g.to, desc)
				}
			} else {
				for y := 1; y < len(in); y++ {
					c.Check(in[y]-in[y-1] >= s.takes, "overlap", "executions at %v and %v: %s", in[y-1], in[y], desc)
					c.Check(in[y]-in[y-1] <= s.takes+s.itv, "period", "executions at %v and %v: %s", in[y-1], in[y], desc)
				}
			}
			c.N("periods of running", 1)
		}
		c.Check(i == len(s.starts), "stopped", "%d executions (of %d) while it was not started, the first at %v; started at %+v: %s", len(s.starts)-i, len(s.starts), at(s.starts, i), segs[s.id], desc)
		if !s.bare {
			if exc {
				c.Check(len(s.excs) == len(s.fails), "exceptions", "%d failures, the exception handler was called %d times: %s", len(s.fails), len(s.excs), desc)
				for j := range min(len(s.excs), len(s.fails)) {
					c.Check(s.excs[j] == s.fails[j], "exceptions", "failure %q is reported as %q", s.fails[j], s.excs[j])
				}
			}
			if hooks {
				c.Check(s.before == len(s.starts), "before", "%d executions, the hook before them ran %d times: %s", len(s.starts), s.before, desc)
				c.Check(s.after >= s.done && s.after <= len(s.starts), "after", "%d executions, %d without panic, the hook after them ran %d times: %s", len(s.starts), s.done, s.after, desc)
			}
		} else {
			c.Check(s.before == 0 && s.after == 0 && len(s.excs) == 0, "bare", "hooks of a service run for a task without one: %s", desc)
		}
		c.N("failures", len(s.fails))
		s.mu.Unlock()
	}
	c.N("executions", total)
	c.Sig(log)
	c.Sample("%d tasks, %d executions in %v:%s", len(tasks), total, end, log)
}

func at(s []time.Duration, i int) time.Duration {
	if i < len(s) {
		return s[i]
	}
	return 0
}

func maxTakes(tasks []*schedTask) time.Duration {
	var d time.Duration
	for _, s := range tasks {
		d = max(d, s.takes)
	}
	return d
}

func runScheduleContend(c *Case) {
	svc := timer.Init()
	var excs, fails atomic.Int64
	svc.SetExceptionHandler(func(*timer.TimerContext, error) { excs.Add(1) })
	n := 1 + c.pick(4)
	itv := make([]int64, n)
	counts := make([]atomic.Int64, n)
	var amu sync.Mutex
	var all []timer.Timer
	add := func(i int, id string, r *rand.Rand) {
		var mu sync.Mutex
		t, _ := svc.NewTickTask(id, true, int64(r.Intn(3)), itv[i], func(ctx *timer.TimerContext) error {
			counts[i].Add(1)
			mu.Lock()
			k := r.Intn(4)
			mu.Unlock()
			switch k {
			case 0:
				fails.Add(1)
				return errors.New("failure")
			case 1:
				fails.Add(1)
				panic("panic")
			}
			return nil
		}, nil)
		amu.Lock()
		all = append(all, t)
		amu.Unlock()
	}
	for i := range itv {
		itv[i] = int64(1 + c.pick(20))
		add(i, fmt.Sprint("t", i), c.Rand())
	}
	var wg sync.WaitGroup
	G := 2 + c.pick(5)
	var ops atomic.Int64
	order := make([]byte, 0, 256)
	var omu sync.Mutex
	for g := 0; g < G; g++ {
		rr := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2+rr.Intn(10); j++ {
				id := fmt.Sprint("t", rr.Intn(n))
				k := rr.Intn(8)
				omu.Lock()
				order = append(order, byte('0'+k), byte('a'+g))
				omu.Unlock()
				switch k {
				case 0, 1:
					svc.StartTask(id)
				case 2, 3:
					svc.StopTask(id)
				case 4:
					svc.StartAllTask()
				case 5:
					svc.StopAllTask()
				case 6:
					add(rr.Intn(n), fmt.Sprint("extra", g), rand.New(rand.NewSource(rr.Int63())))
				case 7:
					svc.StopTask(fmt.Sprint("extra", g))
				}
				ops.Add(1)
				if rr.Intn(3) == 0 {
					time.Sleep(time.Duration(rr.Intn(5)) * time.Millisecond)
				} else {
					yield(rr)
				}
			}
		}()
	}
	if !within(time.Minute, wg.Wait) {
		c.Fail("stuck", "starting and stopping tasks does not return")
		return
	}
	// tasks that were replaced while they ran go on
	for _, t := range all {
		if t.TimerID()[0] == 'e' {
			svc.AddTask(t)
			svc.StopTask(t.TimerID())
		}
	}
	svc.StopAllTask()
	time.Sleep(500 * time.Microsecond)
	ran := make([]int64, n)
	for i := range counts {
		ran[i] = counts[i].Load()
	}
	time.Sleep(300 * time.Millisecond)
	for i := range counts {
		c.Check(counts[i].Load() == ran[i], "stopped", "task %d was executed %d times more after all tasks were stopped", i, counts[i].Load()-ran[i])
	}
	// and at its rate again
	for i := range counts {
		svc.StartTask(fmt.Sprint("t", i))
		svc.StartTask(fmt.Sprint("t", i))
	}
	time.Sleep(200 * time.Millisecond)
	for i := range counts {
		got, want := counts[i].Load()-ran[i], int64(200)/itv[i]
		c.Check(got >= want-2 && got <= want+2, "rate", "after concurrent starts and stops a task with an interval of %d ms was executed %d times in 200 ms", itv[i], got)
	}
	svc.StopAllTask()
	time.Sleep(time.Second)
	c.Check(excs.Load() == fails.Load(), "exceptions", "%d failures, the exception handler was called %d times", fails.Load(), excs.Load())
	c.N("operations", int(ops.Load()))
	c.Sig(string(order))
	c.Sample("%d tasks, operations %s", n, order)
}
