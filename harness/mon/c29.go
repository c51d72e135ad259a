package mon

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/lib/unbounded"
)

func init() {
	reg(Scenario{Prop: "C29", Name: "mpsc", Quick: 4000, Thorough: 150000, Races: true, Hot: true, Run: runMpsc,
		Rule: "1-8 producers push 1-150 unique values each, with pauses, while one consumer waits for the signal and pops one (or drains); " +
			"an outcome is the interleaving of the producers in the popped order"})
	reg(Scenario{Prop: "C29", Name: "mpsc-wakeups", Quick: 1500, Thorough: 60000, Races: true, Hot: true, Run: runMpscWakeups,
		Rule: "20 rounds in which 1-3 producers push 1-2 values each to an empty queue while the consumer waits for the signal and pops one value for each, as an actor does"})
	reg(Scenario{Prop: "C29", Name: "mpsc-stress", Mode: Real, Quick: 12, Thorough: 400, Races: true, Run: runMpscStress, NoNoise: true,
		Rule: "2-8 producers push 5000 unique values each at full speed"})
	reg(Scenario{Prop: "C30", Name: "unbounded", Quick: 4000, Thorough: 150000, Races: true, Hot: true, Run: runUnbounded,
		Rule: "1-6 producers put 1-200 unique values each, with pauses, while a reader receives and loads, pausing sometimes so that a backlog " +
			"builds up; an outcome is the interleaving of the producers in the received order"})
	reg(Scenario{Prop: "C30", Name: "backlog", Quick: 40, Thorough: 600, Races: true, Run: runBacklog,
		Rule: "5000 to 40000 puts with nobody reading, then a reader that takes them all"})
}

type qval struct {
	p, i       int
	begin, end int64
}

func runMpsc(c *Case) {
	q := mpsc.New()
	P, max := 1+c.pick(8), 1+c.pick(150)
	if c.pick(4) == 0 {
		max = 1 + c.pick(5)
	}
	drain := c.pick(3) == 0
	slow := c.pick(3)
	vals := make([][]*qval, P)
	total := 0
	var wg sync.WaitGroup
	for p := 0; p < P; p++ {
		n := 1 + c.pick(max)
		total += n
		vals[p] = make([]*qval, n)
		r := c.Rand()
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			for i := range vals[p] {
				v := &qval{p: p, i: i, begin: stamp()}
				vals[p][i] = v
				q.Push(v)
				v.end = stamp()
				switch k := r.Intn(20); {
				case k < 5:
					runtime.Gosched()
				case k == 5 && slow > 0:
					time.Sleep(time.Duration(r.Intn(3)) * time.Microsecond)
				}
			}
		}(p)
	}
	var got []*qval
	stop := total // sometimes stop before the end and look at the rest
	if c.pick(4) == 0 {
		stop = c.pick(total + 1)
	}
	idle := 0
	for len(got) < stop {
		select {
		case <-q.C:
			for {
				x := q.Pop()
				if x == nil {
					break
				}
				got = append(got, x.(*qval))
				if !drain || len(got) >= stop {
					break
				}
			}
			if slow == 2 && c.pick(10) == 0 {
				time.Sleep(time.Microsecond)
			}
		case <-time.After(time.Hour):
			idle++
			c.Check(false, "lost-wakeup", "the consumer waits for the signal with %d of %d values popped, count %d, empty %v, %d producers",
				len(got), total, q.Count(), q.Empty(), P)
			return
		}
	}
	wg.Wait()
	rest := total - len(got)
	c.Check(int(q.Count()) == rest, "count", "quiescent: %d values remain, Count says %d", rest, q.Count())
	c.Check(q.Empty() == (rest == 0), "empty", "quiescent: %d values remain, Empty says %v", rest, q.Empty())
	for x := q.Pop(); x != nil; x = q.Pop() {
		got = append(got, x.(*qval))
	}
	c.Check(q.Count() == 0 && q.Empty(), "count", "quiescent and all popped: Count %d, Empty %v", q.Count(), q.Empty())
	c.checkQueue(got, vals, total, true)
	c.Sample("%d producers, %d values, popped in order %s", P, total, interleave(got))
}

// interleave is the sequence of producers, run-length encoded.
func interleave(got []*qval) string {
	s, last, n := "", -1, 0
	for _, v := range got {
		if v.p == last {
			n++
			continue
		}
		if n > 0 {
			s += fmt.Sprintf("%dx%d ", last, n)
		}
		last, n = v.p, 1
	}
	return s + fmt.Sprintf("%dx%d", last, n)
}

func (c *Case) checkQueue(got []*qval, vals [][]*qval, total int, realtime bool) {
	c.N("values", len(got))
	next := make([]int, len(vals))
	for _, v := range got {
		if !c.Check(v != nil && v.i == next[v.p], "order", "producer %d: value %d came when %d was next", v.p, v.i, next[v.p]) {
			return
		}
		next[v.p]++
	}
	for p := range vals {
		if !c.Check(next[p] == len(vals[p]), "lost", "producer %d put in %d values, %d came out", p, len(vals[p]), next[p]) {
			return
		}
	}
	if realtime {
		// no value may come out after one that was put in entirely before it... backwards: the latest begin so far
		minEnd := int64(1 << 62)
		for k := len(got) - 1; k >= 0; k-- {
			v := got[k]
			if !c.Check(v.begin < minEnd, "overtaken", "value %d of producer %d came out before one whose push had completed before this began", v.i, v.p) {
				return
			}
			if v.end < minEnd {
				minEnd = v.end
			}
		}
	}
	c.Sig(interleave(got))
}

func runMpscWakeups(c *Case) {
	q := mpsc.New()
	for round := 0; round < 20; round++ {
		P, per := 1+c.pick(3), 1+c.pick(2)
		if c.pick(3) == 0 {
			q = mpsc.New()
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for p := 0; p < P; p++ {
			r := c.Rand()
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < per; i++ {
					yield(r)
					q.Push(1)
				}
			}()
		}
		got, nothing := 0, 0
		if c.pick(2) == 0 {
			close(start)
			runtime.Gosched()
		} else {
			go close(start)
		}
		for got < P*per {
			select {
			case <-q.C:
				if q.Pop() != nil {
					got++
				} else {
					nothing++
				}
				continue
			case <-time.After(time.Hour):
			}
			c.Check(false, "lost-wakeup", "the consumer waits for the signal with %d of %d values popped, woken %d times for nothing, count %d, empty %v", got, P*per, nothing, q.Count(), q.Empty())
			return
		}
		wg.Wait()
		c.Check(q.Count() == 0 && q.Empty() && q.Pop() == nil, "count", "all %d values popped: count %d, empty %v", got, q.Count(), q.Empty())
		c.Sig(P, per, nothing)
	}
	c.N("rounds", 20)
}

func runMpscStress(c *Case) {
	q := mpsc.New()
	P, n := 2+c.pick(7), 5000
	vals := make([][]*qval, P)
	var wg sync.WaitGroup
	for p := 0; p < P; p++ {
		vals[p] = make([]*qval, n)
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			for i := 0; i < n; i++ {
				v := &qval{p: p, i: i}
				vals[p][i] = v
				q.Push(v)
			}
		}(p)
	}
	var got []*qval
	for len(got) < P*n {
		select {
		case <-q.C:
			if x := q.Pop(); x != nil {
				got = append(got, x.(*qval))
			}
		case <-time.After(20 * time.Second):
			if q.Count() > 0 && !q.Empty() {
				c.Check(false, "lost-wakeup", "no signal for 20 s with %d of %d values popped, count %d", len(got), P*n, q.Count())
			} else {
				c.Check(false, "lost", "%d of %d values popped, none left after 20 s", len(got), P*n)
			}
			return
		}
	}
	wg.Wait()
	c.Check(q.Count() == 0 && q.Empty() && q.Pop() == nil, "count", "all popped: Count %d, Empty %v", q.Count(), q.Empty())
	c.checkQueue(got, vals, P*n, false)
}

func runUnbounded(c *Case) {
	u := unbounded.NewUnbounded()
	P, max := 1+c.pick(6), 1+c.pick(200)
	if c.pick(4) == 0 {
		max = 1 + c.pick(4)
	}
	vals := make([][]*qval, P)
	total := 0
	var wg sync.WaitGroup
	for p := 0; p < P; p++ {
		n := 1 + c.pick(max)
		total += n
		vals[p] = make([]*qval, n)
		r := c.Rand()
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			for i := range vals[p] {
				v := &qval{p: p, i: i, begin: stamp()}
				vals[p][i] = v
				t := time.Now()
				u.Put(v)
				if d := time.Since(t); d > 0 {
					c.Fail("put-blocks", "Put blocked for %v", d)
				}
				v.end = stamp()
				switch k := r.Intn(20); {
				case k < 5:
					runtime.Gosched()
				case k == 5:
					time.Sleep(time.Duration(r.Intn(3)) * time.Microsecond)
				}
			}
		}(p)
	}
	var got []*qval
	slow := c.pick(4)
	for len(got) < total {
		select {
		case x := <-u.Get():
			got = append(got, x.(*qval))
			if slow == 1 && c.pick(6) == 0 {
				time.Sleep(2 * time.Microsecond)
			}
			if slow == 2 {
				runtime.Gosched()
			}
			u.Load()
		case <-time.After(time.Hour):
			c.Check(false, "stranded", "the reader waits with %d of %d values received, %d in the backlog", len(got), total, u.Len())
			return
		}
	}
	wg.Wait()
	settle()
	extra := 0
	select {
	case <-u.Get():
		extra++
	default:
	}
	c.Check(extra == 0 && u.Len() == 0, "not-empty", "everything received, but the buffer still holds %d values and a backlog of %d", extra, u.Len())
	c.checkQueue(got, vals, total, false)
	c.Sample("%d producers, %d values, received in order %s", P, total, interleave(got))
}

func runBacklog(c *Case) {
	u := unbounded.NewUnbounded()
	n := 5000 + c.pick(35000)
	vals := [][]*qval{make([]*qval, n)}
	for i := 0; i < n; i++ {
		vals[0][i] = &qval{i: i}
	}
	if !c.Check(within(time.Hour, func() {
		for _, v := range vals[0] {
			u.Put(v)
		}
	}), "put-blocks", "Put blocks with nobody reading") {
		return
	}
	c.Check(u.Len() >= n-1 && u.Len() <= n, "backlog", "%d values put, backlog %d", n, u.Len())
	var got []*qval
	for len(got) < n {
		select {
		case x := <-u.Get():
			got = append(got, x.(*qval))
			u.Load()
		case <-time.After(time.Hour):
			c.Check(false, "stranded", "the reader waits with %d of %d values received", len(got), n)
			return
		}
	}
	c.Check(u.Len() == 0, "not-empty", "backlog %d after everything was received", u.Len())
	c.checkQueue(got, vals, n, false)
	c.Sig(n)
}
