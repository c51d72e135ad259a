package mon

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
)

func init() {
	reg(Scenario{Prop: "C10", Name: "schedule", Quick: 3000, Thorough: 120000, Races: true, Run: runTimers,
		Rule: "1-4 timers (due 0-40 ms, interval 0-25 ms) of one idle actor and 4-30 operations (Stop, Reset, Cancel, queries, on the actor's thread, some from inside callbacks) at " +
			"chosen virtual times; every firing is compared with an exact model of the schedule; an outcome is the sequence of operations and firings"})
	reg(Scenario{Prop: "C10", Name: "busy", Quick: 600, Thorough: 20000, Races: true, Run: runTimersBusy,
		Rule: "timers of an actor whose callbacks and handlers take time, and that are operated on from the actor and, for absence of panics, from outside at the moment they fire: at most one firing per " +
			"period, none after Stop or Cancel, firing again once idle"})
	reg(Scenario{Prop: "C11", Name: "drain", Quick: 2000, Thorough: 60000, Races: true, Run: runDrain,
		Rule: "an actor with timers, outstanding reentrant calls and 1-6 senders is unregistered, asked to exit and/or unregisters itself, 1-4 times at once; an outcome is how many messages were accepted " +
			"before, during and after, and which exit returned first"})
}

// timerModel is what a timer should do.
type timerModel struct {
	due, interval time.Duration
	active        bool
	waiting       bool // for due
	next          time.Duration
	created       time.Duration
	fires         []time.Duration // expected
	optional      map[time.Duration]bool
}

func (m *timerModel) advance(to time.Duration) {
	for m.active && m.next >= 0 && m.next < to {
		at := m.next
		if m.waiting {
			m.waiting = false
			if m.due == 0 && m.interval > 0 {
				// whether a timer without due time fires at once as well is left open
				m.optional[at] = true
				m.next = at + m.interval
				continue
			}
		}
		m.fires = append(m.fires, at)
		if m.interval == 0 {
			m.active, m.next = false, -1
		} else {
			m.next = at + m.interval
		}
	}
}

type timerOp struct {
	at    time.Duration
	timer int
	op    string
	iv    time.Duration
}

func runTimers(c *Case) {
	c.NewRedis()
	var ops []timerOp
	bad := []int{2, 3, 5, 1 << 30}[c.pick(4)]
	nt := 1 + c.pick(4)
	models := make([]*timerModel, nt)
	timers := make([]core.ITimer, nt)
	fires := make([][]time.Duration, nt)
	var t0 time.Time
	now := func() time.Duration { return time.Since(t0) }
	// operations from inside a callback: at its k-th firing timer i does op to timer j
	type inner struct {
		at, timer int
		op        string
		iv        time.Duration
	}
	inners := make([]*inner, nt)
	var trace []string
	apply := func(where string, m *timerModel, i int, op string, iv, at time.Duration) {
		t := timers[i]
		m.advance(at)
		desc := func() string {
			return fmt.Sprintf("%s at %v on timer %d (due %v, interval now %v) %s; so far %s", op, at, i, m.due, m.interval, where, strings.Join(trace, " "))
		}
		switch op {
		case "stop":
			got := t.Stop()
			c.Check(got == m.active, "stop", "Stop returned %v, the timer was active: %v: %s", got, m.active, desc())
			m.active, m.waiting, m.next = false, false, -1
		case "cancel":
			timersOwner.Load().(*Probe).CancelTimer(t)
			m.active, m.waiting, m.next = false, false, -1
		case "reset":
			got := t.Reset(iv)
			niv := m.interval
			if iv > 0 {
				niv = iv
			}
			c.Check(got == (niv > 0), "reset", "Reset(%v) returned %v: %s", iv, got, desc())
			if niv <= 0 {
				break
			}
			same := iv > 0 && iv == m.interval && m.active
			m.interval = niv
			if same {
				break
			}
			if m.active && m.waiting {
				break // from the due time on
			}
			m.active, m.waiting = true, false
			m.next = at + niv
		case "query":
			c.Check(t.IsActive() == m.active, "active", "IsActive is %v, expected %v: %s", t.IsActive(), m.active, desc())
			c.Check(t.Interval() == m.interval, "interval", "Interval is %v, expected %v: %s", t.Interval(), m.interval, desc())
			if m.active && !(m.waiting && m.due == 0) {
				next := t.NextTrigger().Sub(t0)
				c.Check(next == m.next, "next", "NextTrigger is at %v, expected %v: %s", next, m.next, desc())
			}
		}
		trace = append(trace, fmt.Sprintf("%s%d@%v", op, i, at))
	}
	n := c.Node("n1", Types{"t": {Weight: 1, Events: map[string]Handler{"op": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		o := ops[binary.BigEndian.Uint32(w.Req.Body)]
		apply("in a handler", models[o.timer], o.timer, o.op, o.iv, now())
		return nil
	}, "make": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		t0 = time.Now()
		for i, m := range models {
			count := 0
			m.next = m.due
			timers[i] = p.OnTimer(int64(m.due/time.Millisecond), int64(m.interval/time.Millisecond), func(arg interface{}) (ret error) {
				at := now()
				c.Check(arg == i, "args", "the callback of timer %d got %v", i, arg)
				fires[i] = append(fires[i], at)
				// what a callback does to itself changes nothing about the schedule
				fires := len(fires[i])
				switch (fires + i) % bad {
				case 0:
					defer func() { panic("callback") }()
				case 1:
					ret = errors.New("callback")
				}
				trace = append(trace, fmt.Sprintf("!%d@%v", i, at))
				// the optional first firing does not count
				if m.optional[at] || at == 0 {
					return
				}
				count++
				if in := inners[i]; in != nil && in.at == count {
					m.advance(at + 1)
					if in.timer != i {
						// another timer may fire at this very moment, before or after
						o := models[in.timer]
						o.advance(at)
						if o.next == at {
							return
						}
					}
					apply(fmt.Sprintf("in the callback of %d", i), models[in.timer], in.timer, in.op, in.iv, at)
				}
				return
			}, i)
		}
		return nil
	}}}}, NodeOpt{})
	p := n.Must(c, "a", "t")
	timersOwner.Store(p)
	for i := range models {
		m := &timerModel{due: time.Duration(c.pick(40)) * time.Millisecond, interval: time.Duration(c.pick(26)) * time.Millisecond, active: true, waiting: true, optional: map[time.Duration]bool{}}
		switch c.pick(4) {
		case 0:
			m.due = 0
		case 1:
			m.interval = 0
		}
		models[i] = m
		if c.pick(3) == 0 {
			in := &inner{at: 1 + c.pick(3), timer: i, op: []string{"stop", "reset", "cancel", "query"}[c.pick(4)], iv: time.Duration(1+c.pick(30)) * time.Millisecond}
			if c.pick(4) == 0 {
				in.timer = c.pick(nt)
			}
			if c.pick(5) == 0 {
				in.iv = 0
			}
			inners[i] = in
		}
	}
	k := 4 + c.pick(27)
	at := time.Duration(0)
	for i := 0; i < k; i++ {
		at += time.Duration(c.pick(30)) * time.Millisecond
		o := timerOp{timer: c.pick(nt), op: []string{"stop", "reset", "reset", "cancel", "query"}[c.pick(5)], iv: time.Duration(c.pick(26)) * time.Millisecond}
		// never at a moment at which something fires
		o.at = at + time.Duration(i+1)*7*time.Microsecond
		ops = append(ops, o)
	}
	send := func(ev string, i int) {
		w := newMsg()
		w.Req.Body = binary.BigEndian.AppendUint32(nil, uint32(i))
		start := time.Now()
		err := n.Sys.Call("a", "t", ev, w)
		c.Check(err == nil && w.Err == nil && time.Since(start) == 0, "op", "an operation in a handler failed: %v, %v after %v", err, w.Err, time.Since(start))
	}
	send("make", 0)
	for i, o := range ops {
		time.Sleep(o.at - now())
		send("op", i)
	}
	time.Sleep(200*time.Millisecond + 3*time.Microsecond)
	end := now()
	ops = append(ops, timerOp{op: "query"})
	send("op", k)
	for i, m := range models {
		m.advance(end)
		var got []time.Duration
		for _, at := range fires[i] {
			if at == 0 && m.optional[0] {
				c.N("fired at once", 1)
				continue
			}
			got = append(got, at)
		}
		c.Check(fmt.Sprint(got) == fmt.Sprint(m.fires), "schedule", "timer %d (due %v, last interval %v) fired at %v\nexpected %v\nhistory (!i firing of i): %s", i, m.due, m.interval, got, m.fires, strings.Join(trace, " "))
		c.N("firings", len(got))
	}
	c.N("operations", len(trace))
	c.Sig(trace)
	c.Sample("%s", strings.Join(trace, " "))
}

var timersOwner atomic.Value

func runTimersBusy(c *Case) {
	c.NewRedis()
	nt := 1 + c.pick(4)
	var calm atomic.Bool
	type tm struct {
		due, iv  time.Duration
		t        core.ITimer
		fires    []time.Duration
		stopped  bool
		outside  bool
		slow     time.Duration
		count    int
		lastStop time.Duration
		minIv    time.Duration
		noBefore time.Duration // no firing before this, since it was reset
		ended    bool          // stopped at least once
	}
	ts := make([]*tm, nt)
	var t0 time.Time
	// after a reset on the actor the timer fires one interval later, unless it still waits for its first due time
	rearmed := func(x *tm) {
		if x.outside {
			return
		}
		if now := time.Since(t0); x.ended || now > x.due {
			x.noBefore = now + x.iv
		} else {
			x.noBefore = x.due
		}
	}
	var inCallback int
	n := c.Node("n1", Types{"t": {Weight: 1, Events: map[string]Handler{
		"make": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			t0 = time.Now()
			for i, x := range ts {
				x.t = p.OnTimer(int64(x.due/time.Millisecond), int64(x.iv/time.Millisecond), func(interface{}) error {
					plainTouch(&inCallback)
					if x.stopped {
						c.Fail("after-stop", "timer %d fired at %v after it had been stopped at %v on the actor", i, time.Since(t0), x.lastStop)
					}
					if now := time.Since(t0); now < x.noBefore {
						c.Fail("early", "timer %d fired at %v although it had been reset and was not to fire before %v", i, now, x.noBefore)
					}
					x.fires = append(x.fires, time.Since(t0))
					if !calm.Load() {
						time.Sleep(x.slow)
					}
					if len(x.fires)%4 == 3 {
						panic("callback")
					}
					return nil
				}, nil)
			}
			return nil
		},
		"busy": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			plainTouch(&inCallback)
			time.Sleep(time.Duration(w.Req.Body[0]) * time.Millisecond)
			return nil
		},
		"stop": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			plainTouch(&inCallback)
			x := ts[w.Req.Body[0]]
			if w.Req.Body[1] == 0 {
				x.t.Stop()
			} else {
				p.CancelTimer(x.t)
			}
			if !x.outside {
				x.stopped, x.lastStop = true, time.Since(t0)
				x.ended = true
			}
			return nil
		},
		"rearm": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			x := ts[w.Req.Body[0]]
			time.Sleep(time.Duration(w.Req.Body[1]) * time.Millisecond) // expiries queue up meanwhile
			iv := time.Duration(w.Req.Body[2]) * time.Millisecond
			if x.outside || iv == x.iv {
				return nil
			}
			x.stopped, x.iv = false, iv
			if iv < x.minIv {
				x.minIv = iv
			}
			if !x.t.Reset(iv) {
				c.Fail("reset", "Reset(%v) of timer %d returned false", iv, w.Req.Body[0])
			}
			rearmed(x)
			return nil
		},
		"reset": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			x := ts[w.Req.Body[0]]
			x.stopped = false
			x.t.Reset(0)
			rearmed(x)
			return nil
		},
		"calm": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			x := ts[w.Req.Body[0]]
			x.stopped, x.noBefore = false, 0
			x.t.Reset(0)
			x.t.Reset(5 * time.Millisecond)
			return nil
		},
		"count": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			for _, x := range ts {
				x.count = len(x.fires)
			}
			return nil
		},
	}}}, NodeOpt{})
	p := n.Must(c, "a", "t")
	for i := range ts {
		ts[i] = &tm{due: time.Duration(1+c.pick(20)) * time.Millisecond, iv: time.Duration(1+c.pick(15)) * time.Millisecond, slow: time.Duration(c.pick(6)) * time.Millisecond, outside: c.pick(3) == 0}
		if c.pick(2) == 0 {
			ts[i].slow = 0
		}
		ts[i].minIv = ts[i].iv
	}
	do := func(ev string, b ...byte) {
		w := newMsg()
		w.Req.Body = b
		if err := n.Sys.Call("a", "t", ev, w); err != nil || w.Err != nil {
			c.Fail("call", "a call failed: %v, %v", err, w.Err)
		}
	}
	do("make")
	var wg sync.WaitGroup
	for _, x := range ts {
		if !x.outside {
			continue
		}
		// from other goroutines, right when it fires: nothing may panic or race
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 12; j++ {
				next := time.Until(x.t.NextTrigger())
				if r.Intn(2) == 0 {
					time.Sleep(next)
				} else {
					time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
				}
				yield(r)
				switch r.Intn(5) {
				case 0:
					x.t.Stop()
				case 1:
					x.t.Reset(0)
				case 2:
					x.t.Reset(time.Duration(1+r.Intn(15)) * time.Millisecond)
				case 3:
					x.t.IsActive()
					x.t.Interval()
					x.t.NextTrigger()
				case 4:
					p.CancelTimer(x.t)
				}
			}
		}()
	}
	for j := 0; j < 3+c.pick(8); j++ {
		switch c.pick(6) {
		case 4, 5:
			do("rearm", byte(c.pick(nt)), byte(c.pick(40)), byte(1+c.pick(60)))
		case 0:
			do("busy", byte(c.pick(60)))
		case 1:
			for k := 0; k < 1+c.pick(10); k++ {
				w := newMsg()
				w.Req.Body = []byte{byte(c.pick(10))}
				n.Sys.Send("a", "t", "busy", w)
			}
		case 2:
			do("stop", byte(c.pick(nt)), byte(c.pick(2)))
		case 3:
			do("reset", byte(c.pick(nt)))
		}
		time.Sleep(time.Duration(c.pick(40)) * time.Millisecond)
	}
	wg.Wait()
	end := time.Since(t0)
	do("count")
	for i, x := range ts {
		if x.outside || x.slow > 0 {
			continue
		}
		// at most one per period: of k firings the last is at least k-1 periods after the first due time
		resets := 12
		if x.count > 1 {
			c.Check(time.Duration(x.count-1-resets)*x.minIv <= end-x.due, "rate", "timer %d with interval %v fired %d times in %v", i, x.iv, x.count, end)
		}
	}
	// idle again: every timer that is reset fires
	for i := range ts {
		do("calm", byte(i))
		calm.Store(true)
	}
	time.Sleep(200 * time.Millisecond)
	do("count")
	before := make([]int, nt)
	for i, x := range ts {
		before[i] = x.count
	}
	time.Sleep(100*time.Millisecond + time.Microsecond)
	do("count")
	for i, x := range ts {
		d := x.count - before[i]
		c.Check(d == 20 || d == 21, "idle-rate", "timer %d with interval 5ms fired %d times in 100ms", i, d)
		c.N("firings", x.count)
		c.Sig(i, x.fires)
	}
	for i := range ts {
		do("stop", byte(i), byte(c.pick(2)))
		ts[i].stopped = true
	}
	time.Sleep(100 * time.Millisecond)
	do("count")
	c.Sample("%d timers fired %v times", nt, before)
}

// ---- C11

func runDrain(c *Case) {
	c.NewRedis()
	var running, handledAfterExit atomic.Int32
	var handled sync.Map // message no -> stamp of the end
	var handledN, accepted, rejected atomic.Int64
	var exitDone atomic.Int64 // stamp of the first return of an exit
	var timerAfter atomic.Int64
	slow := c.pick(3)
	selfAt := int64(-1)
	if c.pick(4) == 0 {
		selfAt = int64(c.pick(15))
	}
	var selfDone atomic.Int32
	n := c.Node("n1", Types{"t": {Weight: 2, Events: map[string]Handler{
		"m": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			running.Add(1)
			defer running.Add(-1)
			if p.State == "old" && exitDone.Load() != 0 {
				handledAfterExit.Add(1)
			}
			no := int64(binary.BigEndian.Uint64(w.Req.Body))
			if _, dup := handled.LoadOrStore(no, stamp()); dup {
				c.Fail("twice", "message %d was handled twice", no)
			}
			k := handledN.Add(1)
			if slow == 1 {
				time.Sleep(time.Duration(no%7) * time.Millisecond)
			} else if slow == 2 && no%11 == 0 {
				time.Sleep(time.Duration(no%13) * 100 * time.Millisecond)
			}
			if k == selfAt {
				selfDone.Add(1)
				if err := ctx.Unregister(p.Id, "t"); err != nil {
					c.Fail("self", "an actor unregistering itself got %v", err)
				}
			}
			if no%9 == 0 {
				ctx.ReenterCall("other", "o", "wait", newMsg())
			}
			return nil
		}}, Init: func(p *Probe, ctx context.Context) {
		p.State = "old"
		for i := 0; i < c.pick(3); i++ {
			p.OnTimer(int64(i), int64(1+i), func(interface{}) error {
				running.Add(1)
				defer running.Add(-1)
				if exitDone.Load() != 0 {
					timerAfter.Add(1)
				}
				time.Sleep(time.Duration(i) * time.Millisecond)
				return nil
			}, nil)
		}
	}}, "o": {Events: map[string]Handler{"wait": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		time.Sleep(30 * time.Millisecond)
		return nil
	}}}}, NodeOpt{})
	n.Must(c, "other", "o")
	p := n.Must(c, "a", "t")
	var no atomic.Int64
	var wg sync.WaitGroup
	type sub struct {
		no       int64
		begin    int64
		accepted bool
		unknown  bool
	}
	var mu sync.Mutex
	var subs []sub
	for i := 0; i < 1+c.pick(6); i++ {
		r := c.Rand()
		k := 1 + r.Intn(40)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < k; j++ {
				s := sub{no: no.Add(1), begin: stamp()}
				w := newMsg()
				w.Req.Body = binary.BigEndian.AppendUint64(nil, uint64(s.no))
				var err error
				switch r.Intn(4) {
				case 0:
					err = n.Sys.Call("a", "t", "m", w)
				case 1:
					w.Req.Header.Event = "m"
					err = p.Received(w)
				default:
					err = n.Sys.Send("a", "t", "m", w)
				}
				s.accepted = err == nil
				if s.accepted {
					accepted.Add(1)
				} else {
					rejected.Add(1)
				}
				mu.Lock()
				subs = append(subs, s)
				mu.Unlock()
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				}
			}
		}()
	}
	exits := 1 + c.pick(4)
	var firsts []string
	for i := 0; i < exits; i++ {
		r := c.Rand()
		kind := r.Intn(2)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(r.Intn(20000)) * time.Microsecond)
			before := time.Now()
			if !within(time.Minute, func() {
				if kind == 0 {
					p.Exit()
				} else if err := n.Sys.Unregister("a", "t"); err != nil {
					c.Fail("unregister", "unregister failed: %v", err)
				}
			}) {
				c.Fail("blocked", "an exit did not return within a minute")
				return
			}
			took := time.Since(before)
			was := handledN.Load()
			busy := running.Load()
			st := stamp()
			exitDone.CompareAndSwap(0, st)
			mu.Lock()
			firsts = append(firsts, fmt.Sprintf("%d:%d", kind, was))
			mu.Unlock()
			if took < 9*time.Second {
				c.Check(busy == 0, "running", "an exit returned while a handler of the actor was running")
			}
		}()
	}
	wg.Wait()
	if selfDone.Load() == 0 {
		n.Sys.Unregister("a", "t")
	}
	time.Sleep(15 * time.Second)
	first := exitDone.Load()
	lateHandled := 0
	for _, s := range subs {
		at, ok := handled.Load(s.no)
		c.Check(ok == s.accepted, "accepted", "message %d: accepted %v, handled %v", s.no, s.accepted, ok)
		if ok && at.(int64) > first {
			lateHandled++
		}
		if s.begin > first && s.accepted {
			c.Fail("late", "a message offered after an exit had returned was accepted")
		}
	}
	c.Check(lateHandled == 0 && handledAfterExit.Load() == 0, "undrained", "%d of %d accepted messages were only handled after an exit had returned", lateHandled, accepted.Load())
	c.Check(timerAfter.Load() == 0, "timer", "timers fired %d times after an exit had returned", timerAfter.Load())
	// again, on an actor that is gone
	for i := 0; i < 2; i++ {
		if !within(time.Minute, p.Exit) {
			c.Fail("blocked", "exiting once more did not return within a minute")
		}
	}
	w := newMsg()
	w.Req.Header.Event = "m"
	w.Req.Body = binary.BigEndian.AppendUint64(nil, 1<<40)
	c.Check(p.Received(w) != nil, "shut", "the exited actor accepted a message")
	c.Check(n.Sys.Send("a", "t", "m", newMsg()) != nil, "shut", "the exited actor accepted a message by id")
	time.Sleep(time.Second)
	_, ok := handled.Load(int64(1 << 40))
	c.Check(!ok, "shut", "the exited actor handled a message")
	c.N("accepted", int(accepted.Load()))
	c.N("rejected", int(rejected.Load()))
	c.Sig(exits, selfAt >= 0, firsts, accepted.Load(), rejected.Load())
	c.Sample("%d exits returned (kind:handled so far) %v, %d accepted, %d rejected", exits, firsts, accepted.Load(), rejected.Load())
}
