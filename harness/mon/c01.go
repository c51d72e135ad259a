package mon

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
)

func init() {
	reg(Scenario{Prop: "C01", Name: "serial", Quick: 800, Thorough: 24000, Races: true, Run: func(c *Case) { runSerial(c, false) },
		Rule: "1-4 actors, each hit by 1-6 senders (Call, Send, from outside and from other actors), timers, publications and outstanding reentrant calls, while one " +
			"more actor is stuck in a handler; in half of the cases an atomic flag watches for overlap, in the other half the actor's state has no " +
			"protection at all and the race detector tells if two executions are not ordered; an outcome is the order of executions of an actor"})
	reg(Scenario{Prop: "C01", Name: "serial-remote", Mode: Real, Quick: 16, Thorough: 600, Races: true, Run: func(c *Case) { runSerial(c, true) },
		Rule: "the same with a second node whose actors and callers send through gRPC"})
	reg(Scenario{Prop: "C01", Name: "backlog", Quick: 60, Thorough: 1500, Races: true, Run: runSerialBacklog,
		Rule: "an actor stays in one handler for up to 2.5 s while 1-6 timers of 1-2 ms expire, up to 1500 messages and publications and up to 200 reentrant " +
			"results queue up behind it; the same watchers as in serial; an outcome is the order of executions"})
	reg(Scenario{Prop: "C01", Name: "long", Quick: 80, Thorough: 3000, Races: true, Limit: 40 * time.Minute, Run: runSerialLong,
		Rule: "an actor whose handlers, timer callbacks and subscription deliveries run for up to 40 s each, submitted by Send, Call, publication and 0-3 timers; the same " +
			"watchers as in serial; meanwhile other actors are registered, found, called and unregistered, which must not take longer than 1 s; an outcome is the order of executions"})
	reg(Scenario{Prop: "C02", Name: "fifo", Quick: 1000, Thorough: 30000, Run: func(c *Case) { runFifo(c, false) },
		Rule: "1-6 senders (outside goroutines and actors) each submit a numbered sequence by Call and Send to 1-3 actors with random bodies, events and header " +
			"fields, which unregister and register again meanwhile in half of the cases; an outcome is the order in which an actor handled the senders' messages"})
	reg(Scenario{Prop: "C02", Name: "fifo-remote", Mode: Real, Quick: 24, Thorough: 700, Run: func(c *Case) { runFifo(c, true) },
		Rule: "the same on two nodes that reach each other through gRPC, with senders and actors on both"})
	reg(Scenario{Prop: "C02", Name: "flood", Quick: 16, Thorough: 300, Limit: 20 * time.Minute, Run: runFlood,
		Rule: "1-4 senders submit 500-12000 numbered messages to an actor that stays in one handler for a second meanwhile; an outcome is the size of the backlog and the number of senders"})
	reg(Scenario{Prop: "C03", Name: "tree", Quick: 1000, Thorough: 30000, Races: true, Run: runTree,
		Rule: "1-4 concurrent callers each run 1-3 successive calls of random trees of nested calls (depth up to 5, up to 14 calls) over 2-6 actors, either on a new message of the request's " +
			"context or by forwarding the message; every step writes an unprotected slot that the caller reads after the call; an outcome is the shape and the order of completion"})
}

type serState struct {
	c      *Case
	atomic bool
	busy   atomic.Int32
	cnt    int // touched by the actor only
	msgs   int
	order  []byte
	r      *rand.Rand
	slow   int
}

func (s *serState) visit(what byte) {
	if s.atomic {
		if !s.busy.CompareAndSwap(0, 1) {
			s.c.Fail("overlap", "execution %c started while another one (%c) was running on the actor", what, s.order[len(s.order)-1])
		}
		s.order = append(s.order, what)
	}
	before := plainTouch(&s.cnt)
	switch s.r.Intn(8) {
	case 0, 1, 2:
		time.Sleep(time.Duration(s.r.Intn(s.slow)) * time.Millisecond / 4)
	case 3, 4:
		yield(s.r)
	}
	if after := plainTouch(&s.cnt); after != before+1 {
		s.c.Fail("interleaved", "the actor's counter went from %d to %d within one execution", before, after)
	}
	if s.atomic {
		s.busy.Store(0)
	}
}

func runSerial(c *Case, remote bool) {
	c.NewRedis()
	atomicMode := c.pick(2) == 0
	na := 1 + c.pick(4)
	nt := c.pick(3)
	pub := c.pick(2) == 0
	release := make(chan struct{})
	var pubs atomic.Int64
	const ticks = 5

	hit := func(ev byte) Handler {
		return func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			s := p.State.(*serState)
			s.visit(ev)
			s.msgs++
			return nil
		}
	}
	types := Types{
		"t": {Weight: 1, Events: map[string]Handler{
			"a": hit('a'), "b": hit('b'),
			"fan": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
				s := p.State.(*serState)
				s.visit('f')
				s.msgs++
				// pass something on to the next actor
				to := string(w.Req.Body)
				if to != "" && to != p.Id {
					// a call to another node waits there: calls in both directions would wait for each other
					if s.r.Intn(2) == 0 && (!remote || to > p.Id) {
						ctx.Call(to, "t", "a", msg.NewBuilder(w.Ctx).Build())
					} else {
						ctx.Send(to, "t", "b", newMsg())
					}
				}
				return nil
			},
			"re": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
				s := p.State.(*serState)
				s.visit('r')
				s.msgs++
				if to := string(w.Req.Body); to != "" && to != p.Id {
					ctx.ReenterCall(to, "t", "a", newMsg())
				}
				return nil
			},
			"get": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
				s := p.State.(*serState)
				w.Res.Body = binary.BigEndian.AppendUint32(nil, uint32(s.msgs))
				w.Res.Body = binary.BigEndian.AppendUint32(w.Res.Body, uint32(plainRead(&s.cnt)))
				w.Res.Body = append(w.Res.Body, s.order...)
				return nil
			},
		}, Init: func(p *Probe, ctx context.Context) {
			s := &serState{c: c, atomic: atomicMode, r: rand.New(rand.NewSource(int64(mix(c.Seed, hash(p.Id))))), slow: 12}
			p.State = s
			r := rand.New(rand.NewSource(int64(mix(c.Seed, hash(p.Id), 1))))
			for i := 0; i < nt; i++ {
				n := 0
				var t core.ITimer
				ready := make(chan struct{})
				t = p.OnTimer(int64(r.Intn(4)), int64(1+r.Intn(5)), func(interface{}) error {
					<-ready
					s.visit('t')
					if n++; n == ticks {
						t.Stop()
					}
					return nil
				}, nil)
				close(ready)
			}
			if pub {
				p.Sub("topic-"+p.Id, "ch-"+p.Id, func(ctx core.ActorContext) core.IChain {
					return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { s.visit('p'); s.msgs++; return nil }}
				})
			}
		}},
		"stuck": {Events: map[string]Handler{"stuck": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error { <-release; return nil }}},
	}
	port := 0
	if remote {
		port = -1
	}
	n := c.Node("n1", types, NodeOpt{Port: port})
	from := []*Node{n}
	if remote {
		from = append(from, c.Node("n2", Types{"t": types["t"]}, NodeOpt{Port: port}))
	}
	n.Must(c, "stuck", "stuck")
	ids := []string{}
	for i := 0; i < na; i++ {
		ids = append(ids, fmt.Sprintf("a%d", i))
		from[i%len(from)].Must(c, ids[i], "t")
	}
	if err := n.Sys.Send("stuck", "stuck", "stuck", newMsg()); err != nil {
		c.Fail("setup-send", "send to the other actor failed: %v", err)
	}
	accepted := make([]atomic.Int64, na)
	var wg sync.WaitGroup
	senders := 1 + c.pick(6)
	calls := 0
	for i := 0; i < senders; i++ {
		r := c.Rand()
		k := 3 + r.Intn(12)
		calls += k
		sys := from[i%len(from)].Sys
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < k; j++ {
				to := r.Intn(na)
				w := newMsg()
				ev := []string{"a", "b", "fan", "re", "a"}[r.Intn(5)]
				if ev == "fan" || ev == "re" {
					w.Req.Body = []byte(ids[r.Intn(na)])
				}
				switch r.Intn(4) {
				case 0, 1:
					if err := sys.Send(ids[to], "t", ev, w); err != nil {
						c.Fail("rejected", "send to a live actor failed: %v", err)
					} else {
						accepted[to].Add(1)
					}
				case 2:
					err := sys.Call(ids[to], "t", ev, w)
					// another actor's handler is stuck all the time: that must not delay this one
					if err != nil || w.Err != nil {
						c.Fail("blocked", "a call to an actor that is not stuck failed: %v, %v", err, w.Err)
					} else {
						accepted[to].Add(1)
					}
				case 3:
					if pub {
						if err := sys.Pub("topic-"+ids[to], "ch-"+ids[to], []byte("x")); err != nil {
							c.Fail("pub", "publish failed: %v", err)
						} else {
							accepted[to].Add(1)
							pubs.Add(1)
						}
					}
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(6)) * time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
	if remote {
		// until everything has been handled
		eventually(20*time.Second, func() bool {
			for i, id := range ids {
				w := newMsg()
				if err := n.Sys.Call(id, "t", "get", w); err != nil || len(w.Res.Body) < 8 || int64(binary.BigEndian.Uint32(w.Res.Body)) < accepted[i].Load() {
					time.Sleep(5 * time.Millisecond)
					return false
				}
			}
			return true
		})
	} else if pub {
		time.Sleep(3 * time.Second) // subscriptions poll all the time, which makes it expensive
	} else {
		settle()
	}
	for i, id := range ids {
		w := newMsg()
		err := n.Sys.Call(id, "t", "get", w)
		if !c.Check(err == nil && w.Err == nil && w.Res != nil && len(w.Res.Body) >= 8, "get", "the last call failed: %v, %v", err, w.Err) {
			continue
		}
		msgs, cnt := binary.BigEndian.Uint32(w.Res.Body), binary.BigEndian.Uint32(w.Res.Body[4:])
		c.Check(int64(msgs) >= accepted[i].Load() && cnt%2 == 0 && cnt >= 2*msgs, "lost", "the actor counts %d messages and %d steps, %d messages were accepted directly", msgs, cnt, accepted[i].Load())
		c.N("executions", int(cnt/2))
		if atomicMode {
			c.Sig(string(w.Res.Body[8:]))
			if i == 0 {
				c.Sample("order of executions of one actor (a,b,f,r messages, t timer, p publication): %s", w.Res.Body[8:])
			}
		} else {
			c.Sig(i, msgs, cnt)
		}
	}
	c.N("publications", int(pubs.Load()))
	c.N("submissions", calls)
	close(release)
}

// ---- C02

type fifoKey struct {
	inst int64
	snd  int
}

// runSerialBacklog lets far more than any internal buffer holds pile up while one handler runs
func runSerialBacklog(c *Case) {
	c.NewRedis()
	atomicMode := c.pick(2) == 0
	busy := time.Duration(200+c.pick(2300)) * time.Millisecond
	timers, sends, pubs, res := 1+c.pick(6), c.pick(1500), c.pick(2)*c.pick(60), c.pick(200)
	holding := make(chan struct{})
	var ticks, handled, resolved atomic.Int64

	types := Types{
		"t": {Events: map[string]Handler{
			"hold": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
				s := p.State.(*serState)
				for i := 0; i < res; i++ {
					ctx.ReenterCall("other", "o", "e", newMsg()).Then(func(*msg.Wrapper) { resolved.Add(1) })
				}
				close(holding)
				if s.atomic {
					s.busy.Store(1)
					s.order = append(s.order, 'h')
				}
				before := plainTouch(&s.cnt)
				time.Sleep(busy)
				if after := plainTouch(&s.cnt); after != before+1 {
					c.Fail("interleaved", "the actor's counter went from %d to %d within one execution", before, after)
				}
				if s.atomic {
					s.busy.Store(0)
				}
				return nil
			},
			"a": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
				p.State.(*serState).quick('a')
				handled.Add(1)
				return nil
			},
			"state": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
				s := p.State.(*serState)
				w.Res.Body = append(binary.BigEndian.AppendUint32(nil, uint32(plainRead(&s.cnt))), s.order...)
				return nil
			},
		}, Init: func(p *Probe, ctx context.Context) {
			s := &serState{c: c, atomic: atomicMode, r: rand.New(rand.NewSource(int64(mix(c.Seed, 3)))), slow: 12}
			p.State = s
			for i := 0; i < timers; i++ {
				p.OnTimer(0, 1+int64(i%2), func(interface{}) error { s.quick('t'); ticks.Add(1); return nil }, nil)
			}
			if pubs > 0 {
				p.Sub("topic", "ch", func(ctx core.ActorContext) core.IChain {
					return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { s.quick('p'); handled.Add(1); return nil }}
				})
			}
		}},
		"o": {Events: map[string]Handler{"e": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error { return nil }}},
	}
	n := c.Node("n1", types, NodeOpt{})
	a := n.Must(c, "a", "t")
	n.Must(c, "other", "o")
	if err := n.Sys.Send("a", "t", "hold", newMsg()); err != nil {
		c.Fail("setup-send", "send failed: %v", err)
		return
	}
	<-holding
	for i := 0; i < sends; i++ {
		if err := n.Sys.Send("a", "t", "a", newMsg()); err != nil {
			c.Fail("rejected", "send to a live actor failed: %v", err)
		}
	}
	for i := 0; i < pubs; i++ {
		if err := n.Sys.Pub("topic", "ch", []byte("x")); err != nil {
			c.Fail("publish", "publish failed: %v", err)
		}
	}
	time.Sleep(busy + 3*time.Second)
	w := newMsg()
	if err := n.Sys.Call("a", "t", "state", w); err != nil || w.Err != nil {
		c.Fail("blocked", "a call after the backlog failed: %v, %v", err, w.Err)
		return
	}
	_ = a
	order := ""
	if len(w.Res.Body) >= 4 {
		order = string(w.Res.Body[4:])
	}
	if got := handled.Load(); got != int64(sends+pubs) {
		c.Fail("lost", "%d of the %d messages behind a busy handler were handled", got, sends+pubs)
	}
	if got := resolved.Load(); got != int64(res) {
		c.Fail("lost-reentrant", "%d of the %d reentrant calls made before a long handler resolved", got, res)
	}
	c.N("ticks", int(ticks.Load()))
	c.N("executions", int(handled.Load()+ticks.Load()+resolved.Load()))
	c.Check(true, "serial", "")
	c.Sig(atomicMode, timers, sends/100, order)
	c.Sample("%v busy, %d timers (%d ticks), %d messages, %d publications, %d reentrant results", busy, timers, ticks.Load(), sends, pubs, res)
}

// runSerialLong has executions that last longer than any timeout inside the framework
func runSerialLong(c *Case) {
	c.NewRedis()
	atomicMode := c.pick(2) == 0
	timers, sends, pubs, calls := c.pick(4), c.pick(5), 0, c.pick(2)
	if c.pick(4) == 0 {
		pubs = 1 + c.pick(2)
	}
	var left atomic.Int64
	var order []byte // of the ends, touched by the actor only
	var busy atomic.Int32
	var cnt int
	r := c.Rand()
	visit := func(what byte) {
		if atomicMode && !busy.CompareAndSwap(0, 1) {
			c.Fail("overlap", "execution %c started while another one was running on the actor", what)
		}
		before := plainTouch(&cnt)
		d := []time.Duration{50, 900, 1500, 4000, 7000, 12000, 31000}[r.Intn(7)]
		time.Sleep(d*time.Millisecond + time.Duration(r.Intn(9000))*time.Millisecond)
		if after := plainTouch(&cnt); after != before+1 {
			c.Fail("interleaved", "the actor's counter went from %d to %d within one execution", before, after)
		}
		order = append(order, what)
		if atomicMode {
			busy.Store(0)
		}
		left.Add(-1)
	}
	types := Types{
		"t": {Events: map[string]Handler{
			"a": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error { visit('a'); return nil },
			"get": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
				w.Res.Body = append([]byte{}, order...)
				return nil
			},
		}, Init: func(p *Probe, ctx context.Context) {
			for i := 0; i < timers; i++ {
				interval, ticks, n := int64(0), 1, 0
				if c.pick(2) == 0 {
					interval, ticks = int64(100+c.pick(20000)), 2+c.pick(2)
				}
				left.Add(int64(ticks))
				var t core.ITimer
				ready := make(chan struct{})
				t = p.OnTimer(int64(c.pick(3)*c.pick(5000)), interval, func(interface{}) error {
					<-ready
					if n++; n == ticks {
						t.Stop()
					}
					visit('t')
					return nil
				}, nil)
				close(ready)
			}
			if pubs > 0 {
				p.Sub("topic", "ch", func(ctx core.ActorContext) core.IChain {
					return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { visit('p'); return nil }}
				})
			}
		}},
		"o": {Weight: 1, Events: map[string]Handler{"e": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error { w.Res.Body = []byte("ok"); return nil }}},
	}
	left.Add(int64(sends + pubs + calls))
	n := c.Node("n1", types, NodeOpt{})
	n.Must(c, "a", "t")
	n.Must(c, "other", "o")
	var wg sync.WaitGroup
	for i := 0; i < sends+pubs+calls; i++ {
		wait := time.Duration(c.pick(3)*c.pick(20000)) * time.Millisecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(wait)
			var err error
			switch {
			case i < sends:
				err = n.Sys.Send("a", "t", "a", newMsg())
			case i < sends+pubs:
				err = n.Sys.Pub("topic", "ch", []byte("x"))
			default:
				n.Sys.Call("a", "t", "a", newMsg()) // it may time out
			}
			c.Check(err == nil, "refused", "a message to a live actor was refused: %v", err)
		}()
	}
	for i := 0; left.Load() > 0 && i < 600; i++ {
		at := time.Now()
		w := newMsg()
		err := n.Sys.Call("other", "o", "e", w)
		c.Check(err == nil && w.Err == nil && string(w.Res.Body) == "ok", "blocked", "a call to an idle actor failed: %v", err)
		if i%4 == 0 {
			n.Must(c, "fresh", "o")
			if _, err := n.Sys.FindActor(context.Background(), "fresh"); err != nil {
				c.Fail("blocked", "a new actor was not found: %v", err)
			}
			c.Check(len(n.Sys.Actors()) == 3, "blocked", "three actors are registered, %d listed", len(n.Sys.Actors()))
			if err := n.Sys.Unregister("fresh", "o"); err != nil {
				c.Fail("blocked", "unregister failed: %v", err)
			}
		}
		if took := time.Since(at); took > time.Second {
			c.Fail("delayed", "another actor's work took %v while one actor was busy", took)
		}
		time.Sleep(time.Duration(300+c.pick(1500)) * time.Millisecond)
	}
	wg.Wait()
	if n := left.Load(); n > 0 {
		c.Fail("lost", "%d executions are missing after all that time", n)
		return
	}
	settle()
	w := newMsg()
	if err := n.Sys.Call("a", "t", "get", w); err != nil || w.Err != nil {
		c.Fail("blocked", "the last call failed: %v, %v", err, w.Err)
		return
	}
	c.Check(len(w.Res.Body)*2 == plainRead(&cnt), "interleaved", "%d executions ended, the actor counted %d steps", len(w.Res.Body), plainRead(&cnt))
	c.N("long executions", len(w.Res.Body))
	c.Sig(string(w.Res.Body))
	c.Sample("order of long executions (a messages, t timer, p publication): %s", w.Res.Body)
}

// quick is visit without any pause
func (s *serState) quick(what byte) {
	if s.atomic {
		if !s.busy.CompareAndSwap(0, 1) {
			s.c.Fail("overlap", "execution %c started while another one was running on the actor", what)
		}
		if len(s.order) < 400 {
			s.order = append(s.order, what)
		}
	}
	plainTouch(&s.cnt)
	if s.atomic {
		s.busy.Store(0)
	}
}

func runFlood(c *Case) {
	c.NewRedis()
	senders := 1 + c.pick(4)
	each := (500 + c.pick([]int{600, 4000, 11500}[c.pick(3)])) / senders
	holding := make(chan struct{})
	next := make([]int, senders)
	handled, misplaced := 0, 0
	types := Types{"t": {Events: map[string]Handler{
		"hold": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			close(holding)
			time.Sleep(time.Second)
			return nil
		},
		"e": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			s, q := int(w.Req.Body[0]), int(binary.BigEndian.Uint32(w.Req.Body[1:]))
			if next[s] != q {
				if misplaced++; misplaced < 4 {
					c.Fail("order", "message %d of sender %d of %d came after message %d, behind a backlog", q, s, senders, next[s]-1)
				}
			}
			next[s] = q + 1
			handled++
			return nil
		},
		"get": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			w.Res.Body = binary.BigEndian.AppendUint32(nil, uint32(handled))
			return nil
		},
	}}}
	n := c.Node("n1", types, NodeOpt{})
	n.Must(c, "a", "t")
	if err := n.Sys.Send("a", "t", "hold", newMsg()); err != nil {
		c.Fail("setup-send", "send failed: %v", err)
		return
	}
	<-holding
	var wg sync.WaitGroup
	for s := 0; s < senders; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := 0; q < each; q++ {
				w := newMsg()
				w.Req.Body = binary.BigEndian.AppendUint32([]byte{byte(s)}, uint32(q))
				if err := n.Sys.Send("a", "t", "e", w); err != nil {
					c.Fail("refused", "send %d to a live actor failed: %v", q, err)
					return
				}
			}
		}()
	}
	wg.Wait()
	settle()
	w := newMsg()
	if err := n.Sys.Call("a", "t", "get", w); err != nil || w.Err != nil || len(w.Res.Body) != 4 {
		c.Fail("get", "the last call failed: %v, %v", err, w.Err)
		return
	}
	got := int(binary.BigEndian.Uint32(w.Res.Body))
	c.Check(got == senders*each, "exactly-once", "%d messages were accepted behind a backlog and %d handled", senders*each, got)
	c.N("backlogged", got)
	c.Sig(senders, each/100)
	c.Sample("%d senders, a backlog of %d messages", senders, senders*each)
}

func runFifo(c *Case, remote bool) {
	c.NewRedis()
	type ent struct {
		snd, seq int
		inst     int64
		id       string
	}
	var mu sync.Mutex
	var log []ent
	type sent struct {
		body  []byte
		ev    string
		token string
		id    string
		to    string
		state int // 0 rejected, 1 accepted, 2 unknown
		cust  string
	}
	recs := map[[2]int]*sent{}
	burst := c.pick(4) == 0

	handle := func(ev string) Handler {
		return func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			b := w.Req.Body
			if len(b) < 8 {
				c.Fail("body", "handler of %s got a body of %d bytes, sent were at least 8", ev, len(b))
				return nil
			}
			s, q := int(binary.BigEndian.Uint32(b)), int(binary.BigEndian.Uint32(b[4:]))
			mu.Lock()
			r := recs[[2]int{s, q}]
			log = append(log, ent{s, q, p.No, p.Id})
			mu.Unlock()
			if r == nil {
				c.Fail("body", "handler got a body nobody sent: %x", b)
				return nil
			}
			h := w.Req.Header
			c.Check(string(b) == string(r.body), "body", "body changed: sent %x, handled %x", r.body, b)
			c.Check(ev == r.ev && h.Event == r.ev, "event", "sent as %q, handled as %q with header event %q", r.ev, ev, h.Event)
			c.Check(h.Token == r.token && h.ID == r.id && msg.GetReqCustomField[string](w, "k") == r.cust && h.TargetActorID == r.to && p.Id == r.to, "header", "header changed: sent token %q id %q custom %q to %q, got %+v on %s", r.token, r.id, r.cust, r.to, h, p.Id)
			switch {
			case burst && q == 0:
				time.Sleep(300 * time.Millisecond) // everything else of the case piles up behind it
			case burst:
			case q%4 == 0:
				time.Sleep(time.Duration(s+q) * 100 * time.Microsecond)
			case q%4 == 1:
				yieldN(s)
			}
			return nil
		}
	}
	na := 1 + c.pick(3)
	leave := c.pick(2) == 0
	var submit func(sys interface {
		Call(string, string, string, *msg.Wrapper) error
		Send(string, string, string, *msg.Wrapper) error
	}, r *rand.Rand, snd, seq int)
	types := Types{
		"t": {Weight: 1, Events: map[string]Handler{"e0": handle("e0"), "e1": handle("e1"), "e2": handle("e2")}},
		"s": {Events: map[string]Handler{"go": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			r := rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(w.Req.Body))))
			n, snd := int(w.Req.Body[8]), int(w.Req.Body[9])
			for i := 0; i < n; i++ {
				submit(ctx, r, snd, i)
			}
			return nil
		}}},
	}
	port := 0
	if remote {
		port = -1
	}
	nodes := []*Node{c.Node("n1", types, NodeOpt{Port: port})}
	if remote {
		nodes = append(nodes, c.Node("n2", types, NodeOpt{Port: port}))
	}
	on := c.pick(len(nodes)) // where the first actor lives
	ids := []string{"a0", "a1", "a2"}[:na]
	home := map[string]*Node{}
	for i, id := range ids {
		home[id] = nodes[(on+i)%len(nodes)]
		home[id].Must(c, id, "t")
	}
	submit = func(sys interface {
		Call(string, string, string, *msg.Wrapper) error
		Send(string, string, string, *msg.Wrapper) error
	}, r *rand.Rand, snd, seq int) {
		body := make([]byte, 8+r.Intn(40))
		r.Read(body)
		binary.BigEndian.PutUint32(body, uint32(snd))
		binary.BigEndian.PutUint32(body[4:], uint32(seq))
		e := &sent{body: body, ev: fmt.Sprintf("e%d", r.Intn(3)), token: fmt.Sprint("tok", r.Intn(1000)), id: fmt.Sprintf("%d-%d", snd, seq), to: ids[r.Intn(na)], cust: fmt.Sprint("c", r.Intn(1000))}
		mu.Lock()
		recs[[2]int{snd, seq}] = e
		mu.Unlock()
		ctx := context.Background()
		cancel := func() {}
		deadlined := r.Intn(8) == 0
		if deadlined {
			ctx, cancel = context.WithTimeout(ctx, time.Duration(1+r.Intn(5))*time.Millisecond)
		}
		defer cancel()
		w := msg.NewBuilder(ctx).WithReqHeader(&router.Header{ID: e.id, Token: e.token}).WithReqBody(append([]byte{}, body...)).WithReqCustomFields(msg.Attr{Key: "k", Value: e.cust}).Build()
		st := 0
		if call := r.Intn(3) == 0; call && (!burst || seq%64 == 63) {
			err := sys.Call(e.to, "t", e.ev, w)
			switch {
			case err == nil && w.Err == nil:
				st = 1
			case errors.Is(ctx.Err(), context.DeadlineExceeded), remote && deadlined:
				st = 2
			case err == nil:
				st = 1 // the call timed out, the message was accepted
			}
		} else if err := sys.Send(e.to, "t", e.ev, w); err == nil {
			st = 1
		} else if remote && deadlined {
			st = 2 // the sender gave up waiting for the other node's answer
		}
		mu.Lock()
		e.state = st
		mu.Unlock()
		if !burst && r.Intn(4) == 0 {
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		}
	}
	var wg sync.WaitGroup
	senders := 1 + c.pick(6)
	total := 0
	for i := 0; i < senders; i++ {
		r := c.Rand()
		k := 5 + r.Intn(30)
		if burst {
			k = 20 + r.Intn(230)
		}
		total += k
		n := nodes[i%len(nodes)]
		wg.Add(1)
		if i%3 == 2 {
			// an actor sends
			sid := fmt.Sprint("s", i)
			n.Must(c, sid, "s")
			b := binary.BigEndian.AppendUint64(nil, uint64(r.Int63()))
			b = append(b, byte(k), byte(i))
			go func() {
				defer wg.Done()
				w := newMsg()
				w.Req.Body = b
				if err := n.Sys.Call(sid, "s", "go", w); err != nil {
					c.Fail("sender", "call failed: %v", err)
				}
			}()
			continue
		}
		go func() {
			defer wg.Done()
			for j := 0; j < k; j++ {
				submit(n.Sys, r, i, j)
			}
		}()
	}
	if leave {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 1+r.Intn(3); j++ {
				time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
				id := ids[r.Intn(na)]
				home[id].Sys.Unregister(id, "t")
				time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
				home[id].Must(c, id, "t")
				c.N("leaves", 1)
			}
		}()
	}
	wg.Wait()
	if remote {
		eventually(20*time.Second, func() bool {
			mu.Lock()
			defer mu.Unlock()
			have := map[[2]int]bool{}
			for _, e := range log {
				have[[2]int{e.snd, e.seq}] = true
			}
			for k, r := range recs {
				if r.state == 1 && !have[k] {
					return false
				}
			}
			return true
		})
		time.Sleep(20 * time.Millisecond)
	} else {
		settle()
	}
	mu.Lock()
	defer mu.Unlock()
	seen := map[[2]int]int{}
	last := map[fifoKey]int{}
	insts := map[int64][]int{}
	for _, e := range log {
		seen[[2]int{e.snd, e.seq}]++
		k := fifoKey{e.inst, e.snd}
		if r := recs[[2]int{e.snd, e.seq}]; remote && r != nil && r.state == 2 {
			continue // it may have been on its way still when the sender went on
		}
		if l, ok := last[k]; ok && l >= e.seq {
			c.Fail("order", "actor %s handled message %d of sender %d after message %d", e.id, e.seq, e.snd, l)
		}
		last[k] = e.seq
		insts[e.inst] = append(insts[e.inst], e.snd)
	}
	acc, rej := 0, 0
	for k, r := range recs {
		switch r.state {
		case 1:
			acc++
			c.Check(seen[k] == 1, "exactly-once", "message %d of sender %d was accepted and handled %d times", k[1], k[0], seen[k])
		case 0:
			rej++
			c.Check(seen[k] == 0, "rejected", "message %d of sender %d was rejected and handled %d times", k[1], k[0], seen[k])
		default:
			c.Check(seen[k] <= 1, "at-most-once", "message %d of sender %d was handled %d times", k[1], k[0], seen[k])
		}
	}
	c.Check(leave || rej == 0, "refused", "%d messages to a live actor were refused", rej)
	c.N("accepted", acc)
	c.N("rejected", rej)
	c.N("handled", len(log))
	for i, o := range insts {
		c.Sig(o)
		if i%3 == 0 {
			c.Sample("an actor handled the messages of the senders %v", o)
		}
	}
}

func yieldN(n int) {
	for i := 0; i < n; i++ {
		rsleep(1000)
	}
}

// ---- C03

type treeNode struct {
	actor    int
	slot     int
	forward  bool // on the caller's message
	before   int  // in units of the run
	after    int
	kids     []*treeNode
	async    bool // the handler does something after its calls
	failKind int
}

type treeRun struct {
	unit  time.Duration
	slots []int
	done  []int64
}

type treeKey struct{}

func runTree(c *Case) {
	c.NewRedis()
	na := 2 + c.pick(5)
	atomicLog := c.pick(2) == 0
	callers := 1 + c.pick(4)
	long := c.pick(2) == 0
	var mu sync.Mutex
	var plans sync.Map // int -> *treeNode
	var runs sync.Map  // int -> *treeRun

	handle := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		v, _ := plans.Load(int(binary.BigEndian.Uint32(w.Req.Body)))
		v2, _ := runs.Load(int(binary.BigEndian.Uint32(w.Req.Body[4:])))
		slot := int(binary.BigEndian.Uint32(w.Req.Body[8:]))
		root, run := v.(*treeNode), v2.(*treeRun)
		t := root.find(slot)
		time.Sleep(time.Duration(t.before) * run.unit)
		for i, k := range t.kids {
			b := append([]byte{}, w.Req.Body...)
			binary.BigEndian.PutUint32(b[8:], uint32(k.slot))
			if k.forward && i == len(t.kids)-1 {
				// the response so far, and the effects, before the message is somebody else's
				w.Res.Body = append(w.Res.Body, byte(slot))
				w.Req.Body = b
				time.Sleep(time.Duration(t.after) * run.unit)
				plainTouch(&run.slots[slot])
				if err := ctx.Call(fmt.Sprint("a", k.actor), "t", "x", w); err != nil {
					c.Fail("nested", "forwarding to another actor failed: %v", err)
				}
				return nil
			}
			m := msg.NewBuilder(w.Ctx).WithReqBody(b).Build()
			if err := ctx.Call(fmt.Sprint("a", k.actor), "t", "x", m); err != nil {
				c.Fail("nested", "a nested call failed: %v", err)
			}
		}
		time.Sleep(time.Duration(t.after) * run.unit)
		w.Res.Body = append(w.Res.Body, byte(slot))
		plainTouch(&run.slots[slot])
		if atomicLog {
			mu.Lock()
			run.done = append(run.done, int64(slot))
			mu.Unlock()
		}
		if t.failKind == 1 {
			return fmt.Errorf("handler error")
		} else if t.failKind == 2 {
			panic("handler panic")
		}
		return nil
	}
	types := Types{"t": {Weight: 1, Events: map[string]Handler{"x": handle}}}
	n := c.Node("n1", types, NodeOpt{})
	for i := 0; i < na; i++ {
		n.Must(c, fmt.Sprint("a", i), "t")
	}
	var wg sync.WaitGroup
	for i := 0; i < callers; i++ {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx := context.Background()
			for j := 0; j <= r.Intn(3); j++ {
				slots := 0
				root := genTree(r, na, r.Intn(na), -1, 1+r.Intn(5), 1+r.Intn(14), &slots)
				id := i*10 + j
				plans.Store(id, root)
				run := &treeRun{slots: make([]int, slots), unit: 100 * time.Microsecond}
				if long {
					// everything that all callers ever do takes less than the timeout of one call
					run.unit = 4500 * time.Millisecond / time.Duration(1+root.work())
					if callers > 1 {
						run.unit /= time.Duration(3 * callers)
					}
				}
				runs.Store(id, run)
				w := newMsgCtx(ctx)
				w.Req.Body = make([]byte, 12)
				binary.BigEndian.PutUint32(w.Req.Body, uint32(id))
				binary.BigEndian.PutUint32(w.Req.Body[4:], uint32(id))
				if r.Intn(2) == 0 {
					ctx = w.Ctx // the next call is on the same request context
				} else {
					ctx = context.Background()
				}
				err := n.Sys.Call(fmt.Sprint("a", root.actor), "t", "x", w)
				if !c.Check(err == nil && w.Err == nil, "call", "call failed: %v, %v", err, w.Err) {
					return
				}
				for s := range run.slots {
					v := plainRead(&run.slots[s])
					c.Check(v == 1, "unfinished", "the call returned although step %d of %d of its call tree had run %d times\n%s", s, slots, v, root)
				}
				want := ""
				for t := root; t != nil; {
					want += string(rune(t.slot))
					var next *treeNode
					if k := len(t.kids); k > 0 && t.kids[k-1].forward {
						next = t.kids[k-1]
					}
					t = next
				}
				got := ""
				for _, b := range w.Res.Body {
					got += string(rune(b))
				}
				c.Check(got == want, "response", "the response carries the steps %q, forwarded through %q", got, want)
				c.N("trees", 1)
				c.N("steps", slots)
				if atomicLog {
					mu.Lock()
					c.Sig(root.String(), run.done)
					c.Sample("call tree %s completed in the order %v", root, run.done)
					mu.Unlock()
				} else {
					c.Sig(root.String())
				}
			}
		}()
	}
	wg.Wait()
}

func genTree(r *rand.Rand, na, act, origin int, depth, budget int, slots *int) *treeNode {
	t := &treeNode{actor: act, slot: *slots, after: r.Intn(20), before: r.Intn(20)}
	if r.Intn(3) == 0 {
		t.before = 0
	}
	if r.Intn(3) == 0 {
		t.after = 0
	}
	*slots++
	if r.Intn(10) == 0 {
		t.failKind = 1 + r.Intn(2)
	}
	if depth == 0 || na < 2 {
		return t
	}
	for k := r.Intn(4); k > 0 && *slots < budget; k-- {
		to := r.Intn(na)
		if to == act {
			continue // it would be rejected
		}
		if k == 1 && r.Intn(2) == 0 {
			// forward this message: its originator, the first actor that forwarded it, must not get it again
			org := origin
			if org < 0 {
				org = act
			}
			if to == org {
				continue
			}
			kid := genTree(r, na, to, org, depth-1, budget, slots)
			kid.forward = true
			t.kids = append(t.kids, kid)
			continue
		}
		t.kids = append(t.kids, genTree(r, na, to, act, depth-1, budget, slots))
	}
	return t
}

func (t *treeNode) work() int {
	n := t.before + t.after
	for _, k := range t.kids {
		n += k.work()
	}
	return n
}

func (t *treeNode) find(slot int) *treeNode {
	if t.slot == slot {
		return t
	}
	for _, k := range t.kids {
		if x := k.find(slot); x != nil {
			return x
		}
	}
	return nil
}

func (t *treeNode) String() string {
	s := fmt.Sprintf("a%d", t.actor)
	if t.forward {
		s = ">" + s
	}
	if len(t.kids) > 0 {
		s += "("
		for i, k := range t.kids {
			if i > 0 {
				s += " "
			}
			s += k.String()
		}
		s += ")"
	}
	return s
}
