package mon

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/opentracing/opentracing-go/mocktracer"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/lib/pubsub"
	"github.com/pojol/braid/lib/span"
	"github.com/pojol/braid/router/msg"
)

func init() {
	reg(Scenario{Prop: "C27", Name: "one-node", Quick: 500, Thorough: 30000, Races: true, Hot: true, Limit: 20 * time.Minute, Run: func(c *Case) { runChaos(c, false) },
		Rule: "3-10 goroutines use one node (with or without tracing) at once, 10-60 operations each: register, unregister, list, find, look up, call, send, publish, subscribe, timers, handlers, builders, while handlers call, send, call " +
			"reentrantly, register, unregister (themselves too), set timers, subscribe, publish, panic; in half of the cases the node exits meanwhile; an outcome is the multiset of results of all operations"})
	reg(Scenario{Prop: "C27", Name: "two-nodes", Mode: Real, Lag: 2 * time.Millisecond, Quick: 60, Thorough: 1500, Races: true, Limit: 4 * time.Minute, Run: func(c *Case) { runChaos(c, true) },
		Rule: "the same on two nodes that call each other"})
}

type chaos struct {
	c      *Case
	nodes  []*Node
	real   bool
	ops    sync.Map // name/outcome -> *atomic.Int64
	ev     atomic.Int64
	exited atomic.Bool
	futs   atomic.Int64
	ran    atomic.Int64
}

func (x *chaos) did(name string, err error) {
	k := name + " ok"
	if err != nil {
		k = name + " refused"
	}
	v, _ := x.ops.LoadOrStore(k, new(atomic.Int64))
	v.(*atomic.Int64).Add(1)
}

var chaosIDs = []string{"a0", "a1", "a2", "a3", "b0", "b1", "c0", "c1", "c2", "c3"}

func chaosType(id string) string { return "T" + id[:1] }

// target picks whom to call.
func (x *chaos) target(r *rand.Rand, kinds string) (id, ty string) {
	id = chaosIDs[r.Intn(len(chaosIDs))]
	for !strings.Contains(kinds, id[:1]) {
		id = chaosIDs[r.Intn(len(chaosIDs))]
	}
	ty = chaosType(id)
	switch r.Intn(8) {
	case 0:
		id = "?"
	case 1:
		id = "~"
	case 2:
		id = "none"
	}
	return
}

var chaosEvents = []string{"noop", "noop", "forward", "own", "send", "reenter", "timer", "sub", "pub", "spawn", "kill", "suicide", "panic", "slow", "on", "read"}

type chaosState struct {
	touched int // only by the actor's own goroutine
	timers  []core.ITimer
	r       *rand.Rand
}

func (x *chaos) types() Types {
	st := func(p *Probe) *chaosState { return p.State.(*chaosState) }
	next := map[string]string{"Ta": "bc", "Tb": "c", "Tc": ""} // handlers call downwards only
	evs := map[string]Handler{}
	put := func(ev string, f func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error) {
		evs[ev] = func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			s := st(p)
			plainTouch(&s.touched)
			x.ran.Add(1)
			w.Res.Body = append([]byte("re "), w.Req.Body...)
			w.Res.Header.Custom = []byte(ev + " at " + p.ID())
			return f(p, s, ctx, w)
		}
	}
	nextEv := func(s *chaosState) string { return chaosEvents[s.r.Intn(len(chaosEvents))] }
	put("noop", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error { return nil })
	put("slow", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		time.Sleep(time.Duration(s.r.Intn(3)) * time.Millisecond)
		return nil
	})
	put("panic", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		panic(fmt.Sprint("panic of ", p.ID()))
	})
	put("forward", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		if next[p.Type()] == "" {
			return errors.New("the last one")
		}
		id, ty := x.target(s.r, next[p.Type()])
		err := ctx.Call(id, ty, nextEv(s), w)
		x.did("forward", err)
		return nil
	})
	put("own", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		if next[p.Type()] == "" {
			return nil
		}
		for i := s.r.Intn(3); i >= 0; i-- {
			id, ty := x.target(s.r, next[p.Type()])
			m := newMsgCtx(w.Ctx)
			m.Req.Body = []byte("own")
			x.did("nested call", ctx.Call(id, ty, nextEv(s), m))
		}
		return nil
	})
	put("send", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		for i := s.r.Intn(3); i >= 0; i-- {
			id, ty := x.target(s.r, "abc")
			x.did("nested send", ctx.Send(id, ty, "noop", newMsg()))
		}
		return nil
	})
	put("reenter", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		if next[p.Type()] == "" {
			return nil
		}
		id, ty := x.target(s.r, next[p.Type()])
		m := newMsg()
		f := ctx.ReenterCall(id, ty, nextEv(s), m)
		for i := s.r.Intn(3); i >= 0; i-- {
			f = f.Then(func(ret *msg.Wrapper) { x.futs.Add(1) })
		}
		f.IsCompleted()
		return nil
	})
	put("timer", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		if len(s.timers) < 6 {
			var t core.ITimer
			t = p.OnTimer(int64(s.r.Intn(5)), int64(s.r.Intn(8)), func(interface{}) error {
				plainTouch(&s.touched)
				x.ran.Add(1)
				if s.r.Intn(10) == 0 && t != nil {
					t.Stop()
				}
				if s.r.Intn(30) == 0 {
					panic("timer panic")
				}
				return nil
			}, p)
			s.timers = append(s.timers, t)
		}
		timerOps(p, s.r, s.timers[s.r.Intn(len(s.timers))])
		return nil
	})
	put("sub", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		x.did("sub", x.sub(p, s.r))
		return nil
	})
	put("pub", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		x.did("pub", ctx.Pub(fmt.Sprint("topic", s.r.Intn(2)), "noop", []byte("published")))
		return nil
	})
	put("spawn", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		id := chaosIDs[s.r.Intn(len(chaosIDs))]
		_, err := ctx.Loader(chaosType(id)).WithID(id).WithOpt("by", p.ID()).Register(context.Background())
		x.did("nested register", err)
		return nil
	})
	put("kill", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		// only downwards, as it waits for the other one
		if next[p.Type()] == "" {
			return nil
		}
		id := chaosIDs[s.r.Intn(len(chaosIDs))]
		for !strings.Contains(next[p.Type()], id[:1]) {
			id = chaosIDs[s.r.Intn(len(chaosIDs))]
		}
		x.did("nested unregister", ctx.Unregister(id, chaosType(id)))
		return nil
	})
	put("suicide", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		x.did("unregister oneself", ctx.Unregister(p.ID(), p.Type()))
		return nil
	})
	put("on", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		x.did("on", p.on(fmt.Sprint("dyn", s.r.Intn(20)), evs["noop"]))
		return nil
	})
	put("read", func(p *Probe, s *chaosState, ctx core.ActorContext, w *msg.Wrapper) error {
		ctx.WithValue(chaosKey{}, s.touched)
		if v, _ := ctx.GetValue(chaosKey{}).(int); v != s.touched {
			x.c.Fail("value", "a value put into the context is %v, expected %d", v, s.touched)
		}
		x.look(p.Node, s.r, ctx.System(), ctx.AddressBook())
		return nil
	})
	ts := Types{}
	for _, ty := range []string{"Ta", "Tb", "Tc"} {
		t := &Type{Weight: 2, Opts: map[string]string{"x": "1"}, Events: evs, Init: func(p *Probe, ctx context.Context) {
			p.State.(*chaosState).touched++
		}}
		if ty == "Tb" {
			t.Unique = true
		}
		if ty == "Tc" {
			t.Limit = 3
		}
		ts[ty] = t
	}
	return ts
}

type chaosKey struct{}

func timerOps(p *Probe, r *rand.Rand, t core.ITimer) {
	switch r.Intn(7) {
	case 0:
		t.Stop()
	case 1, 2:
		t.Reset(time.Duration(r.Intn(6)) * time.Millisecond)
	case 3:
		t.IsActive()
		t.Interval()
	case 4:
		t.NextTrigger()
	case 5:
		p.CancelTimer(t)
	case 6:
	}
}

func (x *chaos) sub(p *Probe, r *rand.Rand) error {
	return p.Sub(fmt.Sprint("topic", r.Intn(2)), fmt.Sprint("ch-", p.ID()), func(ctx core.ActorContext) core.IChain {
		return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { return nil }}
	}, pubsub.WithTTL(time.Minute))
}

// look reads everything there is to read.
func (x *chaos) look(n *Node, r *rand.Rand, sys core.ISystem, ab core.IAddressBook) {
	ctx := context.Background()
	id := chaosIDs[r.Intn(len(chaosIDs))]
	switch r.Intn(6) {
	case 0:
		for _, a := range sys.Actors() {
			if a.ID() == "" || a.Type() == "" {
				x.c.Fail("actors", "Actors returned an actor without id or type")
			}
		}
	case 1:
		a, err := sys.FindActor(ctx, id)
		x.did("find", err)
		if err == nil && a.ID() != id {
			x.c.Fail("find", "FindActor(%s) returned %s", id, a.ID())
		}
	case 2:
		_, err := ab.GetByID(ctx, id)
		x.did("by id", err)
	case 3:
		_, err := ab.GetByType(ctx, chaosType(id))
		x.did("by type", err)
	case 4:
		_, err := ab.GetActorTypeCount(ctx, chaosType(id))
		x.did("count", err)
	case 5:
		_, err := ab.GetLowWeightNodeForActor(ctx, chaosType(id))
		x.did("low weight", err)
	}
}

func (x *chaos) step(n *Node, r *rand.Rand, mine *[]*Probe, timers *[]core.ITimer) {
	id := chaosIDs[r.Intn(len(chaosIDs))]
	ty := chaosType(id)
	switch r.Intn(16) {
	case 0, 1:
		p, err := n.Spawn(id, ty)
		x.did("register", err)
		if err == nil {
			*mine = append(*mine, p)
		}
	case 2:
		x.did("unregister", n.Sys.Unregister(id, ty))
	case 3:
		x.look(n, r, n.Sys, n.Sys.AddressBook())
	case 4, 5, 6, 7, 8:
		to, ty := x.target(r, "abc")
		w := newMsg()
		w.Req.Body = []byte("outside")
		var cancel context.CancelFunc
		if r.Intn(6) == 0 {
			w.Ctx, cancel = context.WithTimeout(w.Ctx, time.Duration(r.Intn(3000))*time.Microsecond)
		}
		x.did("call", n.Sys.Call(to, ty, chaosEvents[r.Intn(len(chaosEvents))], w))
		if cancel != nil {
			cancel()
		}
	case 9, 10:
		to, ty := x.target(r, "abc")
		x.did("send", n.Sys.Send(to, ty, chaosEvents[r.Intn(len(chaosEvents))], newMsg()))
	case 11:
		x.did("pub", n.Sys.Pub(fmt.Sprint("topic", r.Intn(2)), "noop", []byte("published")))
	case 12:
		b := n.Sys.Loader(ty).WithID("tmp").WithOpt("k", "v")
		if b.GetOpt("k") != "v" || b.GetOpt("x") != "1" {
			x.c.Fail("builder", "a builder has the options %v", b.GetOptions())
		}
	default:
		// an actor from outside
		if len(*mine) == 0 {
			return
		}
		p := (*mine)[r.Intn(len(*mine))]
		switch r.Intn(6) {
		case 0:
			x.did("outside on", p.on(fmt.Sprint("dyn", r.Intn(20)), func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error { return nil }))
		case 1:
			if len(*timers) < 4 {
				*timers = append(*timers, p.OnTimer(int64(r.Intn(5)), int64(r.Intn(8)), func(arg interface{}) error {
					plainTouch(&arg.(*Probe).State.(*chaosState).touched)
					return nil
				}, p))
			}
		case 2:
			x.did("outside sub", x.sub(p, r))
		case 3:
			to, ty := x.target(r, "abc")
			x.did("outside call", p.Call(to, ty, "noop", newMsg()))
		case 4:
			to, ty := x.target(r, "abc")
			p.ReenterCall(to, ty, "noop", newMsg()).Then(func(*msg.Wrapper) { x.futs.Add(1) })
		case 5:
			if len(*timers) > 0 {
				timerOps(p, r, (*timers)[r.Intn(len(*timers))])
			}
		}
	}
}

func runChaos(c *Case, real bool) {
	c.NewRedis()
	x := &chaos{c: c, real: real}
	mt := mocktracer.New()
	tracing := c.pick(2) == 0
	nn := 1
	if real {
		nn = 2
	}
	for i := 0; i < nn; i++ {
		opt := NodeOpt{Ip: fmt.Sprint("10.0.0.", i+1)}
		if real {
			opt = NodeOpt{Port: -1}
		}
		name := fmt.Sprint("n", i+1)
		if tracing {
			opt.Tracer = mockTracing{mt, span.CreateCallSpan(span.WithNodeID(name))}
		}
		ts := x.types()
		var seed atomic.Int64
		seed.Store(c.R.Int63())
		for _, t := range ts {
			t.Prepare = func(p *Probe) {
				p.State = &chaosState{r: rand.New(rand.NewSource(seed.Add(1)))}
			}
		}
		x.nodes = append(x.nodes, c.Node(name, ts, opt))
	}
	for i := c.pick(6); i > 0; i-- {
		id := chaosIDs[c.pick(len(chaosIDs))]
		x.nodes[c.pick(nn)].Spawn(id, chaosType(id))
	}
	G, steps := 3+c.pick(8), 10+c.pick(51)
	exit := c.pick(2) == 0
	exitAt := c.pick(steps + 1)
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		g, r := g, c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine []*Probe
			var timers []core.ITimer
			for i := 0; i < steps; i++ {
				if g == 0 && exit && i == exitAt {
					n := x.nodes[r.Intn(nn)]
					x.did("exit", nil)
					n.Exit()
				}
				x.step(x.nodes[r.Intn(nn)], r, &mine, &timers)
				yield(r)
			}
		}()
	}
	if !within(c.S.Limit/2, wg.Wait) {
		c.Fail("stuck", "operations do not return\n%s", interesting(stacks()))
		return
	}
	if !within(c.S.Limit/4, func() {
		for _, n := range x.nodes {
			n.Exit()
		}
		// what was registered while the node exited
		for _, n := range x.nodes {
			for _, a := range n.Sys.Actors() {
				a.Exit()
			}
		}
	}) {
		c.Fail("stuck-exit", "a node does not exit\n%s", interesting(stacks()))
		return
	}
	// reentrant calls of actors that have exited
	if real {
		time.Sleep(50 * time.Millisecond)
	} else {
		settle()
	}
	sig := ""
	x.ops.Range(func(k, v any) bool {
		c.N(k.(string), int(v.(*atomic.Int64).Load()))
		return true
	})
	m := map[string]bool{}
	x.ops.Range(func(k, v any) bool { m[fmt.Sprint(k, v.(*atomic.Int64).Load())] = true; return true })
	for _, k := range keys(m) {
		sig += k + ";"
	}
	c.N("handled", int(x.ran.Load()))
	c.N("futures", int(x.futs.Load()))
	c.Check(true, "survived", "")
	c.Sig(sig, x.ran.Load())
	c.Sample("%d goroutines with %d steps, %d messages and timer ticks handled, exit meanwhile: %v, tracing: %v", G, steps, x.ran.Load(), exit, tracing)
}
