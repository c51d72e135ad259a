package mon

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	realgrpc "google.golang.org/grpc"
)

func init() {
	reg(Scenario{Prop: "C04", Name: "ends", Quick: 3000, Thorough: 100000, Races: true, Run: runCallEnds,
		Rule: "1-5 concurrent calls with handlers (and nested calls on the same request) that take 0-12 s of virtual time, whose caller has no deadline, a deadline or is cancelled; " +
			"what the call returned, and when, is compared with what came first: the handler, the context or the call timeout"})
	reg(Scenario{Prop: "C04", Name: "no-target", Quick: 1500, Thorough: 50000, Run: runNoTarget,
		Rule: "calls with an empty, unknown, unregistered or exited target by id and by symbol, repeated, among actors that must not notice"})
	reg(Scenario{Prop: "C04", Name: "unreachable", Mode: Real, Quick: 4, Thorough: 60, NoNoise: true, Run: runUnreachable,
		Rule: "calls to actors recorded on nodes that refuse connections, accept and stay silent, answer garbage, or never reply to the request"})
	reg(Scenario{Prop: "C04", Name: "remote", Mode: Real, Quick: 60, Thorough: 2000, Run: runRemoteEnds,
		Rule: "2-8 concurrent calls to actors of another node, directly or from a handler on the request's context, whose handlers are held until the calls have returned or take up to 100 ms, with contexts that have ended, " +
			"are cancelled, reach a deadline or last; an outcome is what ended each call"})
	reg(Scenario{Prop: "C05", Name: "failures", Quick: 2500, Thorough: 80000, Run: runFailures,
		Rule: "a sequence of 5-40 messages to one actor of which handlers, middleware, custom chains, subscriptions and timer callbacks panic in eleven ways or return errors, or which name unknown events; " +
			"the actor has to handle the rest in order, calls have to return at once, another actor has to stay undisturbed"})
	reg(Scenario{Prop: "C06", Name: "chains", Quick: 6000, Thorough: 250000, Run: runChains,
		Rule: "chains of 0-5 Before and 0-5 After steps of which any may fail or panic, executed directly and by an actor; an outcome is the sequence of steps run and its result"})
	reg(Scenario{Prop: "C07", Name: "cycle", Quick: 2500, Thorough: 80000, Run: func(c *Case) { runCycle(c, false) },
		Rule: "call cycles of length 1-6, begun by a Call or a reentrant call, that return to the originator by id, wildcard or local-first symbol, several at once"})
	reg(Scenario{Prop: "C07", Name: "cycle-remote", Mode: Real, Quick: 60, Thorough: 3000, Run: func(c *Case) { runCycle(c, true) },
		Rule: "the same over two or three nodes connected by gRPC"})
	reg(Scenario{Prop: "C09", Name: "reenter", Quick: 3000, Thorough: 100000, Races: true, Run: runReenter,
		Rule: "1-6 reentrant calls of one actor, to callees that answer after 0-8 s, fail, panic, exit or do not exist, with contexts that end at random times, while other messages arrive; " +
			"an outcome is the order and kind of the resolutions"})
}

const callTimeout = 5 * time.Second

func runCallEnds(c *Case) {
	c.NewRedis()
	type callRec struct {
		start, end, finish time.Time // finish: end of the last handler
		mu                 sync.Mutex
		ended              int
	}
	var recs sync.Map
	fin := func(r *callRec) {
		r.mu.Lock()
		r.finish, r.ended = time.Now(), r.ended+1
		r.mu.Unlock()
	}
	work := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		b := w.Req.Body
		v, _ := recs.Load(int(b[0]))
		r := v.(*callRec)
		defer fin(r)
		w.Res.Body = append([]byte("done-"), b[0])
		if k := int(b[1]); k > 0 {
			// a nested call on the same request
			nb := append([]byte{}, b...)
			nb[1] = byte(k - 1)
			if err := ctx.Call(fmt.Sprintf("n%d-%d", b[0], k), "t", "work", msg.NewBuilder(w.Ctx).WithReqBody(nb[:2+4*(len(b)-2)/4]).Build()); err != nil {
				c.Fail("nested", "nested call failed: %v", err)
			}
		}
		time.Sleep(time.Duration(binary.BigEndian.Uint32(b[2+4*int(b[1]):])) * time.Microsecond)
		switch b[len(b)-1] % 7 {
		case 5:
			return errors.New("handler error")
		case 6:
			panic("handler panic")
		}
		return nil
	}
	n := c.Node("n1", Types{"t": {Weight: 1, Events: map[string]Handler{"work": work}}}, NodeOpt{})
	calls := 1 + c.pick(5)
	var wg sync.WaitGroup
	for i := 0; i < calls; i++ {
		r := c.Rand()
		depth := r.Intn(3)
		b := []byte{byte(i), byte(depth)}
		for k := 0; k <= depth; k++ {
			d := r.Intn(3_000_000)
			switch r.Intn(4) {
			case 0:
				d = r.Intn(1000)
			case 1:
				d = 4_900_000 + r.Intn(200_000) // around the call timeout
			case 2:
				d = r.Intn(12_000_000)
			}
			b = binary.BigEndian.AppendUint32(b, uint32(d))
		}
		b = append(b, byte(r.Intn(256)), 0, 0, 0)
		n.Must(c, fmt.Sprintf("r%d", i), "t")
		for k := 1; k <= depth; k++ {
			n.Must(c, fmt.Sprintf("n%d-%d", i, k), "t")
		}
		rec := &callRec{}
		recs.Store(i, rec)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.Background(), func() {}
			var ctxEnd time.Duration
			kind := r.Intn(3)
			if kind > 0 {
				ctxEnd = time.Duration(1+r.Intn(9_000_000)) * time.Microsecond
				if r.Intn(3) == 0 {
					ctxEnd = time.Duration(1+r.Intn(2000)) * time.Microsecond
				}
			}
			switch kind {
			case 1:
				ctx, cancel = context.WithTimeout(ctx, ctxEnd)
			case 2:
				var cf context.CancelFunc
				ctx, cf = context.WithCancel(ctx)
				t := time.AfterFunc(ctxEnd, cf)
				cancel = func() { t.Stop(); cf() }
			}
			w := msg.NewBuilder(ctx).WithReqBody(b).Build()
			rec.start = time.Now()
			err := n.Sys.Call(fmt.Sprintf("r%d", i), "t", "work", w)
			rec.end = time.Now()
			werr := w.Err
			res := ""
			if err == nil && werr == nil {
				res = string(w.Res.Body)
			}
			time.Sleep(40 * time.Second) // everything has ended
			cancel()
			rec.mu.Lock()
			defer rec.mu.Unlock()
			took, ran := rec.end.Sub(rec.start), rec.finish.Sub(rec.start)
			if !c.Check(rec.ended == depth+1, "ran", "%d of %d handlers of the call ran", rec.ended, depth+1) {
				return
			}
			limit, what := callTimeout, "timeout"
			if kind > 0 && ctxEnd < limit {
				limit, what = ctxEnd, "context"
			}
			near := func(a, b time.Duration) bool { return a-b < 3*time.Millisecond && b-a < 3*time.Millisecond }
			if near(ran, limit) || kind > 0 && near(ctxEnd, callTimeout) && ran > callTimeout {
				return // either may win
			}
			desc := fmt.Sprintf("handlers finished after %v, the context (kind %d) ends after %v: the call returned %v, message error %v, after %v", ran, kind, ctxEnd, err, werr, took)
			switch {
			case ran < limit:
				what = "handler"
				c.Check(err == nil && werr == nil && near(took, ran), "finished", "%s", desc)
				c.Check(res == "done-"+string(b[:1]), "response", "%s, response %q", desc, res)
			case what == "context":
				c.Check(err != nil && near(took, limit), "context", "%s", desc)
			default:
				c.Check((err != nil || werr != nil) && took < 2*callTimeout, "timeout", "%s", desc)
			}
			c.N("ended by "+what, 1)
			c.Sig(what, kind, depth, took/(100*time.Millisecond))
			c.Sample("%s", desc)
		}()
	}
	wg.Wait()
}

func runNoTarget(c *Case) {
	c.NewRedis()
	var handled atomic.Int64
	h := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error { handled.Add(1); return nil }
	n := c.Node("n1", Types{"t": {Weight: 1, Events: map[string]Handler{"x": h}}, "u": {Weight: 1, Events: map[string]Handler{"x": h}}}, NodeOpt{})
	n2 := c.Node("n2", Types{"t": {Weight: 1, Events: map[string]Handler{"x": h}}}, NodeOpt{Ip: "127.0.0.2"})
	n.Must(c, "live", "t")
	gone, exited := n.Must(c, "gone", "u"), n.Must(c, "exited", "t")
	far := n2.Must(c, "far", "t")
	_, _ = gone, far
	n.Sys.Unregister("gone", "u")
	n2.Sys.Unregister("far", "t")
	exited.Exit()
	if c.pick(2) == 0 {
		n.Sys.Unregister("gone", "u") // again
	}
	targets := [][2]string{{"", "t"}, {"", ""}, {"nobody", "t"}, {"nobody", ""}, {"nobody", "nothing"}, {"gone", "u"}, {"gone", "t"}, {"exited", "t"}, {"far", "t"},
		{def.SymbolWildcard, "u"}, {def.SymbolWildcard, "nothing"}, {def.SymbolWildcard, ""}, {def.SymbolLocalFirst, "u"}, {def.SymbolLocalFirst, "nothing"}, {" live", "t"}, {"live ", "t"}, {"LIVE", "t"},
		{"t", "t"}, {"n1", "t"}, {strings.Repeat("x", 3000), "t"}}
	var wg sync.WaitGroup
	for i := 0; i < 1+c.pick(3); i++ {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 8; j++ {
				t := targets[r.Intn(len(targets))]
				w := newMsg()
				start := time.Now()
				var err error
				op := "call"
				if r.Intn(3) == 0 {
					op = "send"
					err = n.Sys.Send(t[0], t[1], "x", w)
				} else {
					err = n.Sys.Call(t[0], t[1], "x", w)
				}
				c.Check(err != nil, "no-error", "%s to %q of type %q returned no error (message error %v)", op, t[0], t[1], w.Err)
				c.Check(time.Since(start) <= 2*callTimeout, "late", "%s to %q of type %q took %v", op, t[0], t[1], time.Since(start))
				c.Sig(op, t, err)
				c.Sample("%s to %q of type %q: %v", op, t[0], t[1], err)
			}
		}()
	}
	wg.Wait()
	settle()
	c.Check(handled.Load() == 0, "handled", "%d of the messages were handled by someone", handled.Load())
	w := newMsg()
	err := n.Sys.Call("live", "t", "x", w)
	c.Check(err == nil && w.Err == nil && handled.Load() == 1, "after", "a call to the live actor afterwards: %v, %v", err, w.Err)
}

// fake puts a directory record of an actor that does not exist.
func (r *Redis) fake(ty, id, nodeID, ip string, port, weight int) {
	ctx := context.Background()
	b, _ := json.Marshal(core.AddressInfo{Node: nodeID, ActorId: id, ActorTy: ty, Ip: ip, Port: port})
	nb, _ := json.Marshal(core.AddressInfo{Node: nodeID, Ip: ip, Port: port})
	r.Obs.HSet(ctx, def.RedisAddressbookIDField, id, b)
	r.Obs.SAdd(ctx, def.RedisAddressbookTyField+ty, b)
	r.Obs.HSet(ctx, def.RedisAddressbookNodesField, nodeID, nb)
	r.Obs.HIncrBy(ctx, "{node:"+nodeID+"}", "actor:"+ty, int64(weight))
	r.Obs.HIncrBy(ctx, "{node:"+nodeID+"}", "total_weight", int64(weight))
}

type muteAcceptor struct {
	router.UnimplementedAcceptorServer
}

func (muteAcceptor) Routing(ctx context.Context, req *router.RouteReq) (*router.RouteRes, error) {
	<-ctx.Done()
	return nil, ctx.Err()
}

func runUnreachable(c *Case) {
	r := c.NewRedis()
	n := c.Node("n1", Types{"t": {Weight: 1}}, NodeOpt{Port: -1, Impatient: true})
	listen := func() (net.Listener, int) {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		c.Defer(func() { l.Close() })
		return l, l.Addr().(*net.TCPAddr).Port
	}
	serve := func(l net.Listener, f func(net.Conn)) {
		go func() {
			for {
				x, err := l.Accept()
				if err != nil {
					return
				}
				go f(x)
			}
		}()
	}
	var held sync.Map
	c.Defer(func() { held.Range(func(k, _ interface{}) bool { k.(net.Conn).Close(); return true }) })
	silent, p1 := listen()
	serve(silent, func(x net.Conn) { held.Store(x, 1); io.Copy(io.Discard, x) })
	garbage, p2 := listen()
	serve(garbage, func(x net.Conn) { x.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")); x.Close() })
	mute, p3 := listen()
	srv := realgrpc.NewServer()
	router.RegisterAcceptorServer(srv, muteAcceptor{})
	go srv.Serve(mute)
	c.Defer(srv.Stop)
	full, p4 := listen() // never accepted
	_ = full
	closed, p5 := listen()
	closed.Close()
	hang, p6 := listen()
	serve(hang, func(x net.Conn) { x.Close() })
	ports := map[string]int{"silent": p1, "garbage": p2, "mute": p3, "unaccepted": p4, "closed": p5, "hangup": p6}
	var wg sync.WaitGroup
	for name, port := range ports {
		r.fake("ty-"+name, name, "ghost-"+name, "127.0.0.1", port, 1)
		for k := 0; k < 3; k++ {
			rr := c.Rand()
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx, cancel := context.Background(), context.CancelFunc(func() {})
				if k == 1 {
					ctx, cancel = context.WithTimeout(ctx, time.Duration(rr.Intn(800))*time.Millisecond)
				}
				defer cancel()
				w := msg.NewBuilder(ctx).Build()
				id, op := name, n.Sys.Call
				if k == 2 {
					id = def.SymbolWildcard
				}
				if rr.Intn(3) == 0 {
					op = n.Sys.Send
				}
				start := wall()
				var err error
				if !within(40*time.Second, func() { err = op(id, "ty-"+name, "x", w) }) {
					c.Fail("endless", "a call to an actor on a node that is %s did not return within 40 s", name)
					return
				}
				c.Check(err != nil || w.Err != nil, "no-error", "a call to an actor on a node that is %s returned no error", name)
				took := (wall() - start) / 1e6
				c.Sig(name, k, took/500)
				c.Sample("%s: %v after %d ms", name, err, took)
			}()
		}
	}
	wg.Wait()
}

// runRemoteEnds ends the contexts of calls to another node whose handlers go on.
func runRemoteEnds(c *Case) {
	c.NewRedis()
	type result struct {
		err error
		res string
	}
	var runs, inner sync.Map
	release := make(chan struct{})
	n1 := c.Node("n1", Types{"m": {Weight: 1, Events: map[string]Handler{
		// The error of a handler does not reach its caller, so the result is handed over on the side
		"via": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			m := msg.NewBuilder(w.Ctx).WithReqBody(w.Req.Body).Build()
			r := result{err: ctx.Call("a"+string(w.Req.Body[1:2]), "t", string(w.Req.Body[:1]), m)}
			if r.err == nil {
				if r.err = m.Err; r.err == nil {
					r.res = string(m.Res.GetBody())
				}
			}
			v, _ := inner.Load(string(w.Req.Body))
			v.(chan result) <- r
			return r.err
		}}}}, NodeOpt{Port: -1})
	n2 := c.Node("n2", Types{"t": {Weight: 1, Events: map[string]Handler{
		"h": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			runs.Store(string(w.Req.Body), true)
			<-release
			return nil
		},
		"s": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			runs.Store(string(w.Req.Body), true)
			time.Sleep(time.Duration(len(w.Req.Body)) * 5 * time.Millisecond)
			w.Res.Body = append([]byte("re:"), w.Req.Body...)
			return nil
		}}}}, NodeOpt{Port: -1})
	var once sync.Once
	free := func() { once.Do(func() { close(release) }) }
	c.Defer(free)
	var wg sync.WaitGroup
	for k := 0; k < 2+c.pick(7); k++ {
		n2.Must(c, fmt.Sprint("a", k), "t")
		n1.Must(c, fmt.Sprint("m", k), "m")
		rr := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			yield(rr)
			ev := []string{"h", "h", "s"}[rr.Intn(3)]
			how := []string{"ended", "cancel", "deadline", "lasts"}[rr.Intn(4)]
			if ev == "h" && how == "lasts" {
				how = "cancel"
			}
			ctx, cancel := context.WithCancel(context.Background())
			at := time.Duration(rr.Intn(100_000)) * time.Microsecond
			switch how {
			case "ended":
				cancel()
			case "cancel":
				time.AfterFunc(at, cancel)
			case "deadline":
				ctx, cancel = context.WithTimeout(ctx, at)
			}
			defer cancel()
			body := fmt.Sprintf("%s%d%s", ev, k, strings.Repeat(".", rr.Intn(18)))
			w := msg.NewBuilder(ctx).WithReqBody([]byte(body)).Build()
			var r result
			via := rr.Intn(3) == 0
			call := func() {
				if r.err = n1.Sys.Call(fmt.Sprint("a", k), "t", ev, w); r.err == nil {
					if r.err = w.Err; r.err == nil {
						r.res = string(w.Res.GetBody())
					}
				}
			}
			if via {
				made := make(chan result, 1)
				inner.Store(body, made)
				call = func() {
					if r.err = n1.Sys.Call(fmt.Sprint("m", k), "m", "via", w); r.err == nil {
						r = <-made
					} else if ctx.Err() != nil {
						<-made // on the same context, so it has to return as well
					}
				}
			}
			if !within(25*time.Second, call) {
				c.Fail("endless", "a call to another node with a context (%s) that ended after %v did not return within 25 s", how, at)
				return
			}
			_, ran := runs.Load(body)
			over := ctx.Err() != nil
			if d, ok := ctx.Deadline(); ok && time.Until(d) < 100*time.Millisecond {
				over = true // the other node's clock of the deadline may be a little ahead
			}
			desc := fmt.Sprintf("a call of %q, context: %s after %v, through a handler: %v", body, how, at, via)
			switch {
			case ev == "h":
				c.Check(r.err != nil, "no-error", "%s: returned without error while the handler was still at work", desc)
			case r.err == nil:
				c.Check(ran && r.res == "re:"+body, "undone", "%s: succeeded with %q, handled: %v", desc, r.res, ran)
			default:
				c.Check(over, "error", "%s: %v, although the context has not ended", desc, r.err)
			}
			c.Sig(ev, how, via, r.err == nil, ran)
			c.N(how, 1)
			c.Sample("%s: %v", desc, r.err)
		}()
	}
	wg.Wait()
	free()
	w := newMsg()
	w.Req.Body = []byte("s0")
	err := n1.Sys.Call("a0", "t", "s", w)
	c.Check(err == nil && w.Err == nil && string(w.Res.GetBody()) == "re:s0", "after", "a call afterwards: %v, %v", err, w.Err)
}

// ---- C05

type customErr struct{ x int }

func (e *customErr) Error() string { return fmt.Sprint(e.x) }

const panicKinds = 12

func blowUp(kind int) {
	var m map[string]int
	var e *customErr
	var i interface{} = "string"
	var s []int
	switch kind {
	case 0:
		panic("text")
	case 1:
		panic(errors.New("error"))
	case 2:
		panic(&customErr{1})
	case 3:
		panic(42)
	case 4:
		m["x"] = 1
	case 5:
		fmt.Fprint(io.Discard, e.x)
	case 6:
		fmt.Fprint(io.Discard, i.(int))
	case 7:
		fmt.Fprint(io.Discard, s[3])
	case 8:
		ch := make(chan int)
		close(ch)
		close(ch)
	case 9:
		panic(nil)
	case 10:
		panic(struct{ a []int }{nil})
	case 11:
		var x error = (*customErr)(nil)
		panic(x)
	}
}

type blowChain struct{ f func(*msg.Wrapper) error }

func (b *blowChain) Execute(w *msg.Wrapper) error { return b.f(w) }

func runFailures(c *Case) {
	c.NewRedis()
	var mu sync.Mutex
	var log []int
	seqOf := func(w *msg.Wrapper) int { return int(binary.BigEndian.Uint32(w.Req.Body)) }
	mark := func(w *msg.Wrapper) {
		mu.Lock()
		log = append(log, seqOf(w))
		mu.Unlock()
	}
	fail := func(w *msg.Wrapper) error {
		if k := int(w.Req.Body[4]); k < panicKinds {
			blowUp(k)
		}
		return errors.New("refused")
	}
	var ticks [3]atomic.Int64
	var subbed []int
	chains := map[string]func(p *Probe, ctx core.ActorContext) core.IChain{
		"ok": func(p *Probe, ctx core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { mark(w); return nil }}
		},
		"handler": func(p *Probe, ctx core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { mark(w); return fail(w) }}
		},
		"before": func(p *Probe, ctx core.ActorContext) core.IChain {
			return &actor.DefaultChain{Before: []actor.EventHandler{func(w *msg.Wrapper) error { mark(w); return fail(w) }},
				Handler: func(w *msg.Wrapper) error { c.Fail("after-failure", "the handler ran after a failed step"); return nil }}
		},
		"after": func(p *Probe, ctx core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { return nil },
				After: []actor.EventHandler{func(w *msg.Wrapper) error { return nil }, func(w *msg.Wrapper) error { mark(w); return fail(w) }}}
		},
		"custom": func(p *Probe, ctx core.ActorContext) core.IChain {
			return &blowChain{func(w *msg.Wrapper) error { mark(w); return fail(w) }}
		},
		"nilhandler": func(p *Probe, ctx core.ActorContext) core.IChain {
			return &actor.DefaultChain{Before: []actor.EventHandler{func(w *msg.Wrapper) error { mark(w); return nil }}}
		},
		"nested": func(p *Probe, ctx core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error {
				mark(w)
				// something fails on somebody else's side, too
				ctx.Call("victim2", "t", "handler", msg.NewBuilder(w.Ctx).WithReqBody(w.Req.Body).Build())
				return nil
			}}
		},
		"nilchain": func(p *Probe, ctx core.ActorContext) core.IChain { return nil },
	}
	withTimers := c.pick(2) == 0
	withSub := c.pick(3) == 0
	v2log := atomic.Int64{}
	var t0 time.Time
	n := c.Node("n1", Types{"t": {Weight: 1, Chains: chains, Init: func(p *Probe, ctx context.Context) {
		if p.Id != "victim" {
			return
		}
		if withTimers {
			for i := range ticks {
				p.OnTimer(int64(7+i), 10, func(interface{}) error {
					k := ticks[i].Add(1)
					switch i {
					case 1:
						blowUp(int(k) % panicKinds)
					case 2:
						return errors.New("timer error")
					}
					return nil
				}, nil)
			}
			t0 = time.Now()
		}
		if withSub {
			p.Sub("topic", "news", func(ctx core.ActorContext) core.IChain {
				return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error {
					mu.Lock()
					subbed = append(subbed, seqOf(w))
					mu.Unlock()
					return fail(w)
				}}
			})
		}
	}}, "h": {Weight: 1, Events: map[string]Handler{"ping": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		w.Res.Body = w.Req.Body
		return nil
	}}}}, NodeOpt{})
	_ = v2log.Load()
	n.Must(c, "victim", "t")
	n.Must(c, "victim2", "t")
	n.Must(c, "healthy", "h")
	evs := []string{"ok", "handler", "before", "after", "custom", "nilhandler", "nested", "nilchain", "nobody knows this", ""}
	k := 5 + c.pick(36)
	var want []int
	var wantSub []int
	what := []string{}
	for i := 0; i < k; i++ {
		ev := evs[c.pick(len(evs))]
		kind := c.pick(panicKinds + 3)
		b := append(binary.BigEndian.AppendUint32(nil, uint32(i)), byte(kind))
		if withSub && c.pick(4) == 0 {
			if err := n.Sys.Pub("topic", "news", b); err != nil {
				c.Fail("pub", "publish failed: %v", err)
			}
			wantSub = append(wantSub, i)
			continue
		}
		w := newMsg()
		w.Req.Body = b
		if ev != "nilchain" && ev != "nobody knows this" && ev != "" {
			want = append(want, i)
		}
		what = append(what, fmt.Sprintf("%s/%d", ev, kind))
		start := time.Now()
		if c.pick(2) == 0 {
			err := n.Sys.Call("victim", "t", ev, w)
			c.Check(err == nil && w.Err == nil && time.Since(start) < time.Second, "call", "a call of event %q that fails with kind %d: %v, message error %v, after %v", ev, kind, err, w.Err, time.Since(start))
		} else {
			err := n.Sys.Send("victim", "t", ev, w)
			c.Check(err == nil, "send", "a send of event %q failed: %v", ev, err)
		}
		if c.pick(3) == 0 {
			h := newMsg()
			h.Req.Body = b
			start := time.Now()
			err := n.Sys.Call("healthy", "h", "ping", h)
			c.Check(err == nil && h.Err == nil && time.Since(start) < time.Second && string(h.Res.Body) == string(b), "other", "a call to the other actor: %v, message error %v, after %v", err, h.Err, time.Since(start))
		}
		if c.pick(4) == 0 {
			time.Sleep(time.Duration(c.pick(20)) * time.Millisecond)
		}
	}
	w := newMsg()
	w.Req.Body = binary.BigEndian.AppendUint32(nil, uint32(k))
	err := n.Sys.Call("victim", "t", "ok", w)
	c.Check(err == nil && w.Err == nil, "last", "the last call failed: %v, %v", err, w.Err)
	want = append(want, k)
	time.Sleep(500*time.Millisecond + time.Microsecond*1500)
	mu.Lock()
	defer mu.Unlock()
	// victim2's handler marks as well
	got := log[:0:0]
	seen := map[int]int{}
	for _, x := range log {
		if seen[x]++; seen[x] == 1 {
			got = append(got, x)
		}
	}
	c.Check(fmt.Sprint(got) == fmt.Sprint(want), "sequence", "messages handled: %v\nexpected: %v\nof %v", got, want, what)
	c.Check(fmt.Sprint(subbed) == fmt.Sprint(wantSub), "subscription", "publications handled: %v, expected %v", subbed, wantSub)
	if withTimers {
		run := time.Since(t0) / time.Millisecond
		for i := range ticks {
			wantT := int64(1 + (int64(run)-int64(7+i))/10)
			got := ticks[i].Load()
			c.Check(got == wantT || got == wantT-1, "timer", "a timer (0 fine, 1 panics, 2 fails: %d) ticked %d times in %d ms, expected %d", i, got, run, wantT)
		}
	}
	c.N("messages", k)
	c.Sig(what)
	c.Sample("%v", what)
}

// ---- C06

func runChains(c *Case) {
	nb, na := c.pick(6), c.pick(6)
	total := nb + 1 + na
	failAt := c.pick(total + total/2 + 1) // may be none
	boom := c.pick(6) == 0
	secondFail := c.pick(total)
	failErr := []error{fmt.Errorf("step %d", failAt), context.Canceled, io.EOF, core.ErrActorRegisterRepeat, fmt.Errorf("wrapped %w", context.DeadlineExceeded)}[c.pick(5)]
	effect := c.pick(5) // what a step does to the message besides
	effectAt := c.pick(total)
	noted := errors.New("noted on the message")
	var run []int
	var orig *msg.Wrapper
	canceled, cancel := context.WithCancel(context.Background())
	cancel()
	step := func(i int) actor.EventHandler {
		return func(w *msg.Wrapper) error {
			run = append(run, i)
			c.Check(w == orig, "message", "step %d got another message", i)
			if i == effectAt {
				switch effect {
				case 0:
					w.Err = noted
				case 1:
					w.Ctx = canceled
				case 2:
					w.Req.Body, w.Res.Body = nil, []byte("r")
				case 3:
					w.Req.Header.Event = "y"
				}
			}
			if i == failAt {
				if boom {
					panic(failErr)
				}
				return failErr
			}
			if failAt < i && i == secondFail {
				return errors.New("a later step's error")
			}
			return nil
		}
	}
	mk := func() *actor.DefaultChain {
		ch := &actor.DefaultChain{}
		for i := 0; i < nb; i++ {
			ch.Before = append(ch.Before, step(i))
		}
		ch.Handler = step(nb)
		for i := 0; i < na; i++ {
			ch.After = append(ch.After, step(nb+1+i))
		}
		return ch
	}
	before := c.pick(4) == 0 // the message carries an error from the start
	fresh := func() *msg.Wrapper {
		w := newMsg()
		if before {
			w.Err = errors.New("from before")
		}
		return w
	}
	var want []int
	for i := 0; i < total; i++ {
		want = append(want, i)
		if i == failAt {
			break
		}
	}
	desc := fmt.Sprintf("%d before, %d after, step %d fails (%v, panic: %v), step %d has effect %d on the message, which had an error before: %v", nb, na, failAt, failErr, boom, effectAt, effect, before)
	ch := mk()
	for rep := 0; rep < 1+c.pick(3); rep++ {
		run, orig = nil, fresh()
		var err error
		panicked := false
		func() {
			defer func() { panicked = recover() != nil }()
			err = ch.Execute(orig)
		}()
		c.Check(fmt.Sprint(run) == fmt.Sprint(want), "order", "%s: ran %v, expected %v", desc, run, want)
		switch {
		case failAt >= total:
			c.Check(err == nil && !panicked, "result", "%s: result %v", desc, err)
		case boom:
			c.Check(panicked, "result", "%s: the panic was swallowed", desc)
		default:
			c.Check(err == failErr && !panicked, "result", "%s: result %v", desc, err)
		}
	}
	c.Sig(run, boom, failAt < total, effect, before)
	c.Sample("%s: ran %v", desc, run)
	if c.pick(4) == 0 {
		// by an actor
		c.NewRedis()
		n := c.Node("n1", Types{"t": {Chains: map[string]func(*Probe, core.ActorContext) core.IChain{"x": func(*Probe, core.ActorContext) core.IChain { return mk() }}}}, NodeOpt{})
		n.Must(c, "a", "t")
		run, orig = nil, newMsg()
		if effect == 1 {
			effect = 9
		}
		err := n.Sys.Call("a", "t", "x", orig)
		wantErr := error(nil)
		if effect == 0 && effectAt <= failAt {
			wantErr = noted
		}
		c.Check(err == nil && orig.Err == wantErr && fmt.Sprint(run) == fmt.Sprint(want), "actor", "%s: an actor ran %v, expected %v, the call returned %v, %v", desc, run, want, err, orig.Err)
	}
}

// ---- C07

func runCycle(c *Case, remote bool) {
	c.NewRedis()
	nn, port := 1, 0
	if remote {
		nn, port = 2+c.pick(2), -1
	}
	length := 1 + c.pick(6) // hops from the originator back to it
	parallel := 1 + c.pick(3)
	type run struct {
		mu     sync.Mutex
		enter  []string // handlers entered
		left   []string
		last   error
		lasted time.Duration
		done   chan struct{}
	}
	reenter := c.pick(3) == 0 // the originator does not wait for its call
	var runs sync.Map
	target := func(k, i int) string { return fmt.Sprintf("c%d-%d", k, i%length) }
	sym := c.pick(3) // how the last hop addresses the originator
	hop := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		k, i := int(w.Req.Body[0]), int(w.Req.Body[1])
		v, _ := runs.Load(k)
		r := v.(*run)
		r.mu.Lock()
		r.enter = append(r.enter, p.Id)
		r.mu.Unlock()
		last := i+1 == length
		w.Req.Body = []byte{byte(k), byte(i + 1)}
		to, ty := target(k, i+1), "t"
		if last {
			ty = fmt.Sprintf("o%d", k)
			switch sym {
			case 1:
				to = def.SymbolWildcard
			case 2:
				to = def.SymbolLocalFirst
			}
		}
		if i == 0 && reenter {
			m := newMsg()
			m.Req.Body = w.Req.Body
			ctx.ReenterCall(to, ty, "hop", m).Then(func(ret *msg.Wrapper) {
				r.mu.Lock()
				defer r.mu.Unlock()
				if last {
					r.last = ret.Err
				} else if ret.Err != nil {
					c.Fail("hop", "the reentrant call that began a chain of %d failed: %v", length, ret.Err)
				}
				r.left = append(r.left, p.Id)
				close(r.done)
			})
			return nil
		}
		start := time.Now()
		err := ctx.Call(to, ty, "hop", w)
		took := time.Since(start)
		r.mu.Lock()
		defer r.mu.Unlock()
		if last {
			r.last, r.lasted = err, took
			if err == nil {
				c.Fail("accepted", "the call back to the originator returned no error")
			}
		} else if err != nil {
			c.Fail("hop", "hop %d of %d failed: %v", i+1, length, err)
		}
		r.left = append(r.left, p.Id)
		return nil
	}
	types := Types{"t": {Weight: 1, Events: map[string]Handler{"hop": hop}}}
	for k := 0; k < parallel; k++ {
		types[fmt.Sprintf("o%d", k)] = &Type{Weight: 1, Events: map[string]Handler{"hop": hop}}
	}
	var nodes []*Node
	for i := 0; i < nn; i++ {
		nodes = append(nodes, c.Node(fmt.Sprint("n", i), types, NodeOpt{Port: port}))
	}
	for k := 0; k < parallel; k++ {
		runs.Store(k, &run{done: make(chan struct{})})
		for i := 0; i < length; i++ {
			ty := "t"
			if i == 0 {
				ty = fmt.Sprintf("o%d", k)
			}
			nodes[c.pick(nn)].Must(c, target(k, i), ty)
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < parallel; k++ {
		from := nodes[c.pick(nn)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newMsg()
			w.Req.Body = []byte{byte(k), 0}
			err := from.Sys.Call(target(k, 0), fmt.Sprintf("o%d", k), "hop", w)
			v, _ := runs.Load(k)
			r := v.(*run)
			if reenter {
				select {
				case <-r.done:
				case <-time.After(20 * time.Second):
					c.Fail("unresolved", "the reentrant call that began a chain of %d did not resolve", length)
				}
			}
			r.mu.Lock()
			defer r.mu.Unlock()
			c.Check(err == nil && w.Err == nil, "call", "the original call of a cycle of length %d failed: %v, %v", length, err, w.Err)
			want := []string{}
			for i := 0; i < length; i++ {
				want = append(want, target(k, i))
			}
			c.Check(fmt.Sprint(r.enter) == fmt.Sprint(want), "entered", "handlers entered: %v, expected %v", r.enter, want)
			c.Check(len(r.left) == length, "unfinished", "%d of %d handlers had finished when the call returned", len(r.left), length)
			c.Check(r.last != nil && (errors.Is(r.last, node.ErrSelfCall) || strings.Contains(r.last.Error(), node.ErrSelfCall.Error())), "error", "the call back to the originator returned %v", r.last)
			if !remote {
				c.Check(r.lasted < time.Millisecond, "late", "the rejection took %v", r.lasted)
			}
			c.Sig(length, sym, nn, reenter, r.left)
			c.Sample("length %d, symbol %d, %d nodes, reentrant %v: %v", length, sym, nn, reenter, r.last)
		}()
	}
	wg.Wait()
}

// ---- C09

func runReenter(c *Case) {
	c.NewRedis()
	type reRec struct {
		kind           int
		to             string
		start          time.Time
		ctxEnd, answer time.Duration // 0: never
		returned       time.Duration
		fut            core.IFuture
		mu             sync.Mutex
		results        []*msg.Wrapper
		errs           []error
		bodies         []string
		at             []time.Duration
		derived        bool
		chained        atomic.Int32
		cancel         context.CancelFunc
	}
	k := 1 + c.pick(6)
	recs := make([]*reRec, k)
	var handling atomic.Int32
	var order []string
	var omu sync.Mutex
	starter := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		if handling.Add(1) != 1 {
			c.Fail("overlap", "two executions of the actor overlap")
		}
		defer handling.Add(-1)
		i := int(w.Req.Body[0])
		r := recs[i]
		cx, cancel := context.Background(), context.CancelFunc(func() {})
		if r.derived {
			cx = w.Ctx // the context of the request being handled, which carries its bookkeeping
		}
		if r.ctxEnd > 0 {
			if i%2 == 0 {
				cx, cancel = context.WithTimeout(cx, r.ctxEnd)
			} else {
				cx, cancel = context.WithCancel(cx)
				t := time.AfterFunc(r.ctxEnd, cancel)
				_ = t
			}
		}
		r.cancel = cancel
		m := msg.NewBuilder(cx).WithReqBody([]byte{byte(i)}).Build()
		r.start = time.Now()
		f := ctx.ReenterCall(r.to, "callee", "work", m)
		r.returned = time.Since(r.start)
		r.fut = f
		f.Then(func(res *msg.Wrapper) {
			r.mu.Lock()
			r.results = append(r.results, res)
			r.at = append(r.at, time.Since(r.start))
			r.errs = append(r.errs, res.Err)
			b := ""
			if res.Err == nil && res.Res != nil {
				b = string(res.Res.Body)
			}
			r.bodies = append(r.bodies, b)
			r.mu.Unlock()
			omu.Lock()
			order = append(order, fmt.Sprintf("%d:%v", i, res.Err != nil))
			omu.Unlock()
		}).Then(func(*msg.Wrapper) { r.chained.Add(1) })
		return nil
	}
	callee := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		r := recs[w.Req.Body[0]]
		time.Sleep(r.answer)
		w.Res.Body = append([]byte("answer-"), w.Req.Body[0])
		switch r.kind {
		case 1:
			panic("callee")
		case 2:
			return errors.New("callee error")
		}
		return nil
	}
	n := c.Node("n1", Types{"a": {Weight: 1, Events: map[string]Handler{
		"start": starter,
		"ping": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			if handling.Add(1) != 1 {
				c.Fail("overlap", "two executions of the actor overlap")
			}
			runtime.Gosched()
			handling.Add(-1)
			return nil
		}}}, "callee": {Weight: 1, Events: map[string]Handler{"work": callee}}}, NodeOpt{})
	n.Must(c, "a", "a")
	for i := range recs {
		r := &reRec{kind: c.pick(6), to: fmt.Sprint("callee", i), derived: c.pick(2) == 0}
		switch c.pick(3) {
		case 0:
			r.ctxEnd = time.Duration(1+c.pick(8000)) * time.Millisecond
		}
		r.answer = time.Duration(c.pick(8000))*time.Millisecond + 333*time.Microsecond
		if c.pick(3) == 0 {
			r.answer = 0
		}
		switch r.kind {
		case 3:
			r.to = "nobody"
		case 4:
			n.Must(c, r.to, "callee").Exit()
		default:
			n.Must(c, r.to, "callee")
		}
		recs[i] = r
	}
	for i := range recs {
		w := newMsg()
		w.Req.Body = []byte{byte(i)}
		start := time.Now()
		err := n.Sys.Call("a", "a", "start", w)
		c.Check(err == nil && w.Err == nil && time.Since(start) < time.Millisecond, "starting", "a call whose handler starts a reentrant call: %v, %v, after %v", err, w.Err, time.Since(start))
		c.Check(recs[i].returned < time.Millisecond, "blocking", "starting a reentrant call took %v", recs[i].returned)
		if c.pick(2) == 0 {
			time.Sleep(time.Duration(c.pick(3000)) * time.Millisecond)
		}
		for j := 0; j < c.pick(4); j++ {
			w := newMsg()
			start := time.Now()
			err := n.Sys.Call("a", "a", "ping", w)
			c.Check(err == nil && w.Err == nil && time.Since(start) < time.Millisecond, "blocked", "a call to the actor with outstanding reentrant calls: %v, %v, after %v", err, w.Err, time.Since(start))
		}
	}
	settle()
	for i, r := range recs {
		r.mu.Lock()
		desc := fmt.Sprintf("reentrant call %d (derived context %v, kind %d, answer after %v, context ends after %v): results %v errors %v at %v", i, r.derived, r.kind, r.answer, r.ctxEnd, r.bodies, r.errs, r.at)
		if c.Check(len(r.results) == 1, "once", "%s", desc) {
			unreachable := r.kind == 3 || r.kind == 4
			ends, what := r.answer, "answer"
			if unreachable {
				ends, what = 0, "unreachable"
			}
			if ends > callTimeout {
				ends, what = callTimeout, "timeout"
			}
			if r.ctxEnd > 0 && r.ctxEnd < ends {
				ends, what = r.ctxEnd, "context"
			}
			if d := r.at[0] - ends; d < 2*time.Millisecond && d > -2*time.Millisecond || what == "timeout" {
				if what == "answer" {
					c.Check(r.errs[0] == nil && r.bodies[0] == "answer-"+string(rune(i)), "answer", "%s", desc)
				} else {
					c.Check(r.errs[0] != nil, "error", "%s: expected %s", desc, what)
				}
			} else {
				c.Fail("when", "%s: expected %s at %v", desc, what, ends)
			}
			c.N("resolved by "+what, 1)
		}
		c.Check(r.fut.IsCompleted() && r.chained.Load() == 1, "future", "%s: completed %v, the chained callback ran %d times", desc, r.fut.IsCompleted(), r.chained.Load())
		r.mu.Unlock()
		r.cancel()
	}
	c.Sig(order)
	c.Sample("resolved in the order %v (call:failed)", order)
}
