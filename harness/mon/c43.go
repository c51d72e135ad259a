package mon

import (
	"fmt"
	"os"
	"os/signal"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/router/msg"
)

func init() {
	reg(Scenario{Prop: "C43", Name: "signals", Mode: Real, Quick: 60, Thorough: 1500, Limit: 4 * time.Minute, Run: func(c *Case) { runWaitClose(c, false) },
		Rule: "a node with 1-6 actors and another one that talks to them; senders of both work through handlers of 0-3 s when 1-3 signals of the kinds TERM, INT and QUIT arrive; " +
			"an outcome is the number of actors, the signals, the messages handled before, during and after"})
	reg(Scenario{Prop: "C43", Name: "stuck", Mode: Real, Quick: 4, Thorough: 40, Limit: 4 * time.Minute, Run: func(c *Case) { runWaitClose(c, true) },
		Rule: "the same with one more actor, whose handler does not end"})
}

func runWaitClose(c *Case, stuck bool) {
	sigs := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}
	mine := make(chan os.Signal, 16)
	for _, s := range sigs {
		signal.Notify(mine, s)
	}
	c.Defer(func() { signal.Stop(mine) })

	r := c.NewRedis()
	release := make(chan struct{})
	var once sync.Once
	let := func() { once.Do(func() { close(release) }) }
	defer let()
	var handled sync.Map
	var running, total, last atomic.Int64 // last: when a handler ended
	var blocked atomic.Bool
	events := map[string]Handler{
		"x": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			running.Add(1)
			defer running.Add(-1)
			id := w.Req.Header.ID
			if len(w.Req.Body) > 0 {
				time.Sleep(time.Duration(w.Req.Body[0]) * time.Millisecond)
			}
			total.Add(1)
			last.Store(time.Now().UnixNano())
			if _, dup := handled.LoadOrStore(id, true); dup {
				c.Fail("twice", "a message was handled twice")
			}
			return nil
		},
		"slow": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			id := w.Req.Header.ID
			time.Sleep(time.Duration(w.Req.Body[0]) * 10 * time.Millisecond)
			handled.Store(id, true)
			last.Store(time.Now().UnixNano())
			return nil
		},
		"stuck": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			blocked.Store(true)
			<-release
			return nil
		},
	}
	types := func() Types { return Types{"t": {Weight: 2, Events: events}, "t2": {Weight: 5, Events: events}} }
	other := c.Node("other", types(), NodeOpt{Port: -1, Impatient: true})
	other.Must(c, "o1", "t")
	want := r.Dump()
	n := c.Node("leaver", types(), NodeOpt{Port: -1, Impatient: true})
	c.Defer(let) // before the node's own exit
	c.Check(node.Get() == n.INode, "get", "the process' node is not the one built last")
	c.Check(n.INode.ID() == "leaver", "id", "the node's id is %q", n.INode.ID())
	na := 1 + c.pick(6)
	type target struct{ id, ty string }
	var targets []target
	for i := 0; i < na; i++ {
		t := target{fmt.Sprint("a", i), []string{"t", "t2"}[i%2]}
		n.Must(c, t.id, t.ty)
		targets = append(targets, t)
	}
	if stuck {
		n.Must(c, "s", "t")
		if err := n.Sys.Send("s", "t", "stuck", newMsg()); err != nil {
			c.Fail("setup-send", "a send failed: %v", err)
			return
		}
		eventually(10*time.Second, blocked.Load)
	}

	var signalled, returned atomic.Bool
	var early int
	closed := make(chan struct{})
	go func() {
		n.INode.WaitClose()
		c.Check(signalled.Load(), "early", "WaitClose returned before any signal was sent")
		returned.Store(true)
		close(closed)
	}()

	var mu sync.Mutex
	accepted := map[string]string{}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 1+c.pick(4); g++ {
		rr := c.Rand()
		from := n
		if c.pick(3) == 0 {
			from = other
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 400; j++ {
				select {
				case <-stop:
					return
				default:
				}
				t := targets[rr.Intn(len(targets))]
				w := newMsg()
				w.Req.Body = []byte{byte(rr.Intn(20))}
				ev, id := "x", w.Req.Header.ID
				if j == 0 && rr.Intn(3) == 0 {
					ev = "slow"
					w.Req.Body[0] = byte(100 + rr.Intn(150))
				}
				var err error
				start := time.Now()
				if ev == "x" && rr.Intn(3) == 0 {
					err = from.Sys.Call(t.id, t.ty, ev, w)
					if err == nil && w.Err == nil {
						_, ok := handled.Load(id)
						c.Check(ok, "call", "a call succeeded and its message was not handled")
					}
				} else {
					err = from.Sys.Send(t.id, t.ty, ev, w)
					if err == nil {
						mu.Lock()
						accepted[id] = t.id
						mu.Unlock()
					}
				}
				if d := time.Since(start); d > 20*time.Second {
					c.Fail("ends", "a message to an actor of a closing node took %v", d)
				}
				if err != nil {
					select {
					case <-stop:
					case <-time.After(20 * time.Millisecond):
					}
				} else if rr.Intn(2) == 0 {
					rsleep(int64(rr.Intn(10)) * int64(time.Millisecond))
				}
			}
		}()
	}
	time.Sleep(time.Duration(20+c.pick(200)) * time.Millisecond)
	c.Check(!returned.Load(), "early", "WaitClose returned before any signal was sent")
	early = int(total.Load())

	// A signal before WaitClose listens is lost, so it is sent again. The copy that reaches us shows that it has been delivered.
	k := 1 + c.pick(3)
	sig := sigs[c.pick(3)]
	start := time.Now()
	signalled.Store(true)
	// Any single kind of signal suffices: others come once the node has begun to leave.
	done, begun := false, false
	for i := 0; !done; i++ {
		if i == 0 || begun && i <= 3*k || i%20 == 0 {
			syscall.Kill(os.Getpid(), sig)
		}
		if !begun && n.Sys.Send(targets[0].id, targets[0].ty, "x", newMsg()) != nil {
			begun = true
		}
		if begun {
			sig = sigs[(i+int(c.Seed%7))%3]
		}
		select {
		case <-closed:
			done = true
		case <-time.After(50 * time.Millisecond):
		}
		if time.Since(start) > 60*time.Second {
			c.Fail("blocked", "WaitClose did not return within 60 s of a signal (an actor that does not end: %v)", stuck)
			close(stop)
			let()
			wg.Wait()
			within(60*time.Second, func() { <-closed })
			n.exited.Store(true)
			return
		}
	}
	took := time.Since(start)
	idle := min(took, time.Duration(time.Now().UnixNano()-last.Load()))
	c.Check(stuck || idle < 15*time.Second, "late", "WaitClose returned %v after the signal, %v after the last message had been handled", took, idle)
	n.exited.Store(true)
	dump := r.Dump()
	atReturn := int(total.Load())
	run := running.Load()
	mu.Lock()
	missing := 0
	for id, who := range accepted {
		if _, ok := handled.Load(id); !ok {
			missing++
			if took < 25*time.Second || stuck {
				c.Fail("finish", "WaitClose returned %v after the signal, and a message that %s had accepted was not handled by then", took, who)
			}
		}
	}
	mu.Unlock()
	// A send from the other node counts as accepted when its answer arrives: nothing can be accepted after the return.
	if took < 25*time.Second || stuck {
		c.Check(run == 0, "finish", "%d handlers run when WaitClose returned %v after the signal", run, took)
		c.Check(!stuck || took > 25*time.Second, "wait", "WaitClose returned %v after the signal, with a handler still running", took)
	}
	if d := diffDump(want, dump); d != "" {
		c.Fail("records", "when WaitClose returned the store differed from what it was without the node:\n%s", d)
	}
	for _, t := range targets {
		c.Check(n.Sys.Send(t.id, t.ty, "x", newMsg()) != nil, "open", "an actor accepted a message after WaitClose had returned")
		c.Check(other.Sys.Call(t.id, t.ty, "x", newMsg()) != nil, "open", "a call from another node reached an actor after WaitClose had returned")
	}
	close(stop)
	let()
	wg.Wait()
	// the other node is as it was
	if err := other.Sys.Call("o1", "t", "x", newMsg()); err != nil {
		c.Fail("other", "a call to the other node's actor failed: %v", err)
	}
	c.N("messages accepted", len(accepted))
	c.N("messages not handled on return", missing)
	c.N("signals", k)
	if stuck {
		c.N("shutdowns with a handler that does not end", 1)
	}
	c.Sig(na, k, stuck, early, atReturn, len(accepted))
	c.Sample("%d actors, %d signals, %d messages accepted, returned after %v", na, k, len(accepted), took)
}
