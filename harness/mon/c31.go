package mon

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/mocktracer"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/lib/span"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/router/msg"
)

func init() {
	reg(Scenario{Prop: "C31", Name: "local", Quick: 1500, Thorough: 60000, Races: true, Run: func(c *Case) { runTrace(c, false) },
		Rule: "1-4 concurrent trees of 1-40 calls, sends and reentrant calls of actors in four layers, by id, wildcard and local first, with own messages and ones that are handed on or used again, " +
			"to absent targets, failing and slow handlers; with tracer, without, without factory or without tracing; an outcome is the set of trees"})
	reg(Scenario{Prop: "C31", Name: "ending", Quick: 600, Thorough: 20000, Run: func(c *Case) { runTraceEnding(c, false) },
		Rule: "5-34 concurrent calls and sends, half of them with a context that has ended or ends before, while or after the handler works; each has exactly one span on the caller's node; an outcome is what happened to each"})
	reg(Scenario{Prop: "C31", Name: "ending-remote", Mode: Real, Quick: 40, Thorough: 1500, Run: func(c *Case) { runTraceEnding(c, true) },
		Rule: "the same with two nodes"})
	reg(Scenario{Prop: "C31", Name: "remote", Mode: Real, Lag: 2 * time.Millisecond, Quick: 120, Thorough: 3000, Races: true, Run: func(c *Case) { runTrace(c, true) },
		Rule: "the same on two nodes that share the layers, each with and without tracer"})
}

type mockTracing struct {
	t       opentracing.Tracer
	factory tracer.SpanFactory
}

func (m mockTracing) GetSpan(strategy string) (tracer.ISpan, error) {
	if m.factory == nil || strategy != span.SystemCall {
		return nil, tracer.ErrFactoryNotExist
	}
	return m.factory(m.GetTracing())
}

func (m mockTracing) GetTracing() interface{} {
	if m.t == nil {
		return nil
	}
	return m.t
}

// tcall is one call that a scenario makes.
type tcall struct {
	ev     string
	parent *tcall
	method string
	layer  int // of the callee
	how    int // 0 own message, 1 handed on or used again
	to     string
	fails  bool
	slow   time.Duration
	kids   []*tcall

	mu      sync.Mutex
	node    string // the caller's
	org     string
	handled int
	by      string // the handler's node
	in      opentracing.SpanContext
	err     error
	issued  bool
}

const traceEvents = 160

// runTraceEnding makes calls whose context ends before, while or after they are handled.
func runTraceEnding(c *Case, real bool) {
	c.NewRedis()
	mt := mocktracer.New()
	type ended struct {
		ev, to, node string
		kind         int // of the context: 0 does not end, 1 has ended, 2 deadline, 3 cancelled
		after, work  time.Duration
		send         bool
		handled      atomic.Int32
		by           atomic.Value
		err          error
		root         int // span under which the call is made, 0 none
	}
	n := 5 + c.pick(30)
	calls := make([]*ended, n)
	evs := map[string]Handler{}
	for i := range calls {
		k := &ended{ev: fmt.Sprint("e", i), kind: c.pick(4), send: c.pick(4) == 0}
		calls[i] = k
		evs[k.ev] = func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			k.handled.Add(1)
			k.by.Store(p.Node.Name)
			time.Sleep(k.work)
			return nil
		}
	}
	nn := 1
	if real {
		nn = 2
	}
	var nodes []*Node
	var ids []string
	for i := 0; i < nn; i++ {
		name := fmt.Sprint("n", i+1)
		opt := NodeOpt{Ip: fmt.Sprint("10.0.0.", i+1)}
		if real {
			opt = NodeOpt{Port: -1}
		}
		opt.Tracer = mockTracing{mt, span.CreateCallSpan(span.WithNodeID(name))}
		nd := c.Node(name, Types{"t": {Weight: 1, Events: evs}}, opt)
		nodes = append(nodes, nd)
		for a := 0; a < 2+c.pick(4); a++ {
			id := fmt.Sprintf("%s-%d", name, a)
			nd.Must(c, id, "t")
			ids = append(ids, id)
		}
	}
	var wg sync.WaitGroup
	for _, k := range calls {
		k := k
		k.to = append(append([]string{}, ids...), "?", "~", "nobody")[c.pick(len(ids)+3)]
		from := nodes[c.pick(nn)]
		k.node = from.Name
		k.after, k.work = time.Duration(c.pick(8000))*time.Microsecond, time.Duration(c.pick(8000))*time.Microsecond
		if !real && c.pick(8) == 0 {
			k.work = callTimeout + time.Second
		}
		wait := time.Duration(c.pick(3000)) * time.Microsecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(wait)
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			switch k.kind {
			case 1:
				cancel()
			case 2:
				var stop func()
				ctx, stop = context.WithTimeout(ctx, k.after)
				defer stop()
			case 3:
				defer time.AfterFunc(k.after, cancel).Stop()
			}
			if k.work%2 == 0 {
				root := mt.StartSpan("root")
				defer root.Finish()
				k.root = root.Context().(mocktracer.MockSpanContext).SpanID
				ctx = opentracing.ContextWithSpan(ctx, root)
			}
			m := newMsgCtx(ctx)
			var err error
			if k.send {
				err = from.Sys.Send(k.to, "t", k.ev, m)
			} else {
				err = from.Sys.Call(k.to, "t", k.ev, m)
			}
			k.err = err
		}()
	}
	if !within(time.Minute, wg.Wait) {
		c.Fail("stuck", "calls do not return")
		return
	}
	spans := func() string {
		s := fmt.Sprint(len(mt.FinishedSpans()))
		for _, k := range calls {
			s += fmt.Sprint(k.handled.Load())
		}
		return s
	}
	if real {
		for i, last := 0, ""; i < 10; i++ {
			time.Sleep(20 * time.Millisecond)
			if q := spans(); q != last {
				i, last = 0, q
			}
		}
	} else {
		settle()
	}
	home, away := map[string]int{}, map[string]int{}
	at := map[string]string{}
	roots, above := map[string]int{}, map[string]int{}
	for _, k := range calls {
		at[k.ev], roots[k.ev] = k.node, k.root
	}
	total := 0
	for _, s := range mt.FinishedSpans() {
		if !strings.HasPrefix(s.OperationName, "System.call") {
			continue
		}
		total++
		ev := fmt.Sprint(s.Tag("event"))
		if s.Tag("node") == at[ev] {
			home[ev]++
			if home[ev] == 1 || s.ParentID == roots[ev] {
				above[ev] = s.ParentID // of a call that comes back to its node, the first one
			}
		} else {
			away[ev]++
		}
	}
	sig := ""
	for _, k := range calls {
		by, _ := k.by.Load().(string)
		desc := fmt.Sprintf("event %s from %s to %q (a send: %v), context %d ends after %v, the handler takes %v: handled %d times on %q, error %v; spans on the caller's node: %d, on the other %d", k.ev, k.node, k.to, k.send, k.kind, k.after, k.work, k.handled.Load(), by, k.err, home[k.ev], away[k.ev])
		if k.to == "?" {
			c.Check(home[k.ev] >= 1, "ending", "%s", desc) // may take several hops
		} else {
			c.Check(home[k.ev] == 1 && away[k.ev] <= 1, "ending", "%s", desc)
		}
		c.Check(home[k.ev] == 0 || above[k.ev] == k.root, "ending-parent", "the span of a call made under span %d is a child of %d: %s", k.root, above[k.ev], desc)
		if k.handled.Load() > 0 && by != k.node {
			c.Check(away[k.ev] >= 1, "ending", "%s", desc)
		}
		sig += fmt.Sprint(k.kind, k.send, k.err != nil, k.handled.Load(), by != k.node, ";")
		if k.kind != 0 && k.err != nil {
			c.N("calls ended by their context", 1)
		}
	}
	c.N("spans", total)
	c.Sig(sig)
	c.Sample("%d calls, %d spans: %s", n, total, sig)
}

func runTrace(c *Case, real bool) {
	c.NewRedis()
	mt := mocktracer.New()
	kind := c.pick(8) // 0: none, 1: no factory, 2: no tracing; others: on
	var byEvent sync.Map
	var nodes []*Node
	used := 0
	var issue func(ctx core.ActorContext, p *Probe, from *Node, k *tcall, w *msg.Wrapper)
	handle := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		ev := w.Req.Header.Event
		v, ok := byEvent.Load(ev)
		if !ok {
			c.Fail("stray", "event %s is handled, nobody sent it", ev)
			return nil
		}
		k := v.(*tcall)
		k.mu.Lock()
		k.handled++
		k.by = p.Node.Name
		if sp := opentracing.SpanFromContext(w.Ctx); sp != nil {
			k.in = sp.Context()
		}
		k.mu.Unlock()
		if k.slow > 0 {
			time.Sleep(k.slow)
		}
		for i, kid := range k.kids {
			c.Check(spanOf(w.Ctx) == k.in, "context", "the span in the context of event %s changed after %d calls of its handler: %v, %v", ev, i, k.in, spanOf(w.Ctx))
			issue(ctx, p, p.Node, kid, w)
		}
		if n := len(k.kids); n == 0 || k.kids[n-1].how == 0 {
			w.Res.Body = []byte("re " + ev)
		}
		if k.fails {
			return errors.New("handler failed")
		}
		return nil
	}
	types := func() Types {
		ts := Types{}
		for l := 0; l < 4; l++ {
			evs := map[string]Handler{}
			for e := 0; e < traceEvents; e++ {
				evs[fmt.Sprint("e", e)] = handle
			}
			ts[fmt.Sprint("L", l)] = &Type{Weight: 1, Events: evs}
		}
		return ts
	}
	traced := map[string]bool{}
	nn := 1
	if real {
		nn = 2
	}
	for i := 0; i < nn; i++ {
		name := fmt.Sprint("n", i+1)
		opt := NodeOpt{Ip: fmt.Sprint("10.0.0.", i+1)}
		if real {
			opt = NodeOpt{Port: -1}
		}
		if real && i == 1 && c.pick(3) == 0 {
			kind = c.pick(8)
		}
		switch kind {
		case 0:
		case 1:
			opt.Tracer = mockTracing{t: mt}
		case 2:
			opt.Tracer = mockTracing{}
		default:
			opt.Tracer = mockTracing{mt, span.CreateCallSpan(span.WithNodeID(name))}
			traced[name] = true
		}
		nodes = append(nodes, c.Node(name, types(), opt))
	}
	ids := map[string]int{}
	for _, n := range nodes {
		for l := 0; l < 4; l++ {
			for a := 0; a < 1+c.pick(3); a++ {
				n.Must(c, fmt.Sprintf("%s-L%d-%d", n.Name, l, a), fmt.Sprint("L", l))
				ids[fmt.Sprintf("%s-L%d-%d", n.Name, l, a)] = l
			}
		}
	}
	byLayer := make([][]string, 4)
	for _, id := range keys(ids) {
		byLayer[ids[id]] = append(byLayer[ids[id]], id)
	}

	var pendings sync.WaitGroup
	issue = func(ctx core.ActorContext, p *Probe, from *Node, k *tcall, w *msg.Wrapper) {
		k.mu.Lock()
		k.node = from.Name
		k.issued = true
		k.mu.Unlock()
		m := w
		if k.how != 1 {
			// a message of its own, caused by the one that is handled
			switch {
			case w == nil:
				m = newMsg()
			case k.method == "reenter":
				// it outlives the call that is handled
				m = newMsgCtx(context.Background())
				if sp := opentracing.SpanFromContext(w.Ctx); sp != nil {
					m.Ctx = opentracing.ContextWithSpan(m.Ctx, sp)
				}
			default:
				m = newMsgCtx(w.Ctx)
			}
		}
		// a call records the caller in the message unless it has an originator already, a send does not
		k.org = m.Req.Header.OrgActorType
		if k.org == "" && p != nil && k.method != "send" {
			k.org = p.Type()
		}
		ty := fmt.Sprint("L", k.layer)
		var err error
		switch {
		case k.method == "send" && ctx != nil:
			err = ctx.Send(k.to, ty, k.ev, m)
		case k.method == "send":
			err = from.Sys.Send(k.to, ty, k.ev, m)
		case k.method == "reenter":
			pendings.Add(1)
			ctx.ReenterCall(k.to, ty, k.ev, m).Then(func(*msg.Wrapper) { pendings.Done() })
		case ctx != nil:
			err = ctx.Call(k.to, ty, k.ev, m)
		default:
			err = from.Sys.Call(k.to, ty, k.ev, m)
		}
		k.mu.Lock()
		k.err = err
		k.mu.Unlock()
	}

	var all []*tcall
	var grow func(parent *tcall, layer int, budget *int) *tcall
	grow = func(parent *tcall, layer int, budget *int) *tcall {
		*budget--
		k := &tcall{ev: fmt.Sprint("e", used), parent: parent, layer: layer, method: "call"}
		used++
		byEvent.Store(k.ev, k)
		all = append(all, k)
		switch c.pick(7) {
		case 0:
			k.method = "send"
		case 1:
			if parent != nil {
				k.method = "reenter"
			}
		}
		ok := true
		switch c.pick(10) {
		case 0:
			k.to, ok = "nobody", false
		case 1:
			k.to, ok = "", false
		case 2, 3:
			k.to = "?"
		case 4:
			k.to = "~"
		default:
			k.to = byLayer[layer][c.pick(len(byLayer[layer]))]
		}
		if ok {
			k.fails = c.pick(6) == 0
			if c.pick(6) == 0 {
				k.slow = time.Duration(c.pick(3)) * time.Millisecond
			}
			if layer < 3 {
				for i := c.pick(4); i > 0 && *budget > 0; i-- {
					k.kids = append(k.kids, grow(k, layer+1, budget))
				}
				// the last one may hand the message on
				if n := len(k.kids); n > 0 && c.pick(3) == 0 {
					if last := k.kids[n-1]; last.method == "call" {
						last.how = 1
					}
				}
				// so may one that does not reach anybody, before the others
				if n := len(k.kids); n > 1 && c.pick(2) == 0 {
					if first := k.kids[0]; (first.to == "nobody" || first.to == "") && first.method != "reenter" {
						first.how = 1
					}
				}
			}
		}
		return k
	}
	var wg sync.WaitGroup
	for t := 0; t < 1+c.pick(4); t++ {
		budget := 1 + c.pick(38)
		again := 1 + c.pick(3)
		var roots []*tcall
		for i := 0; i < again; i++ {
			roots = append(roots, grow(nil, 0, &budget))
		}
		n := nodes[c.pick(len(nodes))]
		reuse := c.pick(2) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := newMsg()
			for _, k := range roots {
				if !reuse || k.method == "send" {
					m = newMsg()
				}
				k.how = 1
				issue(nil, nil, n, k, m)
				if k.method == "send" {
					m = newMsg()
				}
				m.Req.Header.OrgActorID, m.Req.Header.OrgActorType = "", ""
			}
		}()
	}
	if !within(time.Minute, wg.Wait) {
		c.Fail("stuck", "calls do not return")
		return
	}
	// sends and what they cause
	quiet := func() string {
		pendings.Wait()
		s := ""
		for _, k := range all {
			k.mu.Lock()
			s += fmt.Sprint(k.issued, k.handled)
			k.mu.Unlock()
		}
		return s
	}
	if real {
		for i, last := 0, ""; i < 10; i++ {
			time.Sleep(20 * time.Millisecond)
			if q := quiet(); q != last {
				i, last = 0, q
			}
		}
	} else {
		settle()
	}
	pendings.Wait()

	// the spans
	byEv := map[string][]*mocktracer.MockSpan{}
	byID := map[int]*mocktracer.MockSpan{}
	for _, s := range mt.FinishedSpans() {
		byID[s.SpanContext.SpanID] = s
		if strings.HasPrefix(s.OperationName, "System.call") {
			ev := fmt.Sprint(s.Tag("event"))
			byEv[ev] = append(byEv[ev], s)
		}
	}
	up := func(s *mocktracer.MockSpan, id int) bool { // is id above s
		for i := 0; s != nil && i < 200; i++ {
			if s.ParentID == id {
				return true
			}
			s = byID[s.ParentID]
		}
		return false
	}
	remote := 0
	n := 0
	for _, k := range all {
		k.mu.Lock()
		desc := fmt.Sprintf("%s %s of %s on %s to %q, a %s, handled %d times on %s, error %v", k.method, k.ev, path(k.parent), k.node, k.to, fmt.Sprint("L", k.layer), k.handled, k.by, k.err)
		reaches := k.issued && k.to != "nobody" && k.to != ""
		if !k.issued {
			k.mu.Unlock()
			c.Check(len(byEv[k.ev]) == 0, "count", "spans of a call that was not made: %s", desc)
			continue
		}
		n++
		if reaches {
			c.Check(k.handled == 1 && k.err == nil, "works", "%s (tracing %v)", desc, traced)
		} else {
			c.Check(k.handled == 0 && (k.err != nil || k.method == "reenter"), "works", "%s (tracing %v)", desc, traced)
		}
		if k.handled > 0 && k.by != k.node {
			remote++
		}
		var mine, other []*mocktracer.MockSpan
		for _, s := range byEv[k.ev] {
			if s.Tag("node") == k.node {
				mine = append(mine, s)
			} else {
				other = append(other, s)
			}
			meth := k.method
			if meth == "reenter" {
				meth = "call"
			}
			c.Check(s.Tag("tarActor") == fmt.Sprint("L", k.layer) && s.Tag("method") == meth && s.Tag("id") == k.to && s.Tag("orgActor") == k.org, "tags", "%s: span with the tags %v, caller %q", desc, s.Tags(), k.org)
		}
		// A wildcard call is resolved again by the node it is sent to, which may send it on: each hop is
		// a call, caused by the one before. Every other one is one call per node that it passes.
		atHome, away := 0, 0
		if traced[k.node] {
			atHome = 1
		}
		if k.handled == 1 && k.by != k.node && traced[k.by] {
			away = 1
		}
		broken := false
		hops := k.to == "?" && len(mine)+len(other) > atHome+away
		if hops {
			c.N("wildcard calls of several hops", 1)
			broken = len(traced) < 2 // the trace ends where a node does not trace
			c.Check(len(mine) >= atHome && len(other) >= away && (len(mine) == 0 || traced[k.node]) && (len(other) == 0 || len(traced) == 2 || !traced[k.node]), "count", "%s: %d spans on the caller's node, %d on the other", desc, len(mine), len(other))
		} else {
			c.Check(len(mine) == atHome && len(other) == away, "count", "%s: %d spans on the caller's node, %d on the other", desc, len(mine), len(other))
		}
		// they are one chain, from the call to the handler
		chain := byEv[k.ev]
		sort.Slice(chain, func(i, j int) bool { return up(chain[j], chain[i].SpanContext.SpanID) })
		for i := 1; i < len(chain) && !broken; i++ {
			if traced[k.node] && (k.by == k.node || traced[k.by]) {
				c.Check(up(chain[i], chain[i-1].SpanContext.SpanID) && chain[i].SpanContext.TraceID == chain[i-1].SpanContext.TraceID, "hop", "%s: the span on the other node does not continue the trace: %s below %s", desc, chain[i], chain[i-1])
			}
		}
		if traced[k.node] && len(chain) > 0 && !broken {
			s := chain[0]
			c.Check(s.Tag("node") == k.node, "hop", "%s: the first span is %s", desc, s)
			if k.parent == nil {
				c.Check(s.ParentID == 0, "parent", "%s: the span of a call from outside has the parent %s", desc, byID[s.ParentID])
			} else if k.parent.in != nil {
				pc := k.parent.in.(mocktracer.MockSpanContext)
				c.Check(s.ParentID == pc.SpanID && s.SpanContext.TraceID == pc.TraceID, "parent", "%s: its span has the parent %d (%s), the span of the call that caused it is %d", desc, s.ParentID, byID[s.ParentID], pc.SpanID)
			} else if traced[k.parent.by] {
				c.Fail("parent", "%s: no span in the context of the handler", desc)
			}
		}
		if k.handled == 1 && traced[k.by] {
			// the handler sees the span of its own call
			var s *mocktracer.MockSpan
			if k.in != nil {
				s = byID[k.in.(mocktracer.MockSpanContext).SpanID]
			}
			c.Check(s != nil && s.Tag("event") == k.ev && s.Tag("node") == k.by, "handler", "%s: the span in the handler's context is %v", desc, s)
		}
		k.mu.Unlock()
	}
	c.N("calls", n)
	c.N("remote calls", remote)
	c.N("spans", len(byID))
	sig := ""
	for _, k := range all {
		sig += fmt.Sprint(text0(k.parent), k.method[0], k.how, k.to, k.handled, ";")
	}
	c.Sig(kind, sig)
	c.Sample("tracing %v: %d calls, %d of them remote, %d spans", traced, n, remote, len(byID))
}

func path(k *tcall) string {
	if k == nil {
		return "root"
	}
	return fmt.Sprintf("%s (%s to %q by %s of %s)", k.ev, k.method, k.to, k.node, path(k.parent))
}

func text0(k *tcall) string {
	if k == nil {
		return "root"
	}
	return k.ev
}

func spanOf(ctx context.Context) opentracing.SpanContext {
	if sp := opentracing.SpanFromContext(ctx); sp != nil {
		return sp.Context()
	}
	return nil
}
