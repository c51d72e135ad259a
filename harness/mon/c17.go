package mon

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

func init() {
	reg(Scenario{Prop: "C17", Name: "local", Quick: 1000, Thorough: 30000, Run: func(c *Case) { runRouting(c, false) },
		Rule: "one node with up to 12 actors of 3 types; 10-50 steps of Call and Send to ids, near-ids, symbols, empty and unknown targets, from outside and from an actor, " +
			"between registrations and unregistrations; who handled each message is compared with who may"})
	reg(Scenario{Prop: "C17", Name: "cluster", Mode: Real, Lag: 2 * time.Millisecond, Quick: 60, Thorough: 1500, Run: func(c *Case) { runRouting(c, true) },
		Rule: "the same over 2-3 nodes that talk through gRPC, with nodes leaving"})
	reg(Scenario{Prop: "C18", Name: "payload", Mode: Real, Lag: 2 * time.Millisecond, Quick: 40, Thorough: 1200, Run: runRemotePayload,
		Rule: "30-80 calls from 1-16 goroutines to 1-4 actors on another node with random headers and bodies (0 bytes to 6 MB) each way, from outside and from actors"})
	reg(Scenario{Prop: "C18", Name: "failures", Mode: Real, Lag: 2 * time.Millisecond, Quick: 32, Thorough: 1000, Run: runRemoteFailures,
		Rule: "10-30 concurrent remote calls, each with one way to fail (gone, rejected, handler error, handler too slow, deadline, cancelled, nobody listening, never answering, node gone) or none"})
	reg(Scenario{Prop: "C19", Name: "local", Quick: 1500, Thorough: 40000, Run: func(c *Case) { runSend(c, false) },
		Rule: "Sends to busy and idle actors, by id and symbol, to unknown, empty, absent and exited targets, some followed at once by the target's or node's exit"})
	reg(Scenario{Prop: "C19", Name: "remote", Mode: Real, Lag: 2 * time.Millisecond, Quick: 60, Thorough: 1500, Run: func(c *Case) { runSend(c, true) },
		Rule: "the same to actors of other nodes, to which there is no connection at first"})
}

type seen struct {
	mu sync.Mutex
	by map[string][]string // message -> actors
}

func (s *seen) add(id, actor string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.by == nil {
		s.by = map[string][]string{}
	}
	s.by[id] = append(s.by[id], actor)
}

func (s *seen) get(id string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.by[id]...)
}

func runRouting(c *Case, remote bool) {
	c.NewRedis()
	var log seen
	got := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		c.Check(ctx.ID() == p.Id && ctx.Type() == p.Ty && ctx.System() == p.Node.Sys, "context", "the handler of %s of type %s finds itself to be %s of type %s", p.Id, p.Ty, ctx.ID(), ctx.Type())
		log.add(string(w.Req.Body), p.Id)
		w.Res.Body = []byte(p.Id)
		return nil
	}
	type order struct{ To, Ty, Ev, Tag, Op string }
	type outcome struct {
		err, werr error
		body      string
	}
	var outcomes sync.Map
	relay := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		var o order
		json.Unmarshal(w.Req.Body, &o)
		m := newMsg()
		m.Req.Body = []byte(o.Tag)
		var out outcome
		if o.Op == "call" {
			m.Ctx = w.Ctx
			out.err = ctx.Call(o.To, o.Ty, o.Ev, m)
		} else {
			out.err = ctx.Send(o.To, o.Ty, o.Ev, m)
		}
		if o.Op == "call" {
			out.werr = m.Err
		}
		outcomes.Store(o.Tag, out)
		return nil
	}
	tys := []string{"t", "t1", "T"}
	mk := func() Types {
		out := Types{"relay": {Weight: 1, Events: map[string]Handler{"go": relay}}}
		for i, ty := range tys {
			out[ty] = &Type{Weight: i + 1, Events: map[string]Handler{"x": got, "y": got}}
		}
		return out
	}
	nn, port := 1, 0
	if remote {
		nn, port = 2+c.pick(2), -1
	}
	var nodes []*Node
	alive := map[int]bool{}
	for i := 0; i < nn; i++ {
		nodes = append(nodes, c.Node(fmt.Sprint("n", i), mk(), NodeOpt{Port: port}))
		nodes[i].Must(c, fmt.Sprint("relay", i), "relay")
		alive[i] = true
	}
	pool := []string{"a", "A", "a1", "a10", "1", "a b", "ä", "t", "n0", "a:1", "{a}", "x/y"}
	type rec struct {
		ty string
		n  int
	}
	model := map[string]rec{}
	var hist []string
	steps := 10 + c.pick(40)
	if remote {
		steps = 10 + c.pick(25)
	}
	for s := 0; s < steps && !c.Failed(); s++ {
		var up []int
		for i := range nodes {
			if alive[i] {
				up = append(up, i)
			}
		}
		src := up[c.pick(len(up))]
		switch x := c.pick(20); {
		case x < 4: // register
			id := pool[c.pick(len(pool))]
			if _, ok := model[id]; ok {
				continue
			}
			ty := tys[c.pick(len(tys))]
			nodes[src].Must(c, id, ty)
			model[id] = rec{ty, src}
			hist = append(hist, fmt.Sprintf("+%s:%s@%d", id, ty, src))
			continue
		case x < 6: // unregister
			ids := keys(model)
			if len(ids) == 0 {
				continue
			}
			id := ids[c.pick(len(ids))]
			nodes[model[id].n].Sys.Unregister(id, model[id].ty)
			delete(model, id)
			hist = append(hist, "-"+id)
			continue
		case x == 6 && len(up) > 1 && c.pick(3) == 0:
			nodes[src].Exit()
			alive[src] = false
			for id, r := range model {
				if r.n == src {
					delete(model, id)
				}
			}
			hist = append(hist, fmt.Sprint("exit", src))
			continue
		}
		o := order{Tag: fmt.Sprint("m", s), Ev: []string{"x", "y"}[c.pick(2)], Op: []string{"call", "send"}[c.pick(2)], Ty: append(tys, "none", "")[c.pick(len(tys)+2)]}
		switch c.pick(8) {
		case 0, 1:
			o.To = def.SymbolWildcard
		case 2, 3:
			o.To = def.SymbolLocalFirst
		case 4:
			o.To = []string{"", "nobody", "a ", "a1 ", "aa"}[c.pick(5)]
		default:
			o.To = pool[c.pick(len(pool))]
			if ids := keys(model); len(ids) > 0 && c.pick(3) > 0 {
				o.To = ids[c.pick(len(ids))]
			}
			if r, ok := model[o.To]; ok && c.pick(3) > 0 {
				o.Ty = r.ty
			}
		}
		// who may handle it
		var may []string
		switch o.To {
		case def.SymbolWildcard, def.SymbolLocalFirst:
			var local []string
			for id, r := range model {
				if r.ty == o.Ty {
					may = append(may, id)
					if r.n == src {
						local = append(local, id)
					}
				}
			}
			if o.To == def.SymbolLocalFirst && len(local) > 0 {
				may = local
			}
		default:
			if _, ok := model[o.To]; ok {
				may = []string{o.To}
			}
		}
		sort.Strings(may)
		var out outcome
		via := "outside"
		sys := nodes[src].Sys
		if c.pick(3) == 0 {
			via = "an actor"
			b, _ := json.Marshal(o)
			w := newMsg()
			w.Req.Body = b
			if err := sys.Call(fmt.Sprint("relay", src), "relay", "go", w); err != nil || w.Err != nil {
				c.Fail("relay", "the relaying actor could not be called: %v, %v", err, w.Err)
				return
			}
			v, ok := outcomes.Load(o.Tag)
			if !ok {
				c.Fail("relay", "the relaying actor did not come back")
				return
			}
			out = v.(outcome)
		} else {
			w := newMsg()
			w.Req.Body = []byte(o.Tag)
			if o.Op == "call" {
				out.err = sys.Call(o.To, o.Ty, o.Ev, w)
			} else {
				out.err = sys.Send(o.To, o.Ty, o.Ev, w)
			}
			if o.Op == "call" {
				out.werr = w.Err
				out.body = string(w.Res.GetBody())
			}
		}
		desc := fmt.Sprintf("%s from %s on node %d to %q of type %q, which %q may handle: error %v, message error %v", o.Op, via, src, o.To, o.Ty, may, out.err, out.werr)
		hist = append(hist, fmt.Sprintf("%s:%s/%s", o.Op, o.To, o.Ty))
		var by []string
		if len(may) > 0 && out.err == nil {
			if !eventually(10*time.Second, func() bool { by = log.get(o.Tag); return len(by) > 0 }) {
				c.Fail("nobody", "%s, but nobody handles it", desc)
				return
			}
		}
		if !remote || c.pick(8) == 0 {
			time.Sleep(5 * time.Millisecond)
		}
		by = log.get(o.Tag)
		if len(may) == 0 {
			c.Check(out.err != nil && len(by) == 0, "none", "%s, handled by %q\n%s", desc, by, strings.Join(hist, " "))
			c.N("refused", 1)
		} else {
			ok := out.err == nil && out.werr == nil && len(by) == 1
			c.Check(ok && index(may, by[0]) >= 0, "target:"+o.Op, "%s, handled by %q\n%s", desc, by, strings.Join(hist, " "))
			if ok && o.Op == "call" && via == "outside" {
				c.Check(out.body == by[0], "reply", "%s, handled by %q, the reply is from %q", desc, by, out.body)
			}
			c.N("delivered", 1)
		}
		sym := o.To
		if len(sym) != 1 || sym[0] > '@' {
			sym = "id"
		}
		c.Sig(sym, o.Op, via, len(may), len(model), len(up))
	}
	settle2(remote)
	log.mu.Lock()
	for tag, by := range log.by {
		c.Check(len(by) == 1, "twice", "message %s was handled by %q", tag, by)
	}
	log.mu.Unlock()
	c.Sample("%s", strings.Join(hist, " "))
}

// settle2 is settle, or a little real time.
func settle2(real bool) {
	if real {
		time.Sleep(20 * time.Millisecond)
	} else {
		time.Sleep(3 * time.Second)
	}
}

// ---- C18

func (c *Case) payload(r *rand.Rand, big bool) []byte {
	n := 0
	switch r.Intn(12) {
	case 0:
		return nil
	case 1:
		n = 1 << 16
	case 2:
		n = r.Intn(300000)
	case 3:
		if big {
			n = 4<<20 + r.Intn(2<<20) - 200000
		}
	default:
		n = r.Intn(200)
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}

func text(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return string([]byte{0xff, 0xfe, byte(r.Intn(256))})
	case 2:
		return "äöü…\x00\n"
	case 3:
		return strings.Repeat("x", r.Intn(5000))
	}
	return fmt.Sprint("s", r.Intn(1000))
}

func runRemotePayload(c *Case) {
	c.NewRedis()
	type want struct {
		req      *router.Message
		res      *router.Message
		fields   bool // the handler fills in fields of the header that is there
		handled  atomic.Int32
		from     string
		seenDiff string
	}
	var wants sync.Map // message id -> want
	clone := func(m *router.Message) *router.Message {
		b, _ := m.Marshal()
		out := &router.Message{}
		out.Unmarshal(b)
		return out
	}
	same := func(a, b *router.Message) string {
		x, y := clone(a), clone(b)
		switch {
		case x.Header == nil || y.Header == nil:
			if x.Header != y.Header {
				return "one header is missing"
			}
		case x.Header.String() != y.Header.String():
			return fmt.Sprintf("header %.300q, expected %.300q", x.Header.String(), y.Header.String())
		}
		if !bytes.Equal(x.Body, y.Body) {
			return fmt.Sprintf("body of %d bytes %.20x, expected %d bytes %.20x", len(x.Body), x.Body, len(y.Body), y.Body)
		}
		return ""
	}
	h := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		v, ok := wants.Load(w.Req.Header.Timestamp)
		if !ok {
			c.Fail("stray", "a message that nobody sent was handled")
			return nil
		}
		x := v.(*want)
		x.handled.Add(1)
		if d := same(w.Req, x.req); d != "" {
			x.seenDiff = d
		}
		switch {
		case x.res != nil && x.fields:
			w.Res.Body = x.res.Body
			if h := x.res.Header; h != nil {
				w.Res.Header.ID, w.Res.Header.Token, w.Res.Header.Timestamp = h.ID, h.Token, h.Timestamp
				w.Res.Header.Custom = h.Custom
			}
		case x.res != nil:
			w.Res.Header, w.Res.Body = x.res.Header, x.res.Body
		}
		return nil
	}
	type job struct {
		f func(core.ActorContext, *msg.Wrapper)
	}
	var jobs sync.Map
	do := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		v, _ := jobs.Load(string(w.Req.Body))
		v.(job).f(ctx, w)
		return nil
	}
	n1 := c.Node("n1", Types{"src": {Events: map[string]Handler{"do": do}}}, NodeOpt{Port: -1})
	n2 := c.Node("n2", Types{"t": {Weight: 1, Events: map[string]Handler{"x": h, "y": h}}}, NodeOpt{Port: -1})
	na := 1 + c.pick(4)
	for i := 0; i < na; i++ {
		n2.Must(c, fmt.Sprint("a", i), "t")
	}
	G := 1 + c.pick(16)
	for g := 0; g < G; g++ {
		n1.Must(c, fmt.Sprint("src", g), "src")
	}
	big := make(chan struct{}, 2)
	var wg sync.WaitGroup
	var no atomic.Int64
	per := (30 + c.pick(50)) / G
	for g := 0; g < G; g++ {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < per+1; j++ {
				key := no.Add(1)
				to := fmt.Sprint("a", r.Intn(na))
				ev := []string{"x", "y"}[r.Intn(2)]
				w := newMsg()
				w.Req.Body = c.payload(r, true)
				hd := w.Req.Header
				hd.Timestamp = key
				hd.Token, hd.Custom = text(r), c.payload(r, false)
				if r.Intn(3) == 0 {
					hd.ID = text(r)
				}
				if r.Intn(3) == 0 {
					hd.OrgActorID, hd.OrgActorType = "o"+text(r), text(r)
				}
				x := &want{req: clone(w.Req)}
				x.req.Header.Event, x.req.Header.TargetActorID, x.req.Header.TargetActorType = ev, to, "t"
				x.req.Header.PrevActorType = "GrpcAcceptor"
				if r.Intn(5) > 0 {
					x.res = &router.Message{Body: c.payload(r, true)}
					x.fields = r.Intn(4) == 0
					if r.Intn(4) > 0 {
						x.res.Header = &router.Header{ID: text(r), Event: text(r), Token: text(r), Custom: c.payload(r, false), Timestamp: r.Int63(), TargetActorID: text(r), OrgActorID: text(r)}
					}
				}
				large := x.req.Size()+x.res.Size() > 200<<10
				if large {
					// many large ones at once take longer than the timeout of a call
					big <- struct{}{}
				}
				var err error
				byActor := r.Intn(3) == 0
				if byActor {
					id := fmt.Sprint("src", g)
					if x.req.Header.OrgActorID == "" {
						x.req.Header.OrgActorID, x.req.Header.OrgActorType = id, "src"
					}
					x.from = id
					wants.Store(key, x)
					jobs.Store(fmt.Sprint(key), job{func(ctx core.ActorContext, outer *msg.Wrapper) { err = ctx.Call(to, "t", ev, w) }})
					o := newMsg()
					o.Req.Body = []byte(fmt.Sprint(key))
					if e := n1.Sys.Call(id, "src", "do", o); e != nil || o.Err != nil {
						c.Fail("source", "the calling actor failed: %v, %v", e, o.Err)
						return
					}
				} else {
					wants.Store(key, x)
					err = n1.Sys.Call(to, "t", ev, w)
				}
				sz, rsz := x.req.Size(), x.res.Size()
				if large {
					<-big
				}
				utf := true
				for _, s := range []string{hd.ID, hd.Token, x.req.Header.OrgActorID, x.req.Header.OrgActorType} {
					utf = utf && utf8.ValidString(s)
				}
				if x.res != nil && x.res.Header != nil {
					for _, s := range []string{x.res.Header.ID, x.res.Header.Event, x.res.Header.Token, x.res.Header.TargetActorID, x.res.Header.OrgActorID} {
						utf = utf && utf8.ValidString(s)
					}
				}
				limit := 4<<20 - 1000
				desc := fmt.Sprintf("a call by an actor: %v, with %d bytes, answered with %d bytes, text is UTF-8: %v; error %v, message error %v, handled %d times", byActor, sz, rsz, utf, err, w.Err, x.handled.Load())
				if sz < limit && rsz < limit && utf {
					if !c.Check(err == nil && w.Err == nil, "failed", "%s", desc) {
						return
					}
				}
				c.Check(x.seenDiff == "", "request", "%s: the handler saw %s", desc, x.seenDiff)
				if err != nil || w.Err != nil {
					// too large for the transport or not representable: no success, not twice
					c.Check(x.handled.Load() <= 1, "twice", "%s", desc)
					c.N("refused", 1)
					c.Sig("refused", sz >= limit, rsz >= limit, utf)
					continue
				}
				c.Check(x.handled.Load() == 1, "once", "%s", desc)
				got := w.Res.GetHeader()
				switch {
				case x.res != nil && x.fields:
					h := x.res.Header
					if h == nil {
						h = &router.Header{ID: got.GetID()} // the handler left that alone
					}
					c.Check(bytes.Equal(w.Res.Body, x.res.Body), "response", "%s: the caller got a body of %d bytes", desc, len(w.Res.Body))
					if c.Check(got != nil, "response", "%s: the caller got no header", desc) {
						c.Check(got.ID == h.ID && got.Token == h.Token && got.Timestamp == h.Timestamp && bytes.Equal(got.Custom, h.Custom), "response",
							"%s: the handler set id %q, token %q, time %d and %d custom bytes in the response's header, the caller got %q, %q, %d, %d bytes", desc, h.ID, h.Token, h.Timestamp, len(h.Custom), got.ID, got.Token, got.Timestamp, len(got.Custom))
					}
				case x.res != nil:
					d := same(w.Res, x.res)
					c.Check(d == "", "response", "%s: the caller got %s", desc, d)
				default:
					c.Check(got == nil || got.Token == "" && len(got.Custom) == 0, "response", "%s: the handler wrote nothing, the caller got the header %.200v", desc, got)
					c.Check(w.Res != nil && len(w.Res.Body) == 0, "response", "%s: the handler wrote nothing, the caller got a body of %d bytes", desc, len(w.Res.GetBody()))
				}
				c.N("calls", 1)
				c.Sig(sz>>8, rsz>>8, byActor, x.res == nil)
			}
		}()
	}
	wg.Wait()
	c.Sample("%d goroutines, %d calls to %d actors", G, no.Load(), na)
}

func runRemoteFailures(c *Case) {
	r := c.NewRedis()
	var handled sync.Map
	release := make(chan struct{})
	count := func(w *msg.Wrapper) {
		v, _ := handled.LoadOrStore(w.Req.Header.Timestamp, new(atomic.Int32))
		v.(*atomic.Int32).Add(1)
	}
	evs := map[string]Handler{
		"ok": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			count(w)
			w.Res.Body = append([]byte("re:"), w.Req.Body...)
			return nil
		},
		"err": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			count(w)
			if w.Req.Header.Timestamp%2 == 0 {
				w.Res.Body = []byte("half an answer")
			}
			w.Err = errors.New("the handler's error")
			return nil
		},
		"hang": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			count(w)
			if w.Req.Header.Timestamp%2 == 0 {
				w.Res.Body = []byte("half an answer")
			}
			<-release
			return nil
		},
	}
	n1 := c.Node("n1", Types{}, NodeOpt{Port: -1, Impatient: true})
	n2 := c.Node("n2", Types{"t": {Weight: 1, Events: evs}}, NodeOpt{Port: -1, Impatient: true})
	n3 := c.Node("n3", Types{"t": {Weight: 1, Events: evs}}, NodeOpt{Port: -1, Impatient: true})
	c.Defer(func() { close(release) })
	n2.Must(c, "a", "t")
	n3.Must(c, "b", "t")
	// directory entries that lead nowhere
	r.fake("t-gone", "gone", "n2", "127.0.0.1", n2.Port, 1)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	closedPort := l.Addr().(*net.TCPAddr).Port
	l.Close()
	r.fake("t-closed", "closed", "nx", "127.0.0.1", closedPort, 1)
	mute, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	c.Defer(func() { mute.Close() })
	r.fake("t-mute", "mute", "ny", "127.0.0.1", mute.Addr().(*net.TCPAddr).Port, 1)
	gm := grpc.NewServer()
	router.RegisterAcceptorServer(gm, muteAcceptor{})
	gl, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go gm.Serve(gl)
	c.Defer(gm.Stop)
	r.fake("t-hang", "silent", "nz", "127.0.0.1", gl.Addr().(*net.TCPAddr).Port, 1)

	kinds := []string{"ok", "ok", "ok", "err", "gone", "reject", "deadline", "cancel", "closed", "node"}
	if c.pick(6) == 0 {
		kinds = append(kinds, "hang", "mute", "silent")
	}
	K := 10 + c.pick(20)
	var wg sync.WaitGroup
	left := make(chan struct{})
	for k := 0; k < K; k++ {
		rr := c.Rand()
		kind := kinds[c.pick(len(kinds))]
		wg.Add(1)
		go func() {
			defer wg.Done()
			yield(rr)
			ctx := context.Background()
			to, ev, ty := "a", "ok", "t"
			switch kind {
			case "err", "hang":
				ev = kind
				if kind == "hang" {
					to = fmt.Sprint("h", k)
					n2.Must(c, to, "t")
				}
			case "gone", "closed", "mute", "silent":
				to, ty = kind, "t-"+kind
			case "deadline", "cancel":
				ev = "hang"
				to = fmt.Sprint("h", k)
				n2.Must(c, to, "t")
			case "node":
				to = "b"
				if rr.Intn(2) == 0 {
					<-left
				}
			}
			var cancel context.CancelFunc
			switch kind {
			case "deadline":
				ctx, cancel = context.WithTimeout(ctx, time.Duration(20+rr.Intn(60))*time.Millisecond)
				defer cancel()
			case "cancel":
				ctx, cancel = context.WithCancel(ctx)
				time.AfterFunc(time.Duration(rr.Intn(40))*time.Millisecond, cancel)
			}
			w := newMsgCtx(ctx)
			w.Req.Header.Timestamp = int64(k)
			w.Req.Body = []byte(fmt.Sprint("body", k))
			if kind == "reject" {
				w.Req.Header.OrgActorID = "a" // a cycle: the target rejects it
			}
			start := time.Now()
			err := n1.Sys.Call(to, ty, ev, w)
			took := time.Since(start)
			times := int32(0)
			if v, ok := handled.Load(int64(k)); ok {
				times = v.(*atomic.Int32).Load()
			}
			desc := fmt.Sprintf("%s: error %v, message error %v, handled %d times, after %v", kind, err, w.Err, times, took)
			c.Check(took < 4*callTimeout, "late", "%s", desc)
			c.Check(times <= 1, "twice", "%s", desc)
			failed := err != nil || w.Err != nil
			switch kind {
			case "ok":
				c.Check(!failed && times == 1 && string(w.Res.Body) == "re:"+fmt.Sprint("body", k), "ok", "%s, reply %q", desc, w.Res.GetBody())
			case "node":
				if !failed {
					c.Check(times == 1 && string(w.Res.Body) == "re:"+fmt.Sprint("body", k), "node", "%s, reply %q", desc, w.Res.GetBody())
				}
			case "gone", "closed", "mute", "silent", "reject":
				c.Check(failed && times == 0, "silent:"+kind, "%s", desc)
			default:
				c.Check(failed, "silent:"+kind, "%s", desc)
			}
			c.Sig(kind, failed, times)
			c.N(kind, 1)
		}()
	}
	n3.Exit()
	close(left)
	wg.Wait()
	// still works
	w := newMsg()
	w.Req.Header.Timestamp = -1
	err = n1.Sys.Call("a", "t", "ok", w)
	c.Check(err == nil && w.Err == nil && string(w.Res.Body) == "re:", "after", "a plain call after all that: %v, %v", err, w.Err)
	c.Check(n1.Sys.Call("b", "t", "ok", newMsg()) != nil, "left", "a call to an actor of a node that left succeeds")
	c.Sample("%d concurrent remote calls of kinds %v", K, kinds)
}

// ---- C19

func runSend(c *Case, remote bool) {
	r := c.NewRedis()
	var log seen
	gates := map[string]chan struct{}{}
	var mu sync.Mutex
	gate := func(id string) chan struct{} {
		mu.Lock()
		defer mu.Unlock()
		if gates[id] == nil {
			gates[id] = make(chan struct{})
		}
		return gates[id]
	}
	h := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		log.add(string(w.Req.Body), p.Id)
		if remote {
			// the sender's request is over, and what the handler does with the message is not
			c.Check(w.Ctx != nil && w.Ctx.Err() == nil, "context", "the context of a message from another node is over when it is handled: %v", w.Ctx.Err())
		}
		return nil
	}
	busy := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		log.add(string(w.Req.Body), p.Id)
		<-gate(p.Id)
		return nil
	}
	mk := func() Types {
		out := Types{}
		for _, ty := range []string{"t", "u"} {
			out[ty] = &Type{Weight: 2, Events: map[string]Handler{"x": h, "busy": busy}}
		}
		return out
	}
	nn, port := 1, 0
	if remote {
		nn, port = 2+c.pick(2), -1
	}
	var nodes []*Node
	for i := 0; i < nn; i++ {
		nodes = append(nodes, c.Node(fmt.Sprint("n", i), mk(), NodeOpt{Port: port}))
	}
	from := nodes[0]
	host := nodes[nn-1]
	k := 1 + c.pick(5)
	var ids []string
	stuck := map[string]bool{}
	for i := 0; i < k; i++ {
		id := fmt.Sprint("a", i)
		nodes[nn-1-c.pick(2)*max(0, nn-2)].Must(c, id, "t")
		ids = append(ids, id)
	}
	for _, id := range ids {
		if c.pick(2) == 0 {
			stuck[id] = true
			w := newMsg()
			w.Req.Body = []byte("busy-" + id)
			// the first contact, and the target's handler does not end until everything was sent
			if err := from.Sys.Send(id, "t", "busy", w); !c.Check(err == nil, "refused", "a send to %s failed: %v", id, err) {
				return
			}
		}
	}
	// targets that are not there
	host.Must(c, "left", "u")
	host.Sys.Unregister("left", "u")
	if remote {
		r.fake("t-stale", "stale", host.Name, host.Ip, host.Port, 1) // its node says it is not there
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		r.fake("t-down", "down", "nx", "127.0.0.1", l.Addr().(*net.TCPAddr).Port, 1)
		l.Close()
	}
	var wg sync.WaitGroup
	var okMu sync.Mutex
	accepted := map[string]string{} // tag -> id or type symbol
	refused := map[string]bool{}
	G := 1 + c.pick(6)
	exit := c.pick(3) == 0
	var hist sync.Map
	for g := 0; g < G; g++ {
		rr := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 3+rr.Intn(12); j++ {
				tag := fmt.Sprintf("%d-%d", g, j)
				to, ty, good := ids[rr.Intn(len(ids))], "t", true
				switch rr.Intn(8) {
				case 0:
					to = def.SymbolWildcard
				case 1:
					to = def.SymbolLocalFirst
				case 2:
					good = false
					switch rr.Intn(5) {
					case 0:
						to = "nobody"
					case 1:
						to = ""
					case 2:
						to, ty = []string{def.SymbolWildcard, def.SymbolLocalFirst}[rr.Intn(2)], "u"
					case 3:
						to, ty = "left", "u"
					case 4:
						to = "nobody"
						if remote {
							to, ty = []string{"stale", "down"}[rr.Intn(2)], "t-x"
						}
					}
				}
				ctx, cancel := context.WithCancel(context.Background())
				w := newMsgCtx(ctx)
				w.Req.Body = []byte(tag)
				cyc := rr.Intn(12) == 0 && good && len(to) > 1
				if cyc {
					w.Req.Header.OrgActorID = to // the target rejects it
				}
				start := time.Now()
				err := from.Sys.Send(to, ty, "x", w)
				took := time.Since(start)
				if rr.Intn(2) == 0 {
					cancel() // nothing depends on the sender any more
				} else {
					c.Defer(cancel)
				}
				desc := fmt.Sprintf("send %s to %q of type %q (rejected: %v), remote: %v: %v after %v", tag, to, ty, cyc, remote, err, took)
				if !remote {
					c.Check(took == 0, "waits", "%s", desc)
				}
				hist.Store(tag, desc)
				okMu.Lock()
				if err == nil {
					accepted[tag] = to
				} else {
					refused[tag] = true
				}
				okMu.Unlock()
				if good && !cyc {
					// the handlers are stuck until all of it was sent: a send that waits for them cannot succeed
					c.Check(err == nil, "refused", "%s", desc)
				} else {
					c.Check(err != nil, "accepted", "%s", desc)
				}
				yield(rr)
			}
		}()
	}
	if !within(2*time.Minute, wg.Wait) {
		c.Fail("blocked", "the senders are still waiting after 2 minutes")
		return
	}
	// everything was sent before any of the handlers that were stuck has ended
	openGates := func() {
		for _, id := range ids {
			close(gate(id))
		}
	}
	ended := make(chan struct{})
	if exit {
		// the node leaves while the messages wait
		go func() {
			defer close(ended)
			host.Exit()
			for _, n := range nodes {
				n.Exit()
			}
		}()
		if c.pick(2) == 0 {
			time.Sleep(time.Duration(c.pick(20)) * time.Millisecond)
		}
		openGates()
		if !within(time.Minute, func() { <-ended }) {
			c.Fail("exit", "the node does not exit within a minute")
			return
		}
	} else {
		openGates()
	}
	eventually(20*time.Second, func() bool {
		for tag := range accepted {
			if len(log.get(tag)) == 0 {
				return false
			}
		}
		return true
	})
	settle2(remote)
	for tag, to := range accepted {
		by := log.get(tag)
		d, _ := hist.Load(tag)
		c.Check(len(by) == 1 && (by[0] == to || len(to) == 1), "once", "%v: handled by %v (exit meanwhile: %v)", d, by, exit)
	}
	for tag := range refused {
		by := log.get(tag)
		d, _ := hist.Load(tag)
		c.Check(len(by) == 0, "refused-handled", "%v: handled by %v", d, by)
	}
	c.N("accepted", len(accepted))
	c.N("refused", len(refused))
	c.Sig(nn, len(stuck), G, exit, len(accepted), len(refused))
	c.Sample("%d nodes, %d targets of which %d stuck, %d senders, %d accepted, %d refused, exit %v", nn, k, len(stuck), G, len(accepted), len(refused), exit)
}

var _ = proto.Marshal
