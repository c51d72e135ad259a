package mon

import (
	"bytes"
	"context"
	"crypto/rand"
	"fmt"
	mrand "math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protowire"
)

func init() {
	reg(Scenario{Prop: "C37", Name: "requests", Mode: Real, Quick: 64, Thorough: 2000, Run: runHostileRequests,
		Rule: "60-150 hostile requests from several connections to one node - missing message or header, every kind of target, odd and huge strings, undecodable bytes, other methods, cancelled calls, " +
			"calls marked as sends, raw garbage and half-sent frames on the socket - with correct requests in between"})
	reg(Scenario{Prop: "C38", Name: "crash", Mode: Real, Lag: 2 * time.Millisecond, Quick: 240, Thorough: 2000, Run: runCrash,
		Rule: "a node dies in the middle of its work, after a chosen store command of a registration or unregistration; then it comes back under its address or not, and all nodes " +
			"call and send to its former actors by id and symbol, while its ids are registered again; an outcome is the crash point and the sequence of results"})
}

// rawCodec sends bytes as they are.
type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (rawCodec) Unmarshal(data []byte, v interface{}) error {
	*v.(*[]byte) = bytes.Clone(data)
	return nil
}
func (rawCodec) Name() string { return "proto" }

func runHostileRequests(c *Case) {
	r := c.NewRedis()
	var log seen
	h := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		log.add(string(w.Req.Body), p.Id)
		w.Res.Body = append([]byte("re:"), w.Req.Body...)
		return nil
	}
	kind := c.pick(panicKinds)
	n := c.Node("n1", Types{"t": {Weight: 1, Events: map[string]Handler{"x": h}}, "u": {Weight: 1, Events: map[string]Handler{"x": h}},
		"w": {Weight: 1, Recv: func(w *msg.Wrapper) error { blowUp(kind); return nil }}}, NodeOpt{Port: -1, Impatient: true})
	n.Must(c, "p", "w")
	n.Must(c, "a", "t")
	n.Must(c, "b", "u")
	r.fake("v", "stale", "n1", n.Ip, n.Port, 1)
	addr := fmt.Sprintf("127.0.0.1:%d", n.Port)
	dial := func() *grpc.ClientConn {
		cc, err := grpc.NewClient(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			panic(err)
		}
		c.Defer(func() { cc.Close() })
		return cc
	}
	type res struct {
		tag, desc string
		err       error
		cancelled bool
	}
	var mu sync.Mutex
	var all []res
	var tagNo atomic.Int64
	odd := func(rr *mrand.Rand) string {
		switch rr.Intn(14) {
		case 0:
			return ""
		case 1:
			return def.SymbolWildcard
		case 2:
			return def.SymbolLocalFirst
		case 3:
			return []string{def.SymbolAll, def.SymbolGroup}[rr.Intn(2)]
		case 4:
			return strings.Repeat("é", 1+rr.Intn(50000))
		case 5:
			return "a\x00b\n\r"
		case 6:
			return "stale"
		case 7:
			return "../../%s%n{node:n1}"
		case 8:
			return "\xff\xfe"
		case 9, 10:
			return "a"
		case 11:
			return "b"
		}
		return []string{"t", "u", "v", "x", "n1", "GrpcAcceptor", "p", "w"}[rr.Intn(8)]
	}
	good := func(cc *grpc.ClientConn, rr *mrand.Rand) {
		tag := fmt.Sprint("good", tagNo.Add(1))
		to, ty := "a", "t"
		switch rr.Intn(4) {
		case 0:
			to, ty = "b", "u"
		case 1:
			to = def.SymbolWildcard
		case 2:
			to = def.SymbolLocalFirst
		}
		out := &router.RouteRes{}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		err := cc.Invoke(ctx, "/router.Acceptor/routing", &router.RouteReq{Msg: &router.Message{Header: &router.Header{ID: tag, TargetActorID: to, TargetActorType: ty, Event: "x"}, Body: []byte(tag)}}, out)
		want := ty[0] - 't' + 'a'
		by := log.get(tag)
		c.Check(err == nil && out.Msg != nil && string(out.Msg.Body) == "re:"+tag && len(by) == 1 && by[0] == string(want), "good", "a correct request to %q of type %q: %v, %v, handled by %v", to, ty, err, out.Msg, by)
		c.N("correct requests", 1)
	}
	var wg sync.WaitGroup
	for g := 0; g < 1+c.pick(4); g++ {
		rr := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			cc := dial()
			for i := 0; i < 20+rr.Intn(30); i++ {
				tag := fmt.Sprintf("m%d", tagNo.Add(1))
				var raw []byte
				desc := ""
				method := "/router.Acceptor/routing"
				ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
				cancelled := false
				if rr.Intn(4) == 0 {
					ctx = metadata.AppendToOutgoingContext(ctx, "braid-send", "1")
					desc = "marked as sent, "
				}
				hd := &router.Header{ID: odd(rr), OrgActorID: odd(rr), OrgActorType: odd(rr), PrevActorType: odd(rr), TargetActorID: odd(rr), TargetActorType: odd(rr), Event: odd(rr), Token: odd(rr), Timestamp: rr.Int63(), Custom: []byte(odd(rr))}
				if rr.Intn(2) == 0 {
					hd.Event = "x"
				}
				req := &router.RouteReq{Msg: &router.Message{Header: hd, Body: []byte(tag)}}
				raw, _ = req.Marshal()
				switch kind := rr.Intn(13); kind {
				case 0:
					raw, desc = nil, desc+"no message"
				case 1:
					m, _ := (&router.Message{Body: []byte(tag)}).Marshal()
					raw, desc = protowire.AppendBytes(protowire.AppendTag(nil, 1, protowire.BytesType), m), desc+"no header"
				case 2:
					m, _ := (&router.Message{Header: &router.Header{}, Body: []byte(tag)}).Marshal()
					raw, desc = protowire.AppendBytes(protowire.AppendTag(nil, 1, protowire.BytesType), m), desc+"empty header"
				case 3:
					raw = raw[:rr.Intn(len(raw)+1)]
					desc += "cut"
				case 4:
					raw = append([]byte{}, raw...)
					for k := 0; k < 1+rr.Intn(4); k++ {
						raw[rr.Intn(len(raw))] ^= byte(1 << rr.Intn(8))
					}
					desc += "bits flipped"
				case 5:
					raw = make([]byte, rr.Intn(300))
					rand.Read(raw)
					desc += "random bytes"
				case 6:
					method = []string{"/router.Acceptor/Routing", "/router.Acceptor/", "/x/y", "/grpc.health.v1.Health/Check", "/router.Acceptor/routing2"}[rr.Intn(5)]
					desc += "method " + method
				case 7:
					req.Msg.Body = append([]byte(tag), make([]byte, 5<<20)...)
					raw, _ = req.Marshal()
					tag = string(req.Msg.Body)
					desc += "5 MB"
				case 8, 9:
					cancelled = true
					if rr.Intn(2) == 0 {
						time.AfterFunc(time.Duration(rr.Intn(3000))*time.Microsecond, cancel)
					} else {
						var cc2 context.CancelFunc
						ctx, cc2 = context.WithTimeout(ctx, time.Duration(rr.Intn(3000))*time.Microsecond)
						defer cc2()
					}
					desc += "cancelled"
				default:
					desc += "odd header"
				}
				var out []byte
				err := cc.Invoke(ctx, method, &raw, &out, grpc.ForceCodec(rawCodec{}))
				cancel()
				code := status.Code(err)
				if !cancelled && (code == codes.Unavailable || code == codes.DeadlineExceeded && ctx.Err() != nil) {
					c.Fail("no-answer", "%s to %.40q of type %.40q, event %.40q, from %.40q: no answer but %v", desc, hd.TargetActorID, hd.TargetActorType, hd.Event, hd.OrgActorID, err)
				}
				if err == nil && (strings.HasSuffix(desc, "no message") || strings.HasSuffix(desc, "no header") || strings.HasSuffix(desc, "empty header")) {
					c.Fail("success", "a request with %s, which names no target, was answered as if it had been handled", desc)
				}
				mu.Lock()
				all = append(all, res{tag, fmt.Sprintf("%s to %.40q of type %.40q, event %.40q, from %.40q: %.200v", desc, hd.TargetActorID, hd.TargetActorType, hd.Event, hd.OrgActorID, err), err, cancelled})
				mu.Unlock()
				c.Sig(desc, code, len(hd.TargetActorID) > 5, hd.Event == "x")
				c.N("hostile requests", 1)
				if rr.Intn(6) == 0 {
					// on the socket itself
					if conn, e := net.Dial("tcp", addr); e == nil {
						b := make([]byte, rr.Intn(200))
						rand.Read(b)
						switch rr.Intn(4) {
						case 0:
							b = append([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"), b...)
						case 1:
							b = []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
						case 2:
							// preface, settings, a header frame that never ends
							b = append([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00\x00\x40\x00\x01\x04\x00\x00\x00\x01"), b...)
						}
						conn.Write(b)
						if rr.Intn(2) == 0 {
							conn.Close()
						} else {
							c.Defer(func() { conn.Close() })
						}
						c.N("raw connections", 1)
					}
				}
				if rr.Intn(5) == 0 {
					good(cc, rr)
				}
			}
		}()
	}
	wg.Wait()
	cc := dial()
	for i := 0; i < 4; i++ {
		good(cc, c.R)
	}
	w := newMsg()
	w.Req.Body = []byte("last")
	err := n.Sys.Call("a", "t", "x", w)
	c.Check(err == nil && w.Err == nil && string(w.Res.Body) == "re:last", "after", "a local call afterwards: %v, %v", err, w.Err)
	_, err = n.Spawn("new", "t")
	c.Check(err == nil, "after", "registering an actor afterwards: %v", err)
	time.Sleep(50 * time.Millisecond)
	for _, x := range all {
		by := log.get(x.tag)
		c.Check(len(by) <= 1, "twice", "%s: handled by %v", x.desc, by)
		if x.err != nil && !x.cancelled {
			c.Check(len(by) == 0, "refused-handled", "%s: refused, but handled by %v", x.desc, by)
		}
	}
	if len(all) > 0 {
		c.Sample("%d hostile requests, e.g. %s", len(all), all[0].desc)
	}
}

// ---- C38

func runCrash(c *Case) {
	r := c.NewRedis()
	var log seen
	h := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		log.add(string(w.Req.Body), fmt.Sprintf("%s#%d", p.Id, p.No))
		return nil
	}
	tys := []string{"t", "u"}
	mk := func() Types {
		out := Types{}
		for i, ty := range tys {
			out[ty] = &Type{Weight: 2 + i, Events: map[string]Handler{"x": h}}
		}
		out["heavy"] = &Type{Weight: 1000}
		return out
	}
	ctx := context.Background()
	// survivors
	nn := 1 + c.pick(2)
	var nodes []*Node
	for i := 0; i < nn; i++ {
		nodes = append(nodes, c.Node(fmt.Sprint("s", i), mk(), NodeOpt{Port: -1, Impatient: true}))
	}
	// the node that dies: it never had a port of its own open, so its address is unreachable until somebody takes it
	port := freePort()
	dying := c.Node("dead", mk(), NodeOpt{Port: 0, Ip: "127.0.0.1"})
	dying.exited.Store(true) // it does not leave
	book := dying.Sys.AddressBook()
	setPort(book, port)
	type rec struct {
		ty string
		k  int // commands of the registration that took effect, 5 all; -k: commands of the unregistration
	}
	stale := map[string]rec{}
	var hist []string
	for i := 0; i < 1+c.pick(5); i++ {
		id, ty := fmt.Sprint("d", i), tys[c.pick(2)]
		if _, err := dying.Spawn(id, ty); err != nil {
			c.Fail("setup-register", "registering failed: %v", err)
			return
		}
		stale[id] = rec{ty, 5}
	}
	// the crash
	crashAt := c.pick(10)
	cnt := 0
	what := "none"
	dead := func(cmds ...string) func(string, []string) string {
		return func(cmd string, args []string) string {
			if cnt >= crashAt%5 && index(cmds, cmd) >= 0 {
				return "ERR the process is dead"
			}
			if index(cmds, cmd) >= 0 {
				cnt++
			}
			return ""
		}
	}
	if crashAt < 5 {
		id, ty := "dx", tys[c.pick(2)]
		r.Hook(dead("HSET", "SADD", "HINCRBY", "HDEL", "SREM"))
		dying.Spawn(id, ty)
		stale[id] = rec{ty, crashAt}
		what = fmt.Sprintf("registration of %s after %d commands", id, crashAt)
	} else {
		id := "d0"
		r.Hook(dead("HDEL", "SREM", "HINCRBY"))
		dying.Sys.Unregister(id, stale[id].ty)
		stale[id] = rec{stale[id].ty, -(crashAt - 5)}
		what = fmt.Sprintf("unregistration of %s after %d commands", id, crashAt-5)
	}
	r.Hook(nil)
	// from here on the old process does nothing any more
	listed := map[string]bool{} // former actors that the id table still knows
	for id := range stale {
		listed[id] = r.record(id) != ""
	}
	live := map[string]string{} // registered actors of the survivors: id -> type
	owner := map[string]string{}
	for i := 0; i < c.pick(4); i++ {
		id, ty := fmt.Sprint("l", i), tys[c.pick(2)]
		on := nodes[c.pick(nn)]
		on.Must(c, id, ty)
		live[id] = ty
		owner[id] = on.Name
	}
	var back *Node
	restart := func() {
		back = c.Node([]string{"dead", "other"}[c.pick(2)], mk(), NodeOpt{Port: port})
		hist = append(hist, "restart as "+back.Name)
		if back.Name == "other" {
			back.Must(c, "heavyother", "heavy")
		}
	}
	if c.pick(3) > 0 {
		restart()
	}
	for i, n := range nodes {
		n.Must(c, fmt.Sprint("heavy", i), "heavy")
	}
	tag := 0
	shoot := func(n *Node, to, ty, op string) (error, []string, bool) {
		tag++
		w := newMsg()
		w.Req.Body = []byte(fmt.Sprint("m", tag))
		var err error
		for k := 0; ; k++ {
			start := time.Now()
			if op == "call" {
				err = n.Sys.Call(to, ty, "x", w)
			} else {
				err = n.Sys.Send(to, ty, "x", w)
			}
			took := time.Since(start)
			c.Check(took < 4*callTimeout, "late", "%s to %s took %v (%s)", op, to, took, what)
			// the connection of an earlier attempt, also of a node that routes the call on, may still be waiting for its next try to reach the node that is back
			if back == nil || status.Code(err) != codes.Unavailable || k == 100 {
				break
			}
			time.Sleep(100 * time.Millisecond)
			w = newMsg()
			w.Req.Body = []byte(fmt.Sprint("m", tag))
		}
		if err == nil {
			eventually(5*time.Second, func() bool { return len(log.get(fmt.Sprint("m", tag))) > 0 })
		}
		hist = append(hist, fmt.Sprintf("%s:%s %s=%v", n.Name, op, to, err == nil))
		return err, log.get(fmt.Sprint("m", tag)), w.Err != nil
	}
	all := func() []*Node {
		if back != nil {
			return append([]*Node{back}, nodes...)
		}
		return nodes
	}
	ids := keys(stale)
	for s := 0; s < 4+c.pick(12) && !c.Failed(); s++ {
		from := all()[c.pick(len(all()))]
		op := []string{"call", "send"}[c.pick(2)]
		switch x := c.pick(8); {
		case x < 4:
			id := ids[c.pick(len(ids))]
			if _, ok := live[id]; ok {
				continue
			}
			ty := stale[id].ty
			if c.pick(3) == 0 {
				ty = []string{"t", "u", "", "heavy", "nothing"}[c.pick(5)] // whatever the caller believes
			}
			err, by, werr := shoot(from, id, ty, op)
			c.Check((err != nil || werr) && len(by) == 0, "swallowed", "%s by %s to %s, an actor of the node that died (%s): %v, handled by %v\n%s", op, from.Name, id, what, err, by, strings.Join(hist, " "))
			if from == back && listed[id] {
				c.Check(r.record(id) == "", "kept", "the stale record of %s points to the address of the node that found it, and is kept (%s)\n%s", id, what, strings.Join(hist, " "))
			}
		case x < 6:
			ty := tys[c.pick(2)]
			sym := []string{def.SymbolWildcard, def.SymbolLocalFirst}[c.pick(2)]
			err, by, _ := shoot(from, sym, ty, op)
			if err == nil {
				ok := len(by) == 1
				c.Check(ok && live[strings.Split(by[0], "#")[0]] == ty, "wrong", "%s by %s to %s of type %s: handled by %v, live are %v (%s)", op, from.Name, sym, ty, by, live, what)
			} else {
				c.Check(len(by) == 0, "failed-handled", "%s to %s of type %s failed with %v and was handled by %v", op, sym, ty, err, by)
			}
		case x == 6 && back == nil:
			restart()
		case x == 7 && back != nil:
			// a former id is registered again, by the new incarnation after it has found the stale record
			id := ids[c.pick(len(ids))]
			if _, ok := live[id]; ok {
				continue
			}
			shoot(back, id, stale[id].ty, op)
			_, err := back.Spawn(id, stale[id].ty)
			if c.Check(err == nil, "again", "registering the former id %s again failed: %v (%s)", id, err, what) {
				live[id] = stale[id].ty
				owner[id] = back.Name
				err, by, _ := shoot(nodes[0], id, stale[id].ty, "call")
				c.Check(err == nil && len(by) == 1, "again", "a call to %s, which was registered again, failed: %v, handled by %v (%s)\n%s", id, err, by, what, strings.Join(hist, " "))
			}
		}
	}
	if back == nil {
		restart()
	}
	// every stale record has been found by its address' owner: by id, or by symbol until that works
	for _, id := range ids {
		if _, ok := live[id]; !ok {
			err, by, werr := shoot(back, id, stale[id].ty, "call")
			c.Check((err != nil || werr) && len(by) == 0, "swallowed", "a call to %s: %v, handled by %v (%s)", id, err, by, what)
		}
	}
	for _, ty := range tys {
		want := 0
		for _, t := range live {
			if t == ty {
				want++
			}
		}
		if _, ok := live["d0"]; ok && crashAt == 6 {
			// the type record of an actor that lost its id record, and that nobody found before the id was registered
			// again, points to a live actor: calls that pick it arrive
			continue
		}
		// what is left can only be found by a symbol, which prefers the node with the lowest weight
		cnt, err := back.Sys.AddressBook().GetActorTypeCount(ctx, ty)
		for k := 0; k < 200 && err == nil && int(cnt) != want; k++ {
			shoot(back, def.SymbolWildcard, ty, "call")
			cnt, err = back.Sys.AddressBook().GetActorTypeCount(ctx, ty)
		}
		c.Check(err == nil && int(cnt) == want, "count", "%d actors of type %s are counted, %d are live: %v (%s, restarted as %s)\n%s", cnt, ty, want, live, what, back.Name, strings.Join(hist, " "))
		for _, n := range all() {
			for _, sym := range []string{def.SymbolWildcard, def.SymbolLocalFirst} {
				err, by, _ := shoot(n, sym, ty, "call")
				c.Check((err == nil) == (want > 0) && len(by) == min(want, 1), "wildcard", "after all stale records were found, a call by %s to %s of type %s: %v, handled by %v; live are %v (%s)\n%s", n.Name, sym, ty, err, by, live, what, strings.Join(hist, " "))
			}
		}
	}
	for _, id := range ids {
		if _, ok := live[id]; ok {
			continue
		}
		n := all()[c.pick(len(all()))]
		_, err := n.Spawn(id, stale[id].ty)
		c.Check(err == nil, "again", "registering the former id %s again failed: %v (%s)", id, err, what)
		live[id] = stale[id].ty
		owner[id] = n.Name
		for _, from := range all() {
			err, by, _ := shoot(from, id, stale[id].ty, "call")
			c.Check(err == nil && len(by) == 1 && strings.HasPrefix(by[0], id+"#"), "again", "a call to %s, which was registered again: %v, handled by %v (%s)", id, err, by, what)
		}
	}
	if crashAt == 0 || crashAt == 5 || crashAt == 9 {
		// no operation was interrupted half way: the dead node's weight is that of the actors it has now
		want := 0
		for id, ty := range live {
			if owner[id] == "dead" {
				want += map[string]int{"t": 2, "u": 3}[ty]
			}
		}
		got, _ := r.Obs.HGet(ctx, "{node:dead}", "total_weight").Int()
		c.Check(got == want, "weight", "the node that died has the weight %d, its actors now have %d (%s)\n%s", got, want, what, strings.Join(hist, " "))
	}
	c.N("messages", tag)
	c.Sig(crashAt, nn, hist)
	c.Sample("crash in the %s; %s", what, strings.Join(hist, " "))
}
