package mon

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router/msg"
)

func init() {
	reg(Scenario{Prop: "C12", Name: "races", Quick: 1500, Thorough: 50000, Run: runIDRounds,
		Rule: "rounds of 1-6 concurrent registrations of one id, then lookups, then 1-3 concurrent unregistrations with lookups during all of it and other ids coming and going; " +
			"an outcome is who won and what the concurrent lookups saw"})
	reg(Scenario{Prop: "C12", Name: "lookups", Quick: 800, Thorough: 25000, Run: runIDLookups,
		Rule: "each of 1-4 ids is registered and unregistered by its own goroutine while 1-5 others find, list and call it; every lookup that lies within a certain period is judged"})
	reg(Scenario{Prop: "C12", Name: "churn", Quick: 1500, Thorough: 50000, Run: runIDChurn,
		Rule: "2-5 goroutines register and unregister one id in any order, with actors whose Exit takes a while; afterwards every instance but the listed one has been told to exit, " +
			"and the directory has an entry exactly if one is listed; an outcome is the sequence of results"})
	reg(Scenario{Prop: "C13", Name: "concurrent", Quick: 1200, Thorough: 40000, Run: runLimits,
		Rule: "1-8 goroutines on 1-3 nodes register and unregister actors of a type with a limit of 1-4, or unique per node; the number of live actors is watched all the time; " +
			"an outcome is the sequence of admissions and refusals"})
	reg(Scenario{Prop: "C13", Name: "sequential", Quick: 1200, Thorough: 40000, Run: runLimitsSeq,
		Rule: "a random sequence of registrations and unregistrations on 1-3 nodes, each compared with a model of both limits, with the store and the actor lists compared after refusals"})
	reg(Scenario{Prop: "C14", Name: "histories", Quick: 800, Thorough: 25000, Run: func(c *Case) { runDirectory(c, "C14") },
		Rule: "random histories of 5-40 registrations (some of them failing at a chosen store command, some concurrent), unregistrations and node exits on 1-3 nodes; after each step every lookup on every node " +
			"and the raw store are compared with a model"})
	reg(Scenario{Prop: "C15", Name: "weights", Quick: 800, Thorough: 25000, Run: func(c *Case) { runDirectory(c, "C15") },
		Rule: "the same histories, with random weights; node weights in the store, low-weight choice and wildcard choice are compared with a model"})
	reg(Scenario{Prop: "C16", Name: "leave", Quick: 1000, Thorough: 30000, Run: runLeave,
		Rule: "a node with up to 24 actors, of types with and without weight, leaves while senders on it and on other nodes keep its actors busy; the store is compared key by key with what the others should have left in it"})
	// the same with a store that takes its time: what happens between two commands of one operation
	for _, v := range []Scenario{
		{Prop: "C12", Name: "races-slow-store", Quick: 80, Thorough: 3000, Run: runIDRounds},
		{Prop: "C12", Name: "churn-slow-store", Quick: 160, Thorough: 6000, Run: runIDChurn},
		{Prop: "C13", Name: "concurrent-slow-store", Quick: 160, Thorough: 6000, Run: runLimits},
		{Prop: "C14", Name: "histories-slow-store", Quick: 60, Thorough: 2000, Run: func(c *Case) { runDirectory(c, "C14") }},
		{Prop: "C15", Name: "weights-slow-store", Quick: 60, Thorough: 2000, Run: func(c *Case) { runDirectory(c, "C15") }},
		{Prop: "C16", Name: "leave-slow-store", Quick: 80, Thorough: 3000, Run: runLeave},
	} {
		v.Mode, v.Lag = Real, 3*time.Millisecond
		v.Rule = "the same in real time, with every command of the nodes taking up to 3 ms on its way to the store"
		reg(v)
	}
}

// record returns what the directory says about an id.
func (r *Redis) record(id string) string {
	s, _ := r.Obs.HGet(context.Background(), def.RedisAddressbookIDField, id).Result()
	return s
}

func runIDRounds(c *Case) {
	r := c.NewRedis()
	who := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		w.Res.Body = []byte(fmt.Sprint(p.No))
		return nil
	}
	types := Types{"t": {Weight: 3, Events: map[string]Handler{"who": who}, Init: func(p *Probe, ctx context.Context) {
		if c.Seed%3 == 0 {
			time.Sleep(time.Millisecond) // a constructor may take its time
		}
	}}, "t2": {Weight: 2, Events: map[string]Handler{"who": who}}, "u": {Weight: 1, Events: map[string]Handler{"who": who}}}
	n := c.Node("n1", types, NodeOpt{})
	stop := make(chan struct{})
	var bg sync.WaitGroup
	if c.pick(2) == 0 {
		// other ids
		bg.Add(1)
		go func() {
			defer bg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				case <-time.After(300 * time.Microsecond):
				}
				id := fmt.Sprint("bg", i%3)
				if p, err := n.Spawn(id, "u"); err != nil || p == nil {
					c.Fail("other-id", "registering another id failed: %v", err)
				}
				n.Sys.Unregister(id, "u")
			}
		}()
	}
	for round := 0; round < 2+c.pick(3); round++ {
		k := 1 + c.pick(6)
		type res struct {
			p   *Probe
			ty  string
			err error
		}
		results := make([]res, k)
		var wg sync.WaitGroup
		two := c.pick(3) == 0
		for i := 0; i < k; i++ {
			rr := c.Rand()
			ty := "t"
			if two && c.pick(2) == 0 {
				ty = "t2"
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				yield(rr)
				if rr.Intn(3) == 0 {
					time.Sleep(time.Duration(rr.Intn(1500)) * time.Microsecond)
				}
				p, err := n.Spawn("x", ty)
				results[i] = res{p, ty, err}
			}()
		}
		wg.Wait()
		var win *Probe
		var winTy string
		wins := 0
		for _, x := range results {
			if x.err == nil {
				win, winTy = x.p, x.ty
				wins++
			} else {
				c.Check(errors.Is(x.err, core.ErrActorRegisterRepeat), "repeat-error", "a registration of a taken id failed with %v", x.err)
			}
		}
		if !c.Check(wins == 1, "winners", "%d of %d concurrent registrations of one id succeeded in round %d", wins, k, round) {
			return
		}
		check := func(when string) {
			a, err := n.Sys.FindActor(context.Background(), "x")
			c.Check(err == nil && a != nil && a.(*probeActor).Probe == win, "find", "%s: FindActor returned %v, %v", when, a, err)
			cnt := 0
			for _, a := range n.Sys.Actors() {
				if a.ID() == "x" {
					cnt++
					c.Check(a.(*probeActor).Probe == win, "listed", "%s: another instance is listed", when)
				}
			}
			c.Check(cnt == 1, "listed", "%s: the actor is listed %d times", when, cnt)
			w := newMsg()
			err = n.Sys.Call("x", "t", "who", w)
			c.Check(err == nil && w.Err == nil && string(w.Res.Body) == fmt.Sprint(win.No), "call", "%s: a call by id reached %s, %v, %v, registered is %d", when, w.Res.Body, err, w.Err, win.No)
			rec := r.record("x")
			c.Check(strings.Contains(rec, `"x"`) && strings.Contains(rec, `"n1"`), "record", "%s: the directory entry is %q", when, rec)
			info, err := n.Sys.AddressBook().GetByID(context.Background(), "x")
			c.Check(err == nil && info.ActorId == "x" && info.Node == "n1", "lookup", "%s: directory lookup %+v, %v", when, info, err)
		}
		check("after the registrations")
		if _, err := n.Spawn("x", "t"); err == nil || !errors.Is(err, core.ErrActorRegisterRepeat) {
			c.Fail("repeat-error", "another registration returned %v", err)
		}
		check("after one more refused registration")
		u := 1 + c.pick(3)
		for i := 0; i < u; i++ {
			rr := c.Rand()
			wg.Add(1)
			go func() {
				defer wg.Done()
				yield(rr)
				if err := n.Sys.Unregister("x", winTy); err != nil {
					c.Fail("unregister", "unregister failed: %v", err)
				}
				// this one has returned, so it is gone, whatever the others do
				if _, err := n.Sys.FindActor(context.Background(), "x"); err == nil {
					c.Fail("gone-find", "FindActor finds the actor after an unregister has returned")
				}
				for _, a := range n.Sys.Actors() {
					if a.ID() == "x" {
						c.Fail("gone-listed", "the actor is listed after an unregister has returned")
					}
				}
				w := newMsg()
				if err := n.Sys.Call("x", "t", "who", w); err == nil {
					c.Fail("gone-call", "a call by id succeeds after an unregister has returned: %s", w.Res.Body)
				}
			}()
		}
		wg.Wait()
		rec := r.record("x")
		c.Check(rec == "", "gone-record", "the directory still has %q after the unregistration", rec)
		_, err := n.Sys.AddressBook().GetByID(context.Background(), "x")
		c.Check(err != nil, "gone-lookup", "the directory lookup still succeeds")
		which := 0
		for i, x := range results {
			if x.p == win {
				which = i
			}
		}
		c.Sig(round, k, u, which)
		c.N("rounds", 1)
		c.Sample("%d concurrent registrations, number %d won, %d concurrent unregistrations", k, which, u)
	}
	close(stop)
	bg.Wait()
}

func runIDChurn(c *Case) {
	r := c.NewRedis()
	who := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		w.Res.Body = []byte(fmt.Sprint(p.No))
		return nil
	}
	slow := c.pick(3) * 700
	var rmu sync.Mutex
	rx := c.Rand()
	n := c.Node("n1", Types{"t": {Weight: 1 + c.pick(3), Events: map[string]Handler{"who": who}, Exit: func(p *Probe) {
		rmu.Lock()
		d := time.Duration(rx.Intn(slow+1)) * time.Microsecond
		rmu.Unlock()
		time.Sleep(d)
	}}}, NodeOpt{})
	var mu sync.Mutex
	var all []*Probe
	var log []string
	var wg sync.WaitGroup
	for g := 0; g < 2+c.pick(4); g++ {
		rr := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2+rr.Intn(4); j++ {
				yield(rr)
				if rr.Intn(3) == 0 {
					time.Sleep(time.Duration(rr.Intn(800)) * time.Microsecond)
				}
				if rr.Intn(2) == 0 {
					err := n.Sys.Unregister("x", "t")
					c.Check(err == nil, "unregister", "unregister failed: %v", err)
					mu.Lock()
					log = append(log, "-")
					mu.Unlock()
					continue
				}
				p, err := n.Spawn("x", "t")
				mu.Lock()
				log = append(log, fmt.Sprint("+", err == nil))
				if err == nil {
					all = append(all, p)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var listed *Probe
	for _, a := range n.Sys.Actors() {
		c.Check(listed == nil, "listed", "an id is listed twice")
		listed = a.(*probeActor).Probe
	}
	for i, p := range all {
		if p == listed {
			c.Check(p.Exits.Load() == 0, "exited", "instance %d is listed after it was told to exit (%v)", i, log)
		} else {
			c.Check(p.Exits.Load() > 0, "leaked", "instance %d of %d is gone and was never told to exit (%v)", i, len(all), log)
		}
	}
	rec := r.record("x")
	c.Check((rec != "") == (listed != nil), "record", "listed: %v, and the directory has %q (%v)", listed != nil, rec, log)
	w := newMsg()
	err := n.Sys.Call("x", "t", "who", w)
	if listed != nil {
		c.Check(err == nil && w.Err == nil && string(w.Res.Body) == fmt.Sprint(listed.No), "call", "a call of the listed actor %d reached %s, %v, %v", listed.No, w.Res.Body, err, w.Err)
	} else {
		c.Check(err != nil, "ghost", "a call of an id that nobody holds reached %s", w.Res.Body)
	}
	cnt, err := n.Sys.AddressBook().GetActorTypeCount(context.Background(), "t")
	c.Check(err == nil && (cnt == 1) == (listed != nil) && cnt <= 1, "count", "listed: %v, counted %d, %v (%v)", listed != nil, cnt, err, log)
	c.N("instances", len(all))
	c.Sig(log)
	c.Sample("%v", log)
}

func runIDLookups(c *Case) {
	c.NewRedis()
	type span struct {
		regStart, regEnd, unregStart, unregEnd int64
		p                                      *Probe
	}
	type look struct {
		id         string
		begin, end int64
		op         string
		no         int64 // instance reached, 0 none
		err        string
	}
	who := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		w.Res.Body = []byte(fmt.Sprint(p.No))
		return nil
	}
	n := c.Node("n1", Types{"t": {Weight: 1, Events: map[string]Handler{"who": who}}}, NodeOpt{})
	k := 1 + c.pick(4)
	spans := make([][]*span, k)
	var mu sync.Mutex
	var looks []look
	var done atomic.Bool
	var wg, lg sync.WaitGroup
	for i := 0; i < k; i++ {
		rr := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			id := fmt.Sprint("x", i)
			for j := 0; j < 2+rr.Intn(6); j++ {
				s := &span{regStart: stamp()}
				p, err := n.Spawn(id, "t")
				s.regEnd = stamp()
				if err != nil {
					c.Fail("refused", "registering a free id failed: %v", err)
					return
				}
				s.p = p
				time.Sleep(time.Duration(rr.Intn(2500)) * time.Microsecond)
				yield(rr)
				s.unregStart = stamp()
				n.Sys.Unregister(id, "t")
				s.unregEnd = stamp()
				spans[i] = append(spans[i], s)
				time.Sleep(time.Duration(rr.Intn(1000)) * time.Microsecond)
			}
		}()
	}
	for i := 0; i < 1+c.pick(5); i++ {
		rr := c.Rand()
		lg.Add(1)
		go func() {
			defer lg.Done()
			for !done.Load() {
				id := fmt.Sprint("x", rr.Intn(k))
				l := look{id: id, begin: stamp(), op: []string{"find", "list", "call", "book"}[rr.Intn(4)]}
				switch l.op {
				case "find":
					a, err := n.Sys.FindActor(context.Background(), id)
					if err == nil {
						l.no = a.(*probeActor).No
					}
				case "list":
					for _, a := range n.Sys.Actors() {
						if a.ID() == id {
							l.no = a.(*probeActor).No
						}
					}
				case "call":
					w := newMsg()
					err := n.Sys.Call(id, "t", "who", w)
					if err == nil && w.Err == nil {
						fmt.Sscan(string(w.Res.Body), &l.no)
					} else {
						l.err = fmt.Sprint(err, w.Err)
					}
				case "book":
					info, err := n.Sys.AddressBook().GetByID(context.Background(), id)
					if err == nil && info.ActorId == id {
						l.no = -1
					}
				}
				l.end = stamp()
				mu.Lock()
				looks = append(looks, l)
				mu.Unlock()
				if rr.Intn(2) == 0 {
					time.Sleep(time.Duration(rr.Intn(400)) * time.Microsecond)
				}
				yield(rr)
			}
		}()
	}
	wg.Wait()
	done.Store(true)
	lg.Wait()
	for _, l := range looks {
		var i int
		fmt.Sscan(l.id[1:], &i)
		verdict := "open"
		prevEnd := int64(0)
		for _, s := range spans[i] {
			if l.begin > s.regEnd && l.end < s.unregStart {
				verdict = "in"
				c.Check(l.no == s.p.No || l.no == -1, "lost:"+l.op, "%s of a registered actor reached %d (%s), registered is %d", l.op, l.no, l.err, s.p.No)
			}
			if l.begin > prevEnd && l.end < s.regStart {
				verdict = "out"
				c.Check(l.no == 0, "ghost:"+l.op, "%s of an id that is not registered reached %d", l.op, l.no)
			}
			prevEnd = s.unregEnd
		}
		if l.begin > prevEnd {
			verdict = "out"
			c.Check(l.no == 0, "ghost:"+l.op, "%s of an id that is not registered reached %d", l.op, l.no)
		}
		c.N("lookups "+verdict, 1)
		c.Sig(l.op, verdict, l.no != 0, len(spans[i]))
	}
	c.Sample("%d lookups of %d ids", len(looks), k)
}

// ---- C13

func runLimits(c *Case) {
	r := c.NewRedis()
	nn := 1 + c.pick(3)
	limit, pre := 1+c.pick(4), 0
	if c.pick(5) == 0 {
		pre = 5 + c.pick(25)
		limit = pre + c.pick(5)
	}
	unique := c.pick(2) == 0
	types := func() Types { return Types{"lim": {Weight: 2, Limit: limit}, "uni": {Weight: 1, Unique: true}} }
	var nodes []*Node
	for i := 0; i < nn; i++ {
		nodes = append(nodes, c.Node(fmt.Sprint("n", i), types(), NodeOpt{Ip: fmt.Sprintf("127.0.0.%d", i+1)}))
	}
	var live atomic.Int64
	liveUni := make([]atomic.Int64, nn)
	var succ, refused atomic.Int64
	var mu sync.Mutex
	var log []string
	var wg sync.WaitGroup
	// an attempt takes its place at most from the call of Register until the end of Unregister, or until it is refused
	type place struct {
		ty         string
		n          int
		from, to   int64
		registered int64 // end of Register
		ok         bool
	}
	var places []*place
	for i := 0; i < pre; i++ {
		if nodes[i%nn].Must(c, fmt.Sprint("pre", i), "lim") == nil {
			return
		}
		live.Add(1)
		succ.Add(1)
		places = append(places, &place{ty: "lim", n: i % nn, to: 1 << 62, ok: true})
	}
	for g := 0; g < 1+c.pick(8); g++ {
		rr := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			type own struct {
				id, ty string
				n      int
				p      *place
			}
			var mine []own
			for j := 0; j < 3+rr.Intn(8); j++ {
				yield(rr)
				if len(mine) > 0 && rr.Intn(2) == 0 {
					o := mine[0]
					mine = mine[1:]
					if o.ty == "lim" {
						live.Add(-1)
					} else {
						liveUni[o.n].Add(-1)
					}
					nodes[o.n].Sys.Unregister(o.id, o.ty)
					o.p.to = stamp()
					continue
				}
				o := own{fmt.Sprintf("a%d-%d", g, j), "lim", rr.Intn(nn), nil}
				if unique && rr.Intn(2) == 0 {
					o.ty = "uni"
				}
				o.p = &place{ty: o.ty, n: o.n, from: stamp(), to: 1 << 62}
				_, err := nodes[o.n].Spawn(o.id, o.ty)
				o.p.registered, o.p.ok = stamp(), err == nil
				if err != nil {
					o.p.to = o.p.registered
				}
				mu.Lock()
				places = append(places, o.p)
				log = append(log, fmt.Sprint(o.ty, o.n, err == nil))
				mu.Unlock()
				if err != nil {
					refused.Add(1)
					continue
				}
				succ.Add(1)
				mine = append(mine, o)
				if o.ty == "lim" {
					k := live.Add(1)
					c.Check(k <= int64(limit), "limit", "%d actors of a type limited to %d are registered", k, limit)
				} else {
					k := liveUni[o.n].Add(1)
					c.Check(k <= 1, "unique", "%d actors of a type that is unique per node are registered on node %d", k, o.n)
				}
			}
		}()
	}
	wg.Wait()
	for _, p := range places {
		if p.ok {
			continue
		}
		// the most places that can have been taken at one moment of the refused registration
		max := 0
		at := []int64{p.from}
		var others []*place
		for _, o := range places {
			// whether several nodes that compete for the last places all get a refusal is left open
			if o == p || o.ty != p.ty || o.to < p.from || o.from > p.to || p.ty == "uni" && o.n != p.n || !o.ok && (nn == 1 || p.ty == "uni") {
				continue
			}
			others = append(others, o)
			if o.from > p.from {
				at = append(at, o.from)
			}
		}
		for _, x := range at {
			k := 0
			for _, o := range others {
				if o.from <= x && x <= o.to {
					k++
				}
			}
			if k > max {
				max = k
			}
		}
		free := limit
		if p.ty == "uni" {
			free = 1
		}
		c.N("refusals judged", 1)
		c.Check(max >= free, "refused-below", "a registration of type %s (limit %d) on node %d of %d was refused although at most %d places were taken at any moment of it", p.ty, free, p.n, nn, max)
	}
	built := int64(0)
	for _, n := range nodes {
		built += n.Types["lim"].Built.Load() + n.Types["uni"].Built.Load()
	}
	c.Check(built == succ.Load(), "constructed", "%d actors were constructed, %d registrations succeeded", built, succ.Load())
	cnt, err := nodes[0].Sys.AddressBook().GetActorTypeCount(context.Background(), "lim")
	c.Check(err == nil && cnt == live.Load(), "count", "the directory counts %d actors, %d are registered (%v)", cnt, live.Load(), err)
	uni := int64(0)
	for i := range liveUni {
		uni += liveUni[i].Load()
	}
	total := 0
	for _, n := range nodes {
		total += len(n.Sys.Actors())
	}
	c.Check(int64(total) == live.Load()+uni, "list", "%d actors are listed, %d are registered", total, live.Load()+uni)
	// its place is free again: one sequential registration succeeds exactly if there is room
	_, err = nodes[c.pick(nn)].Spawn("last", "lim")
	c.Check((err == nil) == (live.Load() < int64(limit)), "room", "with %d of %d actors registered one more registration returned %v", live.Load(), limit, err)
	c.N("admitted", int(succ.Load()))
	c.N("refused", int(refused.Load()))
	c.Sig(limit, unique, nn, log)
	c.Sample("limit %d, unique type %v, %d nodes: %v", limit, unique, nn, log)
	_ = r
}

func runLimitsSeq(c *Case) {
	r := c.NewRedis()
	nn := 1 + c.pick(3)
	limit, pre := 1+c.pick(4), 0
	if c.pick(5) == 0 {
		pre = 5 + c.pick(25)
		limit = pre + c.pick(5)
	}
	both := c.pick(3) == 0 && pre == 0
	mk := func() Types {
		return Types{"lim": {Weight: 2, Limit: limit, Unique: both}, "uni": {Weight: 1, Unique: true}, "free": {Weight: 1}}
	}
	var nodes []*Node
	for i := 0; i < nn; i++ {
		nodes = append(nodes, c.Node(fmt.Sprint("n", i), mk(), NodeOpt{Ip: fmt.Sprintf("127.0.0.%d", i+1)}))
	}
	type own struct {
		ty string
		n  int
	}
	model := map[string]own{}
	count := func(ty string, n int) int {
		k := 0
		for _, o := range model {
			if o.ty == ty && (n < 0 || o.n == n) {
				k++
			}
		}
		return k
	}
	var log []string
	for i := 0; i < pre; i++ {
		id := fmt.Sprint("pre", i)
		if nodes[i%nn].Must(c, id, "lim") == nil {
			return
		}
		model[id] = own{"lim", i % nn}
	}
	for j := 0; j < 5+c.pick(25); j++ {
		if len(model) > 0 && c.pick(3) == 0 {
			ids := keys(model)
			id := ids[c.pick(len(ids))]
			o := model[id]
			if err := nodes[o.n].Sys.Unregister(id, o.ty); err != nil {
				c.Fail("unregister", "unregister failed: %v", err)
			}
			delete(model, id)
			log = append(log, "-"+o.ty)
			continue
		}
		ty, n := []string{"lim", "lim", "uni", "free"}[c.pick(4)], c.pick(nn)
		id := fmt.Sprint("a", j)
		if c.pick(6) == 0 && len(model) > 0 {
			ids := keys(model)
			id = ids[c.pick(len(ids))] // taken
			n = model[id].n
		}
		_, taken := model[id]
		ok := !taken
		if ty == "lim" && count("lim", -1) >= limit || (ty == "uni" || ty == "lim" && both) && count(ty, n) >= 1 {
			ok = false
		}
		before := r.Dump()
		built := nodes[n].Types[ty].Built.Load()
		listed := len(nodes[n].Sys.Actors())
		_, err := nodes[n].Spawn(id, ty)
		desc := fmt.Sprintf("registering %s of type %s (limit %d, unique as well: %v) on node %d with %d of the type registered, %d there: %v", id, ty, limit, both, n, count(ty, -1), count(ty, n), err)
		if !c.Check((err == nil) == ok, "admission", "%s", desc) {
			return
		}
		log = append(log, fmt.Sprintf("+%s:%v", ty, ok))
		if ok {
			model[id] = own{ty, n}
			c.Check(nodes[n].Types[ty].Built.Load() == built+1, "constructed", "%s: %d constructions", desc, nodes[n].Types[ty].Built.Load()-built)
		} else {
			d := diffDump(before, r.Dump())
			c.Check(d == "", "effect", "%s: the store changed: %s", desc, d)
			c.Check(nodes[n].Types[ty].Built.Load() == built && len(nodes[n].Sys.Actors()) == listed, "effect", "%s: an actor was constructed or listed", desc)
			c.N("refused", 1)
		}
	}
	c.Sig(limit, both, nn, log)
	c.Sample("%v", log)
}

func keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- C14, C15

type dirActor struct {
	ty     string
	n      int
	weight int
}

func runDirectory(c *Case, prop string) {
	r := c.NewRedis()
	ctx := context.Background()
	nn := 1 + c.pick(3)
	nt := 1 + c.pick(3)
	tys := []string{"t", "tt", "actor:t"}[:nt] // names that contain one another
	weights, limits := map[string]int{}, map[string]int{}
	for _, ty := range tys {
		weights[ty] = c.pick(50)
		if c.pick(3) == 0 {
			limits[ty] = 100000 // none that matters
		}
	}
	var inInit atomic.Pointer[func()]
	names := []string{"n", "n1", "n:2"}[:nn]
	mkTypes := func() Types {
		out := Types{}
		for _, ty := range tys {
			out[ty] = &Type{Weight: weights[ty], Limit: limits[ty], Init: func(p *Probe, _ context.Context) {
				if f := inInit.Load(); f != nil {
					(*f)()
				}
			}}
		}
		return out
	}
	nodes := make([]*Node, nn)
	known := map[string]bool{} // nodes that have registered something since they (re)started
	start := func(i int) {
		nodes[i] = c.Node(names[i], mkTypes(), NodeOpt{Ip: fmt.Sprintf("127.0.0.%d", i+1)})
	}
	for i := range nodes {
		start(i)
	}
	model := map[string]dirActor{}
	var hist []string
	serial := 0
	verify := func() bool {
		h := strings.Join(hist, " ")
		type key struct {
			n  int
			ty string
		}
		byTy, wTy, wTot := map[string][]string{}, map[key]int{}, map[int]int{}
		for id, a := range model {
			byTy[a.ty] = append(byTy[a.ty], id)
			wTy[key{a.n, a.ty}] += a.weight
			wTot[a.n] += a.weight
		}
		for i, n := range nodes {
			book := n.Sys.AddressBook()
			if prop == "C14" {
				for k := 0; k < serial; k++ {
					id := fmt.Sprint("a", k)
					a, live := model[id]
					info, err := book.GetByID(ctx, id)
					if !live {
						if !c.Check(err != nil, "ghost", "node %s still finds %s: %+v\n%s", names[i], id, info, h) {
							return false
						}
						continue
					}
					if !c.Check(err == nil && info.ActorId == id && info.Node == names[a.n] && info.Ip == nodes[a.n].Ip && info.Port == nodes[a.n].Port && (info.ActorTy == a.ty || a.n == i),
						"by-id", "node %s looks up %s of type %s on %s: %+v, %v\n%s", names[i], id, a.ty, names[a.n], info, err, h) {
						return false
					}
				}
				for _, ty := range append([]string{"no such type", ""}, tys...) {
					infos, err := book.GetByType(ctx, ty)
					cnt, err2 := book.GetActorTypeCount(ctx, ty)
					var got []string
					for _, x := range infos {
						got = append(got, x.ActorId)
						a := model[x.ActorId]
						if !c.Check(x.ActorTy == ty && a.ty == ty && x.Node == names[a.n] && x.Ip == nodes[a.n].Ip && x.Port == nodes[a.n].Port, "by-type", "node %s lists %+v under type %q, it is %+v\n%s", names[i], x, ty, a, h) {
							return false
						}
					}
					want := append([]string{}, byTy[ty]...)
					sort.Strings(got)
					sort.Strings(want)
					if !c.Check(err == nil && err2 == nil && fmt.Sprint(got) == fmt.Sprint(want) && int(cnt) == len(want), "by-type", "node %s lists %v (%d) under type %q, live are %v (%v, %v)\n%s", names[i], got, cnt, ty, want, err, err2, h) {
						return false
					}
				}
				var listed, want []string
				for _, a := range n.Sys.Actors() {
					listed = append(listed, a.ID())
				}
				for id, a := range model {
					if a.n == i {
						want = append(want, id)
					}
				}
				sort.Strings(listed)
				sort.Strings(want)
				if !c.Check(fmt.Sprint(listed) == fmt.Sprint(want), "live", "node %s has the actors %v, expected %v\n%s", names[i], listed, want, h) {
					return false
				}
				continue
			}
			// C15
			hash := r.Obs.HGetAll(ctx, "{node:"+names[i]+"}").Val()
			for _, ty := range tys {
				got := 0
				fmt.Sscan(hash["actor:"+ty], &got)
				if !c.Check(got == wTy[key{i, ty}], "type-weight", "node %s has weight %d recorded for type %q, its actors weigh %d\n%s", names[i], got, ty, wTy[key{i, ty}], h) {
					return false
				}
			}
			tot := 0
			fmt.Sscan(hash["total_weight"], &tot)
			if !c.Check(tot == wTot[i], "total-weight", "node %s has a total weight of %d recorded, its actors weigh %d\n%s", names[i], tot, wTot[i], h) {
				return false
			}
			// choices
			low, err := book.GetLowWeightNodeForActor(ctx, tys[c.pick(nt)])
			min, any := 0, false
			for j := range nodes {
				if known[names[j]] && (!any || wTot[j] < min) {
					min, any = wTot[j], true
				}
			}
			if !any {
				c.Check(err != nil, "low", "a low weight node is found among none: %+v\n%s", low, h)
			} else {
				j := index(names, low.Node)
				if !c.Check(err == nil && j >= 0 && known[names[j]] && wTot[j] == min && low.Ip == nodes[j].Ip && low.Port == nodes[j].Port, "low", "low weight node is %+v, %v; weights %v of %v\n%s", low, err, wTot, known, h) {
					return false
				}
			}
			ty := tys[c.pick(nt)]
			info, err := book.(*addressbook.AddressBook).GetWildcardActor(ctx, ty)
			if len(byTy[ty]) == 0 {
				c.Check(err != nil, "wildcard", "wildcard lookup of type %q finds %+v among none\n%s", ty, info, h)
				continue
			}
			a, live := model[info.ActorId]
			if !c.Check(err == nil && live && a.ty == ty && info.ActorTy == ty && info.Node == names[a.n] && info.Ip == nodes[a.n].Ip, "wildcard", "wildcard lookup of type %q finds %+v, %v\n%s", ty, info, err, h) {
				return false
			}
			if len(byTy[ty]) <= addressbook.PickLimit {
				for _, id := range byTy[ty] {
					c.Check(wTot[a.n] <= wTot[model[id].n], "wildcard-weight", "wildcard lookup of type %q chose %s on a node of weight %d although %s is on one of weight %d\n%s", ty, info.ActorId, wTot[a.n], id, wTot[model[id].n], h)
				}
			}
		}
		return true
	}
	steps := 5 + c.pick(36)
	if prop == "C14" && c.pick(30) == 0 { // a crowd
		steps = 3 + c.pick(3)
		i, ty, n := c.pick(nn), tys[c.pick(nt)], 20+c.pick(250)
		for ; n > 0; n-- {
			id := fmt.Sprint("a", serial)
			serial++
			if _, err := nodes[i].Spawn(id, ty); !c.Check(err == nil, "register", "registering failed: %v", err) {
				return
			}
			model[id] = dirActor{ty, i, weights[ty]}
		}
		known[names[i]] = true
		hist = append(hist, fmt.Sprintf("%d:%s@%s", serial, ty, names[i]))
		c.N("crowds", 1)
	}
	for s := 0; s < steps && !c.Failed(); s++ {
		ids := keys(model)
		switch x := c.pick(15); {
		case x < 6 || len(ids) == 0: // register
			i, ty := c.pick(nn), tys[c.pick(nt)]
			id := fmt.Sprint("a", serial)
			serial++
			_, err := nodes[i].Spawn(id, ty)
			known[names[i]] = true
			hist = append(hist, fmt.Sprintf("+%s:%s@%s", id, ty, names[i]))
			if !c.Check(err == nil, "register", "registering failed: %v\n%s", err, strings.Join(hist, " ")) {
				return
			}
			model[id] = dirActor{ty, i, weights[ty]}
		case x < 9: // unregister
			id := ids[c.pick(len(ids))]
			a := model[id]
			nodes[a.n].Sys.Unregister(id, a.ty)
			delete(model, id)
			hist = append(hist, "-"+id)
			if c.pick(4) == 0 { // again
				nodes[c.pick(nn)].Sys.Unregister(id, a.ty)
				hist = append(hist, "-"+id)
			}
		case x == 9: // a registration that fails in the store
			i, ty := c.pick(nn), tys[c.pick(nt)]
			id := fmt.Sprint("a", serial)
			serial++
			at, once := c.pick(5), false
			cnt := 0
			r.Hook(func(cmd string, args []string) string {
				switch cmd {
				case "HSET", "SADD", "HINCRBY":
					if cnt++; cnt == at+1 && !once {
						once = true
						return "ERR injected"
					}
				}
				return ""
			})
			_, err := nodes[i].Spawn(id, ty)
			r.Hook(nil)
			hist = append(hist, fmt.Sprintf("!%s:%s@%s(%d)", id, ty, names[i], at))
			c.N("failed registrations", 1)
			if !c.Check(err != nil, "swallowed", "a registration whose store command %d failed succeeded\n%s", at, strings.Join(hist, " ")) {
				return
			}
			if !known[names[i]] {
				// whether the undone registration leaves the node itself behind is open
				inNodes, _ := r.Obs.HExists(ctx, def.RedisAddressbookNodesField, names[i]).Result()
				hasWeight, _ := r.Obs.HExists(ctx, "{node:"+names[i]+"}", "total_weight").Result()
				known[names[i]] = inNodes && hasWeight
			}
		case x == 14: // the context of a registration ends before it, at a store command or while the actor initialises itself
			i, ty := c.pick(nn), tys[c.pick(nt)]
			id := fmt.Sprint("a", serial)
			serial++
			at, cnt := c.pick(9), 0
			ctx, cancel := context.WithCancel(ctx)
			var f func() = cancel
			if at == 7 {
				inInit.Store(&f)
			} else if at == 8 {
				cancel()
			}
			r.Hook(func(cmd string, args []string) string {
				if cmd != "HELLO" && cmd != "CLIENT" {
					if cnt++; cnt == at+1 {
						cancel()
					}
				}
				return ""
			})
			_, err := nodes[i].Sys.Loader(ty).WithID(id).Register(ctx)
			r.Hook(nil)
			inInit.Store(nil)
			cancel()
			hist = append(hist, fmt.Sprintf("~%s:%s@%s(%d %v)", id, ty, names[i], at, err == nil))
			if err == nil {
				model[id] = dirActor{ty, i, weights[ty]}
				known[names[i]] = true
			} else if !known[names[i]] {
				inNodes, _ := r.Obs.HExists(context.Background(), def.RedisAddressbookNodesField, names[i]).Result()
				hasWeight, _ := r.Obs.HExists(context.Background(), "{node:"+names[i]+"}", "total_weight").Result()
				known[names[i]] = inNodes && hasWeight
			}
			c.N("registrations whose context ended", 1)
		case x == 10: // concurrent registrations and unregistrations
			var wg sync.WaitGroup
			var mu sync.Mutex
			k := 2 + c.pick(4)
			gone, added := map[string]bool{}, map[string]dirActor{}
			for g := 0; g < k; g++ {
				rr := c.Rand()
				if g%2 == 1 && len(ids) > 0 {
					id := ids[rr.Intn(len(ids))]
					if gone[id] {
						continue
					}
					gone[id] = true
					a := model[id]
					delete(model, id)
					for h := 0; h < 1+rr.Intn(2); h++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							nodes[a.n].Sys.Unregister(id, a.ty)
						}()
					}
					hist = append(hist, "||-"+id)
					continue
				}
				i, ty := rr.Intn(nn), tys[rr.Intn(nt)]
				id := fmt.Sprint("a", serial)
				serial++
				known[names[i]] = true
				hist = append(hist, fmt.Sprintf("||+%s:%s@%s", id, ty, names[i]))
				for h := 0; h < 1+rr.Intn(3); h++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if _, err := nodes[i].Spawn(id, ty); err == nil {
							mu.Lock()
							added[id] = dirActor{ty, i, weights[ty]}
							mu.Unlock()
						}
					}()
				}
			}
			wg.Wait()
			for id, a := range added {
				model[id] = a
			}
		case x == 11 && len(ids) > 0: // a repeated registration, refused
			id := ids[c.pick(len(ids))]
			a := model[id]
			_, err := nodes[a.n].Spawn(id, tys[c.pick(nt)])
			hist = append(hist, "="+id)
			if !c.Check(err != nil, "repeat", "a registered id was registered once more\n%s", strings.Join(hist, " ")) {
				return
			}
		case x == 12 && nn > 1: // a node leaves and comes back
			i := c.pick(nn)
			nodes[i].Exit()
			for id, a := range model {
				if a.n == i {
					delete(model, id)
				}
			}
			known[names[i]] = false
			hist = append(hist, "exit:"+names[i])
			start(i)
		case x == 13: // an actor of a node is unregistered through another node's directory, as maintenance does
			id := ids[c.pick(len(ids))]
			a := model[id]
			if nn == 1 {
				continue
			}
			j := (a.n + 1) % nn
			if c.pick(4) == 0 { // for somebody who stops waiting
				at, cnt := c.pick(5), 0
				ctx, cancel := context.WithCancel(ctx)
				r.Hook(func(cmd string, args []string) string {
					if cnt++; cnt == at+1 {
						cancel()
					}
					return ""
				})
				err := nodes[j].Sys.AddressBook().Unregister(ctx, id, weights[a.ty])
				r.Hook(nil)
				cancel()
				hist = append(hist, fmt.Sprintf("~-%s@%s(%d %v)", id, names[j], at, err == nil))
			} else if c.pick(2) == 0 {
				err := nodes[j].Sys.AddressBook().Unregister(ctx, id, weights[a.ty])
				hist = append(hist, fmt.Sprintf("-%s@%s", id, names[j]))
				if !c.Check(err == nil, "unregister", "the directory of %s did not remove %s: %v\n%s", names[j], id, err, strings.Join(hist, " ")) {
					return
				}
			}
			nodes[a.n].Sys.Unregister(id, a.ty)
			delete(model, id)
			hist = append(hist, "-"+id)
			if c.pick(2) == 0 {
				break
			}
			// the id moves to another node
			if _, err := nodes[j].Spawn(id, a.ty); !c.Check(err == nil, "move", "registering a free id failed: %v\n%s", err, strings.Join(hist, " ")) {
				return
			}
			known[names[j]] = true
			model[id] = dirActor{a.ty, j, weights[a.ty]}
			hist = append(hist, fmt.Sprintf("+%s@%s", id, names[j]))
		}
		if !verify() {
			return
		}
		c.Sig(len(model), fmt.Sprint(known), s)
	}
	// everything is unregistered: back to nothing
	for id, a := range model {
		nodes[a.n].Sys.Unregister(id, a.ty)
		delete(model, id)
	}
	hist = append(hist, "-all")
	verify()
	c.N("steps", steps)
	c.Sig(hist)
	c.Sample("%s", strings.Join(hist, " "))
}

func index(ss []string, s string) int {
	for i, x := range ss {
		if x == s {
			return i
		}
	}
	return -1
}

// ---- C16

func runLeave(c *Case) {
	r := c.NewRedis()
	var handled sync.Map
	var running atomic.Int64
	h := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		running.Add(1)
		defer running.Add(-1)
		if len(w.Req.Body) > 0 {
			time.Sleep(time.Duration(w.Req.Body[0]) * 100 * time.Microsecond)
		}
		if _, dup := handled.LoadOrStore(w.Req.Header.ID, true); dup {
			c.Fail("twice", "a message was handled twice")
		}
		return nil
	}
	tys := []string{"t", "t2", "actor:t"}
	weights := []int{3, 4, 5}
	if c.pick(3) == 0 {
		weights[c.pick(3)] = 0
	}
	many := c.pick(6) == 0
	mk := func() Types {
		out := Types{}
		for i, ty := range tys {
			out[ty] = &Type{Weight: weights[i], Events: map[string]Handler{"x": h}}
		}
		return out
	}
	nn := 2 + c.pick(2)
	names := []string{"n1", "n12", "n"}
	var nodes []*Node
	type rec struct {
		n  int
		ty string
	}
	actors := map[string]rec{}
	shared := c.pick(3) == 0 // two nodes are known by one address, as when an instance replaces another one under a new name
	for i := 0; i < nn; i++ {
		ip := i + 1
		if shared {
			ip = min(ip, 2)
			if nn == 2 {
				ip = 1
			}
		}
		nodes = append(nodes, c.Node(names[i], mk(), NodeOpt{Ip: fmt.Sprintf("127.0.0.%d", ip)}))
	}
	// what the others leave in the store, without the node that goes
	leaver := c.pick(nn)
	build := func(skip bool) {
		for i := range nodes {
			na := 1 + int(mix(c.Seed, uint64(i))%8)
			if many && i == leaver {
				na += 16
			}
			for k := 0; k < na; k++ {
				ty := tys[mix(c.Seed, uint64(i), uint64(k))%3]
				id := fmt.Sprintf("a%d-%d", i, k)
				if (i == leaver) == skip {
					continue
				}
				nodes[i].Must(c, id, ty)
				actors[id] = rec{i, ty}
			}
		}
	}
	build(true) // only the others
	want := r.Dump()
	build(false)
	if c.pick(3) == 0 {
		// some of it has been unregistered before
		ids := keys(actors)
		for i := 0; i < 2; i++ {
			id := ids[c.pick(len(ids))]
			if a, ok := actors[id]; ok && a.n == leaver {
				nodes[leaver].Sys.Unregister(id, a.ty)
				delete(actors, id)
			}
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	accepted, toLeaver := map[string]bool{}, map[string]bool{}
	ids := keys(actors)
	for g := 0; g < 1+c.pick(5); g++ {
		rr := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 5+rr.Intn(20); j++ {
				id := ids[rr.Intn(len(ids))]
				a := actors[id]
				w := newMsg()
				w.Req.Body = []byte{byte(rr.Intn(30))}
				mid := w.Req.Header.ID
				var err error
				if rr.Intn(3) == 0 {
					err = nodes[a.n].Sys.Call(id, a.ty, "x", w)
				} else {
					err = nodes[a.n].Sys.Send(id, a.ty, "x", w)
				}
				mu.Lock()
				accepted[mid] = err == nil
				toLeaver[mid] = a.n == leaver
				mu.Unlock()
				if a.n != leaver && err != nil {
					c.Fail("other", "a message to an actor of another node failed: %v", err)
				}
				if rr.Intn(3) == 0 {
					time.Sleep(time.Duration(rr.Intn(1500)) * time.Microsecond)
				}
			}
		}()
	}
	time.Sleep(time.Duration(c.pick(10000)) * time.Microsecond)
	if !within(5*time.Minute, nodes[leaver].Exit) {
		c.Fail("blocked", "the node's exit did not end within 5 minutes")
		return
	}
	mu.Lock()
	for mid, ok := range accepted {
		if ok && toLeaver[mid] {
			_, done := handled.Load(mid)
			c.Check(done, "unfinished", "the node's exit is over, but a message that one of its actors had accepted is not handled")
		}
	}
	mu.Unlock()
	for id, a := range actors {
		if a.n != leaver {
			continue
		}
		// from any other node
		w := newMsg()
		other := nodes[(leaver+1)%nn]
		start := time.Now()
		err := other.Sys.Call(id, a.ty, "x", w)
		c.Check(err != nil && time.Since(start) < 2*callTimeout, "reached", "a call to a former actor of the node that left: %v, message error %v, after %v", err, w.Err, time.Since(start))
		c.Check(other.Sys.Send(id, a.ty, "x", newMsg()) != nil, "reached", "a send to a former actor of the node that left succeeded")
		// the directory knows nothing
		for _, n := range nodes {
			info, err := n.Sys.AddressBook().GetByID(context.Background(), id)
			c.Check(err != nil, "listed", "a directory on node %s still has %+v", n.Name, info)
		}
	}
	d := diffDump(want, r.Dump())
	c.Check(d == "", "store", "the store after node %s left differs from what the others put into it:\n%s", names[leaver], d)
	wg.Wait()
	if c.S.Mode == Real {
		time.Sleep(500 * time.Millisecond)
	} else {
		time.Sleep(10 * time.Second)
	}
	n, rej := 0, 0
	for id, ok := range accepted {
		_, done := handled.Load(id)
		c.Check(done == ok, "work", "a message: accepted %v, handled %v", ok, done)
		if ok {
			n++
		} else {
			rej++
		}
	}
	// wildcard routing finds the others only
	for _, ty := range tys {
		others := 0
		for _, a := range actors {
			if a.n != leaver && a.ty == ty {
				others++
			}
		}
		cnt, err := nodes[(leaver+1)%nn].Sys.AddressBook().GetActorTypeCount(context.Background(), ty)
		c.Check(err == nil && int(cnt) == others, "count", "%d actors of the type are counted, %d are left (%v)", cnt, others, err)
	}
	c.N("accepted", n)
	c.N("rejected", rej)
	c.Sig(nn, leaver, len(actors), n, rej)
	c.Sample("%d nodes, %d actors, %d messages accepted, %d rejected around the exit of %s", nn, len(actors), n, rej, names[leaver])
}

var _ = rand.Int
