package mon

import (
	"context"
	"fmt"
	"reflect"
	"sync"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
)

func init() {
	reg(Scenario{Prop: "C28", Name: "program", Quick: 2500, Thorough: 100000, Run: runBuilders,
		Rule: "up to 60 steps over 2-4 types with 0-4 options and up to 10 builders of them: build, set an id, a type or an option, read, register; everything read after every step; an outcome is the program"})
	reg(Scenario{Prop: "C28", Name: "concurrent", Quick: 1200, Thorough: 40000, Races: true, Hot: true, Run: runBuildersParallel,
		Rule: "2-8 goroutines do such steps on builders of the same types, each on its own, and up to 4 set and read options of one shared builder"})
}

// bmodel is what a builder must look like.
type bmodel struct {
	b    core.IActorBuilder
	id   string
	ty   string
	home string // the type that it was made for
	opts map[string]string
	act  []*bactor
}

type bactor struct {
	p         *Probe
	id, ty    string
	own       *bmodel
	seen      map[string]string // by the constructor and Init
	seenMatch map[string]string
}

func copyMap(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (m *bmodel) check(c *Case, when string, cons *core.ActorConstructor) {
	b := m.b
	c.Check(b.GetID() == m.id && b.GetType() == m.ty, "identity", "%s: a builder of %s has the id %q and type %q, expected %q and %q", when, m.home, b.GetID(), b.GetType(), m.id, m.ty)
	got := copyMap(b.GetOptions())
	c.Check(reflect.DeepEqual(got, m.opts), "options", "%s: a builder of %s (id %s) has the options %v, expected %v", when, m.home, m.id, got, m.opts)
	for _, k := range optKeys {
		c.Check(b.GetOpt(k) == m.opts[k], "option", "%s: a builder of %s (id %s) has %q for the option %s, expected %q", when, m.home, m.id, b.GetOpt(k), k, m.opts[k])
	}
	c.Check(b.GetWeight() == cons.Weight && b.GetNodeUnique() == cons.NodeUnique && b.GetGlobalQuantityLimit() == cons.GlobalQuantityLimit, "settings",
		"%s: a builder of %s has weight %d, unique %v, limit %d; the template has %d, %v, %d", when, m.home, b.GetWeight(), b.GetNodeUnique(), b.GetGlobalQuantityLimit(), cons.Weight, cons.NodeUnique, cons.GlobalQuantityLimit)
}

var optKeys = []string{"a", "b", "c", "d", "e", ""}

// template is a copy of a constructor, to see whether it stays as it is.
type template struct {
	cons core.ActorConstructor
	opts map[string]string
}

func builderTypes(c *Case) (Types, func(p *Probe) map[string]string) {
	ts := Types{}
	var mu sync.Mutex
	seen := map[int64]map[string]string{}
	for i := 0; i < 2+c.pick(3); i++ {
		t := &Type{Weight: 1 + c.pick(5), Limit: []int{0, 100}[c.pick(2)]}
		if n := c.pick(5); n > 0 || c.pick(2) == 0 {
			t.Opts = map[string]string{}
			for ; n > 0; n-- {
				t.Opts[optKeys[c.pick(4)]] = fmt.Sprint("t", c.pick(100))
			}
		}
		t.Init = func(p *Probe, ctx context.Context) {
			o := copyMap(p.Builder.GetOptions())
			o["id"], o["ty"] = p.Builder.GetID(), p.Builder.GetType()
			mu.Lock()
			seen[p.No] = o
			mu.Unlock()
		}
		t.Events = map[string]Handler{"opt": func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
			w.Res.Body = []byte(p.ID() + "/" + p.Builder.GetOpt(string(w.Req.Body)))
			return nil
		}}
		ts[fmt.Sprint("T", i)] = t
	}
	return ts, func(p *Probe) map[string]string {
		mu.Lock()
		defer mu.Unlock()
		return seen[p.No]
	}
}

func templates(n *Node) map[string]template {
	out := map[string]template{}
	for ty, ac := range n.Cons {
		out[ty] = template{*ac, copyMap(ac.Options)}
	}
	return out
}

func checkTemplates(c *Case, when string, n *Node, was map[string]template) {
	for ty, w := range was {
		ac := n.Cons[ty]
		same := ac.ID == w.cons.ID && ac.Name == w.cons.Name && ac.Weight == w.cons.Weight && ac.NodeUnique == w.cons.NodeUnique &&
			ac.GlobalQuantityLimit == w.cons.GlobalQuantityLimit && ac.Dynamic == w.cons.Dynamic && reflect.DeepEqual(copyMap(ac.Options), w.opts)
		c.Check(same, "template", "%s: the template of %s is %+v, it was %+v with the options %v", when, ty, *ac, w.cons, w.opts)
	}
}

// builderStep does one step on a builder of ms, or makes one, and returns what it did.
func builderStep(c *Case, pick func(int) int, n *Node, tag string, ms *[]*bmodel, seen func(*Probe) map[string]string, max int) string {
	if len(*ms) == 0 || len(*ms) < max && pick(5) == 0 {
		ty := fmt.Sprint("T", pick(len(n.Cons)))
		b := n.Sys.Loader(ty)
		*ms = append(*ms, &bmodel{b: b, id: n.Cons[ty].ID, ty: ty, home: ty, opts: copyMap(n.Types[ty].Opts)})
		return "new " + ty
	}
	m := (*ms)[pick(len(*ms))]
	ret := core.IActorBuilder(nil)
	did := ""
	switch k := pick(12); {
	case k < 6:
		key, val := optKeys[pick(len(optKeys))], fmt.Sprint(tag, pick(1000))
		if pick(8) == 0 {
			val = ""
		}
		ret = m.b.WithOpt(key, val)
		m.opts[key] = val
		did = fmt.Sprintf("%s: WithOpt(%s,%s)", m.home, key, val)
	case k < 8:
		m.id = fmt.Sprint(tag, "id", pick(1000000))
		ret = m.b.WithID(m.id)
		did = m.home + ": WithID " + m.id
	case k < 9:
		m.ty = fmt.Sprint("T", pick(len(n.Cons)))
		ret = m.b.WithType(m.ty)
		did = m.home + ": WithType " + m.ty
	case k < 10:
		m.b.GetOpt(optKeys[pick(len(optKeys))])
		return "read"
	default:
		m.id = fmt.Sprint(tag, "act", pick(1000000))
		m.b.WithID(m.id)
		a, err := m.b.Register(context.Background())
		if err != nil {
			c.Fail("register", "registering %s of %s: %v", m.id, m.ty, err)
			return "failed"
		}
		p := a.(*probeActor).Probe
		was := copyMap(m.opts)
		was["id"], was["ty"] = m.id, m.ty
		m.act = append(m.act, &bactor{p: p, id: m.id, ty: m.ty, own: m, seen: seen(p), seenMatch: was})
		did = m.home + ": Register " + m.id
	}
	if ret != nil {
		c.Check(ret == m.b, "chained", "%s returned another builder", did)
	}
	return did
}

func checkActors(c *Case, when string, ms []*bmodel) {
	for _, m := range ms {
		for _, a := range m.act {
			c.Check(a.p.ID() == a.id && a.p.Type() == a.ty, "actor", "%s: the actor registered as %s of type %s is %s of type %s", when, a.id, a.ty, a.p.ID(), a.p.Type())
			c.Check(reflect.DeepEqual(a.seen, a.seenMatch), "actor", "%s: when it was built the actor %s saw %v, its builder had %v", when, a.id, a.seen, a.seenMatch)
		}
	}
}

func runBuilders(c *Case) {
	c.NewRedis()
	ts, seen := builderTypes(c)
	n := c.Node("n1", ts, NodeOpt{})
	was := templates(n)
	var ms []*bmodel
	prog := ""
	steps := 5 + c.pick(56)
	for i := 0; i < steps && !c.Failed(); i++ {
		did := builderStep(c, c.pick, n, fmt.Sprint("s", i, "_"), &ms, seen, 10)
		prog += did + ";"
		for _, m := range ms {
			m.check(c, did, n.Cons[m.home])
		}
		checkTemplates(c, did, n, was)
		checkActors(c, did, ms)
	}
	// what the actors see when they handle something
	acts := 0
	for _, m := range ms {
		for _, a := range m.act {
			acts++
			for _, k := range optKeys {
				w := newMsg()
				w.Req.Body = []byte(k)
				err := n.Sys.Call(a.id, a.ty, "opt", w)
				c.Check(err == nil && string(w.Res.Body) == a.id+"/"+m.opts[k], "handler", "the actor %s reads %q for the option %q, its builder has %q (%v)", a.id, w.Res.Body, k, m.opts[k], err)
			}
		}
	}
	// and one built at last looks like the template
	for ty := range n.Cons {
		m := &bmodel{b: n.Sys.Loader(ty), id: was[ty].cons.ID, ty: ty, home: ty, opts: was[ty].opts}
		m.check(c, "at the end", n.Cons[ty])
	}
	c.Check(n.Sys.Loader("none") == nil, "unknown", "there is a builder of a type that does not exist")
	c.N("steps", steps)
	c.N("builders", len(ms))
	c.N("actors", acts)
	c.Sig(prog)
	c.Sample("%d steps, %d builders, %d actors", steps, len(ms), acts)
}

func runBuildersParallel(c *Case) {
	c.NewRedis()
	ts, seen := builderTypes(c)
	n := c.Node("n1", ts, NodeOpt{})
	was := templates(n)
	G := 2 + c.pick(7)
	all := make([][]*bmodel, G)
	var wg sync.WaitGroup
	steps := 3 + c.pick(25)
	for g := 0; g < G; g++ {
		g, r := g, c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < steps; i++ {
				did := builderStep(c, r.Intn, n, fmt.Sprint("g", g, "s", i, "_"), &all[g], seen, 4)
				yield(r)
				for _, m := range all[g] {
					m.check(c, "concurrently, "+did, n.Cons[m.home])
				}
				if r.Intn(4) == 0 {
					checkTemplates(c, "concurrently", n, was)
				}
			}
		}()
	}
	// one builder that several set options of, as they are protected by a lock
	shared := n.Sys.Loader("T0")
	k := c.pick(5)
	want := copyMap(was["T0"].opts)
	for g := 0; g < k; g++ {
		g, r := g, c.Rand()
		for i := 0; i < 5; i++ {
			want[fmt.Sprint("k", g, "_", i)] = fmt.Sprint(i)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5; i++ {
				key := fmt.Sprint("k", g, "_", i)
				shared.WithOpt(key, fmt.Sprint(i))
				c.Check(shared.GetOpt(key) == fmt.Sprint(i), "shared", "the option %s has %q after it was set to %d", key, shared.GetOpt(key), i)
				for key, v := range shared.GetOptions() {
					_ = key + v
				}
				yield(r)
			}
		}()
	}
	wg.Wait()
	acts := 0
	for g := range all {
		for _, m := range all[g] {
			m.check(c, "at the end", n.Cons[m.home])
			acts += len(m.act)
		}
		checkActors(c, "at the end", all[g])
	}
	c.Check(reflect.DeepEqual(copyMap(shared.GetOptions()), want), "shared", "the shared builder has the options %v, expected %v", shared.GetOptions(), want)
	checkTemplates(c, "at the end", n, was)
	c.N("goroutines", G+k)
	c.N("actors", acts)
	sig := ""
	for g := range all {
		for _, m := range all[g] {
			sig += fmt.Sprint(m.id, m.ty, len(m.opts), ";")
		}
	}
	c.Sig(sig)
}
