package mon

import (
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
)

func init() {
	reg(Scenario{Prop: "C08", Name: "future", Quick: 16000, Thorough: 600000, Races: true, Hot: true, Limit: 10 * time.Minute, Run: runFuture,
		Rule: "a tree of futures: 1-4 concurrent completions of the root (and sometimes of a derived future), Then attached before, " +
			"during and after from up to 4 goroutines and from inside callbacks, chains up to 6; an outcome is which completion won, " +
			"how many callbacks were attached before it, and the order of the callbacks"})
}

type fnode struct {
	f        core.IFuture
	parent   *fnode
	id       int
	depth    int
	runs     atomic.Int32
	result   atomic.Pointer[msg.Wrapper]
	started  atomic.Int64 // stamps
	finished atomic.Int64
	slow     int
}

func runFuture(c *Case) {
	root := actor.NewFuture()
	type comp struct {
		w          *msg.Wrapper
		begin, end atomic.Int64
	}
	comps := make([]*comp, 1+c.pick(4))
	for i := range comps {
		comps[i] = &comp{w: newMsg()}
	}
	var mu sync.Mutex
	var nodes []*fnode
	inner := func(int) {}
	block := make(chan struct{})
	var blocked atomic.Bool
	kind := func(r *rand.Rand) int {
		if k := r.Intn(20); k < 18 {
			return k % 3
		}
		return 3
	}
	attach := func(parent core.IFuture, pn *fnode, slow int) *fnode {
		n := &fnode{parent: pn, slow: slow}
		if pn != nil {
			n.depth = pn.depth + 1
		}
		mu.Lock()
		n.id = len(nodes)
		nodes = append(nodes, n)
		mu.Unlock()
		f := parent.Then(func(mw *msg.Wrapper) {
			n.started.Store(stamp())
			if !parent.IsCompleted() {
				c.Fail("early", "a callback runs, and IsCompleted of its future is false")
			}
			if n.runs.Add(1) == 1 {
				n.result.Store(mw)
			}
			switch n.slow {
			case 1:
				time.Sleep(3 * time.Millisecond)
			case 2:
				runtime.Gosched()
			case 3: // for long
				blocked.Store(true)
				<-block
			}
			if n.slow == 2 && n.depth < 2 {
				inner(0)
			}
			n.finished.Store(stamp())
		})
		mu.Lock()
		n.f = f
		mu.Unlock()
		return n
	}
	inner = func(slow int) { attach(root, nil, slow) }
	var wg sync.WaitGroup
	var observed atomic.Bool
	stopObs := make(chan struct{})
	wg.Add(1)
	go func() {
		defer wg.Done()
		seen := false
		for i := 0; ; i++ {
			now := root.IsCompleted()
			if seen && !now {
				c.Fail("uncompleted", "IsCompleted was true and then false")
				return
			}
			seen = now
			observed.Store(seen)
			select {
			case <-stopObs:
				return
			default:
				time.Sleep(time.Millisecond)
			}
		}
	}()
	// prefix: some Then before anything else
	for i := c.pick(4); i > 0; i-- {
		attach(root, nil, kind(c.R))
	}
	before := len(nodes)
	spread := time.Duration(c.pick(3)) * time.Millisecond
	for _, cp := range comps {
		wg.Add(1)
		cp := cp
		d := time.Duration(c.R.Int63n(int64(spread) + 1))
		go func() {
			defer wg.Done()
			if d > 0 {
				time.Sleep(d)
			}
			cp.begin.Store(stamp())
			root.Complete(cp.w)
			cp.end.Store(stamp())
			if !root.IsCompleted() {
				c.Fail("complete-incomplete", "a future is not completed although Complete has returned")
			}
		}()
	}
	for g := c.pick(4); g >= 0; g-- {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := r.Intn(4); k > 0; k-- {
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				}
				var n *fnode
				mu.Lock()
				var pick *fnode
				if len(nodes) > 0 && r.Intn(2) == 0 {
					pick = nodes[r.Intn(len(nodes))]
					if pick.f == nil || pick.depth > 6 {
						pick = nil
					}
				}
				mu.Unlock()
				if pick != nil {
					n = attachSafe(attach, pick, kind(r))
				} else {
					n = attachSafe(attach, nil, kind(r), root)
				}
				// a chain behind it
				for d := r.Intn(4); d > 0 && n != nil; d-- {
					n = attachSafe(attach, n, kind(r))
				}
			}
		}()
	}
	time.Sleep(20 * time.Millisecond)
	close(stopObs)
	wg.Wait()
	settle()
	if blocked.Load() {
		mu.Lock()
		for _, n := range nodes {
			behind := false
			for p := n.parent; p != nil; p = p.parent {
				behind = behind || p.slow == 3
			}
			if !behind {
				c.Check(n.runs.Load() == 1, "held-up", "callback %d ran %d times while another callback took long", n.id, n.runs.Load())
			}
		}
		mu.Unlock()
	}
	close(block)
	if blocked.Load() {
		settle()
	}
	// after everything
	late := attach(root, nil, 0)
	attach(late.f, late, 0)
	settle()
	mu.Lock()
	defer mu.Unlock()

	c.N("callbacks", len(nodes))
	c.N("completions", len(comps))
	c.Check(root.IsCompleted(), "incomplete", "the future is not completed after Complete returned")
	first := late.result.Load()
	win := -1
	for i, cp := range comps {
		if cp.w == first {
			win = i
		}
	}
	if !c.Check(win >= 0, "result", "the result is none of the completions: %p", first) {
		return
	}
	for i, cp := range comps {
		if i != win && cp.end.Load() < comps[win].begin.Load() {
			c.Check(false, "not-first", "completion %d had returned before completion %d, which won, began", i, win)
		} else {
			c.Check(true, "", "")
		}
	}
	for _, n := range nodes {
		c.Check(n.runs.Load() == 1, "runs", "callback %d (depth %d, chain length %d) ran %d times", n.id, n.depth, len(nodes), n.runs.Load())
		c.Check(n.result.Load() == first, "other-result", "callback %d saw another result", n.id)
		if n.runs.Load() == 1 {
			c.Check(n.f.IsCompleted(), "then-incomplete", "the future Then returned (depth %d) is not completed after its callback", n.depth)
			if n.parent != nil {
				c.Check(n.parent.finished.Load() > 0 && n.parent.finished.Load() < n.started.Load(), "chain-order",
					"callback %d ran before the one it was chained to had ended", n.id)
			}
		}
	}
	sorted := append([]*fnode{}, nodes...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i].started.Load() < sorted[j].started.Load() })
	order := []int{}
	for _, n := range sorted {
		order = append(order, n.id)
	}
	c.Sig(win, before, len(nodes), len(comps), order)
	c.Sample("%d completions, number %d won; %d callbacks, %d attached before; every one ran once with that result", len(comps), win, len(nodes), before)
}

func attachSafe(attach func(core.IFuture, *fnode, int) *fnode, p *fnode, slow int, root ...core.IFuture) *fnode {
	if p == nil {
		return attach(root[0], nil, slow)
	}
	return attach(p.f, p, slow)
}
