package mon

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojol/braid/lib/dismutex"
)

func init() {
	reg(Scenario{Prop: "C22", Name: "contend", Quick: 400, Thorough: 20000, Run: runLockContend,
		Rule: "2-6 contenders lock 1-3 tokens several times each, hold them for 0 to 16 s (beyond the expiry), unlock with the right value, a wrong one or not at all, while some store " +
			"commands fail; an outcome is the order of the acquisitions and results"})
	reg(Scenario{Prop: "C22", Name: "sequence", Quick: 600, Thorough: 30000, Run: runLockSequence, NoNoise: true,
		Rule: "10-30 steps of locking, unlocking with right, wrong, stale, empty and foreign values, and passing time, on 1-3 tokens, each compared with a model and the store"})
}

// ttl makes the store's expiry follow the (virtual) clock, in steps of 100 ms.
func (c *Case) ttl(r *Redis) {
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		t := time.NewTicker(100 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-t.C:
				r.M.FastForward(100 * time.Millisecond)
			case <-stop:
				return
			}
		}
	}()
	c.Defer(func() { close(stop); <-done })
}

const lockStep = 100 * time.Millisecond

func runLockContend(c *Case) {
	r := c.NewRedis()
	c.ttl(r)
	t0 := time.Now()
	ctx := context.Background()
	type hold struct {
		who        int
		token      string
		value      string
		start, got time.Duration // Lock called, Lock returned
		s0, s1     int64
		free       time.Duration // Unlock called, or a day
		freed      bool
	}
	nTok, nCon := 1+c.pick(3), 2+c.pick(5)
	var mu sync.Mutex
	var holds []*hold
	var hist []string
	faults := c.pick(3) == 0
	lag := time.Duration(0)
	if c.pick(2) == 0 {
		lag = r.Lag(c.R.Uint64(), time.Duration(1+c.pick(400))*time.Millisecond)
		if c.pick(2) == 0 {
			lag = r.Lag(c.R.Uint64(), time.Duration(1+c.pick(4000))*time.Millisecond)
			nTok = 1
		}
	}
	if faults {
		seed := c.R.Uint64()
		var no atomic.Uint64
		r.Hook(func(cmd string, args []string) string {
			if mix(seed, no.Add(1))%5 == 0 {
				return "ERR injected"
			}
			return ""
		})
	}
	var wg sync.WaitGroup
	for g := 0; g < nCon; g++ {
		rr := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine []string
			for i := 0; i < 1+rr.Intn(5); i++ {
				time.Sleep(time.Duration(rr.Intn(3000)) * time.Millisecond)
				token := fmt.Sprint("lock", rr.Intn(nTok))
				h := &hold{who: g, token: token, start: time.Since(t0), s0: stamp()}
				v, err := dismutex.Lock(ctx, token)
				h.got, h.s1, h.value = time.Since(t0), stamp(), v
				c.Check(h.got-h.start <= (dismutex.Tries+1)*(dismutex.Delay*time.Millisecond+3*lag)+time.Second, "bounded", "Lock took %v", h.got-h.start)
				mu.Lock()
				hist = append(hist, fmt.Sprintf("%d:%s:%v", g, token, err == nil))
				if err != nil {
					mu.Unlock()
					c.Check(v == "", "value", "Lock failed with %v and returned the value %q", err, v)
					continue
				}
				h.free = 24 * time.Hour
				holds = append(holds, h)
				mu.Unlock()
				time.Sleep([]time.Duration{0, time.Duration(rr.Intn(2000)) * time.Millisecond, time.Duration(rr.Intn(16000)) * time.Millisecond, dismutex.Expiry - lag/2 - time.Duration(rr.Intn(600))*time.Millisecond}[rr.Intn(4)])
				// a wrong value does not unlock
				if rr.Intn(2) == 0 {
					wrong := []string{"", "x", v + " ", strings.ToLower(v), token}
					wrong = append(wrong, mine...)
					w := wrong[rr.Intn(len(wrong))]
					if w != v {
						c.Check(!dismutex.Unlock(ctx, token, w), "wrong-value", "Unlock with %q, which is not the holder's value %q, returned true", w, v)
					}
				}
				// a value does not unlock another token
				if rr.Intn(3) == 0 && nTok > 1 {
					for k := 0; k < nTok; k++ {
						if o := fmt.Sprint("lock", k); o != token {
							c.Check(!dismutex.Unlock(ctx, o, v), "wrong-token", "Unlock of %s with the value of %s returned true", o, token)
						}
					}
				}
				mine = append(mine, v)
				if rr.Intn(5) == 0 {
					continue // forgotten
				}
				now := time.Since(t0)
				mu.Lock()
				h.free = now
				mu.Unlock()
				ok := dismutex.Unlock(ctx, token, v)
				mu.Lock()
				h.freed = ok
				mu.Unlock()
				if !faults && now < h.start+dismutex.Expiry-lockStep-4*lag {
					c.Check(ok, "holder", "Unlock by the holder, %v after its Lock began, returned false", now-h.start)
				}
				if now > h.got+dismutex.Expiry+lockStep {
					c.Check(!ok, "expired", "Unlock %v after the Lock, which expires after %v, returned true", now-h.got, dismutex.Expiry)
				}
				c.Check(!dismutex.Unlock(ctx, token, v) || !ok, "again", "a second Unlock with the same value returned true")
			}
		}()
	}
	wg.Wait()
	values := map[string]bool{}
	for i, a := range holds {
		c.Check(a.value != "" && !values[a.value], "unique", "the value %q was given out before", a.value)
		values[a.value] = true
		aEnd := min(a.free, a.start+dismutex.Expiry-lockStep)
		for _, b := range holds[:i] {
			if a.token != b.token {
				continue
			}
			bEnd := min(b.free, b.start+dismutex.Expiry-lockStep)
			// a surely has it during [got, aEnd), so b's Lock must not return within it having begun after a's returned, or vice versa
			over := a.got < bEnd && b.got < aEnd
			c.Check(!over, "exclusive", "%s was held by contender %d at [%v, %v) and by contender %d at [%v, %v)\n%s", a.token, a.who, a.got, aEnd, b.who, b.got, bEnd, strings.Join(hist, " "))
		}
	}
	c.N("acquisitions", len(holds))
	c.Sig(hist)
	c.Sample("%s", strings.Join(hist, " "))
}

func runLockSequence(c *Case) {
	r := c.NewRedis()
	c.ttl(r)
	t0 := time.Now()
	ctx := context.Background()
	type held struct {
		value string
		until time.Duration
	}
	toks := [][]string{{"a", "b", "{node:a}"}, {"a", "A", "a "}, {"a", " a", "a\x00"}, {strings.Repeat("k", 300), strings.Repeat("k", 299), "k"}, {"a:b", "a", "b"}}[c.pick(5)][:1+c.pick(3)]
	model := map[string]held{}
	var past []string
	var hist []string
	now := func() time.Duration { return time.Since(t0) }
	var sets atomic.Int64
	var failing atomic.Bool
	r.Hook(func(cmd string, args []string) string {
		if cmd == "SET" || cmd == "SETNX" {
			sets.Add(1)
		}
		if failing.Load() {
			return "ERR injected"
		}
		return ""
	})
	time.Sleep(50 * time.Millisecond)
	for s := 0; s < 10+c.pick(20) && !c.Failed(); s++ {
		tok := toks[c.pick(len(toks))]
		// no step happens close to an expiry
		for again := true; again; {
			again = false
			for _, h := range model {
				if d := h.until - now(); d > -300*time.Millisecond && d < 300*time.Millisecond {
					time.Sleep(700 * time.Millisecond)
					again = true
				}
			}
		}
		for t, h := range model {
			if h.until < now() {
				delete(model, t)
			}
		}
		h, taken := model[tok]
		before := r.Dump()
		switch x := c.pick(10); {
		case x < 4:
			failing.Store(c.pick(8) == 0)
			sets.Store(0)
			start := now()
			v, err := dismutex.Lock(ctx, tok)
			took, n := now()-start, sets.Load()
			hist = append(hist, fmt.Sprintf("lock %s=%v", tok, err == nil))
			desc := fmt.Sprintf("Lock of %s took %v and %d commands: %q, %v; it is held %v, until %v from then\n%s", tok, took, n, v, err, taken, h.until-start, strings.Join(hist, " "))
			switch {
			case failing.Load():
				c.Check(err != nil && v == "" && n <= dismutex.Tries+1, "fault", "the store fails. %s", desc)
				failing.Store(false)
			case !taken:
				if !c.Check(err == nil && v != "" && took < 100*time.Millisecond, "free", "%s", desc) {
					return
				}
				c.Check(index(past, v) < 0, "unique", "%s", desc)
				past = append(past, v)
				model[tok] = held{v, start + dismutex.Expiry}
			case err == nil:
				// it expired while this waited
				if !c.Check(start+took > h.until-lockStep, "exclusive", "%s", desc) {
					return
				}
				past = append(past, v)
				model[tok] = held{v, start + took + dismutex.Expiry}
			default:
				c.Check(v == "" && n <= dismutex.Tries+1 && took <= (dismutex.Tries+1)*dismutex.Delay*time.Millisecond, "bounded", "%s", desc)
				if h.until-start > 4*time.Second {
					for t := range model {
						if model[t].until < now()+300*time.Millisecond {
							delete(before, t)
						}
					}
					for k, w := range before {
						if g := r.Dump()[k]; g != w && k == tok {
							c.Fail("untouched", "a Lock that failed changed the lock to %q. %s", g, desc)
						}
					}
				}
			}
		case x < 7:
			vals := append([]string{"", "x", h.value, h.value, h.value, h.value + "x"}, past...)
			for _, o := range model {
				vals = append(vals, o.value)
			}
			v := vals[c.pick(len(vals))]
			ok := dismutex.Unlock(ctx, tok, v)
			want := taken && v == h.value
			hist = append(hist, fmt.Sprintf("unlock %s=%v", tok, ok))
			after := r.Dump()
			if !c.Check(ok == want, "unlock", "Unlock of %s with %q: %v; it is held %v with %q\n%s", tok, v, ok, taken, h.value, strings.Join(hist, " ")) {
				return
			}
			if want {
				delete(model, tok)
				delete(before, tok)
			}
			c.Check(diffDump(before, after) == "", "unlock-effect", "Unlock of %s with %q (%v) changed the store:\n%s", tok, v, ok, diffDump(before, after))
		case x == 7:
			_, err := dismutex.Lock(ctx, "")
			c.Check(err != nil, "empty", "Lock of an empty token succeeded")
			hist = append(hist, "lock-empty")
		case x == 8:
			cc, cancel := context.WithCancel(ctx)
			cancel()
			v, err := dismutex.Lock(cc, tok)
			hist = append(hist, "lock-cancelled")
			if _, set := r.Dump()[tok]; !taken && set {
				c.Check(err == nil, "cancelled", "Lock with an ended context failed with %v, and left the lock taken", err)
				model[tok] = held{v, now() + dismutex.Expiry}
			} else {
				c.Check(err != nil, "cancelled", "Lock of a taken lock, or without effect, succeeded")
			}
		default:
			time.Sleep(time.Duration(c.pick(12000)) * time.Millisecond)
			hist = append(hist, "wait")
		}
	}
	c.N("steps", len(hist))
	c.Sig(hist)
	c.Sample("%s", strings.Join(hist, " "))
}
