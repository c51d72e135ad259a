package mon

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sync"
	"sync/atomic"
	"time"

	"github.com/opentracing/opentracing-go"
	"github.com/pojol/braid/lib/tracer"
	"github.com/uber/jaeger-client-go"
)

func init() {
	reg(Scenario{Prop: "C32", Name: "reporter", Quick: 1500, Thorough: 60000, Run: runReporter, Races: true, Limit: 5 * time.Hour,
		Rule: "1-6 goroutines finish 1-400 spans in bursts, with a sampling rate of 0, 1 or between, to a collector whose appends and flushes take 0-3 s and fail at random; the reporter is closed " +
			"once, twice or concurrently with reports; an outcome is the load, the collector and the numbers of spans delivered and dropped"})
	reg(Scenario{Prop: "C32", Name: "collector", Mode: Real, Quick: 80, Thorough: 2000, Run: runCollector,
		Rule: "a tracer as built by BuildWithOption, rates 0 and 1, with an HTTP collector that is slow or fails; 1-300 spans; closed; an outcome is the load and the number of spans posted"})
}

type repCounter struct{ n atomic.Int64 }

func (c *repCounter) Inc(n int64) { c.n.Add(n) }

type fakeTransport struct {
	c       *Case
	mu      sync.Mutex
	in      int
	touched int // without a lock: it is used by one goroutine at a time
	got     map[jaeger.SpanID]int
	order   []jaeger.SpanID
	closed  int
	dirty   bool // appended and not flushed
	flushes int
	slow    func() time.Duration
	fail    func() bool
}

func (t *fakeTransport) enter(what string) {
	t.touched++
	t.mu.Lock()
	t.in++
	t.c.Check(t.in == 1, "overlap", "the collector is used by two goroutines at a time (%s)", what)
	t.c.Check(t.closed == 0, "closed", "%s of a closed collector", what)
	d := t.slow()
	t.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
}

func (t *fakeTransport) leave() (int, error) {
	t.mu.Lock()
	t.in--
	f := t.fail()
	t.mu.Unlock()
	if f {
		return 1, errors.New("the collector fails")
	}
	return 0, nil
}

func (t *fakeTransport) Append(s *jaeger.Span) (int, error) {
	t.enter("append")
	id := s.SpanContext().SpanID()
	name, tags := s.OperationName(), s.Tags()
	t.c.Check(name == fmt.Sprint("op ", tags["n"]) && tags["same"] == name, "content", "a span arrives as %q with the tags %v", name, tags)
	t.mu.Lock()
	t.got[id]++
	t.order = append(t.order, id)
	t.dirty = true
	t.mu.Unlock()
	return t.leave()
}

func (t *fakeTransport) Flush() (int, error) {
	t.enter("flush")
	t.mu.Lock()
	t.dirty = false
	t.flushes++
	t.mu.Unlock()
	return t.leave()
}

func (t *fakeTransport) Close() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.closed++
	t.touched++
	t.c.Check(t.in == 0, "overlap", "the collector is closed while it is in use")
	t.c.Check(t.closed == 1, "closed twice", "the collector is closed %d times", t.closed)
	return nil
}

func runReporter(c *Case) {
	rr := c.Rand()
	rate := []float64{0, 1, 1, 1, float64(c.pick(100)) / 100}[c.pick(5)]
	speed := c.pick(5)
	failing := c.pick(3)
	tr := &fakeTransport{c: c, got: map[jaeger.SpanID]int{},
		slow: func() time.Duration {
			switch speed {
			case 1:
				return time.Duration(rr.Intn(20)) * time.Millisecond
			case 2:
				return time.Duration(rr.Intn(300)) * time.Millisecond
			case 3:
				if rr.Intn(30) == 0 {
					return time.Duration(rr.Intn(30)) * time.Second
				}
			}
			return 0
		},
		fail: func() bool { return failing > 0 && rr.Intn(3) < failing }}
	m := jaeger.NewNullMetrics()
	var dropped repCounter
	m.ReporterDropped = &dropped
	rep := tracer.NewSlowReporter(tr, m, rate)
	pool := c.pick(2) == 0
	jt, closer := jaeger.NewTracer("svc", jaeger.NewConstSampler(true), rep, jaeger.TracerOptions.PoolSpans(pool))
	var mu sync.Mutex
	reported := map[jaeger.SpanID]bool{} // sampled?
	var pending atomic.Int64
	sampler, _ := jaeger.NewProbabilisticSampler(rate)
	G := 1 + c.pick(6)
	load := c.pick(4)
	small := load == 0 // never more than 60 in all
	var closing atomic.Bool
	emit := func(g, i int, rr interface{ Intn(int) int }) {
		n := fmt.Sprint(g, ".", i)
		sp := jt.StartSpan("op " + n)
		sp.SetTag("n", n)
		sp.SetTag("same", "op "+n)
		id := sp.(*jaeger.Span).SpanContext().SpanID()
		s, _ := sampler.IsSampled(sp.(*jaeger.Span).SpanContext().TraceID(), "op")
		if rr.Intn(4) == 0 {
			time.Sleep(time.Duration(rr.Intn(10)) * time.Millisecond)
		}
		t := time.Now()
		sp.Finish()
		d := time.Since(t)
		c.Check(d == 0, "block", "reporting a span takes %v, the collector's speed is %d", d, speed)
		mu.Lock()
		if !closing.Load() {
			reported[id] = s
		}
		mu.Unlock()
		pending.Add(1)
	}
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		rr := c.Rand()
		total := 1 + rr.Intn(10)
		if !small {
			total = 1 + rr.Intn(400/G*load)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < total; i++ {
				emit(g, i, rr)
				switch rr.Intn(12) {
				case 0:
					time.Sleep(time.Duration(rr.Intn(100)) * time.Millisecond)
				case 1:
					if load < 3 && !small {
						time.Sleep(time.Duration(rr.Intn(3000)) * time.Millisecond)
					}
				}
			}
		}()
	}
	during := c.pick(3) == 0
	if !during {
		wg.Wait()
		if c.pick(2) == 0 {
			time.Sleep(time.Duration(c.pick(20000)) * time.Millisecond)
		}
		if c.pick(2) == 0 && speed < 2 {
			// what was reported a while ago has reached the collector, and not only its buffer
			time.Sleep(20 * time.Second)
			tr.mu.Lock()
			c.Check(!tr.dirty, "periodic flush", "spans were appended, and not flushed although nothing was reported for 20 s")
			tr.mu.Unlock()
		}
	} else {
		time.Sleep(time.Duration(c.pick(2000)) * time.Millisecond)
	}
	mu.Lock()
	closing.Store(true)
	// a report may have been made and not yet noted: it may be delivered, too
	mu.Unlock()
	var cw sync.WaitGroup
	ways := c.pick(4)
	deliveredAt := func(where string) {
		tr.mu.Lock()
		defer tr.mu.Unlock()
		missing := 0
		for id, s := range reported {
			if s && tr.got[id] == 0 {
				missing++
			}
		}
		c.Check(int64(missing) <= dropped.n.Load(), "lost", "%d sampled spans of %d are neither delivered nor counted as dropped (%d are) %s; delivered %d, rate %v, speed %d", missing, len(reported), dropped.n.Load(), where, len(tr.order), rate, speed)
		c.Check(!tr.dirty, "flush", "spans were appended and not flushed %s", where)
		c.Check(tr.closed == 1, "close", "the collector is closed %d times %s", tr.closed, where)
	}
	done := within(time.Hour, func() {
		switch ways {
		case 0, 1:
			closer.Close()
			deliveredAt("after the reporter was closed")
		case 2:
			rep.Close()
			deliveredAt("after the reporter was closed")
			rep.Close()
			closer.Close()
		case 3:
			for k := 0; k < 3; k++ {
				cw.Add(1)
				go func() { defer cw.Done(); rep.Close() }()
			}
			cw.Wait()
			deliveredAt("after three concurrent closings")
		}
	})
	if !c.Check(done, "stuck", "closing the reporter takes more than an hour; %d spans reported, speed %d", len(reported), speed) {
		return
	}
	if !within(time.Hour, wg.Wait) {
		c.Fail("block", "reporting spans does not return after the reporter was closed")
		return
	}
	time.Sleep(time.Minute)
	tr.mu.Lock()
	defer tr.mu.Unlock()
	sampled := 0
	for id, s := range reported {
		if s {
			sampled++
		}
		n := tr.got[id]
		c.Check(n <= 1, "twice", "a span was handed to the collector %d times", n)
		c.Check(s || n == 0, "sampled", "a span that is not sampled (rate %v) was handed to the collector", rate)
	}
	for id, n := range tr.got {
		c.Check(n <= 1, "twice", "a span was handed to the collector %d times", n)
		if !during {
			_, ok := reported[id]
			c.Check(ok, "unknown", "the collector got a span that nobody reported")
		}
	}
	if !during {
		d := int(dropped.n.Load())
		c.Check(d <= len(reported)-len(tr.order), "dropped", "%d of %d spans were delivered, %d are counted as dropped", len(tr.order), len(reported), d)
		if rate == 1 {
			c.Check(len(tr.order)+d == len(reported) && sampled == len(reported), "count", "%d spans were reported, %d delivered, %d counted as dropped", len(reported), len(tr.order), d)
		}
		if rate == 0 {
			c.Check(len(tr.order) == 0, "rate", "%d spans were delivered with a rate of 0", len(tr.order))
		}
		if small {
			c.Check(d == 0 && len(tr.order) == sampled, "small", "%d spans, %d of them sampled; %d are delivered, %d counted as dropped: the queue cannot have been full", len(reported), sampled, len(tr.order), d)
		}
	}
	c.N("spans reported", int(pending.Load()))
	c.N("spans delivered", len(tr.order))
	c.N("spans dropped", int(dropped.n.Load()))
	c.Sig(rate, speed, failing, G, len(reported), len(tr.order), dropped.n.Load(), ways, during)
	c.Sample("rate %v, speed %d, failing %d, %d goroutines: %d reported, %d delivered, %d dropped, %d flushes; closing %d, during reports %v", rate, speed, failing, G, len(reported), len(tr.order), dropped.n.Load(), tr.flushes, ways, during)
}

func runCollector(c *Case) {
	var posts, bad atomic.Int64
	rr := c.Rand()
	var mu sync.Mutex
	slow, failing := c.pick(3) == 0, c.pick(3) == 0
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		d, f := rr.Intn(4), failing && rr.Intn(2) == 0
		mu.Unlock()
		if slow {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		if len(b) == 0 {
			bad.Add(1)
		}
		posts.Add(1)
		if f {
			w.WriteHeader(500)
		}
	}))
	defer s.Close()
	rate := float64(c.pick(4) % 2)
	if c.pick(4) == 0 {
		rate = 1
	}
	n := 1 + c.pick(80)
	t := tracer.BuildWithOption(tracer.WithHTTP(s.URL+"/api/traces"), tracer.WithProbabilistic(rate), tracer.WithServiceName("svc"))
	ot, ok := t.GetTracing().(opentracing.Tracer)
	if !c.Check(ok, "tracing", "GetTracing returns a %T", t.GetTracing()) {
		return
	}
	_, err := t.GetSpan("nobody")
	c.Check(errors.Is(err, tracer.ErrFactoryNotExist), "factory", "an unknown span factory: %v", err)
	var wg sync.WaitGroup
	var slowest atomic.Int64
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < n; i += 4 {
				sp := ot.StartSpan(fmt.Sprint("op", i))
				t := time.Now()
				sp.Finish()
				slowest.Store(max(slowest.Load(), int64(time.Since(t))))
			}
		}()
	}
	wg.Wait()
	cl, ok := t.(interface{ Close() })
	if !c.Check(ok, "close", "a tracer cannot be closed") {
		return
	}
	if !within(30*time.Second, cl.Close) {
		c.Fail("stuck", "closing the tracer takes more than 30 s")
		return
	}
	c.Check(bad.Load() == 0, "empty", "%d empty posts", bad.Load())
	want := int64(n)
	if rate == 0 {
		want = 0
	}
	c.Check(posts.Load() == want, "posts", "%d spans with a rate of %v: %d were posted (slow %v, failing %v)", n, rate, posts.Load(), slow, failing)
	cl.Close()
	c.N("spans", n)
	c.Sig(n, rate, slow, failing)
	c.Sample("%d spans, rate %v, slow %v, failing %v: %d posts", n, rate, slow, failing, posts.Load())
}
