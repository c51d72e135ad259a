package mon

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/lib/pubsub"
	"github.com/pojol/braid/router/msg"
)

func init() {
	reg(Scenario{Prop: "C20", Name: "channels", Quick: 120, Thorough: 4000, Run: runChannels,
		Rule: "1-3 pub/sub managers over one store, 1-2 topics with 1-4 channels that are subscribed before, between and during 5-80 publications by 1-5 goroutines with arbitrary events " +
			"and bodies; consumers are fast or slow, some store commands fail; an outcome is the order of the messages at each channel"})
	reg(Scenario{Prop: "C20", Name: "actors", Quick: 80, Thorough: 3000, Run: runActorTopics,
		Rule: "the same with actors on 1-3 nodes as subscribers and publishers, through the actor's and the system's interface"})
	reg(Scenario{Prop: "C20", Name: "long", NoNoise: true, Quick: 8, Thorough: 200, Run: runLongBacklog,
		Rule: "a channel whose subscriber has stopped lets some of 1010-1060 messages of 1-4 publishers pile up in the store before it is subscribed again; an outcome is the order in which they arrive"})
	reg(Scenario{Prop: "C20", Name: "modes", Quick: 200, Thorough: 8000, Run: runModes,
		Rule: "1-5 channels subscribed from the beginning or from now on, before, between and during 1-60 publications by 1-4 goroutines, while a channel nobody consumes keeps the messages or the first channel is yet to come; " +
			"an outcome is the mode and how much each channel got"})
	reg(Scenario{Prop: "C21", Name: "histories", Quick: 100, Thorough: 3000, Run: runSubHistories,
		Rule: "8-30 steps of subscribing (also to a shared channel), publishing from any node, publishing without event, unregistering the subscriber or its node while messages are in flight, " +
			"subscribing again elsewhere, and closing topics; an outcome is the history and who handled how much"})
	reg(Scenario{Prop: "C21", Name: "leaving", Quick: 250, Thorough: 12000, Run: runSubLeaving, Hot: true, Races: true,
		Rule: "an actor is unregistered while it subscribes to 1-5 channels, from its handlers and from outside, and messages are published; then others are published and another actor subscribes to the same " +
			"channels; an outcome is which subscriptions were accepted and who handled what"})
	reg(Scenario{Prop: "C21", Name: "consumers", Quick: 150, Thorough: 6000, Run: runConsumers,
		Rule: "1-4 consumers of one channel, subscribed directly, are closed one by one and others join, one of them possibly while the last one is being closed, during 5-60 publications; " +
			"an outcome is the history and how many messages each consumer got"})
	reg(Scenario{Prop: "C21", Name: "close", Quick: 400, Thorough: 20000, Run: runTopicClose, Hot: true,
		Rule: "Close of a topic concurrently with publications and subscriptions; an outcome is what succeeded and what is left"})
}

type published struct {
	topic, tag, event, body string
	start, end              int64
	err                     error
}

type listener struct {
	name, topic, channel string
	joined               int64 // after the subscription returned
	left                 int64 // after the exit returned, 0 before
	mu                   sync.Mutex
	got                  []string // tags
	at                   []int64
}

func (l *listener) add(tag string) {
	l.mu.Lock()
	l.got = append(l.got, tag)
	l.at = append(l.at, stamp())
	l.mu.Unlock()
}

func (l *listener) count() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.got)
}

// exchange is what was published and who got it
type exchange struct {
	c    *Case
	mu   sync.Mutex
	pubs map[string]*published
	no   int
}

// pub publishes one message with the given function.
func (x *exchange) pub(topic, event, body, tag string, f func() error) error {
	p := &published{topic: topic, tag: tag, event: event, body: body}
	x.mu.Lock()
	if x.pubs == nil {
		x.pubs = map[string]*published{}
	}
	x.pubs[tag] = p
	x.mu.Unlock()
	start := stamp()
	err := f()
	end := stamp()
	x.mu.Lock()
	p.start, p.end, p.err = start, end, err
	x.mu.Unlock()
	return err
}

func (x *exchange) tag() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.no++
	return fmt.Sprintf("<%d>", x.no)
}

// arrived checks a message that somebody got, and returns its tag.
func (x *exchange) arrived(l *listener, event, body string) {
	tag := ""
	for _, s := range []string{event, body} {
		if i := strings.Index(s, ">"); tag == "" && len(s) > 0 && s[0] == '<' && i > 0 {
			tag = s[:i+1]
		}
	}
	x.mu.Lock()
	p := x.pubs[tag]
	x.mu.Unlock()
	if p == nil {
		if event == "" && body == "init" {
			return // the entry that creates a topic
		}
		x.c.Fail("stray", "%s got event %q body %.60q, which nobody published", l.name, event, body)
		return
	}
	x.c.Check(p.event == event && p.body == body, "intact", "%s got event %q and a body of %d bytes %.60q for event %q and a body of %d bytes %.60q", l.name, event, len(body), body, p.event, len(p.body), p.body)
	x.c.Check(p.topic == l.topic, "topic", "%s of topic %s got message %s of topic %s", l.name, l.topic, tag, p.topic)
	l.add(tag)
}

// order checks that a listener got messages in the order in which they were published.
func (x *exchange) order(l *listener, what string) {
	min := int64(1) << 62
	var by string
	for i := len(l.got) - 1; i >= 0; i-- {
		p := x.pubs[l.got[i]]
		if p.start > min {
			x.c.Fail("order", "%s got %s before %s, which had been published before %s was: %v (%s)", l.name, p.tag, by, p.tag, l.got, what)
			return
		}
		if p.end < min {
			min, by = p.end, p.tag
		}
	}
	x.c.Check(true, "order", "")
}

func payloadBody(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		b := make([]byte, 1<<16+r.Intn(200000))
		r.Read(b)
		return string(b)
	case 2:
		return "\x00\xff\r\n$5\r\n"
	default:
		b := make([]byte, r.Intn(60))
		r.Read(b)
		return string(b)
	}
}

// flaky makes some of the store commands that consuming uses fail.
func flaky(c *Case, r *Redis) string {
	cmds := [][]string{nil, nil, {"XREADGROUP"}, {"XACK"}, {"XDEL"}, {"XINFO"}, {"XREADGROUP", "XACK", "XDEL", "XINFO"}}[c.pick(7)]
	if cmds == nil {
		return "no faults"
	}
	seed, n := c.R.Uint64(), uint64(1+c.pick(4))
	var mu sync.Mutex
	no := uint64(0)
	r.Hook(func(cmd string, args []string) string {
		if index(cmds, cmd) < 0 {
			return ""
		}
		mu.Lock()
		defer mu.Unlock()
		no++
		if mix(seed, no)%8 < n {
			return "ERR injected"
		}
		return ""
	})
	return "failing " + strings.Join(cmds, ",")
}

func (x *exchange) delivered(ls []*listener, what string) {
	for _, l := range ls {
		l.mu.Lock()
		n := map[string]int{}
		for _, t := range l.got {
			n[t]++
		}
		missed := []string{}
		for tag, p := range x.pubs {
			if p.topic != l.topic {
				continue
			}
			x.c.Check(n[tag] <= 1, "twice", "%s got %s %d times (%s)", l.name, tag, n[tag], what)
			if p.err == nil && p.start > l.joined && n[tag] == 0 {
				missed = append(missed, tag)
			}
			if p.err != nil {
				x.c.Check(n[tag] == 0, "failed-delivered", "%s got %s, whose publication failed with %v", l.name, tag, p.err)
			}
		}
		sort.Strings(missed)
		x.c.Check(len(missed) == 0, "lost", "%s never got %d messages published after it had subscribed: %v; it got %v (%s)", l.name, len(missed), missed, l.got, what)
		x.order(l, what)
		x.c.Sig(l.got)
		x.c.N("deliveries", len(l.got))
		l.mu.Unlock()
	}
	// the channels of a topic agree on the order
	for i, a := range ls {
		for _, b := range ls[:i] {
			if a.topic != b.topic {
				continue
			}
			rank := map[string]int{}
			for k, t := range b.got {
				rank[t] = k + 1
			}
			last, lt := 0, ""
			for _, t := range a.got {
				if k := rank[t]; k > 0 {
					if !x.c.Check(k > last, "agree", "%s got %s before %s, %s got them the other way round (%s)", a.name, lt, t, b.name, what) {
						return
					}
					last, lt = k, t
				}
			}
		}
	}
}

func runChannels(c *Case) {
	r := c.NewRedis()
	x := &exchange{c: c}
	ctx := context.Background()
	nm, nt := 1+c.pick(3), 1+c.pick(2)
	var mgr []*pubsub.Pubsub
	for i := 0; i < nm; i++ {
		mgr = append(mgr, pubsub.BuildWithOption())
	}
	stop := make(chan struct{})
	var ls []*listener
	var lmu sync.Mutex
	subscribe := func(topic, channel string, m int, r *rand.Rand) {
		var opts []pubsub.TopicOption
		if r.Intn(6) == 0 {
			opts = append(opts, pubsub.WithTTL(time.Hour))
		}
		ch, err := mgr[m].GetOrCreateTopic(topic, opts...).Sub(ctx, channel)
		if err != nil {
			c.Fail("sub", "subscribing channel %s of %s failed: %v", channel, topic, err)
			return
		}
		l := &listener{name: fmt.Sprintf("channel %s of %s on %d", channel, topic, m), topic: topic, channel: channel}
		q := mpsc.New()
		slow := []int{0, 0, 1, 15, 40}[r.Intn(5)]
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond) // messages may be fetched before the queue is there
		}
		ch.Arrived(q)
		l.joined = stamp()
		lmu.Lock()
		ls = append(ls, l)
		lmu.Unlock()
		c.Defer(ch.Stop)
		go func() {
			for {
				select {
				case <-q.C:
					w, ok := q.Pop().(*msg.Wrapper)
					if !ok {
						continue
					}
					x.arrived(l, w.Req.Header.Event, string(w.Req.Body))
					if slow > 0 {
						time.Sleep(time.Duration(r.Intn(slow+1)) * time.Millisecond)
					}
				case <-stop:
					return
				}
			}
		}()
	}
	type plan struct {
		topic, channel string
		m              int
	}
	var later []plan
	nch := 0
	for t := 0; t < nt; t++ {
		k := 1 + c.pick(4)
		for i := 0; i < k; i++ {
			p := plan{fmt.Sprint("topic", t), fmt.Sprint("c", i), c.pick(nm)}
			nch++
			if i == 0 || c.pick(3) > 0 {
				subscribe(p.topic, p.channel, p.m, c.Rand())
			} else {
				later = append(later, p)
			}
		}
	}
	if c.Failed() {
		return
	}
	what := flaky(c, r)
	var wg sync.WaitGroup
	G, total := 1+c.pick(5), 5+c.pick(75)
	tagInEvent := c.pick(3) == 0
	for g := 0; g < G; g++ {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < total/G+1; i++ {
				tag := x.tag()
				ev, body := fmt.Sprint("e", r.Intn(3)), tag+payloadBody(r)
				if tagInEvent {
					ev, body = tag+[]string{"", "x", " \x00ä", "msg"}[r.Intn(4)], payloadBody(r)
				}
				topic := fmt.Sprint("topic", r.Intn(nt))
				m := mgr[r.Intn(nm)]
				err := x.pub(topic, ev, body, tag, func() error { return m.GetOrCreateTopic(topic).Pub(ctx, ev, []byte(body)) })
				c.Check(err == nil, "pub", "publishing failed: %v", err)
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
				}
			}
		}()
	}
	for _, p := range later {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
			subscribe(p.topic, p.channel, p.m, r)
		}()
	}
	wg.Wait()
	time.Sleep(4 * time.Second)
	lmu.Lock()
	defer lmu.Unlock()
	close(stop)
	x.mu.Lock()
	defer x.mu.Unlock()
	what = fmt.Sprintf("%d managers, %d topics, %d channels, %d publishers, %s", nm, nt, nch, G, what)
	x.delivered(ls, what)
	c.N("publications", len(x.pubs))
	c.Sample("%d messages, %s", len(x.pubs), what)
}

// runModes: a channel subscribed from the beginning gets what the topic holds as well, one subscribed without or from the latest on does not.
func runModes(c *Case) {
	rd := c.NewRedis()
	x := &exchange{c: c}
	ctx := context.Background()
	mgr := []*pubsub.Pubsub{pubsub.BuildWithOption(), pubsub.BuildWithOption()}
	stop := make(chan struct{})
	var mu sync.Mutex
	var ls []*listener
	since := map[*listener]int64{} // when a channel that starts at the latest message was asked for
	consume := func(ch *pubsub.Channel, l *listener, r *rand.Rand) {
		q := mpsc.New()
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
		}
		ch.Arrived(q)
		c.Defer(ch.Stop)
		mu.Lock()
		ls = append(ls, l)
		mu.Unlock()
		go func() {
			for {
				select {
				case <-q.C:
					if w, ok := q.Pop().(*msg.Wrapper); ok {
						x.arrived(l, w.Req.Header.Event, string(w.Req.Body))
					}
				case <-stop:
					return
				}
			}
		}()
	}
	sub := func(name string, r *rand.Rand, beginning bool) {
		start := stamp()
		var opts []any
		if beginning {
			opts = append(opts, pubsub.WithReadMode(pubsub.ReadModeBeginning))
		} else if r.Intn(2) == 0 {
			opts = append(opts, pubsub.WithReadMode(pubsub.ReadModeLatest))
		}
		ch, err := mgr[r.Intn(2)].GetOrCreateTopic("t").Sub(ctx, name, opts...)
		if err != nil {
			c.Fail("sub", "subscribing channel %s failed: %v", name, err)
			return
		}
		l := &listener{name: fmt.Sprintf("channel %s (beginning %v)", name, beginning), topic: "t", channel: name}
		if !beginning {
			l.joined = stamp()
			mu.Lock()
			since[l] = start
			mu.Unlock()
		}
		consume(ch, l, r)
	}
	held := c.pick(3) > 0
	n, before := 1, "no channel"
	if held {
		n, before = 1+c.pick(4), "a channel that keeps them"
		ch, err := mgr[c.pick(2)].GetOrCreateTopic("t").Sub(ctx, "holder")
		if err != nil {
			c.Fail("sub", "subscribing a channel failed: %v", err)
			return
		}
		ch.Stop()
	}
	var wg sync.WaitGroup
	G, total := 1+c.pick(4), 1+c.pick(60)
	pause := []int{0, 0, 3, 20}[c.pick(4)]
	for g := 0; g < G; g++ {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < total/G+1; i++ {
				tag := x.tag()
				ev, body := fmt.Sprint("e", r.Intn(3)), tag+payloadBody(r)
				err := x.pub("t", ev, body, tag, func() error { return mgr[r.Intn(2)].GetOrCreateTopic("t").Pub(ctx, ev, []byte(body)) })
				c.Check(err == nil, "pub", "publishing failed: %v", err)
				if pause > 0 {
					time.Sleep(time.Duration(r.Intn(pause)) * time.Millisecond)
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		r := c.Rand()
		beginning := !held || c.pick(3) > 0
		when := time.Duration(c.pick(1+2*pause*(total/G+1)/2)) * time.Millisecond
		if c.pick(4) == 0 {
			when = time.Minute // all of them are there
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(when)
			yield(r)
			sub(fmt.Sprint("c", i), r, beginning)
		}()
	}
	wg.Wait()
	if held && !c.Failed() {
		if k := rd.Obs.XLen(ctx, "t").Val(); !c.Check(k == int64(len(x.pubs)), "held", "%d messages were published, a channel has taken none of them, and the topic holds %d", len(x.pubs), k) {
			return
		}
		ch, err := mgr[c.pick(2)].GetOrCreateTopic("t").Sub(ctx, "holder", pubsub.WithReadMode([]string{pubsub.ReadModeBeginning, pubsub.ReadModeLatest}[c.pick(2)]))
		if err != nil {
			c.Fail("sub", "subscribing again failed: %v", err)
			return
		}
		consume(ch, &listener{name: "the channel that is subscribed again", topic: "t", channel: "holder"}, c.Rand())
	}
	time.Sleep(10 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	close(stop)
	x.mu.Lock()
	defer x.mu.Unlock()
	what := fmt.Sprintf("%d messages of %d publishers, %d channels, before them %s", len(x.pubs), G, n, before)
	x.delivered(ls, what)
	for _, l := range ls {
		l.mu.Lock()
		from, latest := since[l]
		if latest {
			for _, tag := range l.got {
				c.Check(x.pubs[tag].end >= from, "old", "%s got %s, which had been published before it was subscribed (%s)", l.name, tag, what)
			}
		}
		c.N("channels from the beginning", map[bool]int{false: 1}[latest])
		c.Sig(held, latest, len(l.got) == len(x.pubs), len(l.got))
		l.mu.Unlock()
	}
	k := rd.Obs.XLen(ctx, "t").Val()
	c.Check(k == 0, "left", "every channel has taken every message, and the topic still holds %d (%s)", k, what)
	c.Sample("%s", what)
}

func runLongBacklog(c *Case) {
	c.NewRedis()
	x := &exchange{c: c}
	ctx := context.Background()
	mgr := []*pubsub.Pubsub{pubsub.BuildWithOption(), pubsub.BuildWithOption()}
	var ls []*listener
	var chs []*pubsub.Channel
	for i := 0; i < 1; i++ { // more of them take the store's stand-in too long
		m := 0
		ch, err := mgr[m].GetOrCreateTopic("topic").Sub(ctx, fmt.Sprint("c", i))
		if err != nil {
			c.Fail("sub", "subscribing failed: %v", err)
			return
		}
		chs = append(chs, ch)
		ls = append(ls, &listener{name: fmt.Sprintf("channel c%d on %d", i, m), topic: "topic", channel: fmt.Sprint("c", i), joined: stamp()})
	}
	chs[0].Stop() // nobody takes anything, until the channel is subscribed again
	total, G := 1010+c.pick(50), 1+c.pick(4)
	early := total // how many messages are there before the channel is consumed
	if c.pick(3) == 0 {
		early = c.pick(total)
	}
	arrive := func(i int) {
		q := mpsc.New()
		ch, err := mgr[1].GetOrCreateTopic("topic").Sub(ctx, "c0")
		if err != nil {
			c.Fail("sub", "subscribing again failed: %v", err)
			return
		}
		ch.Arrived(q)
		l := ls[i]
		stop := make(chan struct{})
		c.Defer(ch.Stop)
		c.Defer(func() { close(stop) })
		go func() {
			for {
				select {
				case <-q.C:
					if w, ok := q.Pop().(*msg.Wrapper); ok {
						x.arrived(l, w.Req.Header.Event, string(w.Req.Body))
					}
				case <-stop:
					return
				}
			}
		}()
	}
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < total/G; i++ {
				tag := x.tag()
				err := x.pub("topic", "e", tag+"-", tag, func() error { return mgr[g%2].GetOrCreateTopic("topic").Pub(ctx, "e", []byte(tag+"-")) })
				c.Check(err == nil, "pub", "publishing failed: %v", err)
				if g == 0 && i == early/G {
					arrive(0)
				}
			}
		}()
	}
	wg.Wait()
	if early/G >= total/G {
		arrive(0)
	}
	eventually(time.Minute, func() bool {
		for _, l := range ls {
			if l.count() < total/G*G {
				return false
			}
		}
		return true
	})
	time.Sleep(3 * time.Second)
	x.mu.Lock()
	defer x.mu.Unlock()
	what := fmt.Sprintf("%d messages of %d publishers, %d before the channel was consumed", total/G*G, G, early)
	x.delivered(ls, what)
	c.N("publications", len(x.pubs))
	c.Sample("%s", what)
}

func runActorTopics(c *Case) {
	r := c.NewRedis()
	x := &exchange{c: c}
	evs := []string{"c0", "c1", "c2", "ev"}
	type state struct {
		l    *listener
		slow int
		r    *rand.Rand
	}
	h := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		st := p.State.(*state)
		x.arrived(st.l, w.Req.Header.Event, string(w.Req.Body))
		if st.slow > 0 {
			time.Sleep(time.Duration(st.r.Intn(st.slow+1)) * time.Millisecond)
		}
		switch st.r.Intn(12) {
		case 0:
			return fmt.Errorf("handler error")
		case 1:
			panic("handler panic")
		}
		return nil
	}
	pubEv := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		return ctx.Pub(string(w.Req.Header.Token), string(w.Req.Header.ID), w.Req.Body)
	}
	nn, nt := 1+c.pick(3), 1+c.pick(2)
	var nodes []*Node
	for i := 0; i < nn; i++ {
		nodes = append(nodes, c.Node(fmt.Sprint("n", i), Types{"t": {Weight: 1}, "pub": {Weight: 1, Events: map[string]Handler{"pub": pubEv}}}, NodeOpt{Ip: fmt.Sprint("10.0.0.", i+1)}))
		nodes[i].Must(c, fmt.Sprint("pub", i), "pub")
	}
	var ls []*listener
	for t := 0; t < nt; t++ {
		for i, k := 0, 1+c.pick(3); i < k; i++ {
			topic, channel := fmt.Sprint("topic", t), fmt.Sprint("c", i)
			n := nodes[c.pick(nn)]
			p := n.Must(c, fmt.Sprintf("%s-%s", topic, channel), "t")
			l := &listener{name: fmt.Sprintf("actor %s on %s", p.Id, n.Name), topic: topic, channel: channel}
			p.State = &state{l, []int{0, 0, 3, 20}[c.pick(4)], c.Rand()}
			mk := func(ctx core.ActorContext) core.IChain {
				return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { return h(p, ctx, w) }}
			}
			for _, ev := range evs {
				if ev != channel {
					p.OnEvent(ev, mk)
				}
			}
			if err := p.Sub(topic, channel, mk); err != nil {
				c.Fail("sub", "subscribing failed: %v", err)
				return
			}
			l.joined = stamp()
			ls = append(ls, l)
		}
	}
	what := flaky(c, r)
	var wg sync.WaitGroup
	G, total := 1+c.pick(4), 5+c.pick(50)
	for g := 0; g < G; g++ {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < total/G+1; i++ {
				tag := x.tag()
				ev, body, topic := evs[r.Intn(len(evs))], tag+payloadBody(r), fmt.Sprint("topic", r.Intn(nt))
				k := r.Intn(nn)
				byActor := r.Intn(3) == 0
				err := x.pub(topic, ev, body, tag, func() error {
					if !byActor {
						return nodes[k].Sys.Pub(topic, ev, []byte(body))
					}
					w := newMsg()
					w.Req.Header.Token, w.Req.Header.ID, w.Req.Body = topic, ev, []byte(body)
					if err := nodes[k].Sys.Call(fmt.Sprint("pub", k), "pub", "pub", w); err != nil {
						return err
					}
					return w.Err
				})
				c.Check(err == nil, "pub", "publishing failed: %v", err)
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(3 * time.Second)
	x.mu.Lock()
	defer x.mu.Unlock()
	what = fmt.Sprintf("%d nodes, %d topics, %d actors, %d publishers, %s", nn, nt, len(ls), G, what)
	x.delivered(ls, what)
	c.N("publications", len(x.pubs))
	c.Sample("%d messages, %s", len(x.pubs), what)
}

// ---- C21

func runSubHistories(c *Case) {
	r := c.NewRedis()
	x := &exchange{c: c}
	ctx := context.Background()
	type state struct {
		ls   map[string]*listener // by topic
		slow int
		r    *rand.Rand
	}
	h := func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		st := p.State.(*state)
		topic := strings.SplitN(string(w.Req.Body), ">", 3)[1]
		l := st.ls[topic[1:]]
		if l == nil {
			c.Fail("topic", "%s got %.40q of a topic it did not subscribe to", p.Id, w.Req.Body)
			return nil
		}
		x.arrived(l, w.Req.Header.Event, string(w.Req.Body))
		if st.slow > 0 {
			time.Sleep(time.Duration(st.r.Intn(st.slow+1)) * time.Millisecond)
		}
		return nil
	}
	evs := []string{"c0", "c1", "c2"}
	nn, nt := 1+c.pick(3), 1+c.pick(2)
	var nodes []*Node
	up := map[int]bool{}
	for i := 0; i < nn; i++ {
		nodes = append(nodes, c.Node(fmt.Sprint("n", i), Types{"t": {Weight: 1}}, NodeOpt{Ip: fmt.Sprint("10.0.0.", i+1)}))
		up[i] = true
	}
	var hist []string
	var all []*listener
	type group struct {
		created int64
		first   bool // nobody shared it so far
		overlap bool
	}
	groups := map[string]*group{} // topic/channel
	type member struct {
		p    *Probe
		node int
		ls   []*listener
	}
	var members []*member
	no := 0
	subscribe := func(k int) {
		no++
		id := fmt.Sprint("s", no)
		if c.pick(3) == 0 {
			id = fmt.Sprint("again", c.pick(2))
			for _, m := range members {
				if m.p.Id == id {
					return
				}
			}
		}
		p := nodes[k].Must(c, id, "t")
		m := &member{p: p, node: k}
		st := &state{map[string]*listener{}, []int{0, 0, 3, 20}[c.pick(4)], c.Rand()}
		p.State = st
		mk := func(ctx core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { return h(p, ctx, w) }}
		}
		for _, ev := range evs {
			p.OnEvent(ev, mk)
		}
		for t := 0; t < nt; t++ {
			if t > 0 && c.pick(2) == 0 {
				continue
			}
			topic, channel := fmt.Sprint("topic", t), evs[c.pick(len(evs))]
			key := topic + "/" + channel
			l := &listener{name: fmt.Sprintf("%s#%d on n%d, channel %s of %s", id, p.No, k, channel, topic), topic: topic, channel: channel}
			st.ls[topic[5:]] = l
			if err := p.Sub(topic, channel, mk); err != nil {
				c.Fail("sub", "subscribing failed: %v\n%s", err, strings.Join(hist, " "))
				return
			}
			l.joined = stamp()
			g := groups[key]
			if g == nil {
				g = &group{created: l.joined}
				groups[key] = g
			}
			for _, o := range all {
				if o.topic == topic && o.channel == channel && o.left == 0 {
					g.overlap = true
				}
			}
			all = append(all, l)
			m.ls = append(m.ls, l)
			hist = append(hist, fmt.Sprintf("+%s@%d:%s", id, k, key))
		}
		members = append(members, m)
	}
	var wg sync.WaitGroup
	publish := func(k int, r *rand.Rand) {
		n := 1 + r.Intn(8)
		for i := 0; i < n; i++ {
			tag, t, ev := x.tag(), r.Intn(nt), evs[r.Intn(len(evs))]
			topic := fmt.Sprint("topic", t)
			body := fmt.Sprintf("%s<%d>%s", tag, t, payloadBody(r))
			err := x.pub(topic, ev, body, tag, func() error { return nodes[k].Sys.Pub(topic, ev, []byte(body)) })
			c.Check(err == nil, "pub", "publishing on n%d failed: %v", k, err)
		}
	}
	var pick func() int
	pick = func() int {
		for {
			if k := c.pick(nn); up[k] {
				return k
			}
		}
	}
	gone := func(m *member) {
		e := stamp()
		for _, l := range m.ls {
			l.left = e
		}
	}
	for s, steps := 0, 8+c.pick(22); s < steps && !c.Failed(); s++ {
		switch y := c.pick(12); {
		case y < 3:
			if len(members) < 6 {
				subscribe(pick())
			}
		case y < 6:
			k, r := pick(), c.Rand()
			if c.pick(2) == 0 {
				publish(k, r)
				hist = append(hist, fmt.Sprint("pub", k))
			} else {
				hist = append(hist, fmt.Sprint("pub&", k))
				wg.Add(1)
				go func() { defer wg.Done(); publish(k, r) }()
			}
		case y < 8:
			if len(members) == 0 {
				continue
			}
			i := c.pick(len(members))
			m := members[i]
			members = append(members[:i], members[i+1:]...)
			hist = append(hist, "-"+m.p.Id)
			if !within(time.Minute, func() {
				if err := nodes[m.node].Sys.Unregister(m.p.Id, "t"); err != nil {
					c.Fail("unregister", "unregistering %s failed: %v", m.p.Id, err)
				}
			}) {
				c.Fail("stuck", "unregistering %s did not return within a minute\n%s", m.p.Id, strings.Join(hist, " "))
				return
			}
			gone(m)
		case y == 8:
			ups := 0
			for _, u := range up {
				if u {
					ups++
				}
			}
			if ups < 2 || c.pick(3) > 0 {
				continue
			}
			k := pick()
			wg.Wait()
			hist = append(hist, fmt.Sprint("exit", k))
			up[k] = false
			if !within(time.Minute, nodes[k].Exit) {
				c.Fail("stuck", "exiting n%d did not return within a minute\n%s", k, strings.Join(hist, " "))
				return
			}
			var rest []*member
			for _, m := range members {
				if m.node == k {
					gone(m)
				} else {
					rest = append(rest, m)
				}
			}
			members = rest
		case y == 9:
			topic := fmt.Sprint("topic", c.pick(nt))
			wg.Wait()
			before := r.Obs.XLen(ctx, topic).Val()
			if err := nodes[pick()].Sys.Pub(topic, "", []byte("<none><0>")); err == nil {
				c.Fail("no-event", "publishing without an event succeeded")
			} else {
				c.Check(r.Obs.XLen(ctx, topic).Val() <= before, "no-event", "a publication without an event was refused, but the topic has a message more")
			}
			c.N("refused publications", 1)
		case y == 10:
			time.Sleep(time.Duration(c.pick(60)) * time.Millisecond)
		case y == 11:
			// nothing moves while a topic is closed
			wg.Wait()
			time.Sleep(3 * time.Second)
			topic := fmt.Sprint("topic", c.pick(nt))
			ex := r.Obs.Exists(ctx, topic).Val() > 0
			gs, _ := r.Obs.XInfoGroups(ctx, topic).Result()
			n := r.Obs.XLen(ctx, topic).Val()
			if !ex {
				continue
			}
			dump := r.Dump()
			ps := pubsub.BuildWithOption()
			if err := ps.GetOrCreateTopic(topic).Close(); err != nil {
				c.Fail("close", "closing failed: %v", err)
			}
			still := r.Obs.Exists(ctx, topic).Val() > 0
			listed := r.Obs.SIsMember(ctx, pubsub.BraidPubsubTopic, topic).Val()
			want := len(gs) > 0 || n > 0
			c.Check(still == want && listed == want, "close", "a topic with %d channels and %d messages was closed: there is the topic: %v, it is listed: %v\n%s", len(gs), n, still, listed, diffDump(dump, r.Dump()))
			hist = append(hist, fmt.Sprintf("close:%v", !still))
			c.N("closed topics", 1)
			if !still {
				return // a node that knows the topic does not notice
			}
		}
	}
	wg.Wait()
	if c.Failed() {
		return
	}
	// somebody comes for what is left
	for key, g := range groups {
		topic, channel, _ := strings.Cut(key, "/")
		live := false
		for _, l := range all {
			live = live || l.topic == topic && l.channel == channel && l.left == 0
		}
		if live {
			continue
		}
		_ = g
		p := nodes[pick()].Must(c, "last-"+topic+"-"+channel, "t")
		l := &listener{name: p.Id, topic: topic, channel: channel}
		p.State = &state{map[string]*listener{topic[5:]: l}, 0, c.Rand()}
		mk := func(ctx core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { return h(p, ctx, w) }}
		}
		for _, ev := range evs {
			p.OnEvent(ev, mk)
		}
		if err := p.Sub(topic, channel, mk); err != nil {
			c.Fail("sub", "subscribing failed: %v", err)
			return
		}
		l.joined = stamp()
		all = append(all, l)
	}
	time.Sleep(3 * time.Second)
	x.mu.Lock()
	defer x.mu.Unlock()
	what := strings.Join(hist, " ")
	for key, g := range groups {
		topic, channel, _ := strings.Cut(key, "/")
		n := map[string][]string{}
		seq := &listener{name: "channel " + key, topic: topic}
		type one struct {
			tag string
			at  int64
		}
		var seqs []one
		var sig []interface{}
		for _, l := range all {
			if l.topic != topic || l.channel != channel {
				continue
			}
			l.mu.Lock()
			for i, t := range l.got {
				n[t] = append(n[t], l.name)
				seqs = append(seqs, one{t, l.at[i]})
				if l.left > 0 {
					c.Check(l.at[i] < l.left, "after-exit", "%s handled %s after it had exited\n%s", l.name, t, what)
				}
			}
			x.order(l, what)
			sig = append(sig, len(l.got))
			l.mu.Unlock()
		}
		c.Sig(sig...)
		var missed []string
		for tag, p := range x.pubs {
			if p.topic != topic {
				continue
			}
			c.Check(len(n[tag]) <= 1, "twice", "%s of channel %s was handled by %v\n%s", tag, key, n[tag], what)
			if p.start > g.created && p.err == nil && len(n[tag]) == 0 {
				missed = append(missed, tag)
			}
		}
		sort.Strings(missed)
		c.Check(len(missed) == 0, "lost", "channel %s: %v, published after it was subscribed, were handled by nobody\n%s", key, missed, what)
		if !g.overlap {
			sort.Slice(seqs, func(i, j int) bool { return seqs[i].at < seqs[j].at })
			for _, o := range seqs {
				seq.got = append(seq.got, o.tag)
			}
			x.order(seq, what)
			c.N("handovers checked", 1)
		}
		c.N("deliveries", len(seqs))
	}
	c.N("publications", len(x.pubs))
	c.Sig(hist)
	c.Sample("%s", what)
}

func runConsumers(c *Case) {
	r := c.NewRedis()
	ctx := context.Background()
	mgr := []*pubsub.Pubsub{pubsub.BuildWithOption(), pubsub.BuildWithOption()}
	topic := func() *pubsub.Topic { return mgr[c.pick(2)].GetOrCreateTopic("t") }
	type consumer struct {
		ch     *pubsub.Channel
		q      *mpsc.Queue
		got    []int
		closed bool
		stop   chan struct{}
	}
	var mu sync.Mutex
	var all []*consumer
	got := map[int]int{}
	join := func() *consumer {
		ch, err := topic().Sub(ctx, "c")
		if err != nil {
			c.Fail("sub", "subscribing failed: %v", err)
			return nil
		}
		k := &consumer{ch: ch, q: mpsc.New(), stop: make(chan struct{})}
		ch.Arrived(k.q)
		mu.Lock()
		all = append(all, k)
		mu.Unlock()
		go func() {
			for {
				select {
				case <-k.q.C:
					w, ok := k.q.Pop().(*msg.Wrapper)
					if !ok {
						continue
					}
					var n int
					fmt.Sscan(string(w.Req.Body), &n)
					mu.Lock()
					got[n]++
					k.got = append(k.got, n)
					if k.closed {
						c.Fail("after", "a consumer was given message %d after it had been closed", n)
					}
					mu.Unlock()
				case <-k.stop:
					return
				}
			}
		}()
		return k
	}
	open := 0
	history := ""
	leave := func() {
		mu.Lock()
		var k *consumer
		for _, x := range all {
			if !x.closed && (k == nil || c.pick(2) == 0) {
				k = x
			}
		}
		mu.Unlock()
		if err := k.ch.Close(); err != nil {
			c.Fail("close", "closing a consumer failed: %v", err)
		}
		eventually(time.Second, func() bool { return k.q.Count() == 0 })
		time.Sleep(time.Millisecond)
		mu.Lock()
		k.closed = true
		mu.Unlock()
		open--
		history += "-"
	}
	for i := 1 + c.pick(4); i > 0; i-- {
		join()
		open++
		history += "+"
	}
	time.Sleep(100 * time.Millisecond) // each has asked for messages
	n := 0
	for steps := 4 + c.pick(12); steps > 0 && !c.Failed(); steps-- {
		switch c.pick(4) {
		case 0, 1:
			for i := 1 + c.pick(5); i > 0; i-- {
				n++
				if err := topic().Pub(ctx, "e", []byte(fmt.Sprint(n))); err != nil {
					c.Fail("pub", "publishing failed: %v", err)
				}
			}
			history += "p"
		case 2:
			if open > 1 {
				leave()
			} else {
				join()
				open++
				history += "+"
				time.Sleep(100 * time.Millisecond)
			}
		case 3:
			time.Sleep(time.Duration(c.pick(30)) * time.Millisecond)
		}
	}
	time.Sleep(time.Second)
	for open > 1 {
		leave()
	}
	for i := 0; i < 3; i++ {
		n++
		if err := topic().Pub(ctx, "e", []byte(fmt.Sprint(n))); err != nil {
			c.Fail("pub", "publishing failed: %v", err)
		}
	}
	time.Sleep(time.Second)
	mu.Lock()
	for i := 1; i <= n; i++ {
		c.Check(got[i] == 1, "once", "message %d of %d was handled %d times by the consumers of a channel, history %s", i, n, got[i], history)
	}
	mu.Unlock()
	if c.Failed() {
		return
	}
	switch c.pick(2) {
	case 0:
		leave()
		gs, _ := r.Obs.XInfoGroups(ctx, "t").Result()
		c.Check(len(gs) == 0, "channel", "%d channels are left after the last consumer was closed", len(gs))
	case 1:
		// another one joins while the last one leaves
		var wg sync.WaitGroup
		r1 := c.Rand()
		wg.Add(1)
		var k *consumer
		go func() {
			defer wg.Done()
			yield(r1)
			time.Sleep(time.Duration(r1.Intn(12)) * time.Millisecond)
			k = join()
		}()
		leave()
		wg.Wait()
		if k == nil {
			return
		}
		history += "*"
		time.Sleep(100 * time.Millisecond)
		for i := 0; i < 3; i++ {
			n++
			if err := topic().Pub(ctx, "e", []byte(fmt.Sprint(n))); err != nil {
				c.Fail("pub", "publishing failed: %v", err)
			}
		}
		time.Sleep(2 * time.Second)
		mu.Lock()
		c.Check(got[n] == 1 && got[n-1] == 1 && got[n-2] == 1, "joined", "a consumer joined while the last one was leaving, and messages published afterwards were handled %d, %d and %d times", got[n-2], got[n-1], got[n])
		mu.Unlock()
	}
	mu.Lock()
	defer mu.Unlock()
	for _, k := range all {
		history += fmt.Sprint(" ", len(k.got))
		k.ch.Stop()
		close(k.stop)
	}
	c.N("messages of shared channels", n)
	c.Sig(history)
	c.Sample("consumers joining (+), leaving (-) and publications (p), then the number of messages of each: %s", history)
}

func runTopicClose(c *Case) {
	r := c.NewRedis()
	ctx := context.Background()
	a, b := pubsub.BuildWithOption(), pubsub.BuildWithOption()
	ta, tb := a.GetOrCreateTopic("t"), b.GetOrCreateTopic("t")
	var wg sync.WaitGroup
	var subErr, pubErr, closeErr error
	var ch *pubsub.Channel
	doPub, doSub := c.pick(3) > 0, c.pick(3) > 0
	go2 := func(f func()) {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			yield(r)
			f()
		}()
	}
	go2(func() { closeErr = tb.Close() })
	if doPub {
		go2(func() { pubErr = ta.Pub(ctx, "e", []byte("x")) })
	}
	if doSub {
		go2(func() { ch, subErr = ta.Sub(ctx, "c") })
	}
	wg.Wait()
	what := fmt.Sprintf("closing: %v", closeErr)
	if doPub {
		what += fmt.Sprintf(", publishing: %v", pubErr)
	}
	if doSub {
		what += fmt.Sprintf(", subscribing: %v", subErr)
	}
	left := r.Obs.XLen(ctx, "t").Val()
	gs, _ := r.Obs.XInfoGroups(ctx, "t").Result()
	if doPub && pubErr == nil && !(doSub && subErr == nil) {
		c.Check(left == 1, "message", "a topic was closed while a message was being published: %s; the topic has %d messages", what, left)
	}
	if doSub && subErr == nil {
		c.Check(len(gs) == 1, "channel", "a topic was closed while a channel was being subscribed: %s; the topic has %d channels", what, len(gs))
		ch.Stop()
	}
	c.Sig(what, left, len(gs))
	c.N("topics closed", 1)
	c.Sample("%s; %d messages and %d channels are left", what, left, len(gs))
}

func runSubLeaving(c *Case) {
	c.NewRedis()
	n := c.Node("n1", Types{"t": {Weight: 1}}, NodeOpt{})
	type arrival struct {
		who, ch, body string
		at            int64
	}
	var mu sync.Mutex
	var got []arrival
	nch := 1 + c.pick(5)
	subbed := make([]bool, nch)
	topic := func(i int) string { return fmt.Sprint("topic", i%2) }
	mkActor := func(id string) (*Probe, func(ctx core.ActorContext) core.IChain) {
		p := n.Must(c, id, "t")
		mk := func(ctx core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error {
				mu.Lock()
				got = append(got, arrival{id, w.Req.Header.Event, string(w.Req.Body), stamp()})
				mu.Unlock()
				return nil
			}}
		}
		for i := 0; i < nch; i++ {
			p.OnEvent(fmt.Sprint("ch", i), mk) // every channel brings the messages of all
		}
		return p, mk
	}
	p, mk := mkActor("old")
	sub := func(i int) {
		ch := fmt.Sprint("ch", i)
		err := p.Sub(topic(i), ch, mk)
		mu.Lock()
		subbed[i] = subbed[i] || err == nil
		mu.Unlock()
	}
	p.on("sub", func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error {
		sub(int(w.Req.Body[0]))
		return nil
	})
	var wg sync.WaitGroup
	pubs := 0
	pub := func(i int, body string) {
		if err := n.Sys.Pub(topic(i), fmt.Sprint("ch", i), []byte(body)); err != nil {
			c.Fail("pub", "publishing failed: %v", err)
		}
	}
	for i := 0; i < nch; i++ {
		i, r := i, c.Rand()
		how, late, early := c.pick(3), c.pick(6), c.pick(3)
		pubs += early
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ; late > 0; late-- {
				yield(r)
				rsleep(int64(r.Intn(20000)))
			}
			if how == 0 {
				sub(i)
			} else {
				w := newMsg()
				w.Req.Body = []byte{byte(i)}
				n.Sys.Send("old", "t", "sub", w)
			}
			for k := 0; k < early; k++ {
				pub(i, fmt.Sprintf("early %d.%d", i, k))
			}
		}()
	}
	late, r := c.pick(10), c.Rand()
	for ; late > 0; late-- {
		yield(r)
		rsleep(int64(r.Intn(20000)))
	}
	if c.pick(3) == 0 {
		time.Sleep(time.Duration(c.pick(20)) * time.Millisecond)
	}
	if err := n.Sys.Unregister("old", "t"); err != nil {
		c.Fail("unregister", "%v", err)
	}
	left := stamp()
	wg.Wait()
	time.Sleep(time.Second)
	sofar := len(got)
	for i := 0; i < nch; i++ {
		for k := 0; k < 3; k++ {
			pub(i, fmt.Sprintf("late %d.%d", i, k))
		}
	}
	time.Sleep(time.Second)
	mu.Lock()
	c.Check(len(got) == sofar, "consumes", "messages are handled after the subscriber has gone: %v", got[sofar:])
	for _, a := range got {
		c.Check(a.at < left, "after", "%s handled %s after it was unregistered", a.who, a.body)
	}
	mu.Unlock()
	q, mk2 := mkActor("new")
	accepted := ""
	for i := 0; i < nch; i++ {
		accepted += fmt.Sprint(subbed[i], " ")
		if err := q.Sub(topic(i), fmt.Sprint("ch", i), mk2); err != nil {
			c.Fail("sub", "subscribing failed: %v", err)
		}
	}
	time.Sleep(3 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	sig := ""
	for i := 0; i < nch; i++ {
		lates := ""
		seen := map[string]int{}
		for _, a := range got {
			if a.ch == fmt.Sprint("ch", i) && strings.HasPrefix(a.body, "late") {
				lates += fmt.Sprint(a.who, " ", a.body, ";")
			}
			seen[a.body]++
			_ = seen
		}
		if subbed[i] {
			// every channel of the topic that the actor subscribed to brings them once
			times := 0
			for j := range subbed {
				if topic(j) == topic(i) {
					times++
				}
			}
			for k := 0; k < 3; k++ {
				body := fmt.Sprintf("late %d.%d", i, k)
				lo := 0
				for j := range subbed {
					if topic(j) == topic(i) && subbed[j] {
						lo++
					}
				}
				c.Check(seen[body] >= lo && seen[body] <= times, "kept", "%q, published when the subscribers of channels %v of its topic had gone, is handled %d times by the next subscriber; accepted subscriptions: %s; handled %v", body, subbed, seen[body], accepted, got)
			}
		}
		sig += lates
	}
	c.N("accepted subscriptions", strings.Count(accepted, "true"))
	c.N("refused subscriptions", strings.Count(accepted, "false"))
	c.N("messages handled by the leaving actor", sofar)
	c.Sig(accepted, sofar, sig)
	_ = pubs
}
