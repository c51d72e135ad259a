package mon

import (
	"context"
	"fmt"
	"net"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/alicebob/miniredis/v2"
	"github.com/alicebob/miniredis/v2/server"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/router/msg"
	"github.com/redis/go-redis/v9"
	"google.golang.org/grpc/test/bufconn"
)

// Redis is an in-process store reached over in-memory connections, so that it works in virtual time.
type Redis struct {
	M   *miniredis.Miniredis
	Cli *redis.Client // what braid uses
	Obs *redis.Client // what the oracle uses

	hook atomic.Pointer[func(cmd string, args []string) string]
	lag  atomic.Pointer[func() time.Duration]
}

// Lag makes every command (or pipeline) of braid take up to max of virtual time on its way to the store; 0 ends it.
// It returns max.
func (r *Redis) Lag(seed uint64, max time.Duration) time.Duration {
	if max <= 0 {
		r.lag.Store(nil)
		return 0
	}
	var no atomic.Uint64
	f := func() time.Duration {
		x := mix(seed, no.Add(1))
		if x%3 == 0 {
			return 0
		}
		return time.Duration(x>>8) % max
	}
	r.lag.Store(&f)
	return max
}

type lagConn struct {
	net.Conn
	r *Redis
}

func (l *lagConn) Write(b []byte) (int, error) {
	if f := l.r.lag.Load(); f != nil {
		if d := (*f)(); d > 0 {
			time.Sleep(d)
		}
	}
	return l.Conn.Write(b)
}

// NewRedis starts a store and makes it braid's.
func (c *Case) NewRedis() *Redis {
	r := newRedis()
	trdredis.MockClient(r.Cli)
	if c.S.Lag > 0 && (c.Seed%2 == 0 || strings.HasSuffix(c.S.Name, "slow-store")) {
		r.Lag(c.Seed, c.S.Lag)
	}
	c.Defer(r.close)
	return r
}

func newRedis() *Redis {
	m := miniredis.NewMiniRedis()
	if err := m.Start(); err != nil {
		panic(err)
	}
	srv := m.Server()
	// the TCP listener is not used, and its goroutine would keep virtual time from advancing
	l := *(*net.Listener)(unsafe.Pointer(reflect.ValueOf(srv).Elem().FieldByName("l").UnsafeAddr()))
	l.Close()
	// its goroutine closes every connection there is when it ends
	(*sync.WaitGroup)(reflect.ValueOf(srv).Elem().FieldByName("wg").Addr().UnsafePointer()).Wait()
	r := &Redis{M: m}
	mk := func(lag bool) *redis.Client {
		dial := func(ctx context.Context, n, a string) (net.Conn, error) {
			c1, c2 := memPipe()
			srv.ServeConn(c2)
			if lag {
				return &lagConn{c1, r}, nil
			}
			return c1, nil
		}
		return redis.NewClient(&redis.Options{Addr: "mem:1", MaxRetries: -1, PoolSize: 400, Dialer: dial, ReadTimeout: -1, WriteTimeout: -1,
			DisableIndentity: true})
	}
	r.Cli, r.Obs = mk(true), mk(false)
	m.SetTime(time.Time{}) // use the (virtual) clock
	srv.SetPreHook(func(peer *server.Peer, cmd string, args ...string) bool {
		if h := r.hook.Load(); h != nil {
			if e := (*h)(strings.ToUpper(cmd), args); e != "" {
				peer.WriteError(e)
				return true
			}
		}
		return false
	})
	return r
}

// memPipe returns the ends of a connection with buffers that a pipeline of commands and its answers fit in.
func memPipe() (net.Conn, net.Conn) {
	l := bufconn.Listen(256 << 10)
	ch := make(chan net.Conn, 1)
	go func() {
		c, _ := l.Accept()
		ch <- c
	}()
	c1, err := l.Dial()
	if err != nil {
		panic(err)
	}
	return c1, <-ch
}

func (r *Redis) close() {
	r.Cli.Close()
	r.Obs.Close()
	r.M.Close()
}

// Hook makes f decide about every command; a non-empty result is the error the command fails with.
func (r *Redis) Hook(f func(cmd string, args []string) string) {
	if f == nil {
		r.hook.Store(nil)
		return
	}
	r.hook.Store(&f)
}

// Dump reads the whole store (hashes, sets, strings, streams) in a canonical form.
func (r *Redis) Dump() map[string]string {
	ctx := context.Background()
	out := map[string]string{}
	keys, err := r.Obs.Keys(ctx, "*").Result()
	if err != nil {
		panic(err)
	}
	for _, k := range keys {
		switch ty := r.Obs.Type(ctx, k).Val(); ty {
		case "hash":
			for f, v := range r.Obs.HGetAll(ctx, k).Val() {
				out[k+"/"+f] = v
			}
		case "set":
			for _, v := range r.Obs.SMembers(ctx, k).Val() {
				out[k+"//"+v] = "member"
			}
		case "string":
			out[k] = r.Obs.Get(ctx, k).Val()
		case "list":
			out[k] = fmt.Sprint(r.Obs.LRange(ctx, k, 0, -1).Val())
		case "zset":
			out[k] = fmt.Sprint(r.Obs.ZRangeWithScores(ctx, k, 0, -1).Val())
		case "stream":
			out[k] = fmt.Sprint(r.Obs.XRange(ctx, k, "-", "+").Val())
		default:
			out[k] = "?" + ty
		}
	}
	return out
}

func diffDump(a, b map[string]string) string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, fmt.Sprintf("- %s = %s", k, v))
		} else if v != w {
			d = append(d, fmt.Sprintf("~ %s: %s -> %s", k, v, w))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			d = append(d, fmt.Sprintf("+ %s = %s", k, v))
		}
	}
	sort.Strings(d)
	if len(d) > 20 {
		d = append(d[:20], "...")
	}
	return strings.Join(d, "\n")
}

// Handler is what a test actor does for an event.
type Handler func(p *Probe, ctx core.ActorContext, w *msg.Wrapper) error

// Type describes a type of test actors.
type Type struct {
	Weight  int
	Unique  bool
	Limit   int
	Opts    map[string]string
	Dynamic bool
	Events  map[string]Handler
	Prepare func(p *Probe)             // before anything else
	Recv    func(w *msg.Wrapper) error // in place of the runtime's
	Init    func(p *Probe, ctx context.Context)
	Exit    func(p *Probe) // after the runtime's own
	Chains  map[string]func(p *Probe, ctx core.ActorContext) core.IChain

	Built atomic.Int64 // number of constructor runs
}

// Probe is a test actor.
type Probe struct {
	*actor.Runtime
	Builder core.IActorBuilder
	Node    *Node
	State   interface{}
	No      int64        // number of this instance, unique in the case
	Exits   atomic.Int64 // how often it was told to exit
	recv    func(w *msg.Wrapper) error
}

func (p *Probe) Received(w *msg.Wrapper) error {
	if p.recv != nil {
		return p.recv(w)
	}
	return p.Runtime.Received(w)
}

var probeNo atomic.Int64

func (p *Probe) on(ev string, h Handler) error {
	return p.OnEvent(ev, func(ctx core.ActorContext) core.IChain {
		return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { return h(p, ctx, w) }}
	})
}

// Types is the set of actor types of a node.
type Types map[string]*Type

// Node is a braid node under test.
type Node struct {
	core.INode
	Sys   core.ISystem
	Name  string
	Types Types
	Cons  map[string]*core.ActorConstructor
	order []string
	ldr   *loader
	Port  int
	Ip    string

	exited atomic.Bool
}

// loader and factory as an application would write them
type factory struct{ n *Node }

func (f factory) Get(ty string) *core.ActorConstructor { return f.n.Cons[ty] }
func (f factory) GetActors() []*core.ActorConstructor {
	var out []*core.ActorConstructor
	for _, n := range f.n.order {
		out = append(out, f.n.Cons[n])
	}
	return out
}

type loader struct{ f factory }

func (l *loader) Builder(ty string, sys core.ISystem) core.IActorBuilder {
	ac := l.f.Get(ty)
	if ac == nil {
		return nil
	}
	return &actor.ActorLoaderBuilder{ISystem: sys, ActorConstructor: *ac, IActorLoader: l}
}
func (l *loader) Pick(ctx context.Context, b core.IActorBuilder) error {
	_, err := b.Register(ctx)
	return err
}
func (l *loader) AssignToNode(n core.INode) {
	for _, ac := range l.f.GetActors() {
		if ac.Dynamic {
			continue
		}
		b := l.Builder(ac.Name, n.System())
		b.WithID(n.ID() + "_" + ac.ID)
		b.Register(context.TODO())
	}
}

// NodeOpt are the options of Case.Node.
type NodeOpt struct {
	Ip     string
	Port   int
	Tracer tracer.ITracer
	// Nodes with a port, in real time, give synchronous calls 50 seconds instead of 5, so that a slow machine is not taken
	// for a lost answer, except impatient ones
	Impatient bool
}

var portNo atomic.Uint32

// freePort returns a port below the range that outgoing connections use, a different one every time, so that the port of
// a node that is down stays free until the node comes back.
func freePort() int {
	for i := 0; i < 10000; i++ {
		p := 12000 + (os.Getpid()%19)*1000 + int(portNo.Add(1))%1000
		if l, err := net.Listen("tcp", fmt.Sprint(":", p)); err == nil {
			l.Close()
			return p
		}
	}
	panic("no free port")
}

// Node builds a node with the given actor types. With opt.Port < 0 it listens on a free port.
func (c *Case) Node(name string, types Types, opt NodeOpt) *Node {
	n := &Node{Name: name, Types: types, Cons: map[string]*core.ActorConstructor{}}
	for ty := range types {
		n.order = append(n.order, ty)
	}
	sort.Strings(n.order)
	for _, ty := range n.order {
		t := types[ty]
		opts := t.Opts
		if opts == nil {
			opts = map[string]string{}
		}
		n.Cons[ty] = &core.ActorConstructor{ID: ty, Name: ty, Weight: t.Weight, NodeUnique: t.Unique, GlobalQuantityLimit: t.Limit,
			Options: opts, Dynamic: true, Constructor: func(b core.IActorBuilder) core.IActor {
				t.Built.Add(1)
				p := &Probe{Runtime: &actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}, Builder: b, Node: n, No: probeNo.Add(1), recv: t.Recv}
				if t.Prepare != nil {
					t.Prepare(p)
				}
				return &probeActor{Probe: p, t: t}
			}}
	}
	n.ldr = &loader{f: factory{n}}
	n.Ip = opt.Ip
	if n.Ip == "" {
		n.Ip = "127.0.0.1"
	}
	build := func() (ok bool) {
		n.Port = opt.Port
		if opt.Port < 0 {
			n.Port = freePort()
			defer func() {
				if r := recover(); r != nil && strings.Contains(fmt.Sprint(r), "new acceptor") {
					ok = false // somebody else took the port
				} else if r != nil {
					panic(r)
				}
			}()
		}
		o := []core.NodeOption{core.NodeWithID(name), core.NodeWithIP(n.Ip), core.NodeWithPort(n.Port), core.NodeWithLoader(n.ldr), core.NodeWithFactory(factory{n})}
		if opt.Tracer != nil {
			o = append(o, core.NodeWithTracer(opt.Tracer))
		}
		n.INode = node.BuildProcessWithOption(o...)
		return true
	}
	for i := 0; !build(); i++ {
		if i > 20 {
			panic("no free port")
		}
	}
	n.Sys = n.INode.System()
	if opt.Port < 0 && !opt.Impatient {
		patient(n.Sys, 50*time.Second)
	}
	c.Defer(n.Exit)
	return n
}

// patient sets how long synchronous calls of a system may take, if it has such a setting.
func patient(sys core.ISystem, d time.Duration) {
	v := reflect.ValueOf(sys)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return
	}
	if f := v.Elem().FieldByName("callTimeout"); f.IsValid() && f.Type() == reflect.TypeOf(d) {
		*(*time.Duration)(f.Addr().UnsafePointer()) = d
	}
}

// probeActor is the registered actor: a Probe whose Init runs the type's initialisation.
type probeActor struct {
	*Probe
	t *Type
}

func (a *probeActor) Init(ctx context.Context) {
	a.Runtime.Init(ctx)
	evs := make([]string, 0, len(a.t.Events))
	for ev := range a.t.Events {
		evs = append(evs, ev)
	}
	sort.Strings(evs)
	for _, ev := range evs {
		a.on(ev, a.t.Events[ev])
	}
	for ev, mk := range a.t.Chains {
		a.OnEvent(ev, func(ctx core.ActorContext) core.IChain { return mk(a.Probe, ctx) })
	}
	if a.t.Init != nil {
		a.t.Init(a.Probe, ctx)
	}
}

func (a *probeActor) Exit() {
	a.Exits.Add(1)
	a.Runtime.Exit()
	if a.t.Exit != nil {
		a.t.Exit(a.Probe)
	}
}

// Exit makes the node leave, as its process does when it is told to end. It can be called again.
func (n *Node) Exit() {
	if !n.exited.CompareAndSwap(false, true) {
		return
	}
	var wg sync.WaitGroup
	n.Sys.Exit(&wg)
	wg.Wait()
}

// Spawn registers an actor.
func (n *Node) Spawn(id, ty string) (*Probe, error) {
	b := n.Sys.Loader(ty)
	if b == nil {
		return nil, fmt.Errorf("no such type")
	}
	a, err := b.WithID(id).Register(context.Background())
	if err != nil {
		return nil, err
	}
	return a.(*probeActor).Probe, nil
}

// Must registers an actor that nothing keeps from being registered.
func (n *Node) Must(c *Case, id, ty string) *Probe {
	p, err := n.Spawn(id, ty)
	if err != nil {
		c.Fail("setup-register", "registering %s of type %s on %s failed: %v", id, ty, n.Name, err)
		panic(errSetup)
	}
	return p
}

var errSetup = fmt.Errorf("setup failed")

func newMsg() *msg.Wrapper { return msg.NewBuilder(context.Background()).Build() }
func newMsgCtx(ctx context.Context) *msg.Wrapper {
	return msg.NewBuilder(ctx).Build()
}

// within waits for f in the case's time and reports whether it returned.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// eventually polls until f holds.
func eventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return f()
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

// jitter passes a little real time, for goroutines to diverge.
func (c *Case) pick(n int) int {
	return c.R.Intn(n)
}

// setPort makes a node that does not listen known under a port, as if it had been killed there.
func setPort(b core.IAddressBook, port int) { b.(*addressbook.AddressBook).Port = port }
