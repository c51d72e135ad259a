package mon

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	bgrpc "github.com/pojol/braid/lib/grpc"
	"github.com/pojol/braid/lib/grpc/mock"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

func init() {
	reg(Scenario{Prop: "C45", Name: "interceptors", Mode: Real, Quick: 60, Thorough: 1500, Run: runInterceptors,
		Rule: "a client and a server with 0-5 interceptors of each kind, given in one or several options, which pass calls on, refuse them, change them or fail afterwards, and 5-60 concurrent unary calls and streams; " +
			"an outcome is the plan of a call and the steps it went through"})
	reg(Scenario{Prop: "C45", Name: "loader", Quick: 300, Thorough: 10000, Run: runLoader,
		Rule: "1-4 nodes with loaders and factories of the application's own, initialised, asked for builders and picking actors, concurrently; an outcome is the calls the loaders saw"})
}

type steps struct {
	mu  sync.Mutex
	log map[string][]string // call -> steps
}

func (s *steps) add(call, step string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.log == nil {
		s.log = map[string][]string{}
	}
	s.log[call] = append(s.log[call], step)
}

func (s *steps) of(call string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return strings.Join(s.log[call], " ")
}

// chain is what an application's interceptors do with a call: "pass", "refuse" (not passed on), "spoil" (an error in place of the result).
type chain struct {
	side  string
	plans func(call string, i int) string
	s     *steps
}

func (h *chain) run(call string, i int, next func() error) error {
	h.s.add(call, fmt.Sprintf("%s%d", h.side, i))
	do := h.plans(call, i)
	if do == "refuse" {
		return status.Errorf(codes.PermissionDenied, "refused by %s%d", h.side, i)
	}
	err := next()
	h.s.add(call, fmt.Sprintf("/%s%d", h.side, i))
	if do == "spoil" {
		return status.Errorf(codes.DataLoss, "spoilt by %s%d", h.side, i)
	}
	return err
}

// expect computes the steps and the error text of a call.
func expect(names []string, plan map[string]string) (string, string) {
	var in, out []string
	text := ""
	k := 0
	for ; k < len(names); k++ {
		in = append(in, names[k])
		if plan[names[k]] == "refuse" {
			text = "refused by " + names[k]
			break
		}
	}
	if k == len(names) {
		in = append(in, "handler")
	}
	for k--; k >= 0; k-- {
		out = append(out, "/"+names[k])
		if plan[names[k]] == "spoil" {
			text = "spoilt by " + names[k]
		}
	}
	return strings.Join(append(in, out...), " "), text
}

type stepSrv struct {
	mock.UnimplementedMockServiceServer
	s *steps
}

func (h *stepSrv) Process(ctx context.Context, req *mock.MockRequest) (*mock.MockResponse, error) {
	h.s.add(req.Message, "handler")
	return &mock.MockResponse{Message: "re:" + req.Message}, nil
}

func callOf(ctx context.Context) string {
	md, _ := metadata.FromIncomingContext(ctx)
	return strings.Join(md.Get("call"), ",")
}

func runInterceptors(c *Case) {
	var s steps
	var plans sync.Map // call -> map of interceptor -> plan
	plan := func(side string) func(string, int) string {
		return func(call string, i int) string {
			v, ok := plans.Load(call)
			if !ok {
				return ""
			}
			return v.(map[string]string)[fmt.Sprintf("%s%d", side, i)]
		}
	}
	nc, nu, ns := c.pick(6), c.pick(6), c.pick(6)
	cc, su, ss := &chain{"c", plan("c"), &s}, &chain{"u", plan("u"), &s}, &chain{"s", plan("s"), &s}
	graceful := c.pick(2) == 0
	desc := grpc.ServiceDesc{ServiceName: "verif.Echo", HandlerType: (*any)(nil), Streams: []grpc.StreamDesc{{
		StreamName: "Echo", ServerStreams: true, ClientStreams: true, Handler: func(_ any, st grpc.ServerStream) error {
			s.add(callOf(st.Context()), "handler")
			for {
				var m mock.MockRequest
				if err := st.RecvMsg(&m); err == io.EOF {
					return nil
				} else if err != nil {
					return err
				}
				if err := st.SendMsg(&mock.MockResponse{Message: "re:" + m.Message}); err != nil {
					return err
				}
			}
		}}}}
	var uis []grpc.UnaryServerInterceptor
	for i := 0; i < nu; i++ {
		uis = append(uis, func(ctx context.Context, req any, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (res any, err error) {
			return res, su.run(callOf(ctx), i, func() error { res, err = h(ctx, req); return err })
		})
	}
	opts := []bgrpc.ServerOption{bgrpc.ServerRegisterHandler(func(g *grpc.Server) {
		mock.RegisterMockServiceServer(g, &stepSrv{s: &s})
		g.RegisterService(&desc, struct{}{})
	})}
	for len(uis) > 0 {
		k := 1 + c.pick(len(uis))
		opts = append(opts, bgrpc.ServerAppendUnaryInterceptors(uis[:k]...))
		uis = uis[k:]
	}
	for i := 0; i < ns; i++ {
		opts = append(opts, bgrpc.ServerAppendStreamInterceptors(func(srv any, st grpc.ServerStream, info *grpc.StreamServerInfo, h grpc.StreamHandler) error {
			return ss.run(callOf(st.Context()), i, func() error { return h(srv, st) })
		}))
	}
	if graceful {
		opts = append(opts, bgrpc.WithServerGracefulStop())
	}
	port := freePort()
	addr := fmt.Sprint("127.0.0.1:", port)
	at := c.pick(len(opts) + 1) // the options' order between the kinds does not matter
	opts = append(opts[:at:at], append([]bgrpc.ServerOption{bgrpc.WithServerListen(fmt.Sprint(":", port))}, opts[at:]...)...)
	srv := bgrpc.BuildServerWithOption(opts...)
	if err := srv.Init(); err != nil {
		return // somebody else has the port
	}
	srv.Run()
	c.Defer(srv.Close)

	var cis []grpc.UnaryClientInterceptor
	for i := 0; i < nc; i++ {
		cis = append(cis, func(ctx context.Context, method string, req, reply any, conn *grpc.ClientConn, inv grpc.UnaryInvoker, o ...grpc.CallOption) error {
			return cc.run(req.(*mock.MockRequest).Message, i, func() error { return inv(ctx, method, req, reply, conn, o...) })
		})
	}
	var copts []bgrpc.ClientOption
	for len(cis) > 0 {
		k := 1 + c.pick(len(cis))
		copts = append(copts, bgrpc.ClientAppendUnaryInterceptors(cis[:k]...))
		cis = cis[k:]
	}
	known := c.pick(2) == 0
	if known {
		copts = append(copts, bgrpc.WithClientConns([]string{addr}))
	}
	cl := bgrpc.BuildClientWithOption(copts...)
	if err := cl.Init(); err != nil {
		c.Fail("init", "initialising a client failed: %v", err)
		return
	}
	raw, err := grpc.NewClient(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		c.Fail("init", "connecting failed: %v", err)
		return
	}
	c.Defer(func() { raw.Close() })
	// connected once
	if err := cl.CallWait(context.Background(), addr, process, &mock.MockRequest{Message: "first"}, &mock.MockResponse{}); err != nil {
		c.Fail("connect", "the first call failed: %v", err)
		return
	}

	names := func(side string, n int) (out []string) {
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("%s%d", side, i))
		}
		return
	}
	var wg sync.WaitGroup
	G := 1 + c.pick(6)
	for g := 0; g < G; g++ {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 4+r.Intn(8); j++ {
				call := fmt.Sprintf("call-%d-%d", g, j)
				kind := []string{"wait", "limited", "stream"}[r.Intn(3)]
				if !known && kind == "limited" {
					kind = "wait"
				}
				chain := append(names("c", nc), names("u", nu)...)
				if kind == "stream" {
					chain = names("s", ns)
				}
				p := map[string]string{}
				if r.Intn(3) > 0 {
					for _, n := range chain {
						p[n] = []string{"", "", "", "", "refuse", "spoil"}[r.Intn(6)]
					}
				}
				plans.Store(call, p)
				ctx, cancel := context.WithTimeout(metadata.AppendToOutgoingContext(context.Background(), "call", call), 30*time.Second)
				var err error
				res := ""
				if kind == "stream" {
					res, err = echo(ctx, raw, call, 1+r.Intn(3))
				} else {
					var rep mock.MockResponse
					if kind == "limited" {
						err = cl.Call(ctx, addr, process, &mock.MockRequest{Message: call}, &rep)
					} else {
						err = cl.CallWait(ctx, addr, process, &mock.MockRequest{Message: call}, &rep)
					}
					res = rep.Message
				}
				cancel()
				want, text := expect(chain, p)
				got := s.of(call)
				what := fmt.Sprintf("%s call %s with interceptors %v, which do %v", kind, call, chain, p)
				if kind == "stream" { // the server goes on after the client has the status
					eventually(10*time.Second, func() bool { return s.of(call) == want })
					got = s.of(call)
				}
				if !c.Check(got == want, "steps", "%s: went through %q, expected %q (error %v)", what, got, want, err) {
					return
				}
				if text != "" {
					c.Check(err != nil && strings.Contains(err.Error(), text), "error", "%s: returned %v, expected %q", what, err, text)
				} else {
					c.Check(err == nil && res == "re:"+call, "result", "%s: returned %q, %v", what, res, err)
				}
				c.N(kind, 1)
				c.Sig(kind, want)
			}
		}()
	}
	wg.Wait()
	c.Sample("%d client, %d unary and %d stream interceptors: %d calls", nc, nu, ns, len(s.log))
}

func echo(ctx context.Context, conn *grpc.ClientConn, call string, n int) (string, error) {
	st, err := conn.NewStream(ctx, &grpc.StreamDesc{ServerStreams: true, ClientStreams: true}, "/verif.Echo/Echo")
	if err != nil {
		return "", err
	}
	res := ""
	for i := 0; i < n; i++ {
		if err := st.SendMsg(&mock.MockRequest{Message: call}); err != nil && err != io.EOF {
			return "", err
		}
		var m mock.MockResponse
		if err := st.RecvMsg(&m); err != nil {
			if err == io.EOF {
				err = errors.New("the stream ended early")
			}
			return "", err
		}
		if i > 0 && m.Message != res {
			return "", fmt.Errorf("%q after %q", m.Message, res)
		}
		res = m.Message
	}
	st.CloseSend()
	var m mock.MockResponse
	if err := st.RecvMsg(&m); err != io.EOF {
		return res, err
	}
	return res, nil
}

// ownLoader is a loader as an application may write it.
type ownLoader struct {
	n     *Node
	err   error
	mu    sync.Mutex
	asked map[string]int
	inits []core.INode
	picks map[core.IActorBuilder]context.Context
	made  []core.IActorBuilder
}

func (l *ownLoader) Builder(ty string, sys core.ISystem) core.IActorBuilder {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.asked[ty]++
	ac := l.n.Cons[ty]
	if ac == nil {
		return nil
	}
	b := &actor.ActorLoaderBuilder{ISystem: sys, ActorConstructor: *ac, IActorLoader: l}
	l.made = append(l.made, b)
	return b
}

func (l *ownLoader) Pick(ctx context.Context, b core.IActorBuilder) error {
	l.mu.Lock()
	l.picks[b] = ctx
	l.mu.Unlock()
	if l.err != nil {
		return l.err
	}
	_, err := b.Register(ctx)
	return err
}

func (l *ownLoader) AssignToNode(n core.INode) {
	l.mu.Lock()
	l.inits = append(l.inits, n)
	l.mu.Unlock()
	for _, ty := range l.n.order {
		if l.n.Cons[ty].Dynamic {
			continue
		}
		b := n.System().Loader(ty)
		if b != nil {
			b.WithID(n.ID() + "_" + ty).Register(context.Background())
		}
	}
}

type loaderKey struct{}

func runLoader(c *Case) {
	c.NewRedis()
	type own struct {
		*Node
		l *ownLoader
	}
	var nodes []own
	nn := 1 + c.pick(4)
	for i := 0; i < nn; i++ {
		n := &Node{Name: fmt.Sprint("n", i), Types: Types{}, Cons: map[string]*core.ActorConstructor{}, Ip: fmt.Sprint("10.0.0.", i+1)}
		l := &ownLoader{n: n, asked: map[string]int{}, picks: map[core.IActorBuilder]context.Context{}}
		if c.pick(3) == 0 {
			l.err = fmt.Errorf("%s does not want it", n.Name)
		}
		for j := 0; j < 1+c.pick(5); j++ {
			ty := fmt.Sprint("ty", j)
			opts := map[string]string{}
			for k := c.pick(3); k > 0; k-- {
				opts[fmt.Sprint("opt", k)] = text(c.R)
			}
			n.order = append(n.order, ty)
			n.Types[ty] = &Type{}
			n.Cons[ty] = &core.ActorConstructor{ID: ty, Name: ty, Weight: c.pick(5), Options: opts, Dynamic: c.pick(2) == 0, Constructor: func(b core.IActorBuilder) core.IActor {
				p := &Probe{Runtime: &actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}, Builder: b, Node: n, No: probeNo.Add(1)}
				return &probeActor{Probe: p, t: n.Types[ty]}
			}}
		}
		opts := []core.NodeOption{core.NodeWithID(n.Name), core.NodeWithIP(n.Ip), core.NodeWithLoader(l), core.NodeWithFactory(factory{n})}
		c.R.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
		n.INode = node.BuildProcessWithOption(opts...)
		n.Sys = n.INode.System()
		c.Defer(n.Exit)
		nodes = append(nodes, own{n, l})
		c.Check(node.Get() == n.INode, "get", "after %s was built, Get returns %v", n.Name, node.Get().ID())
		c.Check(n.INode.ID() == n.Name, "id", "%s: its ID is %q", n.Name, n.INode.ID())
	}
	var wg sync.WaitGroup
	for _, n := range nodes {
		wg.Add(1)
		r := c.Rand()
		go func() {
			defer wg.Done()
			yield(r)
			if err := n.Init(); err != nil {
				c.Fail("init", "%s: Init returned %v", n.Name, err)
			}
		}()
	}
	wg.Wait()
	static := map[string]bool{}
	for _, n := range nodes {
		l := n.l
		l.mu.Lock()
		ok := len(l.inits) == 1 && l.inits[0] == n.INode
		l.mu.Unlock()
		c.Check(ok, "assign", "%s was initialised once: its loader was handed %d nodes (%v)", n.Name, len(l.inits), l.inits)
		for _, ty := range n.order {
			id := n.Name + "_" + ty
			_, err := n.Sys.FindActor(context.Background(), id)
			if !n.Cons[ty].Dynamic {
				static[id] = true
			}
			c.Check((err == nil) == static[id], "static", "%s: after the initialisation, finding %s returns %v (registered by the loader: %v)", n.Name, id, err, static[id])
		}
		c.N("initialised", 1)
	}
	for _, n := range nodes {
		for g := 0; g < 1+c.pick(3); g++ {
			wg.Add(1)
			r := c.Rand()
			go func() {
				defer wg.Done()
				for j := 0; j < 1+r.Intn(5); j++ {
					yield(r)
					ty := fmt.Sprint("ty", r.Intn(6))
					b := n.Sys.Loader(ty)
					cons := n.Cons[ty]
					if cons == nil {
						c.Check(b == nil || isNil(b), "unknown", "%s: the loader has no builder for %s, the system returned %v", n.Name, ty, b)
						c.Sig("unknown type")
						continue
					}
					n.l.mu.Lock()
					mine := false
					for _, m := range n.l.made {
						mine = mine || m == b
					}
					n.l.mu.Unlock()
					if !c.Check(mine, "builder", "%s: the builder for %s is not one its loader made", n.Name, ty) {
						continue
					}
					c.Check(b.GetType() == ty && b.GetWeight() == cons.Weight && b.GetSystem() == n.Sys && b.GetLoader() == core.IActorLoader(n.l), "builder",
						"%s: the builder for %s has type %q, weight %d, system %p (its own: %p), loader %p (its own: %p)", n.Name, ty, b.GetType(), b.GetWeight(), b.GetSystem(), n.Sys, b.GetLoader(), n.l)
					for k, v := range cons.Options {
						c.Check(b.GetOpt(k) == v, "option", "%s: the builder for %s has option %s = %q, the template %q", n.Name, ty, k, b.GetOpt(k), v)
					}
					id := fmt.Sprintf("%s-%d-%d-%d", n.Name, g, j, r.Intn(1000))
					ctx := context.WithValue(context.Background(), loaderKey{}, id)
					err := b.WithID(id).Picker(ctx)
					n.l.mu.Lock()
					got, ok := n.l.picks[b]
					n.l.mu.Unlock()
					c.Check(ok && got.Value(loaderKey{}) == id, "pick", "%s: picking %s with a context: its loader was asked: %v, with the context's value: %v", n.Name, id, ok, ok && got.Value(loaderKey{}) == id)
					if n.l.err != nil {
						c.Check(errors.Is(err, n.l.err), "refused", "%s: the loader refuses to pick %s with %q, the builder returned %v", n.Name, id, n.l.err, err)
						c.Sig("refused")
					} else {
						_, ferr := n.Sys.FindActor(context.Background(), id)
						c.Check(err == nil && ferr == nil, "picked", "%s: picking %s returned %v, finding it %v", n.Name, id, err, ferr)
						c.Sig("picked", ty, len(cons.Options))
					}
					c.N("picks", 1)
				}
			}()
		}
	}
	wg.Wait()
	c.Sample("%d nodes, %d actors of fixed types", nn, len(static))
}

func isNil(v any) bool {
	rv := reflect.ValueOf(v)
	return rv.Kind() == reflect.Ptr && rv.IsNil()
}
