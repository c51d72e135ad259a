package mon

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	bgrpc "github.com/pojol/braid/lib/grpc"
	"github.com/pojol/braid/lib/grpc/mock"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
)

func init() {
	reg(Scenario{Prop: "C23", Name: "client", Quick: 300, Thorough: 8000, Run: runClient,
		Rule: "2-16 callers make 2-6 limited and unlimited calls each through one client with a limit of 1-5, to quick, slow, failing, unknown, unreachable and restarting servers, with deadlines, " +
			"cancellations, bad options and bad methods; an outcome is the results and the highest concurrency"})
	reg(Scenario{Prop: "C23", Name: "slots", Quick: 300, Thorough: 8000, Run: runClientSlots,
		Rule: "calls that end in every possible way use up and give back the slots; then as many calls as the limit allows run at once, and queued ones follow one by one; an outcome is the mix and the timing"})
	reg(Scenario{Prop: "C23", Name: "tcp", Mode: Real, Quick: 80, Thorough: 2000, Run: runClientTCP,
		Rule: "braid's server and several clients over TCP; the server is closed, gracefully or not, during 10-60 calls, and started again"})
}

type mockReq struct {
	Tag  string
	MS   int
	Code codes.Code
	Big  int
}

type mockSrv struct {
	mock.UnimplementedMockServiceServer
	in, max atomic.Int64
	mu      sync.Mutex
	seen    map[string]int
}

func (s *mockSrv) Process(ctx context.Context, req *mock.MockRequest) (*mock.MockResponse, error) {
	var m mockReq
	json.Unmarshal([]byte(req.Message), &m)
	s.mu.Lock()
	if s.seen == nil {
		s.seen = map[string]int{}
	}
	s.seen[m.Tag]++
	s.mu.Unlock()
	if m.MS > 0 {
		t := time.NewTimer(time.Duration(m.MS) * time.Millisecond)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	if m.Code != codes.OK {
		return nil, status.Error(m.Code, "server error")
	}
	return &mock.MockResponse{Message: "re:" + m.Tag + string(make([]byte, m.Big))}, nil
}

func (s *mockSrv) handled(tag string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.seen[tag]
}

const process = "/mock.MockService/Process"

// bufNet is an in-memory network.
type bufNet struct {
	mu  sync.Mutex
	lis map[string]*bufconn.Listener
	srv map[string]*grpc.Server
}

func (n *bufNet) up(addr string, s *mockSrv) {
	l := bufconn.Listen(1 << 16)
	g := grpc.NewServer()
	mock.RegisterMockServiceServer(g, s)
	n.mu.Lock()
	if n.lis == nil {
		n.lis, n.srv = map[string]*bufconn.Listener{}, map[string]*grpc.Server{}
	}
	n.lis[addr], n.srv[addr] = l, g
	n.mu.Unlock()
	go g.Serve(l)
}

func (n *bufNet) down(addr string) {
	n.mu.Lock()
	g := n.srv[addr]
	delete(n.lis, addr)
	delete(n.srv, addr)
	n.mu.Unlock()
	if g != nil {
		g.Stop()
	}
}

func (n *bufNet) dial(ctx context.Context, addr string) (net.Conn, error) {
	n.mu.Lock()
	l := n.lis[addr]
	n.mu.Unlock()
	if l == nil {
		return nil, errors.New("connection refused")
	}
	return l.DialContext(ctx)
}

type limitedKey struct{}

// gauge counts the limited calls that are in flight, as the client sees it.
type gauge struct{ in, max, total atomic.Int64 }

func (g *gauge) intercept(ctx context.Context, method string, req, reply any, cc *grpc.ClientConn, invoker grpc.UnaryInvoker, opts ...grpc.CallOption) error {
	if ctx.Value(limitedKey{}) == nil {
		return invoker(ctx, method, req, reply, cc, opts...)
	}
	g.total.Add(1)
	n := g.in.Add(1)
	for m := g.max.Load(); n > m && !g.max.CompareAndSwap(m, n); m = g.max.Load() {
	}
	defer g.in.Add(-1)
	return invoker(ctx, method, req, reply, cc, opts...)
}

func (c *Case) mockClient(n *bufNet, g *gauge, limit int, conns []string) *bgrpc.Client {
	cl := bgrpc.BuildClientWithOption(bgrpc.WithMaxConcurrentCalls(limit), bgrpc.WithClientConns(conns),
		bgrpc.WithDialOptions(grpc.WithContextDialer(n.dial)), bgrpc.ClientAppendUnaryInterceptors(g.intercept))
	if err := cl.Init(); err != nil {
		c.Fail("init", "initialising a client failed: %v", err)
	}
	return cl
}

func runClient(c *Case) {
	var nw bufNet
	srv := &mockSrv{}
	nw.up("passthrough:///a", srv)
	nw.lis["a"] = nw.lis["passthrough:///a"]
	nw.up("passthrough:///b", srv)
	nw.lis["b"] = nw.lis["passthrough:///b"]
	c.Defer(func() { nw.down("passthrough:///a"); nw.down("passthrough:///b") })
	var g gauge
	limit := 1 + c.pick(5)
	cl := c.mockClient(&nw, &g, limit, []string{"passthrough:///a", "passthrough:///b"})
	G := 2 + c.pick(15)
	bDown := c.pick(3) == 0 // b goes down and comes back
	var wg sync.WaitGroup
	var mu sync.Mutex
	sig := map[string]int{}
	for k := 0; k < G; k++ {
		rr := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2+rr.Intn(5); i++ {
				req := mockReq{Tag: fmt.Sprintf("%d.%d", k, i)}
				addr, method := "passthrough:///a", process
				var opts []interface{}
				if rr.Intn(3) == 0 {
					addr = "passthrough:///b"
				}
				limited := rr.Intn(4) > 0
				ctx := context.Background()
				if limited {
					ctx = context.WithValue(ctx, limitedKey{}, true)
				}
				end := time.Duration(0)
				kind := "ok"
				switch rr.Intn(12) {
				case 0:
					req.Code, kind = codes.Code(1+rr.Intn(16)), "server error"
				case 1:
					addr, kind = "passthrough:///nobody", "unreachable"
				case 2:
					method, kind = []string{"/mock.MockService/None", "/x/y", "junk"}[rr.Intn(3)], "bad method"
				case 3:
					opts, kind = []interface{}{[]interface{}{"not an option", nil, 42, grpc.CallOption(nil)}[rr.Intn(4)]}, "bad option"
				case 4:
					opts = []interface{}{grpc.MaxCallRecvMsgSize(4 << 20), grpc.WaitForReady(false)}
				case 5, 6:
					req.MS = rr.Intn(3000)
				case 7, 8:
					req.MS = rr.Intn(3000)
					end = time.Duration(rr.Intn(2500)) * time.Millisecond
					kind = "deadline"
					if addr == "passthrough:///b" && bDown {
						kind = "restart"
					}
				case 9:
					req.Big = rr.Intn(100000)
				}
				if (kind == "ok" || kind == "server error") && addr == "passthrough:///b" && bDown {
					kind = "restart"
				}
				time.Sleep(time.Duration(rr.Intn(500)) * time.Millisecond)
				if end > 0 || kind == "deadline" {
					var cancel context.CancelFunc
					if rr.Intn(2) == 0 {
						ctx, cancel = context.WithTimeout(ctx, end)
					} else {
						ctx, cancel = context.WithCancel(ctx)
						time.AfterFunc(end, cancel)
					}
					defer cancel()
				}
				b, _ := json.Marshal(req)
				reply := &mock.MockResponse{}
				start := time.Now()
				var err error
				if limited {
					err = cl.Call(ctx, addr, method, &mock.MockRequest{Message: string(b)}, reply, opts...)
				} else {
					err = cl.CallWait(ctx, addr, method, &mock.MockRequest{Message: string(b)}, reply, opts...)
				}
				took := time.Since(start)
				n := srv.handled(req.Tag)
				desc := fmt.Sprintf("a call (limited %v, %s) to %s %s of a server that takes %d ms and answers %v, with an end after %v: %v after %v, reply of %d bytes %.30q, handled %d times", limited, kind, addr, method, req.MS, req.Code, end, err, took, len(reply.Message), reply.Message, n)
				if err == nil {
					c.Check(kind == "ok" || kind == "deadline" || kind == "restart" && req.Code == codes.OK, "success", "%s", desc)
					c.Check(reply.Message == "re:"+req.Tag+string(make([]byte, req.Big)) && n == 1, "reply", "%s", desc)
				} else {
					c.Check(kind != "ok", "failure", "%s", desc)
					if kind == "server error" {
						c.Check(status.Code(err) == req.Code || errCode(err) == req.Code, "code", "%s", desc)
					}
					if kind == "deadline" {
						c.Check(took >= end-10*time.Millisecond, "early", "%s", desc)
					}
				}
				if end > 0 {
					c.Check(took <= end+100*time.Millisecond, "late", "%s", desc)
				}
				mu.Lock()
				sig[fmt.Sprint(kind, limited, err == nil)]++
				mu.Unlock()
			}
		}()
	}
	if bDown {
		time.Sleep(time.Duration(c.pick(1500)) * time.Millisecond)
		nw.down("passthrough:///b")
		nw.mu.Lock()
		delete(nw.lis, "b")
		nw.mu.Unlock()
		time.Sleep(time.Duration(c.pick(3000)) * time.Millisecond)
		nw.up("passthrough:///b", srv)
		nw.mu.Lock()
		nw.lis["b"] = nw.lis["passthrough:///b"]
		nw.mu.Unlock()
	}
	if !within(10*time.Minute, wg.Wait) {
		c.Fail("stuck", "calls have not returned after 10 minutes")
		return
	}
	c.Check(g.max.Load() <= int64(limit), "limit", "%d limited calls were in flight, the limit is %d", g.max.Load(), limit)
	c.Check(g.in.Load() == 0, "left", "%d limited calls are still in flight after all have returned", g.in.Load())
	// both servers answer in the end
	for _, addr := range []string{"passthrough:///a", "passthrough:///b"} {
		var err error
		ok := eventually(5*time.Minute, func() bool {
			err = cl.Call(context.WithValue(context.Background(), limitedKey{}, true), addr, process, &mock.MockRequest{Message: `{"Tag":"last"}`}, &mock.MockResponse{})
			if err != nil {
				time.Sleep(time.Second)
			}
			return err == nil
		})
		c.Check(ok, "after", "a call to %s after everything else fails: %v", addr, err)
	}
	c.N("limited calls in flight", int(g.total.Load()))
	c.Sig(limit, G, g.max.Load(), sig)
	c.Sample("limit %d, %d callers, at most %d at once: %v", limit, G, g.max.Load(), sig)
}

func errCode(err error) codes.Code {
	for err != nil {
		if s, ok := err.(interface{ GRPCStatus() *status.Status }); ok {
			return s.GRPCStatus().Code()
		}
		err = errors.Unwrap(err)
	}
	return codes.Unknown
}

func runClientSlots(c *Case) {
	var nw bufNet
	srv := &mockSrv{}
	nw.up("passthrough:///a", srv)
	nw.lis["a"] = nw.lis["passthrough:///a"]
	c.Defer(func() { nw.down("passthrough:///a") })
	var g gauge
	limit := 1 + c.pick(4)
	cl := c.mockClient(&nw, &g, limit, []string{"passthrough:///a", "passthrough:///dead"})
	lim := context.WithValue(context.Background(), limitedKey{}, true)
	call := func(ctx context.Context, addr, method string, req mockReq, opts ...interface{}) error {
		b, _ := json.Marshal(req)
		return cl.Call(ctx, addr, method, &mock.MockRequest{Message: string(b)}, &mock.MockResponse{}, opts...)
	}
	what := ""
	for i := 0; i < 1+c.pick(3*limit); i++ {
		k := c.pick(9)
		what += fmt.Sprint(k)
		switch k {
		case 0:
			call(lim, "nowhere", process, mockReq{})
		case 1:
			call(lim, "passthrough:///a", process, mockReq{}, 42)
		case 2:
			call(lim, "passthrough:///a", process, mockReq{Code: codes.Internal})
		case 3:
			ctx, cancel := context.WithTimeout(lim, time.Duration(1+c.pick(50))*time.Millisecond)
			err := call(ctx, "passthrough:///a", process, mockReq{MS: 10000})
			cancel()
			c.Check(err != nil, "success", "a call whose context ended succeeded")
		case 4:
			call(lim, "passthrough:///dead", process, mockReq{})
		case 5:
			call(lim, "passthrough:///a", "/bad/Method", mockReq{})
		case 6:
			// its context ends while it waits for a slot
			var wg sync.WaitGroup
			for j := 0; j < limit; j++ {
				wg.Add(1)
				go func() { defer wg.Done(); call(lim, "passthrough:///a", process, mockReq{MS: 500}) }()
			}
			time.Sleep(100 * time.Millisecond)
			ctx, cancel := context.WithTimeout(lim, 100*time.Millisecond)
			start := time.Now()
			err := call(ctx, "passthrough:///a", process, mockReq{Tag: "waiting"})
			took := time.Since(start)
			cancel()
			c.Check(err != nil && took <= 150*time.Millisecond && srv.handled("waiting") == 0, "waiting", "a call whose context ended after 100 ms while it waited for a slot: %v after %v, handled %d times", err, took, srv.handled("waiting"))
			wg.Wait()
		case 7:
			// their context has ended although slots are free
			for j := 0; j < 1+c.pick(2*limit+2); j++ {
				ctx, cancel := context.WithCancel(lim)
				cancel()
				err := call(ctx, "passthrough:///a", process, mockReq{})
				c.Check(err != nil, "success", "a call whose context had ended succeeded")
			}
		case 8:
			// contexts that end while slots become free
			var wg sync.WaitGroup
			for j := 0; j < 4*limit; j++ {
				r := c.Rand()
				wg.Add(1)
				go func() {
					defer wg.Done()
					ctx, cancel := context.WithTimeout(lim, time.Duration(10+10*r.Intn(4))*time.Millisecond)
					defer cancel()
					call(ctx, "passthrough:///a", process, mockReq{MS: 10 * r.Intn(3)})
				}()
			}
			wg.Wait()
		}
	}
	// as many as allowed at once, the others one after the other
	extra := c.pick(2*limit + 2)
	g.max.Store(0)
	var wg sync.WaitGroup
	start := time.Now()
	var worst atomic.Int64
	for j := 0; j < limit+extra; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := call(lim, "passthrough:///a", process, mockReq{MS: 1000})
			c.Check(err == nil, "proceed", "a call after others had ended (%s) failed: %v", what, err)
			worst.Store(max(worst.Load(), int64(time.Since(start))))
		}()
	}
	if !within(time.Hour, wg.Wait) {
		c.Fail("stuck", "calls did not get a slot within an hour, after %s; the limit is %d", what, limit)
		return
	}
	rounds := (limit + extra + limit - 1) / limit
	took := time.Since(start)
	c.Check(g.max.Load() == int64(limit), "slots", "after %s at most %d calls ran at once, the limit is %d", what, g.max.Load(), limit)
	c.Check(took < time.Duration(rounds)*time.Second+500*time.Millisecond, "slots", "%d calls of a second took %v with a limit of %d (after %s)", limit+extra, took, limit, what)
	c.N("calls", limit+extra)
	c.Sig(limit, extra, what)
	c.Sample("limit %d, after %s: %d calls took %v, %d at once", limit, what, limit+extra, took, g.max.Load())
}

func runClientTCP(c *Case) {
	port := freePort()
	addr := fmt.Sprint("127.0.0.1:", port)
	srv := &mockSrv{}
	graceful := c.pick(2) == 0
	var intercepted atomic.Int64
	start := func() *bgrpc.Server {
		opts := []bgrpc.ServerOption{bgrpc.WithServerListen(fmt.Sprint(":", port)), bgrpc.ServerRegisterHandler(func(g *grpc.Server) { mock.RegisterMockServiceServer(g, srv) }),
			bgrpc.ServerAppendUnaryInterceptors(func(ctx context.Context, req any, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) {
				intercepted.Add(1)
				return h(ctx, req)
			})}
		if graceful {
			opts = append(opts, bgrpc.WithServerGracefulStop())
		}
		s := bgrpc.BuildServerWithOption(opts...)
		if err := s.Init(); err != nil {
			return nil
		}
		s.Run()
		return s
	}
	s := start()
	if s == nil {
		return // somebody else has the port
	}
	second := start()
	if !c.Check(second == nil, "port", "a second server on the same port started") {
		second.Close()
	}
	var wg sync.WaitGroup
	nc := 1 + c.pick(3)
	var oks, errs atomic.Int64
	var closing atomic.Bool
	type one struct {
		tag string
		err error
	}
	var mu sync.Mutex
	var all []one
	for k := 0; k < nc; k++ {
		var g gauge
		cl := bgrpc.BuildClientWithOption(bgrpc.ClientAppendUnaryInterceptors(g.intercept), bgrpc.WithMaxConcurrentCalls(4))
		for j := 0; j < 1+c.pick(6); j++ {
			rr := c.Rand()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 10; i++ {
					req := mockReq{Tag: fmt.Sprintf("%d.%d.%d", k, j, i), MS: rr.Intn(8), Big: rr.Intn(2000)}
					b, _ := json.Marshal(req)
					reply := &mock.MockResponse{}
					before := closing.Load()
					ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
					err := cl.CallWait(ctx, addr, process, &mock.MockRequest{Message: string(b)}, reply)
					cancel()
					if err == nil {
						oks.Add(1)
						c.Check(reply.Message == "re:"+req.Tag+string(make([]byte, req.Big)), "reply", "the reply to %s is %.20q", req.Tag, reply.Message)
					} else {
						errs.Add(1)
						c.Check(before || closing.Load(), "failure", "a call to a running server failed: %v", err)
					}
					mu.Lock()
					all = append(all, one{req.Tag, err})
					mu.Unlock()
				}
			}()
		}
	}
	down := c.pick(3) > 0
	if down {
		time.Sleep(time.Duration(c.pick(40)) * time.Millisecond)
		closing.Store(true)
		if !within(20*time.Second, s.Close) {
			c.Fail("close", "closing the server (gracefully: %v) takes more than 20 s", graceful)
			return
		}
	}
	if !within(60*time.Second, wg.Wait) {
		c.Fail("stuck", "calls have not returned after a minute")
		return
	}
	for _, o := range all {
		n := srv.handled(o.tag)
		c.Check(n <= 1, "twice", "one call was handled %d times", n)
		if o.err == nil {
			c.Check(n == 1, "nobody", "a call succeeded, and was handled %d times", n)
		}
	}
	if !down {
		c.Check(intercepted.Load() == oks.Load(), "interceptor", "%d calls succeeded, the server's interceptor saw %d", oks.Load(), intercepted.Load())
		s.Close()
	}
	c.N("calls", int(oks.Load()+errs.Load()))
	c.Sig(graceful, down, oks.Load())
	c.Sample("%d clients, server closed %v (graceful %v): %d calls succeeded, %d failed", nc, down, graceful, oks.Load(), errs.Load())
}
