package zzdemo

import (
	"context"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/lib/log"
	"github.com/pojol/braid/router/msg"
	"github.com/redis/go-redis/v9"
	"go.uber.org/zap/zapcore"
)

func init() {
	log.SetSLog(&log.ServerLog{Helper: quiet{}})
}

type quiet struct{}

func (quiet) SystemReqInfo(id log.LogAccID, path log.LogPath, token log.LogToken, ip log.LogRealIP, format string, v ...interface{}) {
}
func (quiet) SystemLog(level zapcore.Level, code log.LogECode, id log.LogAccID, path log.LogPath, token log.LogToken, ip log.LogRealIP, format string, v ...interface{}) {
}

func (quiet) Log(level zapcore.Level, format string, v ...interface{}) {}
func (quiet) Sync()                                                     {}

// store starts a store and makes it braid's
func store(t *testing.T) *miniredis.Miniredis {
	mr := miniredis.RunT(t)
	trdredis.MockClient(redis.NewClient(&redis.Options{Addr: mr.Addr()}))
	return mr
}

type typ struct {
	weight, limit int
	unique        bool
	init          func(a *act)
}

type act struct {
	*actor.Runtime
	t *typ
}

func (a *act) Init(ctx context.Context) {
	a.Runtime.Init(ctx)
	if a.t.init != nil {
		a.t.init(a)
	}
}

func (a *act) on(ev string, f func(ctx core.ActorContext, w *msg.Wrapper) error) {
	a.OnEvent(ev, func(ctx core.ActorContext) core.IChain {
		return &actor.DefaultChain{Handler: func(w *msg.Wrapper) error { return f(ctx, w) }}
	})
}

type world map[string]*typ

func (w world) Get(ty string) *core.ActorConstructor {
	t := w[ty]
	if t == nil {
		return nil
	}
	return &core.ActorConstructor{ID: ty, Name: ty, Weight: t.weight, GlobalQuantityLimit: t.limit, NodeUnique: t.unique, Dynamic: true, Options: map[string]string{},
		Constructor: func(b core.IActorBuilder) core.IActor {
			return &act{&actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}, t}
		}}
}
func (w world) GetActors() (out []*core.ActorConstructor) { return }
func (w world) Builder(ty string, sys core.ISystem) core.IActorBuilder {
	return &actor.ActorLoaderBuilder{ISystem: sys, ActorConstructor: *w.Get(ty), IActorLoader: w}
}
func (w world) Pick(ctx context.Context, b core.IActorBuilder) error {
	_, err := b.Register(ctx)
	return err
}
func (w world) AssignToNode(core.INode) {}

func freePort(t *testing.T) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func startNode(t *testing.T, name, ip string, port int, w world) core.ISystem {
	return node.BuildProcessWithOption(core.NodeWithID(name), core.NodeWithIP(ip), core.NodeWithPort(port), core.NodeWithLoader(w), core.NodeWithFactory(w)).System()
}

func spawn(t *testing.T, s core.ISystem, ty, id string) core.IActor {
	a, err := s.Loader(ty).WithID(id).Register(context.Background())
	if err != nil {
		t.Fatalf("register %s: %v", id, err)
	}
	return a
}

func stop(s core.ISystem) {
	var wg sync.WaitGroup
	s.Exit(&wg)
	wg.Wait()
}

func newMsg() *msg.Wrapper { return msg.NewBuilder(context.Background()).Build() }

// within reports whether f returns in time
func within(d time.Duration, f func()) bool {
	ch := make(chan struct{})
	go func() { f(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}
