package mon

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/alicebob/miniredis/v2/server"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/redis/go-redis/v9"
)

func init() {
	reg(Scenario{Prop: "C36", Name: "differential", Quick: 1500, Thorough: 100000, Run: runFacade,
		Rule: "20-80 random commands of all wrappers on 8 keys of all types, with wrong types, absent keys, odd arguments, ended contexts and failing stores, each also issued directly on a second " +
			"store; an outcome is the sequence of commands and results"})
	reg(Scenario{Prop: "C36", Name: "transactions", Quick: 400, Thorough: 20000, Run: runFacadeTx,
		Rule: "2-8 goroutines change several keys together in transactions, some with a command the store refuses, some over connections that are cut at a random byte, while others read; " +
			"an outcome is the number of transactions that took effect and their order"})
}

// facade is one way to issue commands: through the wrappers or directly.
type facade struct {
	wrapped bool
	cli     *redis.Client
	conn    *redis.Conn
}

type result struct{ val, err string }

func res(v any, err error) result {
	r := result{val: fmt.Sprintf("%#v", v)}
	if err != nil {
		r.err = err.Error()
		if errors.Is(err, redis.Nil) {
			r.err = "NIL"
		}
		if errors.Is(err, context.Canceled) {
			r.err = "CANCELED"
		}
	}
	return r
}

func ss(v []string, err error) (any, error) {
	v = append([]string{}, v...)
	sort.Strings(v)
	return v, err
}

func cmdsText(cmds []redis.Cmder) string {
	var b strings.Builder
	for _, c := range cmds {
		fmt.Fprintf(&b, "[%s]", c.String())
	}
	return b.String()
}

var (
	scriptText = redis.NewScript(`redis.call('HSET', KEYS[1], ARGV[1], ARGV[2]) return {redis.call('HLEN', KEYS[1]), 7}`)
	scriptBad  = redis.NewScript(`return redis.call('NOSUCH')`)
	scriptNil  = redis.NewScript(`return redis.call('GET', KEYS[1])`)
)

type fop struct {
	name string
	f    func(ctx context.Context, w bool, f *facade) result
}

func (c *Case) fop(seq int) fop {
	keys := []string{"str", "set", "zset", "hash", "stream", "list", "none", "any"}
	kind := c.pick(8)
	key := keys[c.pick(len(keys))]
	own := func(k string) string { // mostly a key of the right type
		if c.pick(5) > 0 {
			return k
		}
		return key
	}
	val := []string{"", "a", "b", "3", "-1", "1.5", "x\r\ny", "\xff\x00", strings.Repeat("v", 100)}[c.pick(9)]
	val2 := []string{"", "a", "b", "c", "7"}[c.pick(5)]
	f1, f2 := fmt.Sprint("f", c.pick(4)), fmt.Sprint("f", c.pick(4))
	num := int64(c.pick(12)) - 6
	ttl := []time.Duration{time.Second, 90 * time.Second, 1500 * time.Millisecond, 0, -time.Second, time.Millisecond}[c.pick(6)]
	any1 := []any{val, 5, int64(-3), 2.5, true, []byte("bytes"), struct{}{}, nil, time.Duration(9)}[c.pick(9)]
	n := func(name string, f func(ctx context.Context, w bool, x *facade) result) fop {
		return fop{fmt.Sprintf("%s(%s)", name, key), f}
	}
	switch c.pick(46) {
	case 0:
		key = own("str")
		return n("Get", func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.Get(ctx, key).Result())
			}
			return res(x.cli.Get(ctx, key).Result())
		})
	case 1, 2:
		key = own("str")
		return n("Set "+fmt.Sprintf("%.5q", val), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.Set(ctx, key, val).Result())
			}
			return res(x.cli.Set(ctx, key, val, 0).Result())
		})
	case 3:
		ks := []string{key, keys[c.pick(len(keys))], keys[c.pick(len(keys))]}[:c.pick(4)]
		return n("Del"+fmt.Sprint(ks), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.Del(ctx, ks...).Result())
			}
			return res(x.cli.Del(ctx, ks...).Result())
		})
	case 4:
		key = own("str")
		return n(fmt.Sprint("SetEx ", any1, ttl), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.SetEx(ctx, key, any1, ttl).Result())
			}
			return res(x.cli.SetEx(ctx, key, any1, ttl).Result())
		})
	case 5:
		return n(fmt.Sprint("SetNx ", any1, ttl), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.SetNx(ctx, key, any1, ttl).Result())
			}
			return res(x.cli.SetNX(ctx, key, any1, ttl).Result())
		})
	case 6, 7:
		key = own("set")
		ms := []any{val, val2, any1}[:1+c.pick(3)]
		return n(fmt.Sprintf("SAdd %.20q", ms), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.SAdd(ctx, key, ms...).Result())
			}
			return res(x.cli.SAdd(ctx, key, ms...).Result())
		})
	case 8:
		key = own("set")
		return n("SIsMember "+val2, func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.SIsMember(ctx, key, val2).Result())
			}
			return res(x.cli.SIsMember(ctx, key, val2).Result())
		})
	case 9:
		key = own("set")
		return n("SMembers", func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(ss(trdredis.SMembers(ctx, key).Result()))
			}
			return res(ss(x.cli.SMembers(ctx, key).Result()))
		})
	case 10:
		key = own("set")
		return n("SRandMember", func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.SRandMember(ctx, key).Result())
			}
			return res(x.cli.SRandMember(ctx, key).Result())
		})
	case 11:
		key = own("set")
		return n(fmt.Sprint("SRandMemberN ", num), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.SRandMemberN(ctx, key, num).Result())
			}
			return res(x.cli.SRandMemberN(ctx, key, num).Result())
		})
	case 12:
		key = own("set")
		return n("SPop", func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.SPop(ctx, key).Result())
			}
			return res(x.cli.SPop(ctx, key).Result())
		})
	case 13:
		key = own("set")
		return n("SCard", func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.SCard(ctx, key).Result())
			}
			return res(x.cli.SCard(ctx, key).Result())
		})
	case 14:
		key = own("zset")
		return n("ZScore "+val2, func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.ZScore(ctx, key, val2).Result())
			}
			return res(x.cli.ZScore(ctx, key, val2).Result())
		})
	case 15, 16:
		key = own("zset")
		zs := []redis.Z{{Score: float64(num), Member: val2}, {Score: 1.25, Member: val}, {Score: float64(c.pick(5)), Member: f1}}[:c.pick(4)]
		return n(fmt.Sprintf("ZAdd %.40q", fmt.Sprint(zs)), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.ZAdd(ctx, key, zs...).Result())
			}
			return res(x.cli.ZAdd(ctx, key, zs...).Result())
		})
	case 17:
		key = own("zset")
		return n("ZRevRank "+val2, func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.ZRevRank(ctx, key, val2).Result())
			}
			return res(x.cli.ZRevRank(ctx, key, val2).Result())
		})
	case 18:
		key = own("zset")
		stop := int64(c.pick(8)) - 4
		return n(fmt.Sprint("ZRevRange ", num, stop), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.ZRevRange(ctx, key, num, stop).Result())
			}
			return res(x.cli.ZRevRange(ctx, key, num, stop).Result())
		})
	case 19:
		key = own("zset")
		return n("ZCard", func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.ZCard(ctx, key).Result())
			}
			return res(x.cli.ZCard(ctx, key).Result())
		})
	case 20:
		key = own("zset")
		by := redis.ZRangeBy{Min: []string{"-inf", "(1", "0", "bad"}[c.pick(4)], Max: []string{"+inf", "3", "(2"}[c.pick(3)]}
		if c.pick(3) == 0 {
			by.Offset, by.Count = int64(c.pick(3)), int64(c.pick(4))
		}
		return n(fmt.Sprint("ZRangeByScore ", by), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.ZRangeByScore(ctx, key, by).Result())
			}
			return res(x.cli.ZRangeByScore(ctx, key, &by).Result())
		})
	case 21:
		key = own("zset")
		ms := []any{val2, f1, val}[:c.pick(4)]
		return n(fmt.Sprintf("ZRem %.20q", ms), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.ZRem(ctx, key, ms...).Result())
			}
			return res(x.cli.ZRem(ctx, key, ms...).Result())
		})
	case 22:
		key = own("hash")
		return n("HGet "+f1, func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.HGet(ctx, key, f1).Result())
			}
			return res(x.cli.HGet(ctx, key, f1).Result())
		})
	case 23:
		key = own("hash")
		return n("HGetAll", func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.HGetAll(ctx, key).Result())
			}
			return res(x.cli.HGetAll(ctx, key).Result())
		})
	case 24, 25:
		key = own("hash")
		vs := []any{f1, val, f2, any1}[:[]int{2, 4, 3, 2, 0}[c.pick(5)]]
		return n(fmt.Sprintf("HSet %.40q", fmt.Sprint(vs)), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.HSet(ctx, key, vs...).Result())
			}
			return res(x.cli.HSet(ctx, key, vs...).Result())
		})
	case 26:
		key = own("hash")
		fs := []string{f1, f2, "zz"}[:c.pick(4)]
		return n("HDel "+fmt.Sprint(fs), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.HDel(ctx, key, fs...).Result())
			}
			return res(x.cli.HDel(ctx, key, fs...).Result())
		})
	case 27:
		key = own("hash")
		return n("HLen", func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.HLen(ctx, key).Result())
			}
			return res(x.cli.HLen(ctx, key).Result())
		})
	case 28:
		key = own("hash")
		return n(fmt.Sprint("HIncrBy ", f1, num), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.HIncrBy(ctx, key, f1, num).Result())
			}
			return res(x.cli.HIncrBy(ctx, key, f1, num).Result())
		})
	case 29:
		key = own("hash")
		return n("HKeys", func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(ss(trdredis.HKeys(ctx, key).Result()))
			}
			return res(ss(x.cli.HKeys(ctx, key).Result()))
		})
	case 30:
		return n("Exists", func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.Exists(ctx, key).Result())
			}
			return res(x.cli.Exists(ctx, key).Result())
		})
	case 31:
		key = own("hash")
		return n("HExists "+f1, func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.HExists(ctx, key, f1).Result())
			}
			return res(x.cli.HExists(ctx, key, f1).Result())
		})
	case 32:
		key = own("str")
		return n("CAD "+val2, func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.CAD(ctx, key, val2), nil)
			}
			ok, _ := x.cli.Do(ctx, "CAD", key, val2).Bool()
			return res(ok, nil)
		})
	case 33, 34:
		// streams
		key = own("stream")
		group := fmt.Sprint("g", c.pick(2))
		id := fmt.Sprintf("%d-%d", c.pick(5), c.pick(3))
		switch c.pick(9) {
		case 0:
			return n("XInfoGroups", func(ctx context.Context, w bool, x *facade) result {
				if w {
					return res(byName(trdredis.XInfoGroups(ctx, key).Result()))
				}
				return res(byName(x.cli.XInfoGroups(ctx, key).Result()))
			})
		case 1:
			return n("XGroupCreate "+group, func(ctx context.Context, w bool, x *facade) result {
				if w {
					return res(trdredis.XGroupCreate(ctx, key, group, "0").Result())
				}
				return res(x.cli.XGroupCreate(ctx, key, group, "0").Result())
			})
		case 2:
			if c.pick(3) == 0 {
				return n("XGroupCreateConsumer "+group, func(ctx context.Context, w bool, x *facade) result {
					if w {
						return res(trdredis.XGroupCreateConsumer(ctx, key, group, "c1").Result())
					}
					return res(x.cli.XGroupCreateConsumer(ctx, key, group, "c1").Result())
				})
			}
			return n("XGroupDelConsumer "+group, func(ctx context.Context, w bool, x *facade) result {
				if w {
					return res(trdredis.XGroupDelConsumer(ctx, key, group, "c1").Result())
				}
				return res(x.cli.XGroupDelConsumer(ctx, key, group, "c1").Result())
			})
		case 3:
			return n("XInfoConsumers "+group, func(ctx context.Context, w bool, x *facade) result {
				if w {
					return res(byName(trdredis.XInfoConsumers(ctx, key, group).Result()))
				}
				return res(byName(x.cli.XInfoConsumers(ctx, key, group).Result()))
			})
		case 4:
			count, noAck := []int64{2, 2, 1, 0, 200}[c.pick(5)], c.pick(3) == 0
			a := func() *redis.XReadGroupArgs {
				return &redis.XReadGroupArgs{Group: group, Consumer: "c1", Streams: []string{key, ">"}, Count: count, Block: -1, NoAck: noAck}
			}
			return n(fmt.Sprint("XReadGroup ", group, count, noAck), func(ctx context.Context, w bool, x *facade) result {
				if w {
					return res(trdredis.XReadGroup(ctx, a()).Result())
				}
				return res(x.cli.XReadGroup(ctx, a()).Result())
			})
		case 5:
			return n("XGroupDestroy "+group, func(ctx context.Context, w bool, x *facade) result {
				if w {
					return res(trdredis.XGroupDestroy(ctx, key, group).Result())
				}
				return res(x.cli.XGroupDestroy(ctx, key, group).Result())
			})
		case 6:
			return n("XLen", func(ctx context.Context, w bool, x *facade) result {
				if w {
					return res(trdredis.XLen(ctx, key).Result())
				}
				return res(x.cli.XLen(ctx, key).Result())
			})
		case 7:
			return n("XDel "+id, func(ctx context.Context, w bool, x *facade) result {
				if w {
					return res(trdredis.XDel(ctx, key, id).Result())
				}
				return res(x.cli.XDel(ctx, key, id).Result())
			})
		}
		fallthrough
	case 35:
		key = own("stream")
		if c.pick(20) == 0 {
			i := c.pick(2)
			return n("XAdd many", func(ctx context.Context, w bool, x *facade) result {
				for i := 0; i < 120; i++ {
					a := &redis.XAddArgs{Stream: key, ID: fmt.Sprintf("%d-%d", seq/2, 10+i), Values: []string{"n", fmt.Sprint(i)}}
					add := x.cli.XAdd
					if w {
						add = trdredis.XAdd
					}
					cmd := add(ctx, a)
					if cmd.Err() != nil {
						return res(cmd.Result())
					}
				}
				x.cli.XGroupCreate(ctx, key, "many", "0")
				count := int64(i%2) * 110
				a := &redis.XReadGroupArgs{Group: "many", Consumer: "c1", Streams: []string{key, ">"}, Count: count, Block: -1}
				if w {
					return res(trdredis.XReadGroup(ctx, a).Result())
				}
				return res(x.cli.XReadGroup(ctx, a).Result())
			})
		}
		a := func() *redis.XAddArgs {
			return &redis.XAddArgs{Stream: key, ID: fmt.Sprintf("%d-%d", seq/2, seq%3), Values: []string{f1, val}, MaxLen: int64(max(num, 0)), NoMkStream: num == 3}
		}
		return n("XAdd", func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.XAdd(ctx, a()).Result())
			}
			return res(x.cli.XAdd(ctx, a()).Result())
		})
	case 36:
		key = own("hash")
		s := []*redis.Script{scriptText, scriptBad, scriptNil}[c.pick(3)]
		ints := c.pick(2) == 0
		return n(fmt.Sprint("Script ", ints), func(ctx context.Context, w bool, x *facade) result {
			switch {
			case w && ints:
				return res(trdredis.ScriptRunInt64s(ctx, s, []string{key}, f1, val))
			case w:
				return res(trdredis.ScriptRun(ctx, s, []string{key}, f1, val))
			case ints:
				return res(s.Run(ctx, x.cli, []string{key}, f1, val).Int64Slice())
			default:
				return res(s.Run(ctx, x.cli, []string{key}, f1, val).Result())
			}
		})
	case 37:
		key = own("list")
		stop := int64(c.pick(8)) - 4
		return n(fmt.Sprint("LRange ", num, stop), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.LRange(ctx, key, num, stop).Result())
			}
			return res(x.cli.LRange(ctx, key, num, stop).Result())
		})
	case 38:
		return n(fmt.Sprint("Expire ", ttl), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.Expire(ctx, key, ttl).Result())
			}
			return res(x.cli.Expire(ctx, key, ttl).Result())
		})
	case 39:
		key = own("list")
		vs := []any{val, any1, val2}[:c.pick(4)]
		return n(fmt.Sprintf("RPush %.20q", fmt.Sprint(vs)), func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(trdredis.RPush(ctx, key, vs...).Result())
			}
			return res(x.cli.RPush(ctx, key, vs...).Result())
		})
	case 40:
		if kind > 1 {
			key = own("str")
			return n("Incr", func(ctx context.Context, w bool, x *facade) result {
				if w {
					return res(trdredis.Incr(ctx, key).Result())
				}
				return res(x.cli.Incr(ctx, key).Result())
			})
		}
		return n(fmt.Sprint("Flush ", kind), func(ctx context.Context, w bool, x *facade) result {
			switch {
			case w && kind == 0:
				return res(trdredis.FlushDB(ctx).Result())
			case w:
				return res(trdredis.FlushAll(ctx).Result())
			case kind == 0:
				return res(x.cli.FlushDB(ctx).Result())
			default:
				return res(x.cli.FlushAll(ctx).Result())
			}
		})
	case 41:
		pat := []string{"*", "s*", "[hl]*", "none?", ""}[c.pick(5)]
		return n("Keys "+pat, func(ctx context.Context, w bool, x *facade) result {
			if w {
				return res(ss(trdredis.Keys(ctx, pat).Result()))
			}
			return res(ss(x.cli.Keys(ctx, pat).Result()))
		})
	case 42:
		key = own("hash")
		return n("ConnHGet "+f1, func(ctx context.Context, w bool, x *facade) result {
			if kind == 0 {
				if w {
					v, err := trdredis.ConnHGet(nil, ctx, key, f1)
					return res(v+"!", fmt.Errorf("%v", err != nil))
				}
				return res("!", fmt.Errorf("%v", true))
			}
			if w {
				return res(trdredis.ConnHGet(x.conn, ctx, key, f1))
			}
			return res(x.conn.HGet(ctx, key, f1).Result())
		})
	default:
		return c.fpipe(val, f1, own("str"))
	}
}

// fpipe is a pipeline of some commands, transactional or not.
func (c *Case) fpipe(val, f1, key string) fop {
	how := c.pick(4)
	ks := make([]int, c.pick(6))
	for i := range ks {
		ks[i] = c.pick(9)
	}
	fails := c.pick(8) == 0
	fill := func(ctx context.Context, p redis.Pipeliner) error {
		for i, k := range ks {
			switch k {
			case 0:
				p.Set(ctx, key, fmt.Sprint(val, i), 0)
			case 1:
				p.HSet(ctx, "hash", f1, i)
			case 2:
				p.Get(ctx, key)
			case 3:
				p.HGet(ctx, "hash", f1)
			case 4:
				p.Incr(ctx, key)
			case 5:
				p.RPush(ctx, "list", i)
			case 6:
				p.Do(ctx, "GET", i, i)
			case 7:
				p.Get(ctx, "hash")
			case 8:
				p.Get(ctx, "absent")
			}
		}
		if fails {
			return errors.New("the function fails")
		}
		return nil
	}
	finish := func(cmds []redis.Cmder, err error) result { return res(cmdsText(cmds), err) }
	gets := make([]string, c.pick(4))
	for i := range gets {
		gets[i] = []string{"str", "absent", "hash"}[min(c.pick(6)/3*(1+c.pick(2)), 2)]
	}
	name := []string{"Pipeline", "Pipelined", "TxPipelined", "GetCmdsByteSlice"}[how]
	return fop{fmt.Sprint(name, ks, fails, key), func(ctx context.Context, w bool, x *facade) result {
		f := func(p redis.Pipeliner) error { return fill(ctx, p) }
		switch how {
		case 0:
			var p redis.Pipeliner
			if w {
				p = trdredis.Pipeline()
			} else {
				p = x.cli.Pipeline()
			}
			if fill(ctx, p) != nil {
				p.Discard()
			}
			return finish(p.Exec(ctx))
		case 1:
			if w {
				return finish(trdredis.Pipelined(ctx, "from", f))
			}
			return finish(x.cli.Pipelined(ctx, f))
		case 2:
			if w {
				return finish(trdredis.TxPipelined(ctx, "from", f))
			}
			return finish(x.cli.TxPipelined(ctx, f))
		}
		get := func(p redis.Pipeliner) error {
			for _, k := range gets {
				p.Get(ctx, k)
			}
			return nil
		}
		if w {
			cmds, _ := trdredis.Pipelined(ctx, "from", get)
			b, err := trdredis.GetCmdsByteSlice(cmds)
			return res(b, err)
		}
		cmds, _ := x.cli.Pipelined(ctx, get)
		var b [][]byte
		var err error
		for _, cmd := range cmds {
			var y []byte
			if y, err = cmd.(*redis.StringCmd).Bytes(); err != nil {
				break
			}
			b = append(b, y)
		}
		return res(b, err)
	}}
}

func runFacade(c *Case) {
	r := c.NewRedis() // the wrappers use it
	d := newRedis()
	c.Defer(d.close)
	for _, x := range []*Redis{r, d} {
		x.M.Seed(int(c.R.Int63() & 0))
		m := x.M
		m.Server().Register("CAD", func(p *server.Peer, cmd string, args []string) {
			if v, err := m.Get(args[0]); err == nil && v == args[1] {
				m.Del(args[0])
				p.WriteInt(1)
				return
			}
			p.WriteInt(0)
		})
	}
	fw, fd := &facade{cli: r.Cli, conn: r.Cli.Conn()}, &facade{cli: d.Cli, conn: d.Cli.Conn()}
	c.Check(trdredis.GetClient() == r.Cli, "client", "GetClient does not return the client in use")
	bg := context.Background()
	ended, cancel := context.WithCancel(bg)
	cancel()
	hist := ""
	n := 20 + c.pick(60)
	for i := 0; i < n; i++ {
		ctx := bg
		o := c.fop(i)
		mode := ""
		switch c.pick(20) {
		case 0:
			ctx, mode = ended, "ended context: "
		case 1:
			if strings.HasPrefix(o.name, "Tx") {
				break // the client library cannot cope with a refused MULTI
			}
			mode = "failing store: "
			e := func(string, []string) string { return "ERR the store fails" }
			r.Hook(e)
			d.Hook(e)
		}
		a := o.f(ctx, true, fw)
		b := o.f(ctx, false, fd)
		r.Hook(nil)
		d.Hook(nil)
		hist += fmt.Sprintf(" %s%s -> %.60s;", mode, o.name, a)
		if !c.Check(a == b, "result", "%s%s returns %s, %s; issued directly: %s, %s. Before:%s", mode, o.name, a.val, a.err, b.val, b.err, hist) {
			return
		}
		if c.pick(6) == 0 {
			t := time.Duration(c.pick(4)) * 700 * time.Millisecond
			time.Sleep(t)
			r.M.FastForward(t)
			d.M.FastForward(t)
		}
		if i%4 == 3 || i == n-1 {
			x, y := r.Dump(), d.Dump()
			for _, k := range r.M.Keys() {
				x["ttl "+k], y["ttl "+k] = fmt.Sprint(r.M.TTL(k)), fmt.Sprint(d.M.TTL(k))
			}
			if !c.Check(fmt.Sprint(x) == fmt.Sprint(y), "store", "the store contains\n%q, after the same commands issued directly\n%q. Commands:%s", x, y, hist) {
				return
			}
		}
		c.N("commands", 1)
	}
	c.Sig(hist)
	c.Sample("%.300s", hist)
}

// cutConn fails after some bytes.
type cutConn struct {
	net.Conn
	left int
	cuts *atomic.Int64
}

func (x *cutConn) Write(b []byte) (int, error) {
	if x.left < len(b) {
		n := 0
		if x.left > 0 {
			n, _ = x.Conn.Write(b[:x.left])
		}
		x.left = 0
		x.cuts.Add(1)
		x.Conn.Close()
		return n, errors.New("the connection broke")
	}
	x.left -= len(b)
	return x.Conn.Write(b)
}

func runFacadeTx(c *Case) {
	r := c.NewRedis()
	r.Hook(func(string, []string) string { // commands of several connections interleave
		// (not below a lock of the store, so no scripts here)
		time.Sleep(time.Millisecond)
		return ""
	})
	faulty := c.pick(2) == 0
	var cuts atomic.Int64
	rr := c.Rand()
	var rmu sync.Mutex
	if faulty {
		srv := r.M.Server()
		cli := redis.NewClient(&redis.Options{Addr: "mem:1", MaxRetries: -1, PoolSize: 400, ReadTimeout: -1, WriteTimeout: -1, DisableIndentity: true,
			Dialer: func(ctx context.Context, n, a string) (net.Conn, error) {
				c1, c2 := memPipe()
				srv.ServeConn(c2)
				rmu.Lock()
				left := 60 + rr.Intn(900)
				rmu.Unlock()
				return &cutConn{c1, left, &cuts}, nil
			}})
		trdredis.MockClient(cli)
		c.Defer(func() { cli.Close() })
	}
	K := 2 + c.pick(4)
	keys := make([]string, K)
	for i := range keys {
		keys[i] = fmt.Sprint("k", i)
	}
	ctx := context.Background()
	look := func(where string) string {
		v, err := r.Obs.MGet(ctx, keys...).Result()
		if err != nil {
			return ""
		}
		for _, x := range v {
			c.Check(x == v[0], "atomic", "a transaction took effect in part: the keys it changes together are %v %s", v, where)
		}
		if v[0] == nil {
			return "0"
		}
		return v[0].(string)
	}
	var wg sync.WaitGroup
	var ok, refused, broken atomic.Int64
	var mu sync.Mutex
	order := ""
	for g := 0; g < 2+c.pick(7); g++ {
		rr := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3+rr.Intn(6); i++ {
				bad := rr.Intn(4) == 0
				at := rr.Intn(K + 1)
				cmds, err := trdredis.TxPipelined(ctx, "test", func(p redis.Pipeliner) error {
					for j, k := range keys {
						if bad && j == at {
							p.Do(ctx, "GET", "too", "many")
						}
						p.Incr(ctx, k)
					}
					if bad && at == K {
						p.Do(ctx, "GET", "too", "many")
					}
					return nil
				})
				switch {
				case bad && err == nil:
					c.Fail("refused", "a transaction with a command the store refuses succeeded")
				case bad:
					refused.Add(1)
				case err == nil:
					ok.Add(1)
					for _, x := range cmds {
						v, e := x.(*redis.IntCmd).Result()
						v0, _ := cmds[0].(*redis.IntCmd).Result()
						c.Check(e == nil && v == v0 && len(cmds) == K, "values", "the increments of one transaction return %s", cmdsText(cmds))
					}
				default:
					broken.Add(1)
					c.Check(faulty, "failed", "a transaction failed: %v", err)
				}
				mu.Lock()
				order += fmt.Sprint(g)
				mu.Unlock()
				if rr.Intn(2) == 0 {
					look("between transactions")
				}
				time.Sleep(time.Duration(rr.Intn(4)) * time.Millisecond)
			}
		}()
	}
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				cmds, err := trdredis.TxPipelined(ctx, "test", func(p redis.Pipeliner) error {
					for _, k := range keys {
						p.Get(ctx, k)
					}
					return nil
				})
				if err == nil {
					b, err := trdredis.GetCmdsByteSlice(cmds)
					for _, x := range b {
						c.Check(err == nil && string(x) == string(b[0]), "isolation", "a transaction reads %q", b)
					}
				}
				look("while transactions run")
				time.Sleep(time.Millisecond)
			}
		}()
	}
	if !within(time.Hour, wg.Wait) {
		c.Fail("stuck", "transactions do not return")
		return
	}
	r.Hook(nil)
	time.Sleep(time.Second)
	v := look("in the end")
	var n int64
	fmt.Sscan(v, &n)
	c.Check(n >= ok.Load() && n <= ok.Load()+broken.Load(), "count", "%d transactions succeeded and %d broke, %d took effect", ok.Load(), broken.Load(), n)
	c.N("transactions", int(ok.Load()+refused.Load()+broken.Load()))
	c.N("connections cut", int(cuts.Load()))
	c.Sig(K, order, n)
	c.Sample("%d keys: %d transactions succeeded, %d were refused, %d broke; %d took effect; %d connections were cut", K, ok.Load(), refused.Load(), broken.Load(), n, cuts.Load())
}

// byName orders what the store lists in no order.
func byName[T redis.XInfoGroup | redis.XInfoConsumer](l []T, err error) ([]T, error) {
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return l, err
}
