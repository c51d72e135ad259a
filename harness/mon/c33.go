package mon

import (
	stderrors "errors"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/pkg/errors"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/lib/errcode"
)

func init() {
	reg(Scenario{Prop: "C33", Name: "codes", Quick: 20000, Thorough: 1000000, Run: runErrcode, NoNoise: true,
		Rule: "errors with codes 1..2^31, 0, -1 or foreign errors, wrapped 0-20 times, compared pairwise; an outcome is the pair of kinds, codes and depths"})
	reg(Scenario{Prop: "C35", Name: "versions", Quick: 800, Thorough: 4000, Races: true, Run: runVersions,
		Rule: "2-14 versions registered in random order, from 1-4 goroutines, while others look up; an outcome is the registration order and the gaps"})
}

type coded struct {
	err  error
	code int
	desc string
	msg  string
	base error
	wrap int
}

func (c *Case) genText() string {
	if c.pick(6) == 0 {
		return ""
	}
	b := make([]rune, 1+c.pick(20))
	for i := range b {
		b[i] = rune([]int{'a' + c.pick(26), ' ', '%', 0x4e2d + c.pick(100), ':', '\n', '"', '1'}[c.pick(8)])
	}
	return string(b)
}

func (c *Case) genErr() coded {
	var x coded
	x.msg = c.genText()
	switch c.pick(7) {
	case 0:
		x.err, x.code, x.desc = nil, 0, "nil"
		return x
	case 1:
		x.err, x.code, x.desc = stderrors.New(x.msg), -1, "foreign"
	case 2:
		x.err, x.code, x.desc = errcode.OK, 0, "OK"
		x.msg = errcode.OK.Message()
	case 3:
		u := errcode.Unknow("a", 1)
		x.err, x.code, x.desc, x.msg = u, -1, "unknown", u.Message()
	case 4:
		x.err, x.code, x.desc = fmt.Errorf("%s", x.msg), -1, "foreign-fmt"
	default:
		x.code = 1 + c.pick(4)
		if c.pick(3) == 0 {
			x.code = 1 + c.pick(1<<31-1)
		}
		x.err, x.desc = errcode.New(x.code, x.msg), "code"
	}
	x.base = x.err
	x.wrap = c.pick(21)
	if c.pick(2) == 0 {
		x.wrap = 0
	}
	for i := 0; i < x.wrap; i++ {
		switch c.pick(4) {
		case 0:
			x.err = errors.Wrap(x.err, "w")
		case 1:
			x.err = errors.WithMessage(x.err, c.genText())
		case 2:
			x.err = errors.WithStack(x.err)
		default:
			x.err = errors.Wrapf(x.err, "%d", i)
		}
	}
	return x
}

func runErrcode(c *Case) {
	a, b := c.genErr(), c.genErr()
	if a.code > 0 && b.code > 0 && c.pick(3) == 0 {
		// codes that have much in common
		if k := a.code ^ 1<<c.pick(31); k > 0 {
			b = coded{code: k, msg: a.msg, desc: "code"}
			b.err = errcode.New(k, b.msg)
			b.base = b.err
		}
	}
	for _, x := range []coded{a, b} {
		got := errcode.Cause(x.err)
		if !c.Check(got != nil, "nil", "Cause(%s) is nil", x.desc) {
			return
		}
		c.Check(got.Code() == x.code, "code:"+x.desc, "%s %q wrapped %d times: code %d, want %d", x.desc, x.msg, x.wrap, got.Code(), x.code)
		want := x.msg
		if x.err == nil {
			want = ""
		} else if (x.desc == "foreign" || x.desc == "foreign-fmt") && x.wrap > 0 {
			want = x.err.Error() // the text of the whole chain
		}
		c.Check(got.Message() == want && got.Error() == want, "message:"+x.desc, "%s wrapped %d times: message %q, want %q", x.desc, x.wrap, got.Message(), want)
		c.Check(errcode.Equal(got, got) && errcode.Equal(errcode.Cause(x.err), errcode.Cause(x.err)), "reflexive", "%s is not equal to itself", x.desc)
		if cd, ok := x.base.(errcode.Codes); ok {
			c.Check(errcode.EqualError(cd, x.err) && cd.Equal(x.err), "equal-wrapped", "%s %d is not equal to itself wrapped %d times", x.desc, x.code, x.wrap)
		}
	}
	ca, cb := errcode.Cause(a.err), errcode.Cause(b.err)
	eq := a.code == b.code
	c.Check(errcode.Equal(ca, cb) == eq && errcode.Equal(cb, ca) == eq, "equal", "Equal of codes %d and %d", a.code, b.code)
	c.Check(errcode.EqualError(ca, b.err) == eq && ca.Equal(b.err) == eq && errcode.EqualError(cb, a.err) == eq, "equal-error",
		"EqualError of %s %d and %s %d (wrapped %d)", a.desc, a.code, b.desc, b.code, b.wrap)
	c.Check(errcode.Equal(nil, ca) == (a.code == 0) && errcode.Equal(ca, nil) == (a.code == 0), "equal-nil", "Equal of nil and code %d", a.code)

	bad := -c.pick(1 << 30)
	if c.pick(3) == 0 {
		bad = 0
	}
	refused := func() (r bool) {
		defer func() { r = recover() != nil }()
		errcode.New(bad, "x")
		return
	}()
	c.Check(refused, "not-positive", "New(%d) is not refused", bad)
	good := errcode.New(a.code*a.code+1&0x7fffffff|1, a.msg)
	c.Check(good.Code() > 0 && good.Message() == a.msg, "new", "New loses its code or message")
	c.Sig(a.desc, b.desc, a.code, b.code, a.wrap, b.wrap)
	c.Sample("%s code %d wrapped %d times against %s code %d wrapped %d times", a.desc, a.code, a.wrap, b.desc, b.code, b.wrap)
}

var verBase atomic.Int64

func init() { verBase.Store(-3000) }

func runVersions(c *Case) {
	n := 2 + c.pick(13)
	base := int(verBase.Add(60))
	perm := c.R.Perm(50)[:n]
	type rec struct {
		v          int
		begin, end atomic.Int64
		id         int
	}
	recs := make([]*rec, n)
	for i, p := range perm {
		recs[i] = &rec{v: base + p, id: c.pick(1 << 30)}
	}
	var wg sync.WaitGroup
	G := 1 + c.pick(4)
	for g := 0; g < G; g++ {
		r := c.Rand()
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := g; i < n; i += G {
				x := recs[i]
				yield(r)
				x.begin.Store(stamp())
				core.RegisterVersionStrategy(core.VerStrategy{Version: x.v, Reason: fmt.Sprint(x.id), Func: func(e interface{}) error { return fmt.Errorf("%d", x.id) }})
				x.end.Store(stamp())
			}
		}(g)
	}
	check := func(v int, final bool) {
		t0 := stamp()
		s, err := core.GetVerStrategy(v)
		nx := core.GetNextVersion(v)
		t1 := stamp()
		// which versions were certainly, and which were possibly registered
		var want *rec
		maybe := false
		low, lowMaybe := 0, map[int]bool{}
		for _, x := range recs {
			sure := x.end.Load() != 0 && x.end.Load() < t0
			poss := x.begin.Load() != 0 && x.begin.Load() < t1
			if x.v == v {
				if sure {
					want = x
				}
				maybe = maybe || poss
			}
			if x.v > v {
				if sure && (low == 0 || x.v < low) {
					low = x.v
				}
				if poss {
					lowMaybe[x.v] = true
				}
			}
		}
		if want != nil {
			ok := err == nil && s.Version == v && s.Reason == fmt.Sprint(want.id) && s.Func != nil && s.Func(nil).Error() == fmt.Sprint(want.id)
			c.Check(ok, "lookup", "version %d is registered, lookup gives %+v, %v", v, s, err)
		} else if !maybe {
			c.Check(err == core.ErrNotfoundVersion, "notfound", "version %d is not registered, lookup gives %+v, %v", v, s, err)
		}
		if nx == v {
			c.Check(low == 0, "next", "next of %d is itself, but %d is registered (base %d)", v, low, base)
		} else {
			c.Check(lowMaybe[nx] && (low == 0 || nx <= low), "next", "next of %d is %d, but the smallest registered after it is %d", v, nx, low)
		}
	}
	for g := c.pick(4); g > 0; g-- {
		r := c.Rand()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				yield(r)
				check(base+r.Intn(52)-1, false)
			}
		}()
	}
	wg.Wait()
	for v := base - 2; v < base+52; v++ {
		check(v, true)
	}
	c.Sig(perm)
	c.Sample("registered %v after %d by %d goroutines", perm, base, G)
}
