package mon

import (
	"fmt"
	"strings"
	"time"

	"github.com/pojol/braid/lib/timer"
)

func init() {
	reg(Scenario{Prop: "C39", Name: "fields", Quick: 20000, Thorough: 1500000, Run: runCron, NoNoise: true,
		Rule: "field expressions of all six types: lists of numbers, ranges and wrap-around ranges, wildcards, steps on a wildcard or a single " +
			"range, with or without malformed elements mixed in; matched against every value of the field; an outcome is the expression"})
	reg(Scenario{Prop: "C39", Name: "hostile", Quick: 8000, Thorough: 400000, Run: runCronHostile, NoNoise: true,
		Rule: "random strings over the grammar's characters and beyond, and all kinds of field names"})
}

type field struct {
	name     string
	min, max int
	at       func(v int) time.Time
}

var fields = []field{
	{timer.ExpressType_WeekDay, 0, 7, func(v int) time.Time { return time.Date(2023, 1, 1+v, 11, 30, 20, 0, time.UTC) }},
	{timer.ExpressType_Month, 1, 12, func(v int) time.Time { return time.Date(2023, time.Month(v), 17, 11, 30, 20, 0, time.UTC) }},
	{timer.ExpressType_Day, 1, 31, func(v int) time.Time { return time.Date(2023, 1, v, 11, 30, 20, 0, time.UTC) }},
	{timer.ExpressType_Hour, 0, 23, func(v int) time.Time { return time.Date(2023, 1, 17, v, 30, 20, 0, time.UTC) }},
	{timer.ExpressType_Minute, 0, 59, func(v int) time.Time { return time.Date(2023, 1, 17, 11, v, 20, 0, time.UTC) }},
	{timer.ExpressType_Second, 0, 59, func(v int) time.Time { return time.Date(2023, 1, 17, 11, 30, v, 0, time.UTC) }},
}

func runCron(c *Case) {
	f := fields[c.pick(len(fields))]
	want := map[int]bool{}
	add := func(v int) {
		if f.name == timer.ExpressType_WeekDay && v == 7 {
			v = 0
		}
		want[v] = true
	}
	val := func() int { return f.min + c.pick(f.max-f.min+1) }
	expr, malformed := "", false
	step := func() int {
		switch c.pick(6) {
		case 0:
			return 1
		case 1:
			return f.max - f.min + 1 + c.pick(100)
		case 2:
			return int(^uint(0)>>1) - c.pick(70)
		default:
			return 1 + c.pick(f.max-f.min+1)
		}
	}
	switch c.pick(6) {
	case 0:
		expr = "*"
		for v := f.min; v <= f.max; v++ {
			add(v)
		}
	case 1:
		n := step()
		expr = fmt.Sprintf("*/%d", n)
		for v := f.min; v <= f.max; v++ {
			if (v-f.min)%n == 0 {
				add(v)
			}
		}
	case 2:
		a, b := val(), val()
		if a > b {
			a, b = b, a
		}
		n := step()
		expr = fmt.Sprintf("%d-%d/%d", a, b, n)
		for v := a; v <= b; v++ {
			if (v-a)%n == 0 {
				add(v)
			}
		}
	default:
		var parts []string
		for i := 1 + c.pick(6); i > 0; i-- {
			switch c.pick(7) {
			case 0, 1, 2:
				v := val()
				parts = append(parts, []string{"%d", "%d", "%02d"}[c.pick(3)])
				parts[len(parts)-1] = fmt.Sprintf(parts[len(parts)-1], v)
				add(v)
			case 3, 4, 5:
				a, b := val(), val()
				parts = append(parts, fmt.Sprintf("%d-%d", a, b))
				if a <= b {
					for v := a; v <= b; v++ {
						add(v)
					}
				} else {
					for v := a; v <= f.max; v++ {
						add(v)
					}
					for v := f.min; v <= b; v++ {
						add(v)
					}
				}
			default:
				malformed = true
				parts = append(parts, []string{"", "x", "a-b", "1-", "-1", "1--2", fmt.Sprintf("%d-%d", f.min, f.max+1+c.pick(90)),
					fmt.Sprintf("%d-%d", f.max+1+c.pick(90), f.min), "1-2-3", "!", "3x", "2.5", " ", fmt.Sprint(f.max + 1 + c.pick(200)),
					"99999999999999999999999", "1-99999999999999999999999"}[c.pick(16)])
			}
		}
		expr = strings.Join(parts, ",")
	}
	set := timer.VerifParseExpress(expr, f.name)
	c.N("expressions", 1)
	if set == nil {
		c.Check(malformed, "refused", "%s %q is refused", f.name, expr)
		c.Sig(f.name, expr)
		return
	}
	for v := f.min; v <= f.max; v++ {
		if f.name == timer.ExpressType_WeekDay && v == 7 {
			continue
		}
		t := f.at(v)
		got := set.IsMatch(t)
		if !c.Check(got == want[v], "match:"+f.name, "%s %q: value %d matches: %v, should: %v", f.name, expr, v, got, want[v]) {
			return
		}
	}
	// the same at a random point in time, by its own reading of the field
	t := time.Unix(c.R.Int63n(4_000_000_000), 0).UTC()
	v := map[string]int{timer.ExpressType_WeekDay: int(t.Weekday()), timer.ExpressType_Month: int(t.Month()), timer.ExpressType_Day: t.Day(),
		timer.ExpressType_Hour: t.Hour(), timer.ExpressType_Minute: t.Minute(), timer.ExpressType_Second: t.Second()}[f.name]
	c.Check(set.IsMatch(t) == want[v], "match:"+f.name, "%s %q at %v", f.name, expr, t)
	c.Sig(f.name, expr)
	c.Sample("%s %q matches exactly %d values", f.name, expr, len(want))
}

func runCronHostile(c *Case) {
	alpha := []rune("0123456789,-/* ,,--//**?LW#x中+.\x00")
	b := make([]rune, c.pick(14))
	for i := range b {
		b[i] = alpha[c.pick(len(alpha))]
	}
	f := fields[c.pick(len(fields))]
	name := f.name
	switch c.pick(8) {
	case 0:
		name = ""
	case 1:
		name = "year"
	}
	expr := string(b)
	if c.pick(10) == 0 {
		expr = strings.Repeat(expr+",", c.pick(2000))
	}
	set := timer.VerifParseExpress(expr, name)
	if set != nil {
		for v := f.min; v <= f.max; v++ {
			set.IsMatch(f.at(v))
		}
	}
	c.Check(true, "", "")
	c.Sig(expr, name)
}
