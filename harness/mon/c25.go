package mon

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
)

func init() {
	reg(Scenario{Prop: "C25", Name: "fields", Quick: 8000, Thorough: 400000, Run: runBuilder, NoNoise: true,
		Rule: "1-14 builder operations on request and response (headers, bodies, custom fields and maps, continued from the built message), " +
			"then every getter against a model; an outcome is the sequence of operations"})
	reg(Scenario{Prop: "C25", Name: "objects", Quick: 4000, Thorough: 200000, Run: runObjects, NoNoise: true,
		Rule: "a random nested object stored in the request and another in the response and decoded again; an outcome is the object"})
}

func (c *Case) text(n int) string {
	al := []rune("abcdefgXYZ0189 _-:./\\\"'<>&%{}[]\n\t\u0000\u2028é中😀")
	b := make([]rune, c.pick(n+1))
	for i := range b {
		b[i] = al[c.pick(len(al))]
	}
	return string(b)
}

func (c *Case) bytes(n int) []byte {
	b := make([]byte, c.pick(n+1))
	c.R.Read(b)
	return b
}

func (c *Case) header() *router.Header {
	return &router.Header{ID: c.text(8), OrgActorID: c.text(8), OrgActorType: c.text(8), PrevActorType: c.text(8), TargetActorID: c.text(8),
		TargetActorType: c.text(8), Event: c.text(8), Token: c.text(8), Timestamp: c.R.Int63() - c.R.Int63()}
}

// side is the model of a request or a response
type side struct {
	head   router.Header // without Custom
	anyID  bool          // the id was generated
	body   []byte
	custom map[string]interface{}
	drop   map[string]bool // keys we say nothing about
}

func getAny[T any](c *Case, w *msg.Wrapper, req bool, key string) interface{} {
	if req {
		return msg.GetReqCustomField[T](w, key)
	}
	return msg.GetResCustomField[T](w, key)
}

// typed reads the field in the type of want.
func typed(c *Case, w *msg.Wrapper, req bool, key string, want interface{}) interface{} {
	switch want.(type) {
	case string:
		return getAny[string](c, w, req, key)
	case bool:
		return getAny[bool](c, w, req, key)
	case int:
		return getAny[int](c, w, req, key)
	case int8:
		return getAny[int8](c, w, req, key)
	case int16:
		return getAny[int16](c, w, req, key)
	case int32:
		return getAny[int32](c, w, req, key)
	case int64:
		return getAny[int64](c, w, req, key)
	case uint:
		return getAny[uint](c, w, req, key)
	case uint8:
		return getAny[uint8](c, w, req, key)
	case uint16:
		return getAny[uint16](c, w, req, key)
	case uint32:
		return getAny[uint32](c, w, req, key)
	case uint64:
		return getAny[uint64](c, w, req, key)
	case float32:
		return getAny[float32](c, w, req, key)
	case float64:
		return getAny[float64](c, w, req, key)
	case []interface{}:
		return getAny[[]interface{}](c, w, req, key)
	case map[string]interface{}:
		return getAny[map[string]interface{}](c, w, req, key)
	case nil:
		return nil
	}
	panic("type")
}

func (c *Case) value() interface{} {
	i := c.R.Int63() >> uint(10+c.pick(53)) // below 2^53
	if c.pick(2) == 0 {
		i = -i
	}
	abs := uint64(i)
	if i < 0 {
		abs = uint64(-i)
	}
	if c.pick(6) == 0 {
		// beyond 53 bits, still a value of a double
		switch k := uint(c.pick(11)); c.pick(8) {
		case 0:
			return i << (k % 11)
		case 1:
			return int(i << (k % 11))
		case 2:
			return abs << k
		case 3:
			return uint(abs << k)
		case 4:
			return []interface{}{int64(math.MinInt64), uint64(1 << 63), int32(math.MinInt32), uint32(math.MaxUint32), int8(-128), uint16(65535), int(math.MinInt64), uint64(math.MaxUint64 - 2047)}[c.pick(8)]
		case 5:
			return []interface{}{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, float32(math.MaxFloat32), 0.0, 1e21, 1e-7, float32(0.1)}[c.pick(8)]
		default:
			return nil
		}
	}
	switch c.pick(16) {
	case 0, 1:
		return c.text(12)
	case 2:
		return c.pick(2) == 0
	case 3:
		return int(i)
	case 4:
		return int8(i)
	case 5:
		return int16(i)
	case 6:
		return int32(i)
	case 7:
		return i
	case 8:
		return uint(abs)
	case 9:
		return uint8(abs)
	case 10:
		return uint16(abs)
	case 11:
		return uint32(abs)
	case 12:
		return abs
	case 13:
		return float32(c.R.NormFloat64() * math.Pow(10, float64(c.pick(20)-10)))
	case 14:
		return c.R.NormFloat64() * math.Pow(10, float64(c.pick(200)-100))
	default:
		if c.pick(2) == 0 {
			return []interface{}{c.text(3), true, float64(c.pick(100))}
		}
		return map[string]interface{}{c.text(3): c.text(3), "n": float64(c.pick(9))}
	}
}

func runBuilder(c *Case) {
	b := msg.NewBuilder(context.Background())
	w := b.Build()
	m := map[bool]*side{true: {anyID: true, custom: map[string]interface{}{}, drop: map[string]bool{}}, false: {anyID: true, custom: map[string]interface{}{}, drop: map[string]bool{}}}
	keys := []string{"a", "b", "c", c.text(6), "d e", "A"}
	var ops []string
	var given, was [][]byte // what was handed to the builder stays the caller's
	give := func(b []byte) {
		given, was = append(given, b), append(was, append([]byte{}, b...))
	}
	for n := 1 + c.pick(14); n > 0; n-- {
		req := c.pick(2) == 0
		s := m[req]
		switch k := c.pick(8); k {
		case 0:
			h := c.header()
			if len(s.custom) > 0 || len(s.drop) > 0 || c.pick(3) == 0 {
				// a header that brings its own custom fields
				s.custom = map[string]interface{}{}
				s.drop = map[string]bool{}
				for i := 1 + c.pick(3); i > 0; i-- {
					s.custom[keys[c.pick(len(keys))]] = c.value()
				}
				h.Custom, _ = json.Marshal(s.custom)
				if c.pick(2) == 0 {
					h.Custom = append(make([]byte, 0, len(h.Custom)+c.pick(400)), h.Custom...)
				}
				give(h.Custom)
			}
			s.head, s.anyID = *h, false
			s.head.Custom = nil
			if h.Custom != nil && c.pick(4) == 0 {
				// the same header on both sides
				o := m[!req]
				o.head, o.anyID, o.drop, o.custom = s.head, false, map[string]bool{}, map[string]interface{}{}
				for k, v := range s.custom {
					o.custom[k] = v
				}
				b = b.WithReqHeader(h).WithResHeader(h)
				ops = append(ops, "header:both")
				break
			}
			if req {
				b = b.WithReqHeader(h)
			} else {
				b = b.WithResHeader(h)
			}
			ops = append(ops, fmt.Sprintf("header:%v", req))
		case 1, 2:
			s.body = c.bytes(40)
			give(s.body)
			if req {
				b = b.WithReqBody(s.body)
			} else {
				b = b.WithResBody(s.body)
			}
			ops = append(ops, fmt.Sprintf("body:%v", req))
		case 3, 4, 5:
			var at []msg.Attr
			for i := c.pick(4); i >= 0; i-- {
				key, v := keys[c.pick(len(keys))], c.value()
				at = append(at, msg.Attr{Key: key, Value: v})
				s.custom[key] = v
				delete(s.drop, key)
			}
			if req {
				b = b.WithReqCustomFields(at...)
			} else {
				b = b.WithResCustomFields(at...)
			}
			ops = append(ops, fmt.Sprintf("fields:%v:%d", req, len(at)))
		case 6:
			for k := range s.custom {
				s.drop[k] = true
			}
			s.custom = map[string]interface{}{}
			data := map[string]any{}
			for i := c.pick(4); i >= 0; i-- {
				key, v := keys[c.pick(len(keys))], c.value()
				data[key], s.custom[key] = v, v
				delete(s.drop, key)
			}
			if req {
				b = b.WithReqCustomFieldsMap(data)
			} else {
				b = b.WithResCustomFieldsMap(data)
			}
			ops = append(ops, fmt.Sprintf("map:%v:%d", req, len(data)))
		default:
			w = b.Build()
			b = w.ToBuilder()
			ops = append(ops, "continue")
		}
	}
	w = b.Build()
	if !c.Check(w.Err == nil, "err", "building fails: %v after %v", w.Err, ops) {
		return
	}
	for _, req := range []bool{true, false} {
		s, got, name := m[req], w.Res, "response"
		if req {
			got, name = w.Req, "request"
		}
		if !c.Check(got != nil && got.Header != nil, "nil", "the %s has no header after %v", name, ops) {
			return
		}
		h := *got.Header
		h.Custom = nil
		if s.anyID {
			c.Check(h.ID != "", "id", "the %s has no id", name)
			s.head.ID = h.ID
		}
		c.Check(reflect.DeepEqual(h, s.head), "header", "header of the %s: %+v, set %+v after %v", name, h, s.head, ops)
		c.Check(bytes.Equal(got.Body, s.body), "body", "body of the %s is %x, set %x after %v", name, got.Body, s.body, ops)
		for k, v := range s.custom {
			g := typed(c, w, req, k, v)
			c.Check(reflect.DeepEqual(g, v), fmt.Sprintf("custom:%T", v), "custom field %q of the %s is %T %v, set to %T %v after %v", k, name, g, g, v, v, ops)
			// incompatible types give the zero value
			switch v.(type) {
			case nil:
				c.Check(getAny[string](c, w, req, k) == "" && getAny[int](c, w, req, k) == 0 && getAny[bool](c, w, req, k) == false, "nil", "a field set to nil is not zero after %v", ops)
			case string:
				c.Check(getAny[int](c, w, req, k) == 0 && getAny[bool](c, w, req, k) == false && getAny[float64](c, w, req, k) == float64(0),
					"zero", "a text field is not zero when read as another type")
			case bool:
				c.Check(getAny[string](c, w, req, k) == "" && getAny[int64](c, w, req, k) == int64(0), "zero", "a bool field is not zero when read as another type")
			case []interface{}, map[string]interface{}:
				c.Check(getAny[string](c, w, req, k) == "" && getAny[uint32](c, w, req, k) == uint32(0), "zero", "a compound field is not zero when read as another type")
			default:
				c.Check(getAny[string](c, w, req, k) == "" && getAny[bool](c, w, req, k) == false, "zero", "a number field is not zero when read as another type")
			}
		}
		for _, k := range append(keys, "none") {
			if _, ok := s.custom[k]; !ok && !s.drop[k] {
				c.Check(getAny[string](c, w, req, k) == "" && getAny[int](c, w, req, k) == 0, "missing", "the missing field %q of the %s is not zero after %v", k, name, ops)
			}
		}
		if len(s.drop) == 0 {
			var mp map[string]any
			var err error
			if req {
				mp, err = w.GetReqCustomMap()
			} else {
				mp, err = w.GetResCustomMap()
			}
			c.Check(len(mp) == len(s.custom) && (err == nil || len(s.custom) == 0), "map", "the custom map of the %s has %d fields, %d were set, err %v", name, len(mp), len(s.custom), err)
		}
	}
	for i := range given {
		c.Check(bytes.Equal(given[i], was[i]), "given", "the bytes %q that were handed to the builder have become %q after %v", was[i], given[i], ops)
	}
	c.Sig(strings.Join(ops, " "))
	c.Sample("%v: all getters return what was set", ops)
}

type objInner struct {
	N int32
	S []string
	P *objInner
}

type obj struct {
	I    int64
	U    uint64
	I8   int8
	F    float64
	G    float32
	B    bool
	T    string
	Raw  []byte
	L    []int64
	M    map[string]int64
	In   objInner
	Ptr  *objInner
	Nest map[string]objInner
}

func (c *Case) inner(d int) objInner {
	x := objInner{N: int32(c.R.Uint32())}
	for i := c.pick(3); i > 0; i-- {
		x.S = append(x.S, c.text(5))
	}
	if d > 0 && c.pick(2) == 0 {
		y := c.inner(d - 1)
		x.P = &y
	}
	return x
}

func (c *Case) object() obj {
	o := obj{I: c.R.Int63() - c.R.Int63(), U: c.R.Uint64(), I8: int8(c.R.Uint32()), F: c.R.NormFloat64(), G: float32(c.R.NormFloat64()), B: c.pick(2) == 0, T: c.text(30), In: c.inner(3)}
	if c.pick(2) == 0 {
		o.Raw = append([]byte{1}, c.bytes(300)...)
	}
	for i := c.pick(20); i > 0; i-- {
		o.L = append(o.L, c.R.Int63()-c.R.Int63())
	}
	if c.pick(2) == 0 {
		o.M = map[string]int64{c.text(4): c.R.Int63(), "k": -1}
	}
	if c.pick(2) == 0 {
		x := c.inner(2)
		o.Ptr = &x
	}
	if c.pick(3) == 0 {
		o.Nest = map[string]objInner{c.text(4): c.inner(1)}
	}
	return o
}

func runObjects(c *Case) {
	a, d := c.object(), c.object()
	b := msg.NewBuilder(context.Background())
	var g obj
	c.Check(b.GetReqCustomObject(&g) != nil, "empty", "an object is read from an empty request")
	c.Check(b.GetResCustomObject(&g) != nil, "empty", "an object is read from an empty response")
	if o := c.object(); c.pick(2) == 0 {
		b.WithReqCustomObject(o)
		c.Check(b.GetResCustomObject(&g) != nil, "empty", "the request's object is read from the response")
	}
	h := c.header()
	body := c.bytes(9)
	given := append(make([]byte, 0, 2048), "bytes of the caller"...)
	x := *h
	x.Custom = given
	b.WithReqHeader(&x).WithReqBody(body).WithReqCustomObject(a)
	y := *h
	y.Custom = given
	b.WithResHeader(&y)
	if c.pick(2) == 0 {
		b = b.Build().ToBuilder()
	}
	b.WithResCustomObject(&d)
	c.Check(string(given) == "bytes of the caller", "given", "the bytes handed to the builder have become %q", given)
	b = b.Build().ToBuilder()
	var ga, gd obj
	err := b.GetReqCustomObject(&ga)
	c.Check(err == nil && reflect.DeepEqual(ga, a), "object", "the request's object comes back as %+v (%v), stored %+v", ga, err, a)
	err = b.GetResCustomObject(&gd)
	c.Check(err == nil && reflect.DeepEqual(gd, d), "object", "the response's object comes back as %+v (%v), stored %+v", gd, err, d)
	x = *b.Build().Req.Header
	x.Custom = nil
	c.Check(reflect.DeepEqual(x, *h) && bytes.Equal(b.Build().Req.Body, body), "header", "storing an object changes header or body")
	c.Check(b.Build().Err == nil, "err", "storing an object fails: %v", b.Build().Err)
	// what is stored later replaces it
	b.WithReqCustomObject(d)
	var gx obj
	err = b.GetReqCustomObject(&gx)
	c.Check(err == nil && reflect.DeepEqual(gx, d), "object", "the later object comes back as %+v (%v)", gx, err)
	c.Sig(fmt.Sprintf("%+v", a))
	c.Sample("object %.200s", fmt.Sprintf("%+v", a))
}
