package mon

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"

	"github.com/pojol/braid/router"
	"google.golang.org/grpc/encoding"
	_ "google.golang.org/grpc/encoding/proto"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

func init() {
	reg(Scenario{Prop: "C26", Name: "roundtrip", Quick: 8000, Thorough: 400000, Run: runCodec, NoNoise: true,
		Rule: "a random Header, Message, RouteReq or RouteRes (fields empty, short, long, not UTF-8, nil sub-messages) encoded by the codec, by an " +
			"independent encoder and by the RPC codec, and decoded again; an outcome is the encoding's length and the set of fields present"})
	reg(Scenario{Prop: "C26", Name: "hostile", Quick: 16000, Thorough: 900000, Run: runHostileBytes, NoNoise: true,
		Rule: "valid encodings with bytes changed, cut, inserted, lengths blown up, unknown fields, groups and repeated fields added, and random " +
			"bytes; decoded with a bound on the memory used, and compared with an independent decoder where both accept; an outcome is the " +
			"verdict and the kind of damage"})
}

type wireMsg interface {
	Marshal() ([]byte, error)
	Unmarshal([]byte) error
	Size() int
	ProtoMessage()
	Reset()
	String() string
}

func (c *Case) wtext() string {
	switch c.pick(8) {
	case 0, 1:
		return ""
	case 2:
		return string(c.bytes(200))
	case 3:
		return string(make([]byte, 100+c.pick(20000)))
	default:
		return c.text(20)
	}
}

func (c *Case) wheader() *router.Header {
	if c.pick(8) == 0 {
		return nil
	}
	h := &router.Header{}
	if c.pick(8) == 0 {
		return h
	}
	h.ID, h.OrgActorID, h.OrgActorType, h.PrevActorType = c.wtext(), c.wtext(), c.wtext(), c.wtext()
	h.TargetActorID, h.TargetActorType, h.Event, h.Token = c.wtext(), c.wtext(), c.wtext(), c.wtext()
	switch c.pick(4) {
	case 0:
		h.Timestamp = int64(c.pick(300)) - 150
	case 1:
		h.Timestamp = c.R.Int63() - c.R.Int63()
	case 2:
		h.Timestamp = []int64{-1, 1<<63 - 1, -1 << 63, 127, 128, 16383, 16384}[c.pick(7)]
	}
	if c.pick(2) == 0 {
		h.Custom = []byte(c.wtext())
	}
	return h
}

func (c *Case) wmessage() *router.Message {
	if c.pick(8) == 0 {
		return nil
	}
	m := &router.Message{Header: c.wheader()}
	if c.pick(3) > 0 {
		m.Body = []byte(c.wtext())
	}
	return m
}

func (c *Case) wire() (m, empty wireMsg) {
	switch c.pick(4) {
	case 0:
		h := c.wheader()
		if h == nil {
			h = &router.Header{}
		}
		return h, &router.Header{}
	case 1:
		x := c.wmessage()
		if x == nil {
			x = &router.Message{}
		}
		return x, &router.Message{}
	case 2:
		return &router.RouteReq{Msg: c.wmessage()}, &router.RouteReq{}
	default:
		return &router.RouteRes{Msg: c.wmessage()}, &router.RouteRes{}
	}
}

// the independent encoder
func refEncode(m interface{}) []byte {
	var b []byte
	str := func(n protowire.Number, s string) {
		if s != "" {
			b = protowire.AppendString(protowire.AppendTag(b, n, protowire.BytesType), s)
		}
	}
	sub := func(n protowire.Number, x []byte) {
		b = protowire.AppendBytes(protowire.AppendTag(b, n, protowire.BytesType), x)
	}
	switch v := m.(type) {
	case *router.Header:
		str(1, v.ID)
		str(2, v.OrgActorID)
		str(3, v.OrgActorType)
		str(4, v.PrevActorType)
		str(7, v.TargetActorID)
		str(8, v.TargetActorType)
		str(9, v.Event)
		str(10, v.Token)
		if v.Timestamp != 0 {
			b = protowire.AppendVarint(protowire.AppendTag(b, 11, protowire.VarintType), uint64(v.Timestamp))
		}
		str(12, string(v.Custom))
	case *router.Message:
		if v.Header != nil {
			sub(1, refEncode(v.Header))
		}
		str(2, string(v.Body))
	case *router.RouteReq:
		if v.Msg != nil {
			sub(1, refEncode(v.Msg))
		}
	case *router.RouteRes:
		if v.Msg != nil {
			sub(2, refEncode(v.Msg))
		}
	}
	return b
}

// norm makes empty and absent byte strings the same.
func normMsg(m interface{}) {
	switch v := m.(type) {
	case *router.Header:
		if v != nil && len(v.Custom) == 0 {
			v.Custom = nil
		}
	case *router.Message:
		if v != nil {
			normMsg(v.Header)
			if len(v.Body) == 0 {
				v.Body = nil
			}
		}
	case *router.RouteReq:
		normMsg(v.Msg)
	case *router.RouteRes:
		normMsg(v.Msg)
	}
}

func present(m interface{}) string {
	s := ""
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				s += "-"
				return
			}
			s += "("
			v = v.Elem()
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.Ptr {
				walk(f)
			} else if f.IsZero() {
				s += "0"
			} else {
				s += "1"
			}
		}
	}
	walk(reflect.ValueOf(m))
	return s
}

func runCodec(c *Case) {
	m, back := c.wire()
	b, err := m.Marshal()
	if !c.Check(err == nil, "marshal", "%T: %v", m, err) {
		return
	}
	c.Check(len(b) == m.Size(), "size", "%T: the encoding has %d bytes, Size says %d", m, len(b), m.Size())
	ref := refEncode(m)
	c.Check(bytes.Equal(b, ref), "wire", "%T: the encoding differs from the wire format\n%x\n%x", m, head(b), head(ref))
	rpc, err := encoding.GetCodec("proto").Marshal(m)
	// the RPC codec refuses text that is not UTF-8 or passes it on, but it must not change it
	if err == nil {
		c.Check(bytes.Equal(rpc, b), "rpc", "%T: the RPC stack encodes it differently", m)
		back2 := reflect.New(reflect.TypeOf(m).Elem()).Interface()
		err = encoding.GetCodec("proto").Unmarshal(b, back2)
		normMsg(back2)
		c.Check(err == nil && equalWire(back2, m), "rpc-decode", "%T does not survive the RPC stack: %v", m, err)
	} else {
		c.Check(false, "rpc", "%T: the RPC stack cannot encode it: %v", m, err)
	}
	// into a message that held something else before
	if c.pick(2) == 0 {
		old, _ := c.wire()
		if reflect.TypeOf(old) == reflect.TypeOf(back) {
			back = old
			back.Reset()
		}
	}
	keep := append([]byte{}, b...)
	err = back.Unmarshal(b)
	for i := range b { // the decoded message must not share memory with the input
		b[i] ^= 0xff
	}
	normMsg(back)
	c.Check(err == nil && equalWire(back, m), "roundtrip", "%T: decoded %v, %v\n%x", m, back, err, head(keep))
	c.Sig(len(ref), present(m))
	c.Sample("%T %s, %d bytes", m, present(m), len(ref))
}

func equalWire(a, b interface{}) bool {
	x := reflect.New(reflect.TypeOf(b).Elem())
	x.Elem().Set(reflect.ValueOf(b).Elem())
	var y interface{}
	switch v := b.(type) { // a deep enough copy to normalise
	case *router.Header:
		h := *v
		y = &h
	case *router.Message:
		y = copyMsg(v)
	case *router.RouteReq:
		y = &router.RouteReq{Msg: copyMsg(v.Msg)}
	case *router.RouteRes:
		y = &router.RouteRes{Msg: copyMsg(v.Msg)}
	}
	normMsg(y)
	return reflect.DeepEqual(a, y)
}

func copyMsg(v *router.Message) *router.Message {
	if v == nil {
		return nil
	}
	m := *v
	if v.Header != nil {
		h := *v.Header
		m.Header = &h
	}
	return &m
}

func head(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

// the independent decoder: the runtime of the other protobuf implementation over a hand-written description
var refTypes = func() map[string]protoreflect.MessageDescriptor {
	f := func(n string, num int32, ty descriptorpb.FieldDescriptorProto_Type, tn string) *descriptorpb.FieldDescriptorProto {
		d := &descriptorpb.FieldDescriptorProto{Name: proto.String(n), Number: proto.Int32(num), Type: ty.Enum(),
			Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
		if tn != "" {
			d.TypeName = proto.String(tn)
		}
		return d
	}
	by, i64, mt := descriptorpb.FieldDescriptorProto_TYPE_BYTES, descriptorpb.FieldDescriptorProto_TYPE_INT64, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE
	fd := &descriptorpb.FileDescriptorProto{Name: proto.String("ref.proto"), Package: proto.String("ref"), Syntax: proto.String("proto2"),
		MessageType: []*descriptorpb.DescriptorProto{
			{Name: proto.String("Header"), Field: []*descriptorpb.FieldDescriptorProto{f("f1", 1, by, ""), f("f2", 2, by, ""), f("f3", 3, by, ""),
				f("f4", 4, by, ""), f("f7", 7, by, ""), f("f8", 8, by, ""), f("f9", 9, by, ""), f("f10", 10, by, ""), f("f11", 11, i64, ""), f("f12", 12, by, "")}},
			{Name: proto.String("Message"), Field: []*descriptorpb.FieldDescriptorProto{f("h", 1, mt, ".ref.Header"), f("b", 2, by, "")}},
			{Name: proto.String("RouteReq"), Field: []*descriptorpb.FieldDescriptorProto{f("m", 1, mt, ".ref.Message")}},
			{Name: proto.String("RouteRes"), Field: []*descriptorpb.FieldDescriptorProto{f("m", 2, mt, ".ref.Message")}},
		}}
	file, err := protodesc.NewFile(fd, nil)
	if err != nil {
		panic(err)
	}
	out := map[string]protoreflect.MessageDescriptor{}
	for i := 0; i < file.Messages().Len(); i++ {
		out[string(file.Messages().Get(i).Name())] = file.Messages().Get(i)
	}
	return out
}()

func fromRef(d protoreflect.Message) interface{} {
	md := d.Descriptor()
	by := func(n protoreflect.FieldNumber) []byte { return d.Get(md.Fields().ByNumber(n)).Bytes() }
	sub := func(n protoreflect.FieldNumber) interface{} {
		fd := md.Fields().ByNumber(n)
		if !d.Has(fd) {
			return nil
		}
		return fromRef(d.Get(fd).Message())
	}
	switch md.Name() {
	case "Header":
		return &router.Header{ID: string(by(1)), OrgActorID: string(by(2)), OrgActorType: string(by(3)), PrevActorType: string(by(4)),
			TargetActorID: string(by(7)), TargetActorType: string(by(8)), Event: string(by(9)), Token: string(by(10)),
			Timestamp: d.Get(md.Fields().ByNumber(11)).Int(), Custom: by(12)}
	case "Message":
		m := &router.Message{Body: by(2)}
		if h := sub(1); h != nil {
			m.Header = h.(*router.Header)
		}
		return m
	case "RouteReq":
		m := &router.RouteReq{}
		if h := sub(1); h != nil {
			m.Msg = h.(*router.Message)
		}
		return m
	default:
		m := &router.RouteRes{}
		if h := sub(2); h != nil {
			m.Msg = h.(*router.Message)
		}
		return m
	}
}

// unknown is a field the message does not have.
func (c *Case) unknown(depth int) []byte {
	n := protowire.Number(20 + c.pick(3000))
	switch c.pick(5) {
	case 0:
		return protowire.AppendVarint(protowire.AppendTag(nil, n, protowire.VarintType), c.R.Uint64())
	case 1:
		return protowire.AppendFixed32(protowire.AppendTag(nil, n, protowire.Fixed32Type), c.R.Uint32())
	case 2:
		return protowire.AppendFixed64(protowire.AppendTag(nil, n, protowire.Fixed64Type), c.R.Uint64())
	case 3:
		return protowire.AppendBytes(protowire.AppendTag(nil, n, protowire.BytesType), c.bytes(30))
	default:
		b := protowire.AppendTag(nil, n, protowire.StartGroupType)
		if depth > 0 {
			b = append(b, c.unknown(depth-1)...)
		}
		return protowire.AppendTag(b, n, protowire.EndGroupType)
	}
}

func runHostileBytes(c *Case) {
	m, back := c.wire()
	b := refEncode(m)
	kind := c.pick(12)
	exact := false // still a valid encoding, so it must be accepted
	switch kind {
	case 0, 1:
		for i := 1 + c.pick(4); i > 0 && len(b) > 0; i-- {
			b[c.pick(len(b))] = byte(c.R.Uint32())
		}
	case 2:
		b = b[:c.pick(len(b)+1)]
	case 3:
		i := c.pick(len(b) + 1)
		b = append(append(append([]byte{}, b[:i]...), c.bytes(12)...), b[i:]...)
	case 4: // a length that is far too large, and overflowing ones
		n := protowire.Number(1 + c.pick(12))
		b = protowire.AppendTag(b, n, protowire.BytesType)
		b = protowire.AppendVarint(b, []uint64{1 << 20, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, uint64(c.pick(1000)) + 50}[c.pick(9)])
		b = append(b, c.bytes(40)...)
	case 5:
		b = append(b, c.unknown(4)...)
		exact = true
	case 6:
		m2, _ := c.wire()
		b = append(b, refEncode(m2)...)
	case 7:
		b = c.bytes(120)
	case 8: // deep nesting of groups
		n := 1 + c.pick(3000)
		if c.pick(20) == 0 {
			n = 200000
		}
		b = bytes.Repeat(protowire.AppendTag(nil, 5, protowire.StartGroupType), n)
		if c.pick(2) == 0 {
			b = append(b, bytes.Repeat(protowire.AppendTag(nil, 5, protowire.EndGroupType), n)...)
		}
	case 9: // endless varints
		b = append(b, bytes.Repeat([]byte{0xff}, 1+c.pick(30))...)
		b = append(b, byte(c.pick(2)))
	case 10: // the same message again after itself
		b = append(append([]byte{}, b...), b...)
		exact = true
	default: // a wrong wire type
		b = append(b, byte(1+c.pick(12))<<3|byte(c.pick(8)), byte(c.R.Uint32()), byte(c.R.Uint32()))
	}
	in := append([]byte{}, b...)
	var before, after runtime.MemStats
	measure := c.pick(6) == 0 || kind == 4
	if measure {
		runtime.ReadMemStats(&before)
	}
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				c.Check(false, "panic", "decoding %T panics: %v on %x", back, r, head(in))
				err = fmt.Errorf("panic")
			}
		}()
		return back.Unmarshal(b)
	}()
	if measure {
		runtime.ReadMemStats(&after)
		used := after.TotalAlloc - before.TotalAlloc
		c.Check(used < uint64(len(in))*64+256<<10, "memory", "decoding %d bytes allocates %d", len(in), used)
		c.N("memory_checked", 1)
	} else {
		c.Check(true, "", "")
	}
	c.Check(bytes.Equal(in, b), "input", "decoding changes its input")
	if exact {
		c.Check(err == nil, "refused", "a valid encoding of %T is refused: %v\n%x", back, err, head(in))
	}
	name := reflect.TypeOf(back).Elem().Name()
	d := dynamicpb.NewMessage(refTypes[name])
	rerr := proto.UnmarshalOptions{AllowPartial: true, RecursionLimit: 10000}.Unmarshal(in, d)
	if err == nil && rerr == nil {
		want := fromRef(d)
		normMsg(want)
		normMsg(back)
		c.Check(reflect.DeepEqual(want, back), "decode", "%T decoded as %v, should be %v\n%x", back, back, want, head(in))
		c.N("compared", 1)
	}
	if err == nil { // what was accepted can be encoded
		b2, err2 := back.Marshal()
		c.Check(err2 == nil && len(b2) == back.Size(), "remarshal", "an accepted %T cannot be encoded: %v", back, err2)
	}
	c.Sig(kind, name, err == nil, rerr == nil, len(in)%32)
	c.Sample("damage %d of %T, %d bytes: %v", kind, back, len(in), err)
}
