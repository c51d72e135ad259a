package mon

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojol/braid/3rd/mgo"
	"github.com/pojol/braid/lib/tracer"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"go.mongodb.org/mongo-driver/mongo"
	"go.mongodb.org/mongo-driver/mongo/options"
)

func init() {
	reg(Scenario{Prop: "C40", Name: "differential", Mode: Real, Quick: 240, Thorough: 12000, Races: true, Run: runMongo,
		Rule: "20-50 random operations of all collection wrappers on two databases, with random filters, documents, models and options (and nil, empty and invalid ones), ended contexts and " +
			"deadlines, against a server that records every command and answers with documents, several batches, write errors, command errors, cut connections or nothing; each operation is " +
			"also issued directly on the collection, against a second such server that answers the same; an outcome is the sequence of operations and results"})
}

// ---- a server that speaks the MongoDB wire protocol, records the commands and makes up the answers

type mongoSrv struct {
	addr string
	mu   sync.Mutex
	seed uint64
	n    int
	log  []string
	hung chan struct{} // closed when the server does not answer
	hang bool          // this operation gets no answer
}

func newMongoSrv() *mongoSrv {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &mongoSrv{addr: ln.Addr().String()}
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go s.serve(conn)
		}
	}()
	return s
}

// next starts a new operation: the same seed gives the same answers
func (s *mongoSrv) next(seed uint64, hang bool, hung chan struct{}) {
	s.mu.Lock()
	s.seed, s.n, s.log, s.hang, s.hung = seed, 0, nil, hang, hung
	s.mu.Unlock()
}

func (s *mongoSrv) commands() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return strings.Join(s.log, "\n")
}

func (s *mongoSrv) serve(conn net.Conn) {
	defer conn.Close()
	head := make([]byte, 16)
	for {
		if _, err := io.ReadFull(conn, head); err != nil {
			return
		}
		size, id, op := binary.LittleEndian.Uint32(head), binary.LittleEndian.Uint32(head[4:]), binary.LittleEndian.Uint32(head[12:])
		if size < 16 || size > 64<<20 {
			return
		}
		body := make([]byte, size-16)
		if _, err := io.ReadFull(conn, body); err != nil {
			return
		}
		var cmd bson.Raw
		switch op {
		case 2004: // OP_QUERY: flags, collection name, skip, number, document
			i := 4
			for i < len(body) && body[i] != 0 {
				i++
			}
			cmd = bson.Raw(body[i+9:])
		case 2013:
			cmd = opMsg(body)
		default:
			return
		}
		reply, hang := s.answer(cmd)
		if hang {
			io.Copy(io.Discard, conn) // until the client gives up
			return
		}
		if reply == nil {
			return
		}
		doc, err := bson.Marshal(reply)
		if err != nil {
			panic(err)
		}
		var out []byte
		if op == 2004 {
			out = append(make([]byte, 20), doc...)
			binary.LittleEndian.PutUint32(out[16:], 1)
		} else {
			out = append(make([]byte, 5), doc...)
		}
		h := make([]byte, 16)
		binary.LittleEndian.PutUint32(h, uint32(16+len(out)))
		binary.LittleEndian.PutUint32(h[4:], id+1)
		binary.LittleEndian.PutUint32(h[8:], id)
		if op == 2004 {
			binary.LittleEndian.PutUint32(h[12:], 1)
		} else {
			binary.LittleEndian.PutUint32(h[12:], 2013)
		}
		if _, err := conn.Write(append(h, out...)); err != nil {
			return
		}
	}
}

// opMsg returns the command of an OP_MSG with its document sequences as arrays
func opMsg(body []byte) bson.Raw {
	var d bson.D
	p := body[4:]
	for len(p) > 4 {
		kind := p[0]
		p = p[1:]
		n := int(binary.LittleEndian.Uint32(p))
		if n > len(p) {
			break
		}
		if kind == 0 {
			var m bson.D
			if bson.Unmarshal(p[:n], &m) == nil {
				d = append(m, d...)
			}
		} else {
			i := 4
			for p[i] != 0 {
				i++
			}
			name, docs := string(p[4:i]), bson.A{}
			for q := p[i+1 : n]; len(q) >= 4; {
				k := int(binary.LittleEndian.Uint32(q))
				docs = append(docs, bson.Raw(q[:k]))
				q = q[k:]
			}
			d = append(d, bson.E{Key: name, Value: docs})
		}
		p = p[n:]
	}
	out, err := bson.Marshal(d)
	if err != nil {
		panic(err)
	}
	return out
}

func (s *mongoSrv) answer(cmd bson.Raw) (reply bson.D, hang bool) {
	elems, err := cmd.Elements()
	if err != nil || len(elems) == 0 {
		return bson.D{{"ok", 0}, {"errmsg", "bad command"}, {"code", 9}}, false
	}
	name := elems[0].Key()
	switch name {
	case "hello", "isMaster", "ismaster":
		return bson.D{{"ismaster", true}, {"isWritablePrimary", true}, {"helloOk", true}, {"maxBsonObjectSize", 16 << 20}, {"maxMessageSizeBytes", 48000000},
			{"maxWriteBatchSize", 100000}, {"localTime", primitive.NewDateTimeFromTime(time.Now())}, {"logicalSessionTimeoutMinutes", 30}, {"minWireVersion", 0},
			{"maxWireVersion", 21}, {"readOnly", false}, {"ok", 1}}, false
	case "ping", "endSessions":
		return bson.D{{"ok", 1}}, false
	}
	var d bson.D
	for _, e := range elems {
		switch e.Key() {
		case "lsid", "$clusterTime", "txnNumber":
		default:
			d = append(d, bson.E{Key: e.Key(), Value: e.Value()})
		}
	}
	text, err := bson.MarshalExtJSON(d, true, false)
	if err != nil {
		text = []byte(err.Error())
	}
	s.mu.Lock()
	s.log = append(s.log, plainMongo(string(text)))
	r := rand.New(rand.NewSource(int64(mix(s.seed, uint64(s.n), hash(name)))))
	s.n++
	if s.hang && name != "killCursors" { // that one the driver sends without a deadline
		s.hang = false
		close(s.hung)
		hang = true
	}
	s.mu.Unlock()
	if hang {
		return nil, true
	}

	switch k := r.Intn(60); {
	case k == 0 && r.Intn(3) == 0:
		return nil, false // cuts the connection
	case k <= 4:
		return bson.D{{"ok", 0}, {"errmsg", fmt.Sprintf("refused %d", r.Intn(100))}, {"code", []int{2, 9, 13, 26, 50, 11000, 96}[r.Intn(7)]}, {"codeName", "Refused"}}, false
	}
	doc := func() bson.D {
		d := bson.D{{"_id", oid(r)}}
		for i := r.Intn(4); i > 0; i-- {
			d = append(d, bson.E{Key: fmt.Sprintf("f%d", i), Value: mongoValue(r, 2)})
		}
		return d
	}
	docs := func() bson.A {
		a := bson.A{}
		for i := r.Intn(4); i > 0; i-- {
			a = append(a, doc())
		}
		return a
	}
	more := func() int64 {
		if r.Intn(3) == 0 {
			return 1 + r.Int63n(1e9)
		}
		return 0
	}
	ns := "db.c"
	if db, ok := cmd.Lookup("$db").StringValueOK(); ok {
		if coll, ok := elems[0].Value().StringValueOK(); ok {
			ns = db + "." + coll
		}
	}
	switch name {
	case "find", "aggregate":
		batch := docs()
		if name == "aggregate" && strings.Contains(string(text), `"$group"`) {
			batch = bson.A{bson.D{{"_id", 1}, {"n", r.Intn(1000)}}}
			if r.Intn(4) == 0 {
				batch = bson.A{}
			}
			return bson.D{{"cursor", bson.D{{"id", int64(0)}, {"ns", ns}, {"firstBatch", batch}}}, {"ok", 1}}, false
		}
		return bson.D{{"cursor", bson.D{{"id", more()}, {"ns", ns}, {"firstBatch", batch}}}, {"ok", 1}}, false
	case "listIndexes":
		return bson.D{{"cursor", bson.D{{"id", more()}, {"ns", ns}, {"firstBatch", bson.A{bson.D{{"v", 2}, {"key", bson.D{{"_id", 1}}}, {"name", "_id_"}}}}}}, {"ok", 1}}, false
	case "getMore":
		return bson.D{{"cursor", bson.D{{"id", more()}, {"ns", ns}, {"nextBatch", docs()}}}, {"ok", 1}}, false
	case "killCursors":
		return bson.D{{"cursorsKilled", bson.A{}}, {"ok", 1}}, false
	case "count":
		return bson.D{{"n", r.Intn(1000)}, {"ok", 1}}, false
	case "findAndModify":
		if r.Intn(3) == 0 {
			return bson.D{{"value", nil}, {"ok", 1}}, false
		}
		return bson.D{{"lastErrorObject", bson.D{{"n", 1}, {"updatedExisting", true}}}, {"value", doc()}, {"ok", 1}}, false
	case "insert", "update", "delete":
		reply := bson.D{{"n", r.Intn(5)}}
		if name == "update" {
			reply = append(reply, bson.E{Key: "nModified", Value: r.Intn(3)})
			if r.Intn(4) == 0 {
				reply = append(reply, bson.E{Key: "upserted", Value: bson.A{bson.D{{"index", 0}, {"_id", oid(r)}}}})
			}
		}
		if r.Intn(8) == 0 {
			reply = append(reply, bson.E{Key: "writeErrors", Value: bson.A{bson.D{{"index", 0}, {"code", 11000}, {"errmsg", "duplicate key"}}}})
		}
		if r.Intn(12) == 0 {
			reply = append(reply, bson.E{Key: "writeConcernError", Value: bson.D{{"code", 64}, {"codeName", "WriteConcernFailed"}, {"errmsg", "timed out"}}})
		}
		return append(reply, bson.E{Key: "ok", Value: 1}), false
	case "createIndexes":
		return bson.D{{"numIndexesBefore", 1}, {"numIndexesAfter", 2}, {"ok", 1}}, false
	case "dropIndexes":
		return bson.D{{"nIndexesWas", r.Intn(5)}, {"ok", 1}}, false
	}
	return bson.D{{"ok", 1}}, false
}

// oid is recognisable, so that it can be told from the ids the driver makes
func oid(r *rand.Rand) primitive.ObjectID {
	id := primitive.ObjectID{0xaa, 0xaa, 0xaa, 0xaa}
	binary.BigEndian.PutUint32(id[8:], uint32(r.Intn(1000)))
	return id
}

var (
	hexID   = regexp.MustCompile(`\b[0-9a-f]{24}\b`)
	localIP = regexp.MustCompile(`127\.0\.0\.1:\d+(\[-?\d+\])?(->127\.0\.0\.1:\d+)?`)
	connIDs = regexp.MustCompile(`(0x[0-9a-f]+|id: \d+|\(\*\S+\)\(0x[0-9a-f]+\))`)
)

func plainMongo(s string) string {
	s = hexID.ReplaceAllStringFunc(s, func(id string) string {
		if strings.HasPrefix(id, "aaaaaaaa") {
			return id
		}
		return "NEWID"
	})
	return connIDs.ReplaceAllString(localIP.ReplaceAllString(s, "ADDR"), "X")
}

func mongoValue(r *rand.Rand, depth int) interface{} {
	switch r.Intn(12) {
	case 0:
		return r.Intn(1000)
	case 1:
		return r.Int63() - 1<<62
	case 2:
		return r.NormFloat64()
	case 3:
		return text(r)
	case 4:
		return r.Intn(2) == 0
	case 5:
		return nil
	case 6:
		return oid(r)
	case 7:
		return time.UnixMilli(r.Int63n(1e12)).UTC()
	case 8:
		return []byte(text(r))
	case 9:
		return primitive.Regex{Pattern: "^a", Options: "i"}
	case 10:
		if depth > 0 {
			return bson.A{mongoValue(r, depth-1), mongoValue(r, depth-1)}
		}
	case 11:
		if depth > 0 {
			return bson.D{{"x", mongoValue(r, depth-1)}, {"y", mongoValue(r, depth-1)}}
		}
	}
	return "v"
}

// ---- the connections, one per process

type mongoSide struct {
	srv  map[string]*mongoSrv
	coll func(db, name string) mongoColl
}

var mongoOnce sync.Once
var mongoWrapped, mongoDirect *mongoSide
var mongoTrace mongoTracer

// mongoTracer can be switched on and off, and counts the spans
type mongoTracer struct {
	mode       atomic.Int32
	begun, end atomic.Int64
}

func (t *mongoTracer) GetTracing() interface{} { return nil }
func (t *mongoTracer) GetSpan(string) (tracer.ISpan, error) {
	if t.mode.Load() == 0 {
		return nil, errors.New("off")
	}
	return &mongoSpan{t}, nil
}

type mongoSpan struct{ t *mongoTracer }

func (s *mongoSpan) Begin(ctx interface{}) context.Context {
	s.t.begun.Add(1)
	c, _ := ctx.(context.Context)
	return c
}
func (s *mongoSpan) SetTag(string, interface{}) {}
func (s *mongoSpan) GetID() string              { return "" }
func (s *mongoSpan) End(interface{})            { s.t.end.Add(1) }

func mongoSetup() {
	mongoWrapped, mongoDirect = &mongoSide{srv: map[string]*mongoSrv{}}, &mongoSide{srv: map[string]*mongoSrv{}}
	opts := []mgo.Option{mgo.WithTracer(&mongoTrace), mgo.WithConnTimeout(3 * time.Second), mgo.WithConnPoolSize(20)}
	clients := map[string]*mongo.Client{}
	for _, db := range []string{"dba", "dbb"} {
		w, d := newMongoSrv(), newMongoSrv()
		mongoWrapped.srv[db], mongoDirect.srv[db] = w, d
		opts = append(opts, mgo.AppendConn(mgo.ConnInfo{Addr: "mongodb://" + w.addr, Name: db}))
		cli, err := mongo.Connect(context.Background(), options.Client().ApplyURI("mongodb://"+d.addr).SetConnectTimeout(3*time.Second).SetMaxPoolSize(20))
		if err != nil {
			panic(err)
		}
		clients[db] = cli
	}
	if err := mgo.Build(opts...); err != nil {
		panic(err)
	}
	mongoWrapped.coll = func(db, name string) mongoColl { return mongoColl{w: mgo.Collection(db, name)} }
	mongoDirect.coll = func(db, name string) mongoColl { return mongoColl{d: clients[db].Database(db).Collection(name)} }
}

// ---- one operation, issued through the wrapper (w) or directly (d)

type mongoColl struct {
	w *mgo.LCollection
	d *mongo.Collection
}

type mongoOp struct {
	name string
	run  func(ctx context.Context, c mongoColl) (string, error)
}

func single(s *mongo.SingleResult) (string, error) {
	if s == nil {
		return "nil", nil
	}
	raw, err := s.Raw()
	return raw.String(), err
}

func rows(limit int) func(ctx context.Context, cur *mongo.Cursor, err error) (string, error) {
	return func(ctx context.Context, cur *mongo.Cursor, err error) (string, error) {
		if err != nil || cur == nil {
			return fmt.Sprint(cur == nil), err
		}
		out := []string{}
		for len(out) < limit && cur.Next(ctx) {
			out = append(out, cur.Current.String())
		}
		err = cur.Err()
		cur.Close(context.Background())
		return strings.Join(out, ";"), err
	}
}

func value[T any](v *T, err error) (string, error) {
	if v == nil {
		return "nil", err
	}
	return fmt.Sprintf("%+v", *v), err
}

func mongoOps(r *rand.Rand) mongoOp {
	doc := func() bson.D {
		d := bson.D{}
		if r.Intn(2) == 0 {
			d = append(d, bson.E{Key: "_id", Value: oid(r)})
		}
		for i := r.Intn(4); i > 0; i-- {
			d = append(d, bson.E{Key: fmt.Sprintf("k%d", i), Value: mongoValue(r, 2)})
		}
		return d
	}
	anyDoc := func() interface{} {
		switch r.Intn(18) {
		case 0:
			return nil
		case 4:
			return []interface{}{bson.M{}, bson.D{}, map[string]interface{}{}, struct{}{}}[r.Intn(4)]
		case 5:
			return bson.M{"_id": mongoValue(r, 1)}
		case 6:
			return bson.D{{"_id", primitive.ObjectID{1, 2, byte(r.Intn(3))}}}
		case 7:
			return map[string]interface{}{"m": r.Intn(9)}
		case 1:
			return bson.M{"only": mongoValue(r, 1)}
		case 2:
			return make(chan int) // cannot be encoded
		case 3:
			return struct {
				A int    `bson:"a"`
				B string `bson:"b,omitempty"`
			}{r.Intn(9), text(r)}
		}
		return doc()
	}
	update := func() interface{} {
		switch r.Intn(8) {
		case 0:
			return anyDoc()
		case 1:
			return bson.A{bson.D{{"$set", doc()}}}
		}
		return bson.D{{[]string{"$set", "$inc", "$push", "$unset"}[r.Intn(4)], bson.D{{"a", mongoValue(r, 1)}}}}
	}
	limit := 1 + r.Intn(12)
	coll := &options.Collation{Locale: "fr"}
	switch r.Intn(17) {
	case 0:
		f, o := anyDoc(), options.Find()
		if r.Intn(2) == 0 {
			o.SetLimit(int64(r.Intn(20) - 5)).SetSkip(int64(r.Intn(5))).SetSort(bson.D{{"a", -1}}).SetBatchSize(int32(1 + r.Intn(5)))
		}
		if r.Intn(3) == 0 {
			o.SetProjection(doc()).SetHint("a_1").SetCollation(coll).SetAllowDiskUse(true)
		}
		opts := manyOpts(r, o, options.Find().SetComment("second"))
		return mongoOp{"find", func(ctx context.Context, c mongoColl) (string, error) {
			if c.w != nil {
				cur, err := c.w.Find(ctx, f, opts...)
				return rows(limit)(ctx, cur, err)
			}
			cur, err := c.d.Find(ctx, f, opts...)
			return rows(limit)(ctx, cur, err)
		}}
	case 1, 2:
		f, o, which := anyDoc(), options.Count(), r.Intn(2)
		if r.Intn(2) == 0 {
			o.SetLimit(int64(1 + r.Intn(20))).SetSkip(int64(r.Intn(5))).SetCollation(coll)
		}
		opts := manyOpts(r, o, options.Count().SetComment("second"))
		return mongoOp{[]string{"count", "countdocuments"}[which], func(ctx context.Context, c mongoColl) (string, error) {
			var n int64
			var err error
			switch {
			case c.w == nil:
				n, err = c.d.CountDocuments(ctx, f, opts...)
			case which == 0:
				n, err = c.w.Count(ctx, f, opts...)
			default:
				n, err = c.w.CountDocuments(ctx, f, opts...)
			}
			return fmt.Sprint(n), err
		}}
	case 3:
		f, o := anyDoc(), options.FindOne()
		if r.Intn(2) == 0 {
			o.SetSkip(int64(r.Intn(5))).SetSort(bson.D{{"a", 1}}).SetProjection(doc())
		}
		opts := manyOpts(r, o, options.FindOne().SetComment("second"))
		return mongoOp{"findone", func(ctx context.Context, c mongoColl) (string, error) {
			if c.w != nil {
				return single(c.w.FindOne(ctx, f, opts...))
			}
			return single(c.d.FindOne(ctx, f, opts...))
		}}
	case 4:
		f, u, o := anyDoc(), update(), options.Update()
		if r.Intn(2) == 0 {
			o.SetUpsert(r.Intn(2) == 0).SetBypassDocumentValidation(true).SetArrayFilters(options.ArrayFilters{Filters: []interface{}{bson.D{{"e", 1}}}})
		}
		opts := manyOpts(r, o, options.Update().SetComment("second"))
		return mongoOp{"updateone", func(ctx context.Context, c mongoColl) (string, error) {
			if c.w != nil {
				return value(c.w.UpdateOne(ctx, f, u, opts...))
			}
			return value(c.d.UpdateOne(ctx, f, u, opts...))
		}}
	case 5:
		d, o := anyDoc(), options.InsertOne()
		if r.Intn(2) == 0 {
			o.SetBypassDocumentValidation(true)
		}
		opts := manyOpts(r, o, options.InsertOne().SetComment("second"))
		return mongoOp{"insertone", func(ctx context.Context, c mongoColl) (string, error) {
			if c.w != nil {
				return value(c.w.InsertOne(ctx, d, opts...))
			}
			return value(c.d.InsertOne(ctx, d, opts...))
		}}
	case 6:
		var ds []interface{}
		for i := r.Intn(6); i > 0; i-- {
			ds = append(ds, doc())
		}
		if r.Intn(8) == 0 {
			ds = append(ds, anyDoc())
		}
		return mongoOp{"insertmany", func(ctx context.Context, c mongoColl) (string, error) {
			if c.w != nil {
				return value(c.w.InsertMany(ctx, ds))
			}
			return value(c.d.InsertMany(ctx, ds))
		}}
	case 7, 8:
		f, o, many := anyDoc(), options.Delete(), r.Intn(2) == 0
		if r.Intn(2) == 0 {
			o.SetHint("a_1").SetCollation(coll)
		}
		opts := manyOpts(r, o, options.Delete().SetComment("second"))
		name := "deleteone"
		if many {
			name = "deletemany"
		}
		return mongoOp{name, func(ctx context.Context, c mongoColl) (string, error) {
			switch {
			case c.w != nil && many:
				return value(c.w.DeleteMany(ctx, f, opts...))
			case c.w != nil:
				return value(c.w.DeleteOne(ctx, f, opts...))
			case many:
				return value(c.d.DeleteMany(ctx, f, opts...))
			}
			return value(c.d.DeleteOne(ctx, f, opts...))
		}}
	case 9, 10:
		model := func() mongo.IndexModel {
			m := mongo.IndexModel{Keys: bson.D{{[]string{"a", "b", "c"}[r.Intn(3)], 1 - 2*r.Intn(2)}}}
			switch r.Intn(5) {
			case 0:
				m.Options = options.Index().SetExpireAfterSeconds(int32(r.Intn(1000)))
			case 1:
				m.Options = options.Index().SetName("named").SetUnique(true)
			case 2:
				m.Keys = nil
			}
			return m
		}
		o := options.CreateIndexes()
		if r.Intn(2) == 0 {
			o.SetMaxTime(time.Duration(1+r.Intn(5)) * time.Second)
		}
		opts := []*options.CreateIndexesOptions{o}[:r.Intn(2)]
		ms := []mongo.IndexModel{model()}
		if r.Intn(2) == 0 {
			return mongoOp{"setttl", func(ctx context.Context, c mongoColl) (string, error) {
				if c.w != nil {
					return c.w.SetTTL(ctx, ms[0], opts...)
				}
				return c.d.Indexes().CreateOne(ctx, ms[0], opts...)
			}}
		}
		for i := r.Intn(3); i > 0; i-- {
			ms = append(ms, model())
		}
		if r.Intn(10) == 0 {
			ms = nil
		}
		return mongoOp{"createindexes", func(ctx context.Context, c mongoColl) (string, error) {
			var v []string
			var err error
			if c.w != nil {
				v, err = c.w.CreateIndexes(ctx, ms, opts...)
			} else {
				v, err = c.d.Indexes().CreateMany(ctx, ms, opts...)
			}
			return fmt.Sprintf("%#v", v), err
		}}
	case 11:
		o := options.ListIndexes().SetBatchSize(int32(1 + r.Intn(9)))
		opts := []*options.ListIndexesOptions{o}[:r.Intn(2)]
		return mongoOp{"indexlist", func(ctx context.Context, c mongoColl) (string, error) {
			if c.w != nil {
				cur, err := c.w.IndexList(ctx, opts...)
				return rows(limit)(ctx, cur, err)
			}
			cur, err := c.d.Indexes().List(ctx, opts...)
			return rows(limit)(ctx, cur, err)
		}}
	case 12:
		name := []string{"a_1", "", "*", text(r)}[r.Intn(4)]
		opts := []*options.DropIndexesOptions{options.DropIndexes().SetMaxTime(time.Second)}[:r.Intn(2)]
		return mongoOp{"deleteoneindex", func(ctx context.Context, c mongoColl) (string, error) {
			var raw bson.Raw
			var err error
			if c.w != nil {
				raw, err = c.w.DeleteOneIndex(ctx, name, opts...)
			} else {
				raw, err = c.d.Indexes().DropOne(ctx, name, opts...)
			}
			return raw.String(), err
		}}
	case 13:
		f, d, o := anyDoc(), anyDoc(), options.Replace()
		if r.Intn(2) == 0 {
			o.SetUpsert(r.Intn(2) == 0).SetHint("a_1")
		}
		opts := manyOpts(r, o, options.Replace().SetComment("second"))
		return mongoOp{"replaceone", func(ctx context.Context, c mongoColl) (string, error) {
			if c.w != nil {
				return value(c.w.ReplaceOne(ctx, f, d, opts...))
			}
			return value(c.d.ReplaceOne(ctx, f, d, opts...))
		}}
	case 14:
		f, u, o := anyDoc(), update(), options.FindOneAndUpdate()
		if r.Intn(2) == 0 {
			o.SetUpsert(r.Intn(2) == 0).SetReturnDocument(options.After).SetProjection(doc()).SetSort(bson.D{{"a", 1}})
		}
		opts := manyOpts(r, o, options.FindOneAndUpdate().SetComment("second"))
		return mongoOp{"findoneandupdate", func(ctx context.Context, c mongoColl) (string, error) {
			if c.w != nil {
				return single(c.w.FindOneAndUpdate(ctx, f, u, opts...))
			}
			return single(c.d.FindOneAndUpdate(ctx, f, u, opts...))
		}}
	case 15:
		var p interface{} = mongo.Pipeline{{{"$match", doc()}}, {{"$limit", 3}}}
		switch r.Intn(6) {
		case 0:
			p = nil
		case 1:
			p = bson.A{bson.D{{"$match", doc()}}, bson.D{{"$out", "other"}}}
		case 2:
			p = bson.A{}
		}
		o := options.Aggregate()
		if r.Intn(2) == 0 {
			o.SetBatchSize(int32(1 + r.Intn(5))).SetAllowDiskUse(true).SetHint("a_1")
		}
		opts := manyOpts(r, o, options.Aggregate().SetComment("second"))
		return mongoOp{"aggregate", func(ctx context.Context, c mongoColl) (string, error) {
			if c.w != nil {
				cur, err := c.w.Aggregate(ctx, p, opts...)
				return rows(limit)(ctx, cur, err)
			}
			cur, err := c.d.Aggregate(ctx, p, opts...)
			return rows(limit)(ctx, cur, err)
		}}
	default:
		var ms []mongo.WriteModel
		for i := r.Intn(7); i > 0; i-- {
			switch r.Intn(6) {
			case 0:
				ms = append(ms, mongo.NewInsertOneModel().SetDocument(doc()))
			case 1:
				ms = append(ms, mongo.NewUpdateOneModel().SetFilter(doc()).SetUpdate(update()).SetUpsert(r.Intn(2) == 0))
			case 2:
				ms = append(ms, mongo.NewUpdateManyModel().SetFilter(doc()).SetUpdate(update()))
			case 3:
				ms = append(ms, mongo.NewDeleteOneModel().SetFilter(doc()))
			case 4:
				ms = append(ms, mongo.NewDeleteManyModel().SetFilter(doc()))
			case 5:
				ms = append(ms, mongo.NewReplaceOneModel().SetFilter(doc()).SetReplacement(doc()))
			}
		}
		o := options.BulkWrite()
		if r.Intn(2) == 0 {
			o.SetOrdered(r.Intn(2) == 0).SetBypassDocumentValidation(true)
		}
		opts := manyOpts(r, o, options.BulkWrite().SetComment("second"))
		return mongoOp{"bulkwrite", func(ctx context.Context, c mongoColl) (string, error) {
			if c.w != nil {
				return value(c.w.BulkWrite(ctx, ms, opts...))
			}
			return value(c.d.BulkWrite(ctx, ms, opts...))
		}}
	}
}

// manyOpts is none, one or both of the options
func manyOpts[T any](r *rand.Rand, a, b *T) []*T { return []*T{a, b}[:r.Intn(3)] }

func runMongo(c *Case) {
	mongoOnce.Do(mongoSetup)
	mongoTrace.mode.Store(int32(c.pick(2)))
	ops := 20 + c.pick(31)
	history := make([]string, 0, ops)
	for i := 0; i < ops && !c.Failed(); i++ {
		db, coll := []string{"dba", "dbb"}[c.pick(2)], []string{"c1", "c2"}[c.pick(2)]
		argSeed, srvSeed, ctxKind := c.R.Int63(), uint64(c.R.Int63()), c.pick(14)
		type outcome struct{ cmds, val, err, ctx string }
		var got [2]outcome
		var name string
		for k, side := range []*mongoSide{mongoWrapped, mongoDirect} {
			hung := make(chan struct{})
			for d, s := range side.srv {
				s.next(srvSeed, ctxKind == 2 && d == db, hung)
			}
			// both get equal, but not the same, arguments
			op := mongoOps(rand.New(rand.NewSource(argSeed)))
			name = op.name
			ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
			switch ctxKind {
			case 0:
				cancel()
			case 1:
				var c2 context.CancelFunc
				ctx, c2 = context.WithDeadline(ctx, time.Now().Add(-time.Second))
				defer c2()
			case 2: // the server does not answer, and the context ends once it has the command
				go func() {
					select {
					case <-hung:
						cancel()
					case <-ctx.Done():
					}
				}()
			}
			val, err := op.run(ctx, side.coll(db, coll))
			cancel()
			o := outcome{val: plainMongo(val)}
			for _, d := range []string{"dba", "dbb"} {
				if cmds := side.srv[d].commands(); cmds != "" {
					o.cmds += d + ": " + cmds + "\n"
				}
			}
			if err != nil {
				o.err = plainMongo(err.Error())
				switch {
				case errors.Is(err, context.Canceled):
					o.err = "CANCELED"
				case mongo.IsTimeout(err):
					o.err = "TIMEOUT"
				case mongo.IsNetworkError(err):
					o.err = "NETWORK"
				}
				o.err += fmt.Sprintf(" nodoc=%v dup=%v", errors.Is(err, mongo.ErrNoDocuments), mongo.IsDuplicateKeyError(err))
				c.N("errors", 1)
			}
			got[k] = o
		}
		w, d := got[0], got[1]
		c.Check(w.cmds == d.cmds, "effect", "%s on %s.%s sent other commands than the operation itself:\n%s\nand directly:\n%s", name, db, coll, w.cmds, d.cmds)
		c.Check(w.val == d.val && w.err == d.err, "result", "%s on %s.%s returned %s, %q, and directly %s, %q", name, db, coll, w.val, w.err, d.val, d.err)
		c.N("operations", 1)
		c.N("commands", strings.Count(w.cmds, "\n"))
		history = append(history, name+"="+w.val+"/"+w.err)
		if i < 6 {
			c.Sample("%s: %.300s -> %.120s %s", name, w.cmds, w.val, w.err)
		}
	}
	c.Check(mongoTrace.begun.Load() == mongoTrace.end.Load(), "spans", "%d spans were begun and %d ended", mongoTrace.begun.Load(), mongoTrace.end.Load())
	c.Sig(strings.Join(history, "|"))
}
