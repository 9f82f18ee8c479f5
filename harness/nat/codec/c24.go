package main

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	athrift "github.com/apache/thrift/lib/go/thrift"
	"github.com/donnie4w/gofer/keystore"
	"github.com/donnie4w/gofer/thrift"
	"github.com/donnie4w/gofer/util"
	gothrift "github.com/donnie4w/gothrift/thrift"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"verif.local/v/run"
)

type inner struct {
	S string
	N *int64
}

type rec struct {
	B    bool
	I8   int8
	I    int64
	U    uint64
	F    float64
	S    string
	Bs   []byte
	L    []int32
	M    map[string]inner
	In   inner
	P    *inner
	Any  any `json:"-"`
	T    time.Time
	priv int
}

type small struct {
	Name string
	Type int8
}

// trec is a thrift structure with every kind of field.
type trec struct {
	B   bool
	Y   int8
	I16 int16
	I32 int32
	I64 int64
	D   float64
	S   string
	Bs  []byte
	L   []string
	M   map[string]int64
}

func (p *trec) Write(ctx context.Context, o athrift.TProtocol) error {
	f := func(name string, typ athrift.TType, id int16, w func() error) error {
		if err := o.WriteFieldBegin(ctx, name, typ, id); err != nil {
			return err
		}
		if err := w(); err != nil {
			return err
		}
		return o.WriteFieldEnd(ctx)
	}
	if err := o.WriteStructBegin(ctx, "trec"); err != nil {
		return err
	}
	for _, e := range []error{
		f("b", athrift.BOOL, 1, func() error { return o.WriteBool(ctx, p.B) }),
		f("y", athrift.BYTE, 2, func() error { return o.WriteByte(ctx, p.Y) }),
		f("h", athrift.I16, 3, func() error { return o.WriteI16(ctx, p.I16) }),
		f("i", athrift.I32, 4, func() error { return o.WriteI32(ctx, p.I32) }),
		f("l", athrift.I64, 5, func() error { return o.WriteI64(ctx, p.I64) }),
		f("d", athrift.DOUBLE, 6, func() error { return o.WriteDouble(ctx, p.D) }),
		f("s", athrift.STRING, 7, func() error { return o.WriteString(ctx, p.S) }),
		f("bs", athrift.STRING, 8, func() error { return o.WriteBinary(ctx, p.Bs) }),
		f("ls", athrift.LIST, 9, func() error {
			if err := o.WriteListBegin(ctx, athrift.STRING, len(p.L)); err != nil {
				return err
			}
			for _, s := range p.L {
				if err := o.WriteString(ctx, s); err != nil {
					return err
				}
			}
			return o.WriteListEnd(ctx)
		}),
		f("m", athrift.MAP, 100, func() error {
			if err := o.WriteMapBegin(ctx, athrift.STRING, athrift.I64, len(p.M)); err != nil {
				return err
			}
			for k, v := range p.M {
				if err := o.WriteString(ctx, k); err != nil {
					return err
				}
				if err := o.WriteI64(ctx, v); err != nil {
					return err
				}
			}
			return o.WriteMapEnd(ctx)
		}),
	} {
		if e != nil {
			return e
		}
	}
	if err := o.WriteFieldStop(ctx); err != nil {
		return err
	}
	return o.WriteStructEnd(ctx)
}

func (p *trec) Read(ctx context.Context, in athrift.TProtocol) error {
	if _, err := in.ReadStructBegin(ctx); err != nil {
		return err
	}
	for {
		_, typ, id, err := in.ReadFieldBegin(ctx)
		if err != nil {
			return err
		}
		if typ == athrift.STOP {
			return in.ReadStructEnd(ctx)
		}
		want := map[int16]athrift.TType{1: athrift.BOOL, 2: athrift.BYTE, 3: athrift.I16, 4: athrift.I32, 5: athrift.I64, 6: athrift.DOUBLE, 7: athrift.STRING, 8: athrift.STRING, 9: athrift.LIST, 100: athrift.MAP}
		if t, ok := want[id]; !ok || t != typ {
			if err := in.Skip(ctx, typ); err != nil {
				return err
			}
			continue
		}
		switch id {
		case 1:
			p.B, err = in.ReadBool(ctx)
		case 2:
			p.Y, err = in.ReadByte(ctx)
		case 3:
			p.I16, err = in.ReadI16(ctx)
		case 4:
			p.I32, err = in.ReadI32(ctx)
		case 5:
			p.I64, err = in.ReadI64(ctx)
		case 6:
			p.D, err = in.ReadDouble(ctx)
		case 7:
			p.S, err = in.ReadString(ctx)
		case 8:
			p.Bs, err = in.ReadBinary(ctx)
		case 9:
			var n int
			if _, n, err = in.ReadListBegin(ctx); err == nil {
				for i := 0; i < n && err == nil; i++ {
					var s string
					s, err = in.ReadString(ctx)
					p.L = append(p.L, s)
				}
			}
		case 100:
			var n int
			if _, _, n, err = in.ReadMapBegin(ctx); err == nil {
				p.M = map[string]int64{}
				for i := 0; i < n && err == nil; i++ {
					var s string
					var v int64
					if s, err = in.ReadString(ctx); err == nil {
						v, err = in.ReadI64(ctx)
					}
					p.M[s] = v
				}
			}
		}
		if err != nil {
			return err
		}
	}
}

// serializer: enc of the i-th value, dec into a fresh one compared with the i-th
type serializer struct {
	name string
	n    int
	enc  func(i int) ([]byte, error)
	dec  func(i int, b []byte) (equal bool, what any, err error)
	ref  func(b []byte) error // what the format's own decoder says
}

func same(a, b any) bool {
	return reflect.DeepEqual(a, b) || fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}

// jsonOf, gobOf: the values of one type
func jsonOf[T any](name string, vs ...T) serializer {
	return serializer{"json/" + name, len(vs), func(i int) ([]byte, error) { return util.JsonEncode(vs[i]), nil }, func(i int, b []byte) (bool, any, error) {
		v, err := util.JsonDecode[T](b)
		return err == nil && same(v, vs[i]), v, err
	}, func(b []byte) error { return json.Unmarshal(b, new(T)) }}
}

func gobOf[T any](name string, vs ...T) serializer {
	return serializer{"gob/" + name, len(vs), func(i int) ([]byte, error) { return util.Encode(vs[i]) }, func(i int, b []byte) (bool, any, error) {
		v, err := util.Decode[T](b)
		if err != nil {
			return false, nil, err
		}
		return same(*v, vs[i]), *v, err
	}, func(b []byte) error { return gob.NewDecoder(bytes.NewReader(b)).Decode(new(T)) }}
}

func protoOf[T proto.Message](name string, mk func() T, vs ...T) serializer {
	return serializer{"proto/" + name, len(vs), func(i int) ([]byte, error) { return util.Marshal(vs[i]), nil }, func(i int, b []byte) (bool, any, error) {
		v := mk()
		err := util.Unmarshal(b, v)
		return err == nil && proto.Equal(v, vs[i]), v, err
	}, func(b []byte) error { return proto.Unmarshal(b, mk()) }}
}

func beanOf(name string, vs ...*keystore.UserBean) serializer {
	return serializer{"thrift/util/" + name, len(vs), func(i int) ([]byte, error) { return util.TEncode(vs[i]), nil }, func(i int, b []byte) (bool, any, error) {
		v, err := util.TDecode(b, &keystore.UserBean{})
		return err == nil && v.Equals(vs[i]) && same(*v, *vs[i]), v, err
	}, func(b []byte) error {
		return (&keystore.UserBean{}).Read(context.Background(), gothrift.NewTCompactProtocolConf(&gothrift.TMemoryBuffer{Buffer: bytes.NewBuffer(b)}, &gothrift.TConfiguration{}))
	}}
}

func keysOf(name string, vs ...*keystore.KeyBean) serializer {
	return serializer{"thrift/util/" + name, len(vs), func(i int) ([]byte, error) { return util.TEncode(vs[i]), nil }, func(i int, b []byte) (bool, any, error) {
		v, err := util.TDecode(b, &keystore.KeyBean{})
		return err == nil && v.Equals(vs[i]) && keysEq(v, vs[i]), v, err
	}, func(b []byte) error {
		return (&keystore.KeyBean{}).Read(context.Background(), gothrift.NewTCompactProtocolConf(&gothrift.TMemoryBuffer{Buffer: bytes.NewBuffer(b)}, &gothrift.TConfiguration{}))
	}}
}

func trecOf(name string, vs ...*trec) serializer {
	return serializer{"thrift/thrift/" + name, len(vs), func(i int) ([]byte, error) { return thrift.TEncode(vs[i]), nil }, func(i int, b []byte) (bool, any, error) {
		v, err := thrift.TDecode(b, &trec{})
		return err == nil && fmt.Sprintf("%#v", normal(*v)) == fmt.Sprintf("%#v", normal(*vs[i])), v, err
	}, func(b []byte) error {
		return (&trec{}).Read(context.Background(), athrift.NewTCompactProtocolConf(&athrift.TMemoryBuffer{Buffer: bytes.NewBuffer(b)}, &athrift.TConfiguration{}))
	}}
}

func normal(v trec) trec {
	if len(v.Bs) == 0 {
		v.Bs = nil
	}
	if len(v.L) == 0 {
		v.L = nil
	}
	if len(v.M) == 0 {
		v.M = nil
	}
	return v
}

var texts = []string{"", "a", "\x00", "é世界", "<&>\"'\\\n\u2028", strings.Repeat("long ", 30), strings.Repeat("x", 5000)}
var ints = []int64{0, 1, -1, 63, 64, 127, 128, -128, 255, 256, 1 << 31, math.MaxInt64, math.MinInt64, 0x0123456789abcdef}
var floats = []float64{0, 1, -1, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, -1e-7}

func serializers() (r []serializer) {
	var recs []rec
	var trecs []*trec
	var smalls []small
	var users []*keystore.UserBean
	keys := []*keystore.KeyBean{{Admin: map[string]*keystore.UserBean{}, Client: map[string]*keystore.UserBean{}, Mq: map[string]*keystore.UserBean{}, Other: map[string]string{}}}
	for i, s := range texts {
		for j, n := range ints {
			v := n
			f := floats[(i+j)%len(floats)]
			x := rec{B: j%2 == 0, I8: int8(n), I: n, U: uint64(n), F: f, S: s, In: inner{S: s}, T: time.Unix(n%1e9, 5).UTC()}
			y := &trec{B: j%2 == 1, Y: int8(n), I16: int16(n), I32: int32(n), I64: n, D: f, S: s}
			if j%3 > 0 {
				x.Bs, x.L, x.M = []byte(s+"b"), []int32{int32(n), 0, -1}, map[string]inner{s: {s, &v}, "k": {}}
				x.P = &inner{"p", &v}
				y.Bs, y.L, y.M = []byte(s), []string{s, "", "z"}, map[string]int64{s: n, "two": 2}
			}
			recs = append(recs, x)
			trecs = append(trecs, y)
			smalls = append(smalls, small{s, int8(n)})
			users = append(users, &keystore.UserBean{Name: s, Pwd: texts[(i+1)%len(texts)], Type: int8(n)})
		}
	}
	trecs = append(trecs, &trec{D: math.Inf(1)}, &trec{D: math.Inf(-1)}, &trec{D: math.Copysign(0, -1)})
	for i, s := range texts {
		m := map[string]*keystore.UserBean{}
		o := map[string]string{}
		for j := 0; j < i; j++ {
			m[texts[j]] = users[i+j]
			o[texts[j]] = s
		}
		for p := 0; p < 16; p++ {
			k := &keystore.KeyBean{}
			e := map[string]*keystore.UserBean{}
			k.Admin, k.Client, k.Mq, k.Other = e, e, e, map[string]string{}
			if p&1 != 0 {
				k.Admin = m
			}
			if p&2 != 0 {
				k.Client = m
			}
			if p&4 != 0 {
				k.Mq = m
			}
			if p&8 != 0 {
				k.Other = o
			}
			keys = append(keys, k)
		}
	}
	anyOf := func(m proto.Message) *anypb.Any { a, _ := anypb.New(m); return a }
	st := func(m map[string]any) *structpb.Struct { s, _ := structpb.NewStruct(m); return s }
	var wi []*wrapperspb.Int64Value
	var wu []*wrapperspb.UInt64Value
	var ts []*timestamppb.Timestamp
	for _, n := range ints {
		wi = append(wi, wrapperspb.Int64(n))
		wu = append(wu, wrapperspb.UInt64(uint64(n)))
		ts = append(ts, &timestamppb.Timestamp{Seconds: n, Nanos: int32(n)})
	}
	var ws []*wrapperspb.StringValue
	var wb []*wrapperspb.BytesValue
	var ss []*structpb.Struct
	var as []*anypb.Any
	var fm []*fieldmaskpb.FieldMask
	for i, s := range texts {
		ws = append(ws, wrapperspb.String(s))
		wb = append(wb, wrapperspb.Bytes([]byte(s+"\xff\xfe")))
		ss = append(ss, st(map[string]any{s: float64(i), "l": []any{s, true, nil, 1.5}, "m": map[string]any{"x": s}}))
		as = append(as, anyOf(ws[i]), anyOf(ss[i]))
		fm = append(fm, &fieldmaskpb.FieldMask{Paths: texts[:i]})
	}
	ss = append(ss, &structpb.Struct{})
	return []serializer{
		jsonOf("rec", recs...), jsonOf("small", smalls...), jsonOf("string", texts...), jsonOf("int64", ints...), jsonOf("float", floats...),
		jsonOf("map", map[string]int64{}, map[string]int64{"": 1, "a": -1}), jsonOf("slice", []string{}, texts), jsonOf("pointer", &small{"a", 1}, nil), jsonOf[any]("any", nil, "s", 1.5, true, []any{1.0, nil}, map[string]any{"k": "v"}),
		gobOf("rec", recs...), gobOf("small", smalls...), gobOf("string", texts...), gobOf("int64", ints...), gobOf("float", append(floats, math.Inf(1))...),
		gobOf("map", map[string]int64{"": 1, "a": -1}, map[string]int64{}), gobOf("slice", texts, []string{"a"}), gobOf("bytes", []byte("abc"), patterns(300)[2]),
		beanOf("UserBean", users...), keysOf("KeyBean", keys...), trecOf("trec", trecs...),
		protoOf("Int64Value", func() *wrapperspb.Int64Value { return &wrapperspb.Int64Value{} }, wi...),
		protoOf("UInt64Value", func() *wrapperspb.UInt64Value { return &wrapperspb.UInt64Value{} }, wu...),
		protoOf("StringValue", func() *wrapperspb.StringValue { return &wrapperspb.StringValue{} }, ws...),
		protoOf("BytesValue", func() *wrapperspb.BytesValue { return &wrapperspb.BytesValue{} }, wb...),
		protoOf("Timestamp", func() *timestamppb.Timestamp { return &timestamppb.Timestamp{} }, ts...),
		protoOf("Duration", func() *durationpb.Duration { return &durationpb.Duration{} }, durationpb.New(0), durationpb.New(-1), durationpb.New(math.MaxInt64)),
		protoOf("Struct", func() *structpb.Struct { return &structpb.Struct{} }, ss...),
		protoOf("Any", func() *anypb.Any { return &anypb.Any{} }, as...),
		protoOf("FieldMask", func() *fieldmaskpb.FieldMask { return &fieldmaskpb.FieldMask{} }, fm...),
		protoOf("Empty", func() *emptypb.Empty { return &emptypb.Empty{} }, &emptypb.Empty{}),
	}
}

func c24(thorough bool) (r []run.Scenario) {
	for _, s := range serializers() {
		add := func(n string, f func(t *run.T)) {
			r = append(r, run.Scenario{Name: "nat/" + n + "/" + s.name, Nat: f})
		}
		encode := func(t *run.T, k *keeper, i int) (b []byte) {
			t.NoPanic(fmt.Sprintf("encoding value %d of %s", i, s.name), func() {
				var err error
				if b, err = s.enc(i); err != nil {
					t.Fail("encoding value %d of %s: %v", i, s.name, err)
				}
			})
			k.keep(t, s.name, b)
			return
		}
		decode := func(t *run.T, i int, b []byte) {
			t.NoPanic(fmt.Sprintf("decoding %s as %s", brief(b), s.name), func() {
				in := append([]byte{}, b...)
				if ok, v, err := s.dec(i, b); !ok {
					t.Fail("%s: value %d was encoded as %s and decoded as %v, %v", s.name, i, brief(b), v, err)
				}
				if !bytes.Equal(in, b) {
					t.Fail("%s: decoding changed its input", s.name)
				}
			})
			t.Case(1)
		}
		broken := func(t *run.T, b []byte) {
			t.NoPanic(fmt.Sprintf("decoding %s as %s", brief(b), s.name), func() {
				_, v, err := s.dec(0, b)
				if want := s.ref(b); (want == nil) != (err == nil) {
					t.Fail("%s: %s was decoded as %v, %v, the format's decoder says %v", s.name, brief(b), v, err, want)
				}
			})
			t.Case(1)
		}
		add("round", func(t *run.T) {
			k := &keeper{}
			// every value, and every value between two others
			for i := 0; i < s.n; i++ {
				b := encode(t, k, i)
				decode(t, i, b)
				for j := 0; j < s.n && s.n <= 20; j++ {
					c := encode(t, k, j)
					decode(t, i, b)
					decode(t, j, c)
				}
			}
			k.check(t)
			t.Sample("%d values of %s", s.n, s.name)
		})
		add("broken", func(t *run.T) {
			for i := 0; i < s.n; i++ {
				b := append([]byte{}, encode(t, &keeper{}, i)...)
				limit := pick(thorough, 160, 1200)
				for n := 0; n <= len(b); n++ {
					if n > limit && n < len(b)-20 {
						continue
					}
					if n&7 == 0 && !t.More() {
						return
					}
					broken(t, b[:n:n])
					if n == len(b) {
						break
					}
					old := b[n]
					for v := 0; v < 256; v++ {
						x := byte(v) ^ old
						if (n >= 40 || i > 20) && !thorough && x&(x-1) != 0 && v != 0 && v != 255 {
							continue
						}
						b[n] = byte(v)
						broken(t, b)
					}
					b[n] = old
				}
				broken(t, append(append([]byte{}, b...), b...))
			}
			for i := 0; i < 65536; i++ {
				broken(t, []byte{byte(i >> 8), byte(i)})
			}
			words("\x00\x01\x0c\x1b\x7f\x80\xff", pick(thorough, 4, 6), func(b []byte) { broken(t, b) })
			broken(t, nil)
			t.Sample("every truncation and changed byte of %d values of %s", s.n, s.name)
		})
	}
	// long strings, many elements and deep nesting
	sizes := []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<22 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 1, 33 << 20}
	if thorough {
		sizes = append(sizes, 65<<20)
	}
	for _, z := range sizes {
		r = append(r, run.Scenario{Name: fmt.Sprintf("nat/large/%d", z), Nat: func(t *run.T) {
			b := make([]byte, z)
			for i := range b {
				b[i] = byte('a' + i*7%26 + i>>16%3)
			}
			s := string(b)
			n := min(z, 1<<20+1) / 8
			l, l32, m, m64 := make([]string, n), make([]int32, n), map[string]inner{}, map[string]int64{}
			paths := make([]string, n)
			for i := range l {
				l[i] = s[i%7 : i%11+i%7]
				paths[i] = s[i%7 : i%11+i%7+1]
				l32[i] = int32(i * 1234567)
				if i < 70000 {
					k := fmt.Sprint(i)
					m[k], m64[k] = inner{S: k}, int64(i)
				}
			}
			ss, _ := structpb.NewStruct(map[string]any{"s": s})
			for _, x := range []serializer{
				jsonOf("string", s), jsonOf("slice", l), jsonOf("map", m64), jsonOf("rec", rec{S: s, L: l32, M: m}), jsonOf("bytes", b),
				gobOf("string", s), gobOf("slice", l), gobOf("map", m64), gobOf("bytes", b), gobOf("rec", rec{S: s, Bs: b, L: l32, M: m}),
				beanOf("UserBean", &keystore.UserBean{Name: s, Pwd: s[:z/2]}, &keystore.UserBean{Pwd: s}),
				keysOf("KeyBean", &keystore.KeyBean{Admin: map[string]*keystore.UserBean{s[:z/2]: {Name: s}}, Client: map[string]*keystore.UserBean{}, Mq: map[string]*keystore.UserBean{}, Other: map[string]string{s: "x", "x": s}}),
				trecOf("trec", &trec{S: s, Bs: b, L: l, M: m64}, &trec{Bs: b}),
				protoOf("StringValue", func() *wrapperspb.StringValue { return &wrapperspb.StringValue{} }, wrapperspb.String(s)),
				protoOf("BytesValue", func() *wrapperspb.BytesValue { return &wrapperspb.BytesValue{} }, wrapperspb.Bytes(b)),
				protoOf("Struct", func() *structpb.Struct { return &structpb.Struct{} }, ss),
				protoOf("FieldMask", func() *fieldmaskpb.FieldMask { return &fieldmaskpb.FieldMask{} }, &fieldmaskpb.FieldMask{Paths: paths}),
			} {
				for i := 0; i < x.n && t.More(); i++ {
					t.NoPanic(fmt.Sprintf("%s with values of %d bytes", x.name, z), func() {
						e, err := x.enc(i)
						if err != nil {
							t.Fail("%s with a value of %d bytes: %v", x.name, z, err)
						}
						if ok, _, err := x.dec(i, e); !ok {
							t.Fail("%s with a value of %d bytes (%d encoded): decoded as something else, %v", x.name, z, len(e), err)
						}
						for _, cut := range []int{1, len(e) / 2, len(e) - 1} {
							_, _, err := x.dec(i, e[:len(e)-cut])
							if want := x.ref(e[:len(e)-cut]); (want == nil) != (err == nil) {
								t.Fail("%s with a value of %d bytes: %d of %d bytes decode with %v, the format's decoder says %v", x.name, z, len(e)-cut, len(e), err, want)
							}
						}
					})
					t.Case(4)
				}
			}
		}})
	}
	r = append(r, run.Scenario{Name: "nat/deep", Nat: func(t *run.T) {
		for _, d := range []int{1, 10, 99, 100, 101, 999, 1000, 1001, 5000, 9998, 9999, 10000, 10001, 20000} {
			for _, w := range [][2]string{{"[", "]"}, {"{\"a\":", "}"}} {
				b := []byte(strings.Repeat(w[0], d) + "1" + strings.Repeat(w[1], d))
				var ref any
				want := json.Unmarshal(b, &ref)
				t.NoPanic(fmt.Sprintf("%d levels of %s", d, w[0]), func() {
					v, err := util.JsonDecode[any](b)
					if (want == nil) != (err == nil) || (err == nil && !reflect.DeepEqual(v, ref)) {
						t.Fail("JsonDecode of %d levels of %s: %v, the format's decoder says %v, or another value", d, w[0], err, want)
					}
					if err == nil && !bytes.Equal(util.JsonEncode(v), b) {
						t.Fail("JsonEncode of %d levels of %s: other bytes", d, w[0])
					}
				})
				t.Case(2)
			}
			if d > 9999 {
				continue
			}
			v := structpb.NewNumberValue(1)
			for i := 0; i < d; i++ {
				v = structpb.NewListValue(&structpb.ListValue{Values: []*structpb.Value{v}})
			}
			t.NoPanic(fmt.Sprintf("%d levels of lists", d), func() {
				b := util.Marshal(v)
				var got, ref structpb.Value
				err, want := util.Unmarshal(b, &got), proto.Unmarshal(b, &ref)
				if (want == nil) != (err == nil) || (err == nil && !proto.Equal(&got, v)) {
					t.Fail("protobuf with %d levels: %v, the format's decoder says %v, or another value", d, err, want)
				}
			})
			t.Case(1)
		}
	}})
	r = append(r, run.Scenario{Name: "nat/equals", Nat: equals})
	r = append(r, run.Scenario{Name: "nat/unencodable/gob", Nat: func(t *run.T) {
		for i, v := range []any{func() {}, make(chan int), struct{ x int }{1}, struct{ A any }{func() {}}, map[string]any{"a": small{"not registered", 1}}, []any{struct{ B int }{1}}, map[int]func(){}, failing{}} {
			t.NoPanic(fmt.Sprintf("encoding %T", v), func() {
				if b, err := util.Encode(v); err == nil {
					t.Fail("Encode of unencodable value %d (%T) returned %q and no error", i, v, b)
				}
			})
			t.Case(1)
			// and the next encoding is not affected
			b, err := util.Encode(small{"a", 1})
			w, err2 := util.Decode[small](b)
			if err != nil || err2 != nil || *w != (small{"a", 1}) {
				t.Fail("after a failed encoding of %T: %v, %v, %v", v, w, err, err2)
			}
		}
		t.Sample("functions, channels, unregistered types, a failing encoder")
	}})
	return
}

type failing struct{}

func (failing) GobEncode() ([]byte, error) { return nil, errors.New("refused") }
