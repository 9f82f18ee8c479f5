// Controlled exploration of the serializers (C24): every encoding and decoding is interrupted by the callbacks of
// its values.
package main

import (
	"context"
	"fmt"
	"strconv"
	"strings"

	athrift "github.com/apache/thrift/lib/go/thrift"
	"github.com/donnie4w/gofer/thrift"
	"github.com/donnie4w/gofer/util"
	gthrift "github.com/donnie4w/gothrift/thrift"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"verif.local/v/mc"
	"verif.local/v/run"
)

func main() { run.Main(map[string]run.Maker{"C24": c24}) }

var cur *mc.Exec

// txt yields whenever it is encoded or decoded.
type txt struct{ S string }

func (v txt) MarshalJSON() ([]byte, error) {
	cur.Yield()
	return []byte(strconv.Quote(v.S)), nil
}

func (v *txt) UnmarshalJSON(b []byte) (err error) {
	cur.Yield()
	v.S, err = strconv.Unquote(string(b))
	return
}

func (v txt) GobEncode() ([]byte, error) {
	cur.Yield()
	return []byte(v.S), nil
}

func (v *txt) GobDecode(b []byte) error {
	cur.Yield()
	if strings.HasPrefix(string(b), "bad") {
		return fmt.Errorf("bad")
	}
	v.S = string(b)
	return nil
}

type rec struct {
	A    txt
	N    int64
	B, C txt
	L    []txt
}

func (p *rec) String() string {
	return p.A.S + "/" + strconv.FormatInt(p.N, 10) + "/" + p.B.S + "/" + p.C.S
}

func mk(s string, n int64) *rec {
	return &rec{txt{s}, n, txt{s + s}, txt{strings.Repeat(s, 40)}, []txt{{s}, {"l" + s}}}
}

func eq(a, b *rec) bool {
	return a.A == b.A && a.N == b.N && a.B == b.B && a.C == b.C && fmt.Sprint(a.L) == fmt.Sprint(b.L)
}

// arec and grec are thrift structures for the two thrift packages.
type arec struct{ F []string }
type grec struct{ F []string }

func (p *arec) Write(ctx context.Context, o athrift.TProtocol) error {
	o.WriteStructBegin(ctx, "arec")
	for i, s := range p.F {
		o.WriteFieldBegin(ctx, "f", athrift.STRING, int16(i+1))
		cur.Yield()
		o.WriteString(ctx, s)
		o.WriteFieldEnd(ctx)
	}
	o.WriteFieldStop(ctx)
	return o.WriteStructEnd(ctx)
}

func (p *arec) Read(ctx context.Context, o athrift.TProtocol) error {
	if _, err := o.ReadStructBegin(ctx); err != nil {
		return err
	}
	for {
		_, t, _, err := o.ReadFieldBegin(ctx)
		if err != nil {
			return err
		}
		if t == athrift.STOP {
			return nil
		}
		cur.Yield()
		s, err := o.ReadString(ctx)
		if err != nil {
			return err
		}
		p.F = append(p.F, s)
	}
}

func (p *grec) Write(ctx context.Context, o gthrift.TProtocol) error {
	o.WriteStructBegin(ctx, "grec")
	for i, s := range p.F {
		o.WriteFieldBegin(ctx, "f", gthrift.STRING, int16(i+1))
		cur.Yield()
		o.WriteString(ctx, s)
		o.WriteFieldEnd(ctx)
	}
	o.WriteFieldStop(ctx)
	return o.WriteStructEnd(ctx)
}

func (p *grec) Read(ctx context.Context, o gthrift.TProtocol) error {
	if _, err := o.ReadStructBegin(ctx); err != nil {
		return err
	}
	for {
		_, t, _, err := o.ReadFieldBegin(ctx)
		if err != nil {
			return err
		}
		if t == gthrift.STOP {
			return nil
		}
		cur.Yield()
		s, err := o.ReadString(ctx)
		if err != nil {
			return err
		}
		p.F = append(p.F, s)
	}
}

// pmsg yields when protobuf looks at the message.
type pmsg struct{ proto.Message }

func (p pmsg) ProtoReflect() protoreflect.Message {
	cur.Yield()
	return p.Message.ProtoReflect()
}

// one encoding and decoding of a value made from s
var kinds = map[string]func(e *mc.Exec, s string, n int64){
	"json": func(e *mc.Exec, s string, n int64) {
		v := mk(s, n)
		b := util.JsonEncode(v)
		c := string(b)
		e.Yield()
		if string(b) != c {
			e.Fail("the JSON %q became %q", c, b)
		}
		w, err := util.JsonDecode[rec](b)
		if err != nil || !eq(&w, v) {
			e.Fail("%v became %v, %v through %q", v, &w, err, b)
		}
	},
	"gob": func(e *mc.Exec, s string, n int64) {
		v := mk(s, n)
		b, err := util.Encode(v)
		if err != nil {
			e.Fail("Encode: %v", err)
		}
		c := string(b)
		e.Yield()
		if string(b) != c {
			e.Fail("the gob %q became %q", c, b)
		}
		w, err := util.Decode[rec](b)
		if err != nil || !eq(w, v) {
			e.Fail("%v became %v, %v through %q", v, w, err, b)
		}
	},
	"gobfail": func(e *mc.Exec, s string, n int64) {
		b, err := util.Encode(mk("bad"+s, n))
		if err != nil {
			e.Fail("Encode: %v", err)
		}
		if _, err := util.Decode[rec](b); err == nil {
			e.Fail("Decode returned no error")
		}
		if _, err := util.JsonDecode[rec]([]byte(`{"A":"` + s + `","B":1}`)); err == nil {
			e.Fail("JsonDecode returned no error")
		}
	},
	"thrift": func(e *mc.Exec, s string, n int64) {
		v := &arec{[]string{s, strings.Repeat(s, 50), ""}}
		b := thrift.TEncode(v)
		c := string(b)
		e.Yield()
		if string(b) != c {
			e.Fail("the bytes %q became %q", c, b)
		}
		w, err := thrift.TDecode(b, &arec{})
		if err != nil || fmt.Sprint(w.F) != fmt.Sprint(v.F) {
			e.Fail("%v became %v, %v", v.F, w.F, err)
		}
	},
	"util.thrift": func(e *mc.Exec, s string, n int64) {
		v := &grec{[]string{s, strings.Repeat(s, 50), ""}}
		b := util.TEncode(v)
		c := string(b)
		e.Yield()
		if string(b) != c {
			e.Fail("the bytes %q became %q", c, b)
		}
		w, err := util.TDecode(b, &grec{})
		if err != nil || fmt.Sprint(w.F) != fmt.Sprint(v.F) {
			e.Fail("%v became %v, %v", v.F, w.F, err)
		}
	},
	"proto": func(e *mc.Exec, s string, n int64) {
		l, _ := structpb.NewList([]any{s, float64(n), s + s})
		for _, v := range []proto.Message{wrapperspb.String(s), l} {
			b := util.Marshal(pmsg{v})
			c := string(b)
			e.Yield()
			if string(b) != c {
				e.Fail("the bytes %q became %q", c, b)
			}
			w := v.ProtoReflect().New().Interface()
			if err := util.Unmarshal(b, pmsg{w}); err != nil || !proto.Equal(v, w) {
				e.Fail("%v became %v, %v", v, w, err)
			}
		}
	},
}

func c24(thorough bool) (r []run.Scenario) {
	names := []string{"json", "gob", "gobfail", "thrift", "util.thrift", "proto"}
	add := func(threads [][]string) {
		r = append(r, run.Scenario{Name: fmt.Sprint("ctl/", threads), Max: 4, Body: func(e *mc.Exec) {
			cur = e
			for i, t := range threads {
				e.Go(fmt.Sprintf("T%d", i+1), func() {
					for j, k := range t {
						kinds[k](e, string(rune('a'+i))+strconv.Itoa(j), int64(1000*i+j))
					}
				})
			}
			e.Join()
		}})
	}
	for i, a := range names {
		for _, b := range names[i:] {
			add([][]string{{a}, {b}})
		}
		add([][]string{{a}, {a}, {a}})
		add([][]string{{a, a}, {a, a}})
	}
	for i, a := range names {
		for j, b := range names {
			if i != j {
				add([][]string{{a, b}, {b, a}})
			}
		}
	}
	return
}
