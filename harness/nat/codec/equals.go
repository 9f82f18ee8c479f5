package main

import (
	"fmt"
	"maps"

	"github.com/donnie4w/gofer/keystore"
	"verif.local/v/run"
)

func userEq(a, b *keystore.UserBean) bool { return a == b || a != nil && b != nil && *a == *b }

func keysEq(a, b *keystore.KeyBean) bool {
	return a == b || a != nil && b != nil && maps.EqualFunc(a.Admin, b.Admin, userEq) && maps.EqualFunc(a.Client, b.Client, userEq) &&
		maps.EqualFunc(a.Mq, b.Mq, userEq) && maps.Equal(a.Other, b.Other)
}

// equals compares Equals of the key store beans with a plain comparison, for all pairs.
func equals(t *run.T) {
	users := []*keystore.UserBean{nil}
	for _, n := range []string{"", "a", "b", "A", "é"} {
		for _, p := range []string{"", "a", "b"} {
			for _, ty := range []int8{0, 1, -1, 127, -128} {
				users = append(users, &keystore.UserBean{Name: n, Pwd: p, Type: ty}, &keystore.UserBean{Name: n, Pwd: p, Type: ty})
			}
		}
	}
	for i, a := range users {
		for j, b := range users {
			if a.Equals(b) != userEq(a, b) {
				t.Fail("UserBeans %d and %d: %v.Equals(%v) is %v", i, j, a, b, a.Equals(b))
			}
		}
		t.Case(len(users))
		if a == nil {
			continue
		}
		if a.GetName() != a.Name || a.GetPwd() != a.Pwd || a.GetType() != a.Type || a.Validate() != nil {
			t.Fail("the accessors of %v return %q, %q, %d", a, a.GetName(), a.GetPwd(), a.GetType())
		}
	}
	type um = map[string]*keystore.UserBean
	u0 := func() *keystore.UserBean { return &keystore.UserBean{} }
	u1 := func() *keystore.UserBean { return &keystore.UserBean{Name: "n", Pwd: "p", Type: 1} }
	maps1 := func() []um {
		return []um{nil, {}, {"": u0()}, {"a": u0()}, {"b": u0()}, {"a": u1()}, {"b": u1()}, {"a": u0(), "b": u0()}, {"a": u0(), "b": u1()},
			{"a": u1(), "b": u0()}, {"a": u0(), "c": u0()}, {"a": nil}, {"b": nil}, {"a": nil, "b": u0()}, {"a": {Name: "n", Pwd: "p", Type: 2}}, {"a": {Name: "n", Pwd: "q", Type: 1}}}
	}
	others := func() []map[string]string {
		return []map[string]string{nil, {}, {"": ""}, {"a": ""}, {"b": ""}, {"a": "x"}, {"b": "x"}, {"a": "y"}, {"a": "", "b": ""}, {"a": "", "c": ""}, {"a": "x", "b": ""}, {"a": "", "b": "x"}}
	}
	// every field over all its values with the others the same, and all fields over a few
	var all []*keystore.KeyBean
	for f := 0; f < 3; f++ {
		for twice := 0; twice < 2; twice++ {
			for _, m := range maps1() {
				k := &keystore.KeyBean{}
				*[]*um{&k.Admin, &k.Client, &k.Mq}[f] = m
				all = append(all, k)
			}
		}
	}
	for twice := 0; twice < 2; twice++ {
		for _, o := range others() {
			all = append(all, &keystore.KeyBean{Other: o})
		}
	}
	m, o := maps1(), others()
	for i := 0; i < 256; i++ {
		pick := []int{0, 3, 4, 5}
		all = append(all, &keystore.KeyBean{Admin: m[pick[i&3]], Client: m[pick[i>>2&3]], Mq: m[pick[i>>4&3]], Other: o[pick[i>>6&3]]})
	}
	all = append(all, nil)
	for i, a := range all {
		for j, b := range all {
			if a.Equals(b) != keysEq(a, b) {
				t.Fail("KeyBeans %d and %d: %s.Equals(%s) is %v", i, j, show(a), show(b), a.Equals(b))
			}
		}
		t.Case(len(all))
		if a == nil {
			continue
		}
		if !maps.Equal(a.GetAdmin(), a.Admin) || !maps.Equal(a.GetClient(), a.Client) || !maps.Equal(a.GetMq(), a.Mq) || !maps.Equal(a.GetOther(), a.Other) || a.Validate() != nil {
			t.Fail("the accessors of %s return other values", show(a))
		}
		if a.IsSetAdmin() != (a.Admin != nil) || a.IsSetClient() != (a.Client != nil) || a.IsSetMq() != (a.Mq != nil) || a.IsSetOther() != (a.Other != nil) {
			t.Fail("IsSet of %s: %v, %v, %v, %v", show(a), a.IsSetAdmin(), a.IsSetClient(), a.IsSetMq(), a.IsSetOther())
		}
	}
	t.Sample("%d UserBeans and %d KeyBeans, all pairs", len(users), len(all))
}

func show(k *keystore.KeyBean) string {
	if k == nil {
		return "nil"
	}
	f := func(m map[string]*keystore.UserBean) string {
		s := "{"
		for n, u := range m {
			s += fmt.Sprintf("%q:%v ", n, u)
		}
		return s + "}"
	}
	return fmt.Sprintf("{Admin %s Client %s Mq %s Other %q}", f(k.Admin), f(k.Client), f(k.Mq), k.Other)
}
