// Package kmodel is the sequential specification of the credential store.
package kmodel

import (
	"crypto/md5"
	"fmt"
	"sort"
	"strings"

	"github.com/donnie4w/gofer/keystore"
)

// Store is the interface of storeAdmin.
type Store interface {
	Load()
	PutAdmin(name, pwd string, t int8)
	DelAdmin(name string)
	GetAdmin(name string) (*keystore.UserBean, bool)
	AdminList() []string
	PutClient(name, pwd string, t int8)
	DelClient(name string)
	GetClient(name string) (*keystore.UserBean, bool)
	ClientList() []string
	PutMq(name, pwd string, t int8)
	DelMq(name string)
	GetMq(name string) (*keystore.UserBean, bool)
	MqList() []string
	PutOther(key, value string)
	DelOther(key string)
	GetOther(key string) (string, bool)
}

// In is the argument of an operation: map, name, password or value, type.
type In struct {
	M    byte // A, C, M, O
	N, V string
	T    int8
}

func (i In) String() string { return fmt.Sprintf("%c %s %s %d", i.M, i.N, i.V, i.T) }

func bean(b *keystore.UserBean, ok bool) string {
	if !ok {
		return "none"
	}
	if b == nil {
		return "nil"
	}
	return fmt.Sprintf("%s,%s,%d", b.Name, b.Pwd, b.Type)
}

func list(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return fmt.Sprintf("%q", l)
}

func value(a In) string {
	if a.M == 'O' {
		return a.V
	}
	return fmt.Sprintf("%s,%X,%d", a.N, md5.Sum([]byte(a.V)), a.T)
}

// Apply runs an operation.
func Apply(s Store, op string, a In) any {
	switch op + string(a.M) {
	case "putA":
		s.PutAdmin(a.N, a.V, a.T)
	case "putC":
		s.PutClient(a.N, a.V, a.T)
	case "putM":
		s.PutMq(a.N, a.V, a.T)
	case "putO":
		s.PutOther(a.N, a.V)
	case "delA":
		s.DelAdmin(a.N)
	case "delC":
		s.DelClient(a.N)
	case "delM":
		s.DelMq(a.N)
	case "delO":
		s.DelOther(a.N)
	case "getA":
		return bean(s.GetAdmin(a.N))
	case "getC":
		return bean(s.GetClient(a.N))
	case "getM":
		return bean(s.GetMq(a.N))
	case "getO":
		v, ok := s.GetOther(a.N)
		if !ok {
			return "none"
		}
		return v
	case "listA":
		return list(s.AdminList())
	case "listC":
		return list(s.ClientList())
	case "listM":
		return list(s.MqList())
	case "listO":
		return ""
	}
	return ""
}

// Step is the specification; its state is the four maps as sorted lines "Mname\tvalue"
func Step(st, op string, x any) (any, string) {
	a := x.(In)
	key := string(a.M) + a.N + "\t"
	var ls, names []string
	found := "none"
	for _, l := range strings.Split(st, "\n") {
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, key) {
			found = l[len(key):]
			if op == "put" || op == "del" {
				continue
			}
		}
		ls = append(ls, l)
		if l[0] == a.M {
			names = append(names, l[1:strings.Index(l, "\t")])
		}
	}
	switch op {
	case "put":
		ls = append(ls, key+value(a))
	case "get":
		return found, st
	case "list":
		if a.M == 'O' {
			return "", st
		}
		return list(names), st
	}
	sort.Strings(ls)
	return "", strings.Join(ls, "\n")
}

// Dump is everything a store holds, for the given names
func Dump(s Store, names []string) string {
	var r []string
	for _, m := range "ACMO" {
		for _, n := range names {
			r = append(r, fmt.Sprint(Apply(s, "get", In{M: byte(m), N: n})))
		}
		r = append(r, fmt.Sprint(Apply(s, "list", In{M: byte(m)})))
	}
	return strings.Join(r, "|")
}
