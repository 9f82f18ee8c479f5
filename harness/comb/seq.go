package comb

import "verif.local/v/run"

// Sequences calls f with every sequence of length n over k operations whose first two are taken from the shard's
// share; f gets the indices. It stops when f returns false.
func Sequences(t *run.T, n, k int, f func(seq []int)) {
	seq := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(seq)
			t.Case(n)
			return
		}
		for o := 0; o < k; o++ {
			if i < 2 && !t.More() {
				return
			}
			seq[i] = o
			rec(i + 1)
		}
	}
	rec(0)
}

// Perms calls f with every permutation of 0..n-1.
func Perms(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}
