// Driver for red-black trees and skip lists: C23 to C27, C50.
package main

import "verifh/tr"

func main() {
	tr.Main(func() {
		switch tr.Prop {
		case "C23":
			rbmap()
		case "C24":
			shapes()
		case "C25":
			views()
		case "C50":
			texts()
		case "C26", "C27":
			skiplists(tr.Prop == "C27")
		}
	})
}

// perms calls f with every permutation of 0..n-1.
func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

type batch struct {
	cfg tr.Ev
	n   int
}

func (b *batch) next(max int) {
	if b.n > 0 && tr.Len() >= max {
		tr.End()
		b.n = 0
	}
	if b.n == 0 {
		tr.Begin(b.cfg)
	}
	b.n++
}

func (b *batch) end() {
	if b.n > 0 {
		tr.End()
	}
	b.n = 0
}
