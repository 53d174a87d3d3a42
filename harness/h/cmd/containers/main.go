// Driver for the sequential containers and helpers: C28 to C31 and C33 to C35.
package main

import (
	"verifh/tr"
)

func main() {
	tr.Main(func() {
		switch tr.Prop {
		case "C28":
			heaps()
		case "C29":
			lists()
		case "C30":
			rings()
		case "C31":
			queues()
		case "C33":
			setmaps()
		case "C34":
			slices()
		case "C35":
			numerics()
		}
	})
}

// seqs calls f with every sequence of length n over 0..k-1 that belongs to this shard.
func seqs(n, k int, f func([]int)) {
	s := make([]int, n)
	for i := 0; ; i++ {
		if tr.Mine(i) {
			f(append([]int{}, s...))
		}
		j := n - 1
		for ; j >= 0; j-- {
			s[j]++
			if s[j] < k {
				break
			}
			s[j] = 0
		}
		if j < 0 {
			return
		}
	}
}

// batch groups small cases into traces: every case must start with a resetting event.
type batch struct {
	cfg tr.Ev
	n   int
}

func (b *batch) next(max int) {
	if b.n > 0 && tr.Len() >= max {
		tr.End()
		b.n = 0
	}
	if b.n == 0 {
		tr.Begin(b.cfg)
	}
	b.n++
}

func (b *batch) end() {
	if b.n > 0 {
		tr.End()
	}
	b.n = 0
}
