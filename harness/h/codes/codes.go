// Package codes writes numbers as values of several types.
package codes

import "strconv"

// Of writes numbers as values of a type: 0 as the zero value of the type, whatever it is.
type Of[T any] struct {
	Enc func(int) T
	Dec func(T) int
	One bool // the type has One value only, all numbers are written alike
}

// Norm is the number that is read back.
func (c Of[T]) Norm(i int) int {
	if c.One {
		return 0
	}
	return i
}

// DecAny reads what may be a T; -1 if it is not.
func (c Of[T]) DecAny(x any) int {
	v, ok := x.(T)
	if !ok && x != nil {
		return -1
	}
	return c.Dec(v)
}

type Wide struct {
	pad [5]string
	n   int
	f   func()
}

type numErr int

func (e numErr) Error() string { return "same" }

func text(i int) string {
	if i == 0 {
		return ""
	}
	return strconv.Itoa(i)
}

func num(s string) int { n, _ := strconv.Atoi(s); return n }

var (
	Int  = Of[int]{Enc: func(i int) int { return i }, Dec: func(i int) int { return i }}
	Text = Of[string]{Enc: text, Dec: num}
	Unit = Of[struct{}]{Enc: func(int) struct{} { return struct{}{} }, Dec: func(struct{}) int { return 0 }, One: true}
	Big  = Of[Wide]{Enc: func(i int) Wide { return Wide{n: i} }, Dec: func(b Wide) int { return b.n }}
	Ptr  = Of[*int]{Enc: func(i int) *int {
		if i == 0 {
			return nil
		}
		return &i
	}, Dec: func(p *int) int {
		if p == nil {
			return 0
		}
		return *p
	}}
	Slice = Of[[]int]{Enc: func(i int) []int { return make([]int, i, i+1)[:i:i] }, Dec: func(s []int) int { return len(s) }}
	Err   = Of[error]{Enc: func(i int) error {
		if i == 0 {
			return nil
		}
		return numErr(i)
	}, Dec: func(e error) int {
		n, _ := e.(numErr)
		return int(n)
	}}
	Any = Of[any]{Enc: func(i int) any {
		switch {
		case i == 0:
			return nil
		case i%3 == 0:
			return i
		case i%3 == 1:
			return text(i)
		}
		return [1]int{i}
	}, Dec: func(x any) int {
		switch v := x.(type) {
		case int:
			return v
		case string:
			return num(v)
		case [1]int:
			return v[0]
		}
		return 0
	}}
)
