// Package key has types whose names are those of the types of another package key.
package key

type ID int

type Text string

func (t Text) String() string { return string(t) }

type Pair struct{ A, B any }

type hidden struct{ n int }

// Hidden is a value whose type cannot be named elsewhere.
func Hidden(n int) any { return hidden{n} }
