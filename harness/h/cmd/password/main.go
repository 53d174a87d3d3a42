// Driver for password: C39.
package main

import (
	"github.com/miniLCT/gosb/library/password"
	"verifh/tr"
)

func check(pw string, flag int, min int, max ...int) {
	if tr.Len() > 400 {
		tr.End()
		tr.Begin(tr.Ev{"x": 0})
	}
	tr.Do("check", tr.Ev{"pw": tr.Bytes(pw), "flag": flag, "min": min, "max": tr.Ints(max)}, func() any {
		return tr.B(password.CheckPassword(pw, password.Flag(flag), min, max...))
	})
}

func main() {
	tr.Main(func() {
		r := tr.Rng
		tr.Begin(tr.Ev{"x": 0})
		n := 0
		mine := func() bool { n++; return tr.Mine(n) }
		// each flag with each byte, alone and among others that satisfy the flag
		for flag := 0; flag < 256; flag++ {
			good := ""
			if flag&1 != 0 {
				good += "5"
			}
			if flag&2 != 0 && flag&12 == 0 {
				good += string("zZ"[r.Intn(2)])
			}
			if flag&4 != 0 {
				good += "q"
			}
			if flag&8 != 0 {
				good += "Q"
			}
			if flag&16 != 0 {
				good += "#"
			}
			if mine() {
				for k := -1; k <= 1; k++ {
					for j := -1; j <= 1; j++ {
						check(good, flag, len(good)+k, len(good)+j)
					}
					check(good, flag, len(good)+k)
					check(good, flag, k)
					check(good, flag, 0, len(good), k)
				}
			}
			for c := 0; c < 256; c++ {
				if flag > 31 && c%16 != 1 && !tr.Thorough || !mine() {
					continue
				}
				i := r.Intn(len(good) + 1)
				check(good[:i]+string([]byte{byte(c)})+good[i:], flag, 0)
			}
			for _, c := range []rune{0x80, 0xa0, 0xe9, 0x130, 0x131, 0x660, 0x966, 0x2160, 0x3000, 0xff11, 0xff21, 0xff41, 0xfeff, 0xfffd, 0x1d7d8, 0x10ffff} {
				if mine() {
					check(good+string(c), flag, 0)
				}
			}
		}
		// all short strings of one character of each class
		reps := [][]string{{"0", "9", "5"}, {"a", "z", "m"}, {"A", "Z", "M"}, {"!", "/", ":", "@", "[", "`", "{", "~", "_"}, {" ", "\t", "\x7f", "\n", "\x00"}, {"é", "\xff", "٣"}}
		var rec func(s string, left int)
		rec = func(s string, left int) {
			for flag := 0; flag < 32; flag++ {
				if mine() {
					check(s, flag+32*r.Intn(8), r.Intn(3), len(s)-1+r.Intn(3))
				}
				if mine() {
					check(s, flag, len(s)-r.Intn(2))
				}
			}
			if left > 0 {
				for _, c := range reps {
					rec(s+c[r.Intn(len(c))], left-1)
				}
			}
		}
		rec("", tr.Scale(3, 5))
		// long ones, of which one byte matters
		for i, l := range tr.Sizes() {
			for rep := 0; rep < 12; rep++ {
				if !mine() {
					continue
				}
				b := make([]byte, l)
				for j := range b {
					b[j] = "5qQ#"[(rep+i)%4]
				}
				at := []int{0, l - 1, l / 2, r.Intn(l)}[rep%4]
				for _, c := range "5aZ#~\x7fé" {
					b[at] = byte(c)
					flag := r.Intn(32)
					check(string(b), flag, l-r.Intn(2), l+r.Intn(2))
					check(string(b), 1<<r.Intn(5)|1<<r.Intn(5)|r.Intn(8)<<5, l-r.Intn(3))
					check(string(b), flag, 0, l-1)
				}
			}
		}
		tr.End()
		for k := 0; k < tr.Scale(8000, 300000)/tr.Shards; k++ {
			tr.Begin(tr.Ev{"x": 0})
			b := make([]byte, r.Intn(30))
			for i := range b {
				b[i] = byte(33 + r.Intn(94))
			}
			m := []int{r.Intn(40) - 3}
			if r.Intn(3) == 0 {
				m = append(m, r.Intn(10))
			}
			check(string(b), r.Intn(256), r.Intn(20)-2, m[:r.Intn(len(m)+1)]...)
			tr.End()
		}
	})
}
