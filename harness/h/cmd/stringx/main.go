// Driver for stringx and unsafex: C40 - C43, C45.
package main

import (
	"fmt"
	"strings"
	"unsafe"

	"github.com/miniLCT/gosb/hack/unsafex"
	"github.com/miniLCT/gosb/library/stringx"
	"verifh/tr"
)

var count int

// each calls f, now and then in a new trace, for the cases of this shard
func each(f func()) {
	count++
	if !tr.Mine(count) {
		return
	}
	if tr.Len() > 120 {
		tr.End()
		tr.Begin(tr.Ev{"x": 0})
	}
	f()
}

// one calls f in a trace of its own
func one(f func()) {
	if tr.Len() > 0 {
		tr.End()
	}
	tr.Begin(tr.Ev{"x": 0})
	f()
	tr.End()
}

func do(op, s string, args tr.Ev, f func() string) {
	e := tr.Ev{"s": tr.Bytes(s)}
	for k, v := range args {
		e[k] = v
	}
	tr.Do(op, e, func() any { return tr.Bytes(f()) })
}

func json(s string) {
	for html := 0; html < 2; html++ {
		do("json", s, tr.Ev{"html": html}, func() string { return string(stringx.StringMarshalJSON(s, html == 1)) })
	}
}

func indent(s, pre string) {
	do("indent", s, tr.Ev{"pre": tr.Bytes(pre)}, func() string { return stringx.Indent(s, pre) })
}
func space(s string) { do("space", s, nil, func() string { return stringx.SpaceInOne(s) }) }
func snake(s string) { do("snake", s, nil, func() string { return stringx.SnakeString(s) }) }
func camel(s string) { do("camel", s, nil, func() string { return stringx.CamelString(s) }) }
func lint(s string)  { do("lint", s, nil, func() string { return stringx.LintCamelString(s) }) }
func cases(s string) { snake(s); camel(s); lint(s) }
func html(s string, b int) {
	do("html", s, tr.Ev{"base": b}, func() string { return stringx.HTMLEntityToUTF8(s, b) })
}
func code(s string, b int) {
	do("code", s, tr.Ev{"base": b}, func() string { return stringx.CodePointToUTF8(s, b) })
}

// vast: a function does to very long texts, in parts that do not matter to each other, what it does to the parts.
func vast(op, first, last string, pieces []string, args tr.Ev, f func(string) string) {
	for i, total := range []int{4096, 8192, 16384, 32768, 65536, 100000} {
		if i > 2 && !tr.Thorough && i != 3+len(op)%3 {
			continue
		}
		count++
		if !tr.Mine(count) {
			continue
		}
		one(func() {
			s, parts, panicked := "", [][][]int{}, false
			plain := 0 // how long it goes on without any of the pieces
			for total += tr.Rng.Intn(200) - 100; len(s) < total; {
				p := first
				if plain <= 0 && tr.Rng.Intn(10) == 0 {
					plain = tr.Rng.Intn(1 << (10 + tr.Rng.Intn(6)))
				}
				for plain > 0 && len(p) < 600 {
					p += "word7"
					plain -= 5
				}
				for n := tr.Rng.Intn(150); n > 0 && plain <= 0; n-- {
					p += pieces[tr.Rng.Intn(len(pieces))]
					if n%3 == 0 {
						p += "word"
					}
				}
				p += last
				var r string
				if c, _ := tr.Try(func() any { r = f(p); return 0 }); c != 0 {
					panicked = true // which the whole does too
				}
				s += p
				parts = append(parts, [][]int{tr.Bytes(p), tr.Bytes(r)})
			}
			if panicked {
				parts = parts[:0]
			}
			e := tr.Ev{"parts": parts}
			for k, v := range args {
				e[k] = v
			}
			tr.Do(op, e, func() any { return tr.Bytes(f(s)) })
		})
	}
}

// runs calls f with texts in which one of the pieces, or two by turns, come many times in a row.
func runs(pieces []string, f func(string)) {
	for _, p := range pieces {
		for _, n := range []int{70, 140, 270, 600, 1100} {
			each(func() {
				if !tr.Thorough && n > 300 && tr.Rng.Intn(3) > 0 {
					return
				}
				q := ""
				if tr.Rng.Intn(4) == 0 {
					q = pieces[tr.Rng.Intn(len(pieces))]
				}
				n := n - tr.Rng.Intn(20)
				f(random([]string{"a", "B"}, 1) + strings.Repeat(p+q, (n+len(p+q)-1)/len(p+q)) + random(append(pieces, "c"), 1))
			})
		}
	}
}

// all calls f with every sequence of at most n of the pieces
func all(pieces []string, n int, f func(string)) {
	var rec func(s string, n int)
	rec = func(s string, n int) {
		each(func() { f(s) })
		if n > 0 {
			for _, p := range pieces {
				rec(s+p, n-1)
			}
		}
	}
	rec("", n)
}

func random(pieces []string, max int) string {
	s := ""
	for n := tr.Rng.Intn(max + 1); n > 0; n-- {
		s += pieces[tr.Rng.Intn(len(pieces))]
	}
	return s
}

func rounds(q, t int, f func()) {
	for k := 0; k < tr.Scale(q, t)/tr.Shards; k++ {
		one(f)
	}
}

// long calls f with texts of many of the pieces.
func long(pieces []string, f func(string)) {
	for i := 0; i < 3*len(tr.Sizes()); i++ {
		n := tr.Sizes()[i/3]
		if !tr.Mine(i) || n > 2500 {
			continue
		}
		one(func() {
			ps := pieces
			if i%3 == 1 { // few kinds
				ps = []string{pieces[tr.Rng.Intn(len(pieces))], pieces[tr.Rng.Intn(len(pieces))]}
			}
			s := ""
			if i%3 == 2 { // most of it simple
				for len(s) < n {
					s += "abc9"
				}
				s = s[:n-tr.Rng.Intn(6)]
				f(s)
				for j := 0; j < 4; j++ {
					k := tr.Rng.Intn(len(s) + 1)
					s = s[:k] + ps[tr.Rng.Intn(len(ps))] + s[k:]
				}
				s += ps[tr.Rng.Intn(len(ps))] + ps[tr.Rng.Intn(len(ps))]
			}
			for j := 0; i%3 < 2 && j < n; j++ {
				s += ps[tr.Rng.Intn(len(ps))]
			}
			f(s)
		})
	}
}

func c40() {
	for c := 0; c < 256; c++ {
		b := string([]byte{byte(c)})
		each(func() { json(b); json("a" + b + "b"); json(b + b); json("é" + b); json(b + "\u2028") })
	}
	runes := []rune{0x80, 0x7ff, 0x800, 0x2027, 0x2028, 0x2029, 0x202a, 0x2030, 0x1028, 0x3028, 0xa8, 0xa9, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x12028, 0x1f600, 0x10ffff, 0x2128, 0x200b, 0xfeff}
	for _, c := range runes {
		each(func() {
			json(string(c))
			json("<" + string(c) + "\\")
			json(string(c) + string(c))
			json("xy" + string(c) + "z")
		})
		full := []byte(string(c))
		for n := 1; n < len(full); n++ { // cut off
			each(func() {
				json(string(full[:n]))
				json(string(full[:n]) + "a")
				json("a" + string(full[n:]))
				json(string(full[:n]) + string(full))
			})
			for _, x := range []byte{0, 0x22, 0x7f, 0x80, 0xbf, 0xc0, 0xff} {
				each(func() {
					m := append([]byte(nil), full...)
					m[n] = x
					json(string(m))
					m = append([]byte(nil), full...)
					m[0] = x
					json(string(m))
				})
			}
		}
	}
	for _, s := range []string{"\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xef\xbf\xbd", "\xef\xbf", "\xe2\x80", "\xe2\x80\xa8\xa9", "\xe2\x80\xe2\x80\xa8"} {
		each(func() { json(s); json(s + s); json("\"" + s + "\n"); json("ok" + s + "ok") })
	}
	pieces := []string{"a", "\"", "\\", "\n", "\r", "\t", "\x00", "\x1f", "<", ">", "&", "/", "\x7f", "é", "\u2028", "\u2029", "\U0001f600", "\xff", "\x80", "\xe2\x80", "'", "=", " "}
	all(pieces, tr.Scale(2, 3), json)
	rounds(1200, 60000, func() { json(random(pieces, 24)) })
	rounds(600, 30000, func() {
		b := make([]byte, tr.Rng.Intn(40))
		for i := range b {
			b[i] = byte(tr.Rng.Intn(256))
			if tr.Rng.Intn(3) > 0 {
				b[i] = byte(tr.Rng.Intn(128))
			}
		}
		json(string(b))
	})
	long(append(pieces, "a", "b", "c", "ddd"), json)
	for html := 0; html < 2; html++ {
		vast("json", []string{"x", " "}[html], "x", append(pieces, "b", "ddd"), tr.Ev{"html": html}, func(s string) string { return string(stringx.StringMarshalJSON(s, html == 1)) })
	}
	runs(append(pieces, "b"), json)
	// longer than the buffer
	rounds(80, 800, func() {
		s := ""
		for n := tr.Rng.Intn(150); len(s) < n; {
			s += random(pieces, 3) + "filler"
		}
		json(s)
	})
}

func c41() {
	lines := []string{"\n", "a", "\r\n", " ", "é"}
	pres := []string{"", " ", "\n", "ab", "\n\n", "a\n", "\na", "\t\t"}
	all(lines, tr.Scale(4, 6), func(s string) { indent(s, pres[tr.Rng.Intn(len(pres))]) })
	all(lines, 2, func(s string) {
		for _, p := range pres {
			indent(s, p)
		}
	})
	sp := []string{" ", "\n", "\r", "\t", "x"}
	all(sp, tr.Scale(5, 7), space)
	wide := []string{" ", "\n", "\r", "\t", "\v", "\f", "\u0085", "\u00a0", "x", "\r\n", "\xc2", "\u2003", "\xa0", "\x85"}
	all(wide, 3, space)
	rounds(1600, 60000, func() {
		space(random(sp, 30))
		space(random(wide, 20))
		space(random([]string{"\r\n", "\r\n\r\n", "\n", "\r", " "}, 16))
		indent(random(append(lines, "line", "\n\n"), 14), random(append(pres, "x", "--"), 4))
	})
	long(append(wide, "x", "y"), space)
	long(append(lines, "line", "\n\n", "b"), func(s string) { indent(s, random(append(pres, "x", "--"), 4)) })
	long([]string{"\n", "a\n"}, func(s string) { indent(s, "\t"); indent(s, "\n") })
	vast("space", "x", "x", wide, nil, stringx.SpaceInOne)
	for _, pre := range []string{"\t", "", "> \n"} {
		vast("indent", "", "\n", append(lines, "\n\n", "b"), tr.Ev{"pre": tr.Bytes(pre)}, func(s string) string { return stringx.Indent(s, pre) })
	}
	runs(wide, space)
	runs(lines, func(s string) { indent(s, "ab") })
	// only one kind of space, long
	for _, p := range wide {
		for n := 4; n < 40; n += 5 {
			each(func() {
				s := ""
				for i := 0; i < n; i++ {
					s += p
				}
				space(s)
				space("a" + s + "b" + s)
			})
		}
	}
}

var initialisms = []string{"ACL", "API", "ASCII", "CPU", "CSS", "DNS", "EOF", "GUID", "HTML", "HTTP", "HTTPS", "ID", "IP", "JSON", "LHS", "QPS", "RAM", "RHS", "RPC", "SLA", "SMTP", "SQL", "SSH", "TCP", "TLS", "TTL", "UDP", "UI", "UID", "UUID", "URI", "URL", "UTF8", "VM", "XML", "XMPP", "XSRF", "XSS"}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func c42() {
	for c := 0; c < 256; c++ {
		b := string([]byte{byte(c)})
		each(func() { cases(b); cases("a" + b + "b"); cases("x_" + b); cases(b + "_z"); cases("A" + b + "B") })
	}
	for _, in := range initialisms {
		lo := lower(in)
		mixed := in[:1] + lo[1:]
		for _, w := range []string{in, lo, mixed, lo[:1] + in[1:], in + "s", lo + "s", lo[:len(lo)-1]} {
			each(func() {
				cases(w)
				cases("the_" + w)
				cases(w + "_of")
				cases("a" + w)
				cases("a" + mixed + "B")
				cases("_" + w)
				cases(w + "_" + lo)
			})
		}
	}
	for _, w := range []string{"aab", "and", "ide", "uids", "app", "db", "os", "io", "utf", "utf16", "mp3", "i", "u"} {
		each(func() { cases(w); cases("the_" + w); cases("a_" + w + "_b") })
	}
	small := []string{"a", "B", "_", "1", "é"}
	all(small, tr.Scale(4, 6), cases)
	wide := []string{"a", "z", "A", "Z", "_", "0", "9", "@", "[", "`", "{", "é", "É", "ß", "İ", "ı", "ſ", "K", "ǅ", "ж", "Ж", "λ", "𐐨", "ª", "٣", "中", "\xff", "-", " ", "id", "Id", "url", "http", "x"}
	all(wide, 2, cases)
	rounds(1600, 80000, func() { cases(random(wide, 10)); cases(random(small, 14)) })
	long(wide, cases)
	for i := 0; i < 2; i++ {
		ps := wide
		if i == 1 {
			ps = []string{"a", "_b", "B", "1", "id_", "_", "url"}
		}
		vast("snake", "a", "b", ps, nil, stringx.SnakeString)
		vast("camel", "A", "b", ps, nil, stringx.CamelString)
		vast("lint", "A", "b", ps, nil, stringx.LintCamelString)
	}
	long([]string{"a", "_b", "B", "1", "id_", "_"}, cases)
	runs([]string{"a", "B", "_", "1", "é", "É", "aB", "a_", "_1", "1_", "_id", "Id", "\xff"}, cases)
	long([]string{"a_", "Bc", "d", "é_"}, cases)
	rounds(800, 30000, func() {
		var ps []string
		for i := 0; i < 6; i++ {
			in := initialisms[tr.Rng.Intn(len(initialisms))]
			ps = append(ps, in, lower(in), in[:1]+lower(in[1:]))
		}
		lint(random(append(ps, "_", "_", "__", "foo", "1", "2", "Bar", "x"), 8))
	})
}

func c43() {
	for c := 0; c < 256; c++ {
		b := string([]byte{byte(c)})
		for _, base := range []int{10, 16} {
			each(func() {
				html("&#"+b+";", base)
				html("&#1"+b+"2;", base)
				html("&#65"+b+"x", base)
				html("&"+b+"65;#", base)
				code("\\u"+b, base)
				code("\\u0041"+b, base)
				code("\\u41"+b+"1", base)
				code("\\"+b+"0041", base)
			})
		}
	}
	nums := []string{"0", "65", "7c", "41", "5496", "8272", "00e9", "2028", "d800", "dfff", "fffd", "ffff", "10000", "1f600", "10ffff", "110000", "7fffffff", "80000000", "ffffffff", "233", "21654", "65533", "55296", "65536", "128512", "1114111", "1114112", "2147483647", "2147483648", "2147483650", "4294967296", "4294967361", "99999999999999999999999", "00000000000000000065", "000000000000000000065", "0000000000000000000065", "00000000000000000000000000000065", "g", "zz", "1g", "FF", "aB"}
	for _, n := range nums {
		for _, base := range []int{10, 16, 8, 2, 36} {
			each(func() {
				html("&#"+n+";", base)
				html("&#"+n, base)
				html("&#"+n+";;;x&#"+n+"&#x"+n+";", base)
				code("\\u"+n, base)
				code("x\\u"+n+" \\u"+n+"\\u"+n+"z", base)
				code("\\\\u"+n+"é", base)
			})
		}
	}
	hp := []string{"&", "#", ";", "6", "5", "f", "g", "&#", "é", "&#7c;", "&#65;"}
	all(hp, tr.Scale(3, 5), func(s string) { html(s, 10); html(s, 16) })
	cp := []string{"\\", "u", "\\u", "0", "6", "f", "g", "é", "\\u0041", "5496"}
	all(cp, tr.Scale(3, 5), func(s string) { code(s, 10); code(s, 16) })
	for _, b := range []int{10, 16} {
		vast("html", " ", " ", []string{"&#65;", "&#x41;", "&#20013;", "&#4e2d", "a", "&#", ";", "\\u4e2d", "é", "&"}, tr.Ev{"base": b}, func(s string) string { return stringx.HTMLEntityToUTF8(s, b) })
		vast("code", " ", " ", []string{"\\u0041", "\\u4e2d", "\\u20013", "\\u", "a", "7", "\\", "é", "zz", "&#65;"}, tr.Ev{"base": b}, func(s string) string { return stringx.CodePointToUTF8(s, b) })
		long([]string{"&#65;", "&#x41;", "&#20013;", "&#4e2d", "a", "&#", ";", "\\u4e2d", "é", "&"}, func(s string) { html(s, b) })
		long([]string{"\\u0041", "\\u4e2d", "\\u20013", "\\u", "a", "7", "\\", "é", "zz", "&#65;"}, func(s string) { code(s, b) })
		long([]string{"&#65;", "&#7c;"}, func(s string) { html(s, b) })
		long([]string{"\\u65", "\\u7c"}, func(s string) { code(s, b) })
		runs([]string{"&", "#", ";", "&#", "&#65", "&#65;", "&#7c;", "0", "6", "g"}, func(s string) { html(s, b); html("&#"+s, b) })
		runs([]string{"\\", "u", "\\u", "\\u0041", "\\u7c", "\\u4e2d", "0", "6", "g"}, func(s string) { code(s, b); code("\\u"+s, b) })
	}
	rounds(1600, 80000, func() {
		base := []int{10, 16, 10, 16, 8, 2, 36, 7}[tr.Rng.Intn(8)]
		html(random(append(hp, nums...), 10), base)
		code(random(append(cp, nums...), 10), base)
		html(random(append(hp, "&#", "&#", "1", "23", "&#x41;", "&lt;"), 12), base)
		code(random(append(cp, "\\u", "\\u", "1", "23", "\\U0041", "\\x41"), 12), base)
		// as many digits as there may be, and more
		d := ""
		for n := tr.Rng.Intn(26); n > 0; n-- {
			d += string("0123456789abcdefABCDEFg"[tr.Rng.Intn([]int{1, 10, 23}[tr.Rng.Intn(3)])])
		}
		html("&#"+d+";", base)
		code("\\u"+d, base)
	})
}

func c45() {
	prog := func(n int) {
		var arrays [][]byte
		var as [][]int
		for i := 0; i < 2; i++ {
			a := make([]byte, tr.Rng.Intn(40))
			for j := range a {
				a[j] = byte(tr.Rng.Intn(256))
			}
			arrays, as = append(arrays, a), append(as, tr.Ints(a))
		}
		tr.Begin(tr.Ev{"arrays": as})
		type header struct {
			s     string
			b     []byte
			str   bool // a string
			owned bool // a slice made from a string
		}
		var hs []header
		for ; n > 0; n-- {
			k := tr.Rng.Intn(8)
			if len(hs) == 0 || k == 0 {
				a := tr.Rng.Intn(2)
				o := tr.Rng.Intn(len(arrays[a]) + 1)
				m := tr.Rng.Intn(len(arrays[a]) - o + 1)
				b := arrays[a][o : o+m : o+m+tr.Rng.Intn(len(arrays[a])-o-m+1)]
				if m == 0 && tr.Rng.Intn(2) == 0 {
					b = nil
				}
				tr.Do("cut", tr.Ev{"a": a + 1, "o": o, "n": m}, func() any { return tr.Ints(b) })
				hs = append(hs, header{b: b})
				continue
			}
			i := tr.Rng.Intn(len(hs))
			h := hs[i]
			switch {
			case k < 4 && !h.str:
				var s string
				e := tr.Ev{"h": i + 1, "same": 0, "len": 0}
				p, res := tr.Try(func() any { s = unsafex.SliceToString(h.b); return tr.Bytes(s) })
				e["op"], e["p"], e["res"] = "toString", p, res
				e["same"], e["len"] = tr.B(unsafe.StringData(s) == unsafe.SliceData(h.b)), len(s)
				tr.Add(e)
				hs = append(hs, header{s: s, str: true})
			case k < 4:
				var b []byte
				e := tr.Ev{"h": i + 1, "same": 0, "len": 0}
				p, res := tr.Try(func() any { b = unsafex.StringToSlice(h.s); return tr.Ints(b) })
				e["op"], e["p"], e["res"] = "toSlice", p, res
				e["same"], e["len"] = tr.B(unsafe.StringData(h.s) == unsafe.SliceData(b)), len(b)
				tr.Add(e)
				hs = append(hs, header{b: b, owned: true})
			case k == 4 && !h.str && len(h.b) > 0:
				j, v := tr.Rng.Intn(len(h.b)), tr.Rng.Intn(256)
				tr.Do("write", tr.Ev{"h": i + 1, "i": j, "v": v}, func() any { h.b[j] = byte(v); return 0 })
			case k == 5 && h.owned:
				v := tr.Rng.Intn(256)
				tr.Do("append", tr.Ev{"h": i + 1, "v": v}, func() any { return tr.Ints(append(h.b, byte(v))) })
			case h.str:
				tr.Do("read", tr.Ev{"h": i + 1}, func() any { return tr.Bytes(h.s) })
			default:
				tr.Do("read", tr.Ev{"h": i + 1}, func() any { return tr.Ints(h.b) })
			}
		}
		for i, h := range hs {
			if h.str {
				tr.Do("read", tr.Ev{"h": i + 1}, func() any { return tr.Bytes(h.s) })
			} else {
				tr.Do("read", tr.Ev{"h": i + 1}, func() any { return tr.Ints(h.b) })
			}
		}
		tr.End()
	}
	for k := 0; k < tr.Scale(3000, 100000)/tr.Shards; k++ {
		prog(1 + tr.Rng.Intn(25))
	}
}

func main() {
	tr.Main(func() {
		f := map[string]func(){"C40": c40, "C41": c41, "C42": c42, "C43": c43}[tr.Prop]
		switch {
		case tr.Prop == "C45":
			c45()
		case f != nil:
			tr.Begin(tr.Ev{"x": 0})
			f()
			if tr.Len() > 0 {
				tr.End()
			}
		default:
			panic(fmt.Sprint("no driver for ", tr.Prop))
		}
	})
}
