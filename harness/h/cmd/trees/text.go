package main

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"verifh/rngctl"
	"verifh/tr"
)

// described is shown as v and its number.
type described struct{ n int }

func (d described) String() string { return fmt.Sprint("v", d.n) }

// number reads a value or key that is shown.
func number(s string) int {
	n, err := strconv.Atoi(strings.TrimLeft(strings.TrimSpace(s), "kv0"))
	if err != nil {
		return -1000
	}
	return n
}

var boxes = regexp.MustCompile(`\[([^\]]*)\]`)

// layers reads the text of a skip list.
func layers(text string) tr.Ev {
	link := func(s string) int {
		if s == "---" {
			return 0
		}
		return number(s)
	}
	row := func(s string) []int {
		r := []int{}
		for _, x := range boxes.FindAllStringSubmatch(s, -1) {
			r = append(r, link(x[1]))
		}
		return r
	}
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	bad := tr.Ev{"ok": 0, "head": []int{}, "foot": []int{}, "nodes": []int{}}
	n := len(lines)
	if n < 2 {
		return bad
	}
	nodes := []tr.Ev{}
	for _, l := range lines[1 : n-1] {
		v, rest, ok := strings.Cut(l, ":")
		b := boxes.FindStringSubmatchIndex(rest)
		if !ok || b == nil {
			return bad
		}
		prev, first, ok := strings.Cut(rest[b[2]:b[3]], "|")
		if !ok {
			return bad
		}
		nodes = append(nodes, tr.Ev{"v": number(v), "prev": link(prev), "next": append([]int{link(first)}, row(rest[b[1]:])...)})
	}
	return tr.Ev{"ok": 1, "head": row(lines[0]), "foot": row(lines[n-1]), "nodes": nodes}
}

var entry = regexp.MustCompile(`\(([^,]*), ([^,]*), [^,]*\)`)

func entries(text string) [][]int {
	r := [][]int{}
	for _, x := range entry.FindAllStringSubmatch(text, -1) {
		r = append(r, []int{number(x[1]), number(x[2])})
	}
	return r
}

func skipTexts[K gconstraints.Ordered, V any](key func(int) K, val func(int) V) {
	r := tr.Rng
	tr.Begin(tr.Ev{"c": 0})
	l := gskiplist.New[K, V]()
	span := []int{3, 6, 12, 40}[r.Intn(4)]
	tall := []int{1, 3, 25}[r.Intn(3)]
	for j, n := 1, 4+r.Intn(3*span); j <= n; j++ {
		k := 1 + r.Intn(span)
		if level = r.Intn(tall); r.Intn(2) == 0 {
			level = 0
		}
		ok := 0
		switch r.Intn(5) {
		case 0, 1:
			ok, _ = tr.Do("delete", tr.Ev{"k": k}, func() any { l.Delete(key(k)); return 0 })
		default:
			ok, _ = tr.Do("put", tr.Ev{"k": k, "v": j}, func() any { l.Insert(key(k), val(j)); return 0 })
		}
		if ok == 0 && (span < 12 || r.Intn(4) == 0 || j == n) {
			ok, _ = tr.Do("skip", tr.Ev{}, func() any { return layers(l.String()) })
		}
		if ok != 0 {
			break
		}
	}
	tr.End()
}

// scriptedTexts repeats the calls and draws that lead to each structure of SkipAlgo.tla, and looks.
func scriptedTexts() {
	var scripts [][][3]int
	raw, err := os.ReadFile(os.Getenv("VERIF_SCRIPT"))
	if err != nil {
		return
	}
	if err := json.Unmarshal(raw, &scripts); err != nil {
		panic(err)
	}
	for i, sc := range scripts {
		if !tr.Mine(i) {
			continue
		}
		tr.Begin(tr.Ev{"c": 0})
		l := gskiplist.New[int, int]()
		ok := 0
		one := func(v int, c [3]int) {
			level = c[2]
			if ok != 0 {
			} else if c[0] != 0 {
				ok, _ = tr.Do("put", tr.Ev{"k": c[1], "v": v}, func() any { l.Insert(c[1], v); return 0 })
			} else {
				ok, _ = tr.Do("delete", tr.Ev{"k": c[1]}, func() any { l.Delete(c[1]); return 0 })
			}
		}
		look := func() {
			if ok == 0 {
				ok, _ = tr.Do("skip", tr.Ev{}, func() any { return layers(l.String()) })
			}
		}
		for j, c := range sc {
			one(j+1, c)
		}
		look()
		for j := 0; j < 3; j++ {
			one(20+j, [3]int{tr.Rng.Intn(3), 1 + tr.Rng.Intn(5), tr.Rng.Intn(4)})
			look()
		}
		tr.End()
	}
}

func treeTexts[K comparable, V any](key func(int) K, val func(int) V, less func(a, b K) bool) {
	r := tr.Rng
	c := r.Intn(2)
	tr.Begin(tr.Ev{"c": c})
	t := rbt.New[K, V](func(a, b K) bool {
		if c == 1 {
			a, b = b, a
		}
		return less(a, b)
	})
	span := []int{3, 6, 12, 40}[r.Intn(4)]
	for j, n := 1, 4+r.Intn(3*span); j <= n; j++ {
		k := 1 + r.Intn(span)
		ok := 0
		switch r.Intn(5) {
		case 0, 1:
			ok, _ = tr.Do("delete", tr.Ev{"k": k}, func() any { t.Delete(key(k)); return 0 })
		default:
			ok, _ = tr.Do("put", tr.Ev{"k": k, "v": j}, func() any { t.Insert(key(k), val(j)); return 0 })
		}
		if ok == 0 && (span < 12 || r.Intn(4) == 0 || j == n) {
			ok, _ = tr.Do("tree", tr.Ev{}, func() any { return entries(t.String()) })
		}
		if ok != 0 {
			break
		}
	}
	tr.End()
}

func texts() {
	forceLevels()
	scriptedTexts()
	number := func(i int) int { return i }
	text := func(i int) string { return fmt.Sprintf("k%03d", i) }
	desc := func(i int) described { return described{i} }
	for i := 0; i < tr.Scale(1600, 16000)/tr.Shards; i++ {
		switch i % 8 {
		case 0, 1:
			skipTexts(number, number)
		case 2:
			skipTexts(text, desc)
		case 3:
			skipTexts(func(i int) float64 { return float64(i) / 2 }, text)
		case 4:
			treeTexts(number, number, func(a, b int) bool { return a < b })
		case 5:
			treeTexts(text, desc, func(a, b string) bool { return a < b })
		case 6:
			treeTexts(desc, text, func(a, b described) bool { return a.n < b.n })
		case 7: // as they are drawn
			rngctl.Reset()
			skipTexts(number, text)
			forceLevels()
		}
	}
}
