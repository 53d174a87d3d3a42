package main

import (
	"bytes"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/zverif/vos"
	"github.com/miniLCT/gosb/zverif/vsched"
	"verifh/tr"
)

// files lists the regular files below dir, relative to it.
func files(dir string) []string {
	var r []string
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			q, _ := filepath.Rel(dir, p)
			r = append(r, q)
		}
		return nil
	})
	return r
}

// where tells which files hold the entries of the keys, seen in a directory of its own for each.
func where(s store, keys int) [][]string {
	r := make([][]string, keys)
	for k := range r {
		d := newDir()
		s.open(d, time.Hour)
		s.do(op{name: "set", keys: []int{k}, vals: []int{0}, ttl: time.Hour})
		r[k] = files(d)
		dropDir()
	}
	return r
}

// point counts the points at which the process may die since arm(); it dies at number at.
var point, at int
var died chan struct{}

func arm(n int) {
	point, at, died = 0, n, make(chan struct{})
	vsched.Hook = func() {
		point++
		if at > 0 && point >= at {
			if point == at {
				close(died)
			}
			select {} // whatever happens in a dead process does not happen
		}
	}
}

func disarm() { vsched.Hook = nil }

type crashWorld struct {
	dir   string
	s     store
	paths [][]string
	cycle time.Duration
}

// run runs an operation that dies at point n (0: it does not), or has its file operation number fail fail.
func (w *crashWorld) run(o op, n, fail, cut int) (crashed bool) {
	e := tr.Ev{"op": o.name}
	for k, v := range o.args() {
		e[k] = v
	}
	vos.Reset(fail)
	vos.Cut = cut
	tr.Busy(true, e)
	arm(n)
	var p int
	var res any
	done := make(chan struct{})
	go func() {
		p, res = tr.Try(func() any { return w.s.do(o) })
		close(done)
	}()
	select {
	case <-done:
	case <-died:
		crashed = true
	}
	synctest.Wait()
	disarm()
	vos.Reset(0)
	vos.Cut = -1
	tr.Busy(false, nil)
	if crashed {
		p, res = 0, 0
	}
	e["p"], e["res"], e["crash"] = p, res, tr.B(crashed)
	if crashed && o.name == "get" {
		e["res"] = []int{0, 0, 0}
	}
	if crashed && o.name == "mget" {
		e["res"] = tr.Ev{"r": [][]int{}, "err": 0}
	}
	tr.Add(e)
	if crashed {
		w.open()
	}
	return crashed
}

func (w *crashWorld) open() {
	w.s.open(w.dir, w.cycle)
	tr.Add(tr.Ev{"op": "open", "p": 0, "res": 0, "crash": 0})
}

// damage changes the file of k; how says in what way. It reports whether there was a file.
func (w *crashWorld) damage(r *rand.Rand, k, how int) bool {
	ok := false
	for _, p := range w.paths[k] {
		p = filepath.Join(w.dir, p)
		old, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		ok = true
		os.WriteFile(p, spoil(r, old, how), 0o666)
	}
	if ok {
		tr.Add(tr.Ev{"op": "corrupt", "keys": []int{k}, "p": 0, "res": 0, "crash": 0})
	}
	return ok
}

// texts are contents that are no entries.
var texts = []string{"", "null", "{}", "[]", "[null]", "0", "1e999", "true", "\"x\"", "nul", "{", "}", "{\"Data\":", "{\"Data\":null}", "{\"Data\":1}",
	"{\"Data\":1,\"Exp\":\"x\"}", "{\"Data\":false,\"Exp\":9223372036854775807}", "{\"Data\":1,\"Exp\":1e30}", "{\"Data\":1,\"Exp\":-1}", "{\"Data\":{},\"Exp\":9223372036854775807}",
	"\x00", "\x00\x00\x00\x00", "\xff\xfe", "\n", " ", "{\"Data\":[1],\"Exp\":9223372036854775807}", "{\"Data\":1,\"Exp\":[]}", "{\"Data\":1,\"Exp\":1.5}",
	strings.Repeat("[", 20000), "{\"Data\":99999999999999999999,\"Exp\":9223372036854775807}", "/* x */", "{'Data':1}"}

func spoil(r *rand.Rand, old []byte, how int) []byte {
	if len(old) < 2 && how < 4 {
		how = 4
	}
	switch how {
	case 0: // cut short
		return old[:r.Intn(len(old))]
	case 1: // cut short, the rest zero
		n := r.Intn(len(old))
		return append(append([]byte{}, old[:n]...), make([]byte, len(old)-n)...)
	case 2: // more of it
		return append(append([]byte{}, old...), old[r.Intn(len(old)):]...)
	case 3: // without its beginning
		return old[1+r.Intn(len(old)-1):]
	case 4:
		return bytes.Repeat([]byte{byte(r.Intn(256))}, r.Intn(100))
	case 5:
		b := make([]byte, r.Intn(100))
		r.Read(b)
		return b
	}
	return []byte(texts[how-6])
}

// cutAt is where to cut a write in two; -1 is in the middle.
func cutAt(r *rand.Rand) int { return []int{-1, -1, 0, 1, 1000, r.Intn(120)}[r.Intn(6)] }

func crashes() {
	r := tr.Rng
	start, unit = time.Now(), time.Second
	base := func() store { return &typed[int, int]{k: ident, v: ident, ov: ident} }
	other := func() store {
		return &typed[string, string]{k: func(i int) string { return strs[i] }, v: func(i int) string { return strconv.Itoa(i) + strings.Repeat("v", i*7%90) + strs[i%5] }, n: 200}
	}
	// a value that shows a mixture of two: it says the same over and over, and all values are equally long
	wide := func() store {
		return &typed[int, string]{k: ident, v: func(i int) string { return strings.Repeat(strconv.Itoa(1000+i), 40) }, n: 200}
	}
	mk := []func() store{base, other, wide}
	const keys = 3
	pathsOf := map[int][][]string{}
	for kind, f := range mk {
		pathsOf[kind] = where(f(), keys)
	}
	begin := func(kind int, pre []op) *crashWorld {
		w := &crashWorld{dir: newDir(), paths: pathsOf[kind], cycle: time.Hour}
		w.s = mk[kind]()
		w.s.open(w.dir, w.cycle)
		tr.Begin(tr.Ev{"keys": keys})
		for _, o := range pre {
			w.run(o, 0, 0, -1)
		}
		return w
	}
	h := time.Hour
	look := func(w *crashWorld) {
		if r.Intn(2) == 0 {
			w.run(op{name: "mget", keys: r.Perm(keys)}, 0, 0, -1)
		}
		for _, k := range r.Perm(keys) {
			w.run(op{name: "get", keys: []int{k}}, 0, 0, -1)
		}
		w.run(op{name: "mget", keys: []int{0, 1, 2}}, 0, 0, -1)
		// every key can be written again
		w.run(op{"set", []int{r.Intn(keys)}, []int{90}, h}, 0, 0, -1)
		w.run(op{name: "mget", keys: []int{2, 0, 1}}, 0, 0, -1)
		tr.End()
		dropDir()
	}
	pres := [][]op{
		{},
		{{"set", []int{0}, []int{1}, h}},
		{{"set", []int{0}, []int{1}, h}, {"set", []int{1}, []int{2}, h}, {"set", []int{2}, []int{3}, h}},
	}
	ops := []op{
		{"set", []int{0}, []int{12}, h}, {"set", []int{1}, []int{13}, h}, {"mset", []int{0, 1}, []int{14, 15}, h},
		{"del", []int{0, 1}, nil, 0}, {"purge", nil, nil, 0}, {"get", []int{0}, nil, 0}, {"mget", []int{0, 1}, nil, 0},
	}
	// a crash at every point of every operation, and a fault of every file operation of the writing ones
	i := 0
	for kind := range mk {
		for _, pre := range pres {
			for _, o := range ops {
				for n := 1; n < 400; n++ {
					if i++; !tr.Mine(i) {
						// the number of points is not known here: stop late
						if n > 80 {
							break
						}
						continue
					}
					w := begin(kind, pre)
					c := w.run(o, n, 0, cutAt(r))
					look(w)
					tr.Extra["crashpoints"]++
					if !c {
						break
					}
				}
				if o.name != "get" && o.name != "mget" {
					for n := 1; n <= 24; n++ {
						if i++; !tr.Mine(i) {
							continue
						}
						w := begin(kind, pre)
						w.run(o, 0, n, cutAt(r))
						look(w)
					}
				}
			}
		}
		// damage
		for how := 0; how < 6+len(texts); how++ {
			for rep := 0; rep < 8; rep++ {
				if i++; !tr.Mine(i) {
					continue
				}
				if how >= 6 && rep > 1 {
					continue
				}
				w := begin(kind, pres[2])
				k := r.Intn(keys)
				w.damage(r, k, how)
				if r.Intn(3) == 0 {
					w.run(op{"set", []int{k}, []int{50}, h}, 0, 0, -1)
				}
				if r.Intn(3) == 0 {
					w.open()
				}
				look(w)
			}
		}
	}
	// random histories with all of that
	for k := 0; k < tr.Scale(900, 30000)/tr.Shards; k++ {
		w := begin(r.Intn(len(mk)), nil)
		if r.Intn(3) == 0 {
			w.cycle = time.Second
			w.open()
		}
		v := 0
		for j := 4 + r.Intn(14); j > 0; j-- {
			v++
			o := op{keys: []int{r.Intn(keys)}, ttl: h}
			switch r.Intn(12) {
			case 0, 1, 2, 3:
				o.name, o.vals = "set", []int{v}
			case 4, 5:
				o.name = "get"
			case 6:
				o.name, o.keys = "mget", r.Perm(keys)
			case 7:
				o.name, o.keys = "mset", r.Perm(keys)
				o.vals = []int{v, v + 30, v + 60}
			case 8:
				o.name = []string{"del", "del", "purge"}[r.Intn(3)]
			case 9, 10:
				w.damage(r, o.keys[0], r.Intn(6+len(texts)))
				continue
			case 11:
				if w.cycle == time.Second { // a collection is due
					time.Sleep(3 * time.Second)
				}
				continue
			}
			n, fail := 0, 0
			if w.cycle != time.Second && r.Intn(3) == 0 {
				if r.Intn(2) == 0 || o.name == "get" || o.name == "mget" {
					n = 1 + r.Intn(40)
				} else {
					fail = 1 + r.Intn(8)
				}
			}
			w.run(o, n, fail, cutAt(r))
		}
		look(w)
	}
}
