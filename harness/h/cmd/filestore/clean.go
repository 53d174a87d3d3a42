package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/zverif/vos"
	"verifh/sc"
	"verifh/tr"
)

type file struct {
	path, kind, content string
	dir                 bool
	key                 int
}

// world: everything below root, of which dir is the store's directory.
type cleanWorld struct {
	root, dir string
	f         *cachex.FileStore[int, string]
	files     []*file
	t0        time.Time
	own       *file // an entry that operations write
}

func (w *cleanWorld) add(path, kind, content string, dir bool) *file {
	x := &file{path: path, kind: kind, content: content, dir: dir, key: -1}
	if dir {
		os.MkdirAll(path, 0o777)
	} else {
		os.MkdirAll(filepath.Dir(path), 0o777)
		if err := os.WriteFile(path, []byte(content), 0o666); err != nil {
			panic(err)
		}
	}
	w.files = append(w.files, x)
	return x
}

// entry writes an entry, and finds the file that it is in.
func (w *cleanWorld) entry(key int, ttl time.Duration, kind string) *file {
	before := map[string]bool{}
	for _, p := range files(w.root) {
		before[p] = true
	}
	w.f.Set(tr.Ctx(tr.Traces), key, fmt.Sprint("value ", key), ttl)
	for _, p := range files(w.root) {
		if !before[p] {
			p = filepath.Join(w.root, p)
			b, _ := os.ReadFile(p)
			x := &file{path: p, kind: kind, content: string(b), key: key}
			w.files = append(w.files, x)
			return x
		}
	}
	return nil
}

// look is what there is: the known files, whether others appeared or one has changed.
func (w *cleanWorld) look(op string, p int, res any) tr.Ev {
	left := []int{}
	changed, extra := 0, 0
	known := map[string]bool{}
	for i, f := range w.files {
		known[f.path] = true
		st, err := os.Stat(f.path)
		if err != nil {
			continue
		}
		left = append(left, i+1)
		if f.dir != st.IsDir() {
			changed++
		}
		if b, _ := os.ReadFile(f.path); !f.dir && string(b) != f.content && f != w.own {
			changed++
		}
	}
	filepath.WalkDir(w.root, func(q string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && d.Type()&fs.ModeSymlink == 0 && !known[q] {
			extra++
		}
		return nil
	})
	e := tr.Ev{"op": op, "p": p, "res": res, "left": left, "changed": changed, "extra": extra, "escapes": len(vos.Escapes)}
	vos.Escapes = nil
	return e
}

func (w *cleanWorld) do(op string, f func() any) bool {
	tr.Busy(true, tr.Ev{"op": op, "left": []int{}, "changed": 0, "extra": 0, "escapes": 0})
	p, res := tr.Try(f)
	synctest.Wait()
	tr.Busy(false, nil)
	tr.Add(w.look(op, p, res))
	return p == 0
}

func newClean(cycle time.Duration) *cleanWorld {
	dir := newDir()
	root := filepath.Dir(filepath.Dir(filepath.Dir(dir)))
	vos.Inside, vos.Escapes = root, nil
	return &cleanWorld{root: root, dir: dir, f: &cachex.FileStore[int, string]{Dir: spell(dir), GCCycle: cycle}, t0: time.Now()}
}

// fill puts files of all kinds everywhere.
func (w *cleanWorld) fill() (mortal []int) {
	r := tr.Rng
	var fs []*file
	add := func(f *file) {
		if f != nil {
			fs = append(fs, f)
		}
	}
	for k := 0; k < 2+r.Intn(4); k++ {
		switch r.Intn(4) {
		case 0, 1:
			add(w.entry(k, 1000*time.Hour, "live"))
		case 2:
			add(w.entry(k, -time.Second, "dead"))
		case 3:
			if f := w.entry(k, 10*time.Minute, "live"); f != nil {
				f.kind = "mortal"
				add(f)
			}
		}
	}
	if w.own = w.entry(200, 1000*time.Hour, "live"); w.own != nil {
		fs = append(fs, w.own)
	}
	// damaged cache files, next to the good ones or at the top
	for n := r.Intn(3); n > 0; n-- {
		d := w.dir
		if len(fs) > 0 && r.Intn(2) == 0 {
			d = filepath.Dir(fs[r.Intn(len(fs))].path)
		}
		w.add(filepath.Join(d, fmt.Sprint("bad", n, ".cache")), "bad", []string{"", "null", "{}", "xyz", "{\"Data\":\"x\"}"}[r.Intn(5)], false)
	}
	// what is not a cache file: in the store's directory ...
	good := "{\"Data\":\"x\",\"Exp\":1}"
	d := w.dir
	if len(fs) > 0 && r.Intn(2) == 0 {
		d = filepath.Dir(fs[r.Intn(len(fs))].path)
	}
	names := []string{"readme.txt", "cache", "x.cache.bak", "x.cache~", "x.Cache", "xcache", "x.cach", "cache.x", "x.cache ", ".cachex", "noext"}
	for n := 1 + r.Intn(3); n > 0; n-- {
		w.add(filepath.Join(d, names[r.Intn(len(names))]), "other", []string{"", good, "hello"}[r.Intn(3)], false)
	}
	w.add(filepath.Join(d, "folder.cache"), "other", "", true)
	w.add(filepath.Join(d, "empty"), "other", "", true)
	if r.Intn(2) == 0 {
		w.add(filepath.Join(d, "folder.cache", "keep.txt"), "other", "", false)
	}
	if r.Intn(6) == 0 {
		w.deep(d)
	}
	// ... and outside: beside and above it, and where a link leads
	w.add(filepath.Join(filepath.Dir(w.dir), "beside.cache"), "other", good, false)
	w.add(filepath.Join(w.dir+"2", "abc", "alike.cache"), "other", "", false)
	w.add(filepath.Join(filepath.Dir(filepath.Dir(w.dir)), "above.cache"), "other", "null", false)
	out := filepath.Join(w.root, "elsewhere")
	w.add(filepath.Join(out, "linked.cache"), "other", good, false)
	w.add(filepath.Join(out, "sub", "linked.cache"), "other", "", false)
	os.Symlink(out, filepath.Join(w.dir, "link"))
	// the same file twice is one
	seen := map[string]bool{}
	var u []*file
	for _, f := range w.files {
		if !seen[f.path] {
			seen[f.path] = true
			u = append(u, f)
		} else {
			b, _ := os.ReadFile(f.path)
			for _, g := range u {
				if g.path == f.path {
					g.content = string(b)
				}
			}
		}
	}
	w.files = u
	for i, f := range u {
		if f.kind == "mortal" {
			f.kind = "live"
			mortal = append(mortal, i+1)
		}
	}
	return mortal
}

// deep makes directories in d until their path is too long for them to be read, with an early or a late name.
func (w *cleanWorld) deep(d string) {
	name := []string{"+", "g"}[tr.Rng.Intn(2)] + strings.Repeat("d", 240)
	w.add(filepath.Join(d, name), "other", "", true)
	at := d
	if os.Chdir(d) != nil {
		panic("chdir")
	}
	for len(at) < 5000 {
		os.Mkdir(name, 0o777)
		if os.Chdir(name) != nil {
			panic("chdir")
		}
		at = filepath.Join(at, name)
	}
	os.Chdir(os.Getenv("VERIF_WORK"))
}

func (w *cleanWorld) begin() {
	ks := []string{}
	for _, f := range w.files {
		ks = append(ks, f.kind)
	}
	tr.Begin(tr.Ev{"files": ks})
}

func cleaning() {
	r := tr.Rng
	for i := 0; i < tr.Scale(700, 12000)/tr.Shards; i++ {
		cycle := []time.Duration{time.Second, 2 * time.Second, time.Minute, 0}[r.Intn(4)]
		w := newClean(cycle)
		mortal := w.fill()
		w.begin()
		eff := cycle
		if eff <= 0 {
			eff = time.Minute
		}
		absent := 100
		f := w.f
		// operations that remove nothing themselves: reading a key that is absent, or nothing
		quiet := []func() any{
			func() any { f.Get(tr.Ctx(tr.Traces), absent); return 0 },
			func() any { f.MGet(tr.Ctx(tr.Traces), absent, absent); return 0 },
			func() any { f.Delete(tr.Ctx(tr.Traces), absent); return 0 },
			func() any { f.Delete(tr.Ctx(tr.Traces)); return 0 },
			func() any { f.MGet(tr.Ctx(tr.Traces)); return 0 },
			func() any { f.MSet(tr.Ctx(tr.Traces), nil, time.Hour); return 0 },
		}
		if w.own != nil {
			quiet = append(quiet,
				func() any { f.Get(tr.Ctx(tr.Traces), 200); return 0 },
				func() any { f.MGet(tr.Ctx(tr.Traces), 200, 200); return 0 },
				func() any { f.Set(tr.Ctx(tr.Traces), 200, "y", 2000*time.Hour); return 0 },
				func() any { f.Set(tr.Ctx(tr.Traces), 200, fmt.Sprint(r.Int()), 2000*time.Hour); return 0 },
				func() any {
					f.MSet(tr.Ctx(tr.Traces), map[int]string{200: fmt.Sprint(r.Int())}, 2000*time.Hour)
					return 0
				},
				func() any {
					b, _ := os.ReadFile(w.own.path)
					f.Delete(tr.Ctx(tr.Traces), 200)
					synctest.Wait() // for a collection
					os.WriteFile(w.own.path, b, 0o666)
					return 0
				})
		}
		q := func() func() any { return quiet[r.Intn(len(quiet))] }
		w.do("touch", q())
		expired := false
		for j := 1 + r.Intn(4); j > 0; j-- {
			switch r.Intn(5) {
			case 0:
				w.do("touch", q())
			case 1:
				time.Sleep(eff / 4)
				w.do("touch", q())
			case 2, 3:
				time.Sleep([]time.Duration{2*eff + 2*time.Second, eff + time.Second + time.Millisecond}[r.Intn(2)])
				if !expired && time.Since(w.t0) > 10*time.Minute {
					expired = true
					e := w.look("expire", 0, 0)
					e["ids"] = tr.Ints(mortal)
					tr.Add(e)
				}
				w.do("collect", q())
			case 4:
				time.Sleep(11*time.Minute + time.Second)
				if !expired {
					expired = true
					e := w.look("expire", 0, 0)
					e["ids"] = tr.Ints(mortal)
					tr.Add(e)
				}
				w.do("collect", q())
			}
		}
		if r.Intn(2) == 0 {
			w.do("purge", func() any { return tr.B(w.f.Purge() != nil) })
			if r.Intn(2) == 0 {
				w.do("purge", func() any { return tr.B(w.f.Purge() != nil) })
			}
		}
		tr.End()
		dropDir()
	}
	// without a directory: the files of the directory the process is in must not be touched
	for i := 0; i < tr.Scale(80, 400)/tr.Shards; i++ {
		w := newClean(time.Second)
		w.fill()
		w.begin()
		f := &cachex.FileStore[int, string]{GCCycle: time.Second}
		for j, d := range []string{w.dir, filepath.Dir(w.dir), w.root} {
			if os.Chdir(d) != nil {
				panic("chdir")
			}
			for k := 0; k < 6; k++ {
				w.do("nodir", func() any {
					var err error
					switch (j + k) % 6 {
					case 0:
						err = f.Set(tr.Ctx(tr.Traces), 1, "x", time.Hour)
					case 1:
						err = f.MSet(tr.Ctx(tr.Traces), map[int]string{1: "x"}, time.Hour)
					case 2:
						err = f.MSet(tr.Ctx(tr.Traces), nil, time.Hour)
					case 3:
						err = f.Delete(tr.Ctx(tr.Traces), 0, 1)
					case 4:
						err = f.Delete(tr.Ctx(tr.Traces))
					case 5:
						err = f.Purge()
					}
					return tr.B(err != nil)
				})
				time.Sleep(3 * time.Second)
			}
		}
		os.Chdir(os.Getenv("VERIF_WORK"))
		tr.End()
		dropDir()
	}
	// files vanish while they are being removed
	for i := 0; i < tr.Scale(500, 10000)/tr.Shards; i++ {
		w := newClean(time.Second)
		w.fill()
		w.begin()
		w.f.Get(tr.Ctx(tr.Traces), 100)
		time.Sleep(5 * time.Second)
		h := []int{}
		task := func() {
			p, res := sc.TryKill(func() any { return tr.B(w.f.Purge() != nil) })
			if p != 0 {
				res = 9
			}
			h = append(h, res.(int))
		}
		tasks := []func(){task}
		switch r.Intn(3) {
		case 0:
			tasks = append(tasks, task)
		case 1:
			tasks = append(tasks, func() { sc.TryKill(func() any { w.f.Delete(tr.Ctx(tr.Traces), 0, 1, 2, 3); return 0 }) })
		case 2:
			tasks = append(tasks, func() { sc.TryKill(func() any { w.f.Get(tr.Ctx(tr.Traces), 100); return 0 }) })
		}
		res := sc.Run(tasks, sc.Any(r, len(tasks), 60), sc.Opt{Settle: true})
		bad := tr.B(res.Stuck)
		for _, x := range h {
			bad |= x
		}
		tr.Add(w.look("purge", tr.B(bad > 1), bad))
		tr.End()
		dropDir()
	}
}
