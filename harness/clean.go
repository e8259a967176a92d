package main

import (
	"context"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/bobg/fab"
)

// The "clean" driver: histories of files coming and going and Clean targets running,
// see spec/FabClean.tla.

func init() {
	subcmds["cleangen"] = cleanGen
	subcmds["clean"] = cleanRun
}

type (
	cprogram struct {
		Paths   [][]string        `json:"paths"`
		Kinds   [][]string        `json:"kinds"`
		Init    []string          `json:"init"`
		Targets []ctarget         `json:"targets"`
		Decls   []cdecl           `json:"decls"`
		Cats    []string          `json:"cats"`
		MaxOps  int               `json:"maxops"`
		Names   map[string]string `json:"names"`
	}
	ctarget struct {
		Files []int  `json:"files"`
		Auto  bool   `json:"auto"`
		Form  string `json:"form"` // go, seq, map
		Spell bool   `json:"spell"`
	}
	cdecl struct {
		Outs  []int  `json:"outs"`
		Auto  bool   `json:"auto"`
		Form  string `json:"form"` // go, yaml
		Spell bool   `json:"spell"`
	}
	cop struct {
		Op string `json:"op"`
		I  int    `json:"i"`
		K  string `json:"k"`
		Ts []int  `json:"ts"`
	}
	cscript struct {
		Prog  cprogram `json:"prog"`
		Steps []cop    `json:"steps"`
		Seed  int64    `json:"seed"`
	}
	ctrace struct {
		Prog   cprogram `json:"prog"`
		Events []fevent `json:"events"`
	}
)

func (p cprogram) name(path []string) string {
	var segs []string
	for _, s := range path {
		if n, ok := p.Names[s]; ok {
			s = n
		}
		segs = append(segs, s)
	}
	return filepath.Join(segs...)
}

// Another way of writing a path.
func respell(r *rand.Rand, name string) string {
	if strings.HasPrefix(name, "/") {
		return name[:strings.LastIndex(name, "/")] + []string{"/", "//", "/./"}[r.Intn(3)] + name[strings.LastIndex(name, "/")+1:]
	}
	return []string{"./", "", ".//"}[r.Intn(3)] + name
}

const (
	cfile1 = "one\n"
	cfile2 = ""
)

func (p cprogram) snapshot(top string) []fileEntry2 {
	rev := map[string]string{}
	for s, n := range p.Names {
		rev[n] = s
	}
	result := []fileEntry2{}
	must(filepath.WalkDir(top, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if path == top {
			return nil
		}
		rel, err := filepath.Rel(top, path)
		if err != nil {
			return err
		}
		var segs []string
		for _, s := range strings.Split(rel, "/") {
			if a, ok := rev[s]; ok {
				s = a
			}
			segs = append(segs, s)
		}
		e := fileEntry2{P: segs}
		switch {
		case d.IsDir():
			e.C = "dir"
		case d.Type() == fs.ModeSymlink:
			e.C = "link"
		default:
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			switch string(b) {
			case cfile1:
				e.C = "f1"
			case cfile2:
				e.C = "f2"
			default:
				e.C = "file " + string(b)
			}
		}
		result = append(result, e)
		return nil
	}))
	return result
}

type fileEntry2 struct {
	P []string `json:"p"`
	C string   `json:"c"`
}

func yamlStr(s string) string {
	return fmt.Sprintf("%q", s)
}

func (s cscript) exec(dir string, idx int) ctrace {
	p := s.Prog
	tr := ctrace{Prog: p, Events: []fevent{}}
	r := rand.New(rand.NewSource(s.Seed))
	base := filepath.Join(dir, fmt.Sprintf("c%d", idx))
	top := filepath.Join(base, "top")
	must(os.MkdirAll(top, 0755))
	must(os.Mkdir(filepath.Join(base, "cwd"), 0755))
	must(os.Chdir(filepath.Join(base, "cwd")))
	defer func() {
		must(os.Chdir(dir))
		must(filepath.WalkDir(base, func(path string, d fs.DirEntry, err error) error {
			if err == nil && d.IsDir() {
				err = os.Chmod(path, 0755)
			}
			return err
		}))
		must(os.RemoveAll(base))
	}()
	emit := func(ev fevent) { tr.Events = append(tr.Events, ev) }
	put := func(path []string, k string) {
		name := filepath.Join(top, p.name(path))
		must(os.MkdirAll(filepath.Dir(name), 0755))
		switch k {
		case "dir":
			must(os.MkdirAll(name, 0755))
		case "link":
			must(os.Symlink(filepath.Join(top, []string{"kept/file", "kept", "nothing", p.name(path)}[r.Intn(4)]), name))
		case "f1":
			must(os.WriteFile(name, []byte(cfile1), []fs.FileMode{0644, 0444}[r.Intn(2)]))
		case "f2":
			must(os.WriteFile(name, []byte(cfile2), 0644))
		default:
			panic("HARNESS: kind " + k)
		}
	}
	put([]string{"kept", "file"}, "f1")
	for i, k := range p.Init {
		if k != "" {
			put(p.Paths[i], k)
		}
	}
	con := fab.NewController(top)
	path := func(i int, goForm, spell bool) string {
		name := p.name(p.Paths[i-1])
		if goForm {
			if r.Intn(3) == 0 {
				name = filepath.Join("../..", filepath.Base(base), "top", name)
			} else {
				name = filepath.Join(top, name)
			}
		}
		if spell {
			name = respell(r, name)
		}
		return name
	}
	var (
		targets  []fab.Target
		abstract []fevent
	)
	for i, t := range p.Targets {
		ev := fevent{"files": [][]string{}, "auto": t.Auto}
		var files []string
		for _, k := range t.Files {
			files = append(files, path(k, t.Form == "go", t.Spell))
			ev["files"] = append(ev["files"].([][]string), p.Paths[k-1])
		}
		abstract = append(abstract, ev)
		switch t.Form {
		case "go":
			// With room for more.
			targets = append(targets, &fab.Clean{Files: append(make([]string, 0, len(files)+r.Intn(8)), files...), Autoclean: t.Auto})
		default:
			doc := fmt.Sprintf("Clean%d: !Clean\n", i)
			if t.Form == "map" {
				if t.Auto || r.Intn(2) == 0 {
					doc += fmt.Sprintf("  Autoclean: %v\n", t.Auto)
				}
				if len(files) > 0 {
					doc += "  Files:\n"
				}
			}
			for _, f := range files {
				doc += "  - " + yamlStr(f) + "\n"
			}
			if t.Form == "map" && len(files) == 0 && !strings.Contains(doc, "Auto") {
				doc = fmt.Sprintf("Clean%d: !Clean {}\n", i)
			}
			if t.Form == "seq" && len(files) == 0 {
				doc = fmt.Sprintf("Clean%d: !Clean []\n", i)
			}
			must(con.ReadYAML(strings.NewReader(doc), ""))
			target, _ := con.RegistryTarget(fmt.Sprintf("Clean%d", i))
			targets = append(targets, target)
		}
	}
	emit(fevent{"e": "init", "fs": p.snapshot(top)})
	ndecl := 0
	for _, op := range s.Steps {
		// (What there is may differ from what the specification's behaviour had,
		// after a Clean target that failed.)
		if op.I > 0 && op.Op != "declare" {
			name := filepath.Join(top, p.name(p.Paths[op.I-1]))
			info, err := os.Lstat(name)
			if err == nil && op.Op == "lock" && !info.IsDir() {
				continue
			}
			parent, perr := os.Lstat(filepath.Dir(name))
			if perr != nil || (op.Op == "put") == (err == nil) {
				continue
			}
			if op.Op != "lock" {
				locked := parent.Mode().Perm()&0200 == 0
				must2(filepath.WalkDir(name, func(path string, d fs.DirEntry, err error) error {
					if err != nil || !d.IsDir() {
						return err
					}
					info, err := d.Info()
					if err == nil && info.Mode().Perm()&0200 == 0 {
						locked = true
					}
					return err
				}))
				if locked {
					continue
				}
			}
		}
		switch op.Op {
		case "put":
			put(p.Paths[op.I-1], op.K)
			emit(fevent{"e": "put", "p": p.Paths[op.I-1], "k": op.K})
		case "del":
			must(os.RemoveAll(filepath.Join(top, p.name(p.Paths[op.I-1]))))
			emit(fevent{"e": "del", "p": p.Paths[op.I-1]})
		case "lock":
			name := filepath.Join(top, p.name(p.Paths[op.I-1]))
			info, err := os.Stat(name)
			must(err)
			must(os.Chmod(name, info.Mode().Perm()^0200))
			emit(fevent{"e": "lock", "p": p.Paths[op.I-1]})
		case "declare":
			d := p.Decls[op.I-1]
			ndecl++
			outs := []string{}
			ev := fevent{"e": "declare", "outs": [][]string{}, "auto": d.Auto}
			for _, k := range d.Outs {
				outs = append(outs, path(k, d.Form == "go", d.Spell))
				ev["outs"] = append(ev["outs"].([][]string), p.Paths[k-1])
			}
			if d.Form == "go" {
				var opts []fab.FilesOpt
				if d.Auto || r.Intn(2) == 0 {
					opts = append(opts, fab.Autoclean(d.Auto))
				}
				fab.Files(fab.Shellf(":"), []string{filepath.Join(top, "kept/file")}, outs, opts...)
			} else {
				doc := fmt.Sprintf("Files%d: !Files\n  Target: !Command\n    Shell: ':'\n  In: [kept/file]\n", ndecl)
				if len(outs) > 0 {
					doc += "  Out:\n"
				}
				for _, f := range outs {
					doc += "  - " + yamlStr(f) + "\n"
				}
				if d.Auto || r.Intn(2) == 0 {
					doc += fmt.Sprintf("  Autoclean: %v\n", d.Auto)
				}
				must(con.ReadYAML(strings.NewReader(doc), ""))
			}
			emit(ev)
		case "clean", "dry":
			ctx := fab.WithDryRun(context.Background(), op.Op == "dry")
			verbose := r.Intn(4) == 0
			ctx = fab.WithVerbose(ctx, verbose)
			var (
				ts     []fab.Target
				abs    []fevent
				before []fab.Clean
			)
			for _, t := range op.Ts {
				ts = append(ts, targets[t-1])
				abs = append(abs, abstract[t-1])
				c := *targets[t-1].(*fab.Clean)
				c.Files = append([]string{}, c.Files...)
				before = append(before, c)
			}
			// (A controller runs a target only once.)
			con2 := fab.NewController(top)
			done := make(chan error, 1)
			go func() {
				switch r.Intn(4) {
				case 0:
					done <- con2.Run(ctx, fab.All(ts...))
				case 1:
					done <- con2.Run(ctx, fab.Seq(ts...))
				default:
					done <- con2.Run(ctx, ts...)
				}
			}()
			var err error
			select {
			case err = <-done:
			case <-time.After(hangTimeout):
				emit(fevent{"e": "stuck"})
				return tr
			}
			same := true
			for i, t := range ts {
				c := *t.(*fab.Clean)
				c.Files = append([]string{}, c.Files...)
				same = same && reflect.DeepEqual(c, before[i])
			}
			emit(fevent{"e": "clean", "ts": abs, "dry": op.Op == "dry", "ok": err == nil, "same": same, "fs": p.snapshot(top)})
		default:
			panic("HARNESS: bad op " + op.Op)
		}
	}
	return tr
}

func cleanRun(args []string) error {
	f := newFlags("clean")
	f.Parse(args)
	var scripts []cscript
	if err := readJSON(f.in, &scripts); err != nil {
		return err
	}
	return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(tr any) bool {
		evs := tr.(ctrace).Events
		return len(evs) > 0 && evs[len(evs)-1]["e"] == "stuck"
	})
}

func cleanGen(args []string) error {
	f := newFlags("cleangen")
	f.Parse(args)
	r := rand.New(rand.NewSource(f.seed))
	progs := make([]cprogram, 0, f.n)
	for i := 0; i < f.n; i++ {
		progs = append(progs, randClean(r))
	}
	return writeJSON(f.out, progs)
}

func randClean(r *rand.Rand) cprogram {
	all := [][]string{{"a"}, {"b"}, {"c"}, {"d"}, {"d", "a"}, {"d", "b"}, {"d", "e"}, {"d", "e", "a"}, {"g"}, {"g", "x"}, {"h"}, {"i"}}
	p := cprogram{Paths: all, MaxOps: 8 + r.Intn(12), Names: map[string]string{}, Decls: []cdecl{}}
	for _, path := range all {
		kinds := []string{"f1", "f2", "link", "dir"}
		for _, q := range all {
			if len(q) > len(path) && isPrefix(path, q) {
				kinds = []string{"dir"}
			}
		}
		p.Kinds = append(p.Kinds, kinds)
		k := ""
		if r.Intn(3) > 0 {
			k = kinds[r.Intn(len(kinds))]
		}
		// Parents must exist.
		for i, q := range p.Paths[:len(p.Init)] {
			if len(q) == len(path)-1 && isPrefix(q, path) && p.Init[i] == "" {
				k = ""
			}
		}
		p.Init = append(p.Init, k)
	}
	if r.Intn(2) == 0 {
		used := map[string]bool{}
		for _, s := range []string{"a", "b", "c", "x", "d"} {
			n := weirdNames[r.Intn(len(weirdNames))]
			if r.Intn(2) == 0 && !used[n] {
				used[n] = true
				p.Names[s] = n
			}
		}
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		t := ctarget{Files: []int{}, Auto: r.Intn(2) == 0, Form: []string{"go", "go", "seq", "map"}[r.Intn(4)], Spell: r.Intn(4) == 0}
		for m := r.Intn(6); m > 0; m-- {
			t.Files = append(t.Files, 1+r.Intn(len(all)))
		}
		if t.Form == "seq" {
			t.Auto = false
		}
		p.Targets = append(p.Targets, t)
	}
	for k := r.Intn(5); k > 0; k-- {
		d := cdecl{Outs: []int{}, Auto: r.Intn(3) > 0, Form: []string{"go", "yaml"}[r.Intn(2)], Spell: r.Intn(4) == 0}
		for m := r.Intn(4); m > 0; m-- {
			d.Outs = append(d.Outs, 1+r.Intn(len(all)))
		}
		p.Decls = append(p.Decls, d)
	}
	p.Cats = cats(map[string]int{"put": 5, "del": 1, "lock": 1, "declare": 3, "clean": 4, "both": 2, "dry": 1})
	return p
}
