package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
)

// The "files" driver: histories of edits and builds of projects with Files targets,
// see spec/FabFiles.tla and spec/FabFilesImpl.tla.

func init() {
	subcmds["filesgen"] = filesGen
	subcmds["files"] = filesRun
	subcmds["fileschild"] = filesChild
}

type (
	// What the specification knows about a project.
	fproject struct {
		Nodes  []fnode    `json:"nodes"`
		Paths  [][]string `json:"paths"`
		Init   []int      `json:"init"`
		K      int        `json:"k"`
		Rootss [][]int    `json:"rootss"`
		Cats   []string   `json:"cats"`
		Ws     []int      `json:"ws"`
		MaxOps int        `json:"maxops"`
		Conc   fconc      `json:"conc"` // how to make it concrete
	}
	fnode struct {
		Inss   [][][]string `json:"inss"`
		Outs   [][]string   `json:"outs"`
		Writes []int        `json:"writes"`
		Sub    int          `json:"sub"`
		Rules  []string     `json:"rules"`
		Trees  []ftree      `json:"trees"`
	}
	ftree struct {
		T string       `json:"t"`
		P string       `json:"p,omitempty"`
		A []string     `json:"a,omitempty"`
		C []ftree      `json:"c,omitempty"`
		F *fab.Command `json:"f,omitempty"`
		B bool         `json:"b,omitempty"`
	}
	fconc struct {
		Names    map[string]string `json:"names"`
		Contents string            `json:"contents"`
		Proc     bool              `json:"proc"`
		Links    bool              `json:"links"`
		Verbose  bool              `json:"verbose"`
		KeepTime bool              `json:"keeptime"`
		DB       string            `json:"db"`
	}
	fop struct {
		Op    string `json:"op"`
		P     int    `json:"p"`
		Q     int    `json:"q"`
		V     int    `json:"v"`
		X     int    `json:"x"`
		C     []int  `json:"c"`
		Force bool   `json:"force"`
		Dry   bool   `json:"dry"`
		DB    string `json:"db"`
		Roots []int  `json:"roots"`
		Fail  int    `json:"fail"`
		Crash int    `json:"crash"`
		When  string `json:"when"`
		Plan  []int  `json:"plan"`
	}
	fscript struct {
		Prog  fproject `json:"prog"`
		Steps []fop    `json:"steps"`
		Seed  int64    `json:"seed"`
	}
	fileEntry struct {
		P []string `json:"p"`
		C string   `json:"c"`
	}
	fdef struct {
		Ins  [][]string `json:"ins"`
		Outs [][]string `json:"outs"`
		Rule string     `json:"rule"`
		Sub  int        `json:"sub"`
	}
	fevent = map[string]any
	ftrace struct {
		Prog   fproject `json:"prog"`
		Events []fevent `json:"events"`
	}
	// One build, in this process or in a child.
	fbuild struct {
		Proj   fproject `json:"proj"`
		Rix    []int    `json:"rix"`
		Iix    []int    `json:"iix"`
		Op     fop      `json:"op"`
		Top    string   `json:"top"`    // the project's directory
		Prefix string   `json:"prefix"` // of file names
		DB     string   `json:"db"`
		Seed   int64    `json:"seed"`
		Spell  bool     `json:"spell"`
		ByName bool     `json:"byname"`
		Log    string   `json:"log"`
	}
)

// Targets

// fmain is the subtarget that does something.
type fmain struct {
	Name, Param string
	b           *fbuilder
	id          int
}

func (t *fmain) Desc() string { return "main" }
func (t *fmain) Run(ctx context.Context, con *fab.Controller) error {
	return t.b.leaf(ctx, t.id)
}

// The same, with a different Go type.
type fmain2 struct {
	Name, Param string
	b           *fbuilder
	id          int
}

func (t *fmain2) Desc() string { return "main" }
func (t *fmain2) Run(ctx context.Context, con *fab.Controller) error {
	return t.b.leaf(ctx, t.id)
}

// fdecor does nothing.
type fdecor struct{ Param string }

func (t *fdecor) Desc() string                                 { return "decor" }
func (t *fdecor) Run(context.Context, *fab.Controller) error { return nil }

// The key of a rule: what it is, leaving out how its parts are referred to.
func (t ftree) key() string {
	b, err := json.Marshal(t.strip())
	must(err)
	return string(b)
}

func (t ftree) strip() ftree {
	if t.T == "byname" {
		return t.C[0].strip()
	}
	var c []ftree
	for _, s := range t.C {
		c = append(c, s.strip())
	}
	t.C = c
	return t
}

type fbuilder struct {
	fbuild
	con     *fab.Controller
	targets []fab.Target
	names   int
	r       *rand.Rand

	mu   sync.Mutex
	emit func(fevent)
	adds int
}

func (p fproject) concrete(path []string) string {
	var segs []string
	for _, s := range path {
		n, ok := p.Conc.Names[s]
		if !ok {
			n = s
		}
		segs = append(segs, n)
	}
	return filepath.Join(segs...)
}

var fcontentCache = map[string][]byte{}

func fcontent(kind string, v int) []byte {
	key := fmt.Sprint(kind, v)
	if b, ok := fcontentCache[key]; ok {
		return b
	}
	var b []byte
	switch kind {
	case "empty":
		b = bytes.Repeat([]byte("x"), v-1)
	case "bigtail":
		b = append(bytes.Repeat([]byte("0123456789abcdef"), 9000), byte('0'+v))
	case "bigmid":
		b = bytes.Repeat([]byte("0123456789abcdef"), 9000)
		b[70000] = byte('0' + v)
	case "huge":
		b = bytes.Repeat([]byte("0123456789abcde\n"), 150000)
		b[len(b)-100] = byte('0' + v)
	case "same":
		b = []byte(fmt.Sprintf("%d", v))
	case "space":
		b = []byte("text" + strings.Repeat(" ", v) + "\n")
	case "lines":
		b = []byte(strings.Repeat("line\r\n", v))
	default:
		b = []byte(fmt.Sprintf("content %d\n", v))
	}
	fcontentCache[key] = b
	return b
}

func (p fproject) snapshot(top string) []fileEntry {
	result := []fileEntry{}
	rev := map[string]string{}
	for s, n := range p.Conc.Names {
		rev[n] = s
	}
	ids := map[string]string{}
	for v := 1; v <= p.K; v++ {
		ids[string(fcontent(p.Conc.Contents, v))] = fmt.Sprint(v)
	}
	err := filepath.WalkDir(top, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(top, path)
		if err != nil {
			return err
		}
		if rel == "." {
			return nil
		}
		if strings.HasPrefix(rel, "zz-") { // not part of the project
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		var segs []string
		for _, s := range strings.Split(rel, string(filepath.Separator)) {
			if a, ok := rev[s]; ok {
				s = a
			}
			segs = append(segs, s)
		}
		if d.IsDir() {
			result = append(result, fileEntry{P: segs, C: "dir"})
			return nil
		}
		b, err := os.ReadFile(path)
		if errors.Is(err, fs.ErrPermission) {
			result = append(result, fileEntry{P: segs, C: "unreadable"})
			return nil
		}
		if err != nil {
			return err
		}
		id, ok := ids[string(b)]
		if !ok {
			h := sha256.Sum256(b)
			id = "#" + hex.EncodeToString(h[:8])
		}
		result = append(result, fileEntry{P: segs, C: id})
		return nil
	})
	must(err)
	return result
}

// Writes content v (0: none, 9: unreadable) to path p.
func (p fproject) put(top string, path []string, v int, link bool) {
	name := filepath.Join(top, p.concrete(path))
	info, serr := os.Stat(name)
	must2(os.Remove(name))
	if v == 0 {
		return
	}
	must(os.MkdirAll(filepath.Dir(name), 0755))
	mode := os.FileMode(0644)
	b := []byte("locked")
	if v != 9 {
		b = fcontent(p.Conc.Contents, v)
	}
	target := name
	if link {
		// A symbolic link to a file elsewhere.
		must(os.MkdirAll(filepath.Join(top, "zz-links"), 0755))
		h := sha256.Sum256([]byte(name))
		target = filepath.Join(top, "zz-links", hex.EncodeToString(h[:8]))
		must2(os.Remove(target))
		must(os.Symlink(target, name))
	}
	must(os.WriteFile(target, b, mode))
	if v == 9 {
		must(os.Chmod(target, 0))
	}
	if p.Conc.KeepTime {
		when := time.Unix(1500000000, 0)
		if serr == nil {
			when = info.ModTime()
		}
		must(os.Chtimes(target, when, when))
	}
}

// Like must, but missing files are fine.
func must2(err error) {
	if err != nil && !errors.Is(err, fs.ErrNotExist) {
		must(err)
	}
}

func (b *fbuilder) paths(list [][]string, spell bool) []string {
	var result []string
	for _, p := range list {
		name := b.Proj.concrete(p)
		if b.Prefix != "" {
			name = b.Prefix + "/" + name
		}
		result = append(result, name)
	}
	if spell {
		// Order and repetition do not matter.
		// (Those of nested targets are part of somebody's rule, though.)
		n := len(result)
		for i := 0; i < n; i++ {
			if b.r.Intn(3) == 0 {
				result = append(result, result[i])
			}
		}
		b.r.Shuffle(len(result), func(i, j int) { result[i], result[j] = result[j], result[i] })
	}
	return result
}

func (b *fbuilder) byName(t fab.Target) fab.Target {
	b.names++
	name := fmt.Sprintf("T%d", b.names)
	_, err := b.con.RegisterTarget(name, "", t)
	must(err)
	d, err := b.con.YAMLTarget(scalar(name), "")
	must(err)
	return d
}

func (b *fbuilder) tree(t ftree, x int) fab.Target {
	result := b.tree1(t, x)
	if b.ByName && b.r.Intn(2) == 0 {
		result = b.byName(result)
	}
	return result
}

func (b *fbuilder) tree1(t ftree, x int) fab.Target {
	var c []fab.Target
	for _, s := range t.C {
		c = append(c, b.tree(s, x))
	}
	switch t.T {
	case "main":
		return &fmain{Name: fmt.Sprint("main", x), Param: t.P, b: b, id: x}
	case "main2":
		return &fmain2{Name: fmt.Sprint("main", x), Param: t.P, b: b, id: x}
	case "sub":
		return b.targets[b.Proj.Nodes[x-1].Sub-1]
	case "decor":
		return &fdecor{Param: t.P}
	case "seq":
		return fab.Seq(c...)
	case "all":
		return fab.All(c...)
	case "deps":
		return fab.Deps(c[0], c[1:]...)
	case "arg":
		return fab.ArgTarget(c[0], t.A...)
	case "cmd":
		cmd := *t.F
		return &cmd
	case "clean":
		var files []string
		for _, a := range t.A {
			files = append(files, filepath.Join(b.Top, "zz-none", a))
		}
		return &fab.Clean{Files: files, Autoclean: t.B}
	}
	panic("HARNESS: bad tree " + t.T)
}

func (b *fbuilder) exits(ev fevent) {
	ev["fs"] = b.Proj.snapshot(b.Top)
	b.emit(ev)
}

func (b *fbuilder) leaf(ctx context.Context, x int) error {
	b.mu.Lock()
	b.emit(fevent{"e": "enter", "x": x})
	b.mu.Unlock()
	if b.r.Intn(4) == 0 {
		time.Sleep(200 * time.Microsecond)
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	dry := fab.GetDryRun(ctx)
	if !dry {
		if b.Op.Crash == x && b.Op.When == "early" {
			crash()
		}
		v := b.Op.Plan[x-1]
		if b.Op.Plan[x-1] == -1 && b.Op.Fail != x && b.Op.Crash != x {
			// The specification did not expect this to run, or it leaves its outputs alone.
		}
		if v >= 0 {
			for _, i := range b.Proj.Nodes[x-1].Writes {
				b.Proj.put(b.Top, b.Proj.Paths[i-1], v, false)
			}
		}
		if b.Op.Crash == x {
			crash()
		}
	}
	fail := b.Op.Fail == x && !dry
	b.exits(fevent{"e": "exit", "x": x, "ok": !fail})
	if fail {
		return fmt.Errorf("leaf %d failed", x)
	}
	return nil
}

func crash() {
	syscall.Kill(os.Getpid(), syscall.SIGKILL)
	select {}
}

// The database, instrumented.
type fdb struct {
	b     *fbuilder
	under fab.HashDB
}

var errInjected = errors.New("injected")

func (d *fdb) Has(ctx context.Context, h []byte) (bool, error) {
	if d.b.Op.DB == "haserr" {
		d.b.mu.Lock()
		defer d.b.mu.Unlock()
		return d.b.r.Intn(2) == 0, errInjected
	}
	return d.under.Has(ctx, h)
}

func (d *fdb) Add(ctx context.Context, h []byte) error {
	d.b.mu.Lock()
	d.b.adds++
	d.b.mu.Unlock()
	if d.b.Op.DB == "adderr" {
		return errInjected
	}
	return d.under.Add(ctx, h)
}

type memDB struct {
	mu sync.Mutex
	m  map[string]bool
}

func (d *memDB) Has(_ context.Context, h []byte) (bool, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.m[string(h)], nil
}

func (d *memDB) Add(_ context.Context, h []byte) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.m[string(h)] = true
	return nil
}

// Runs one build, up to and including its "end" event.
// The result is false if it gets stuck.
func (b fbuild) run(emit func(fevent), mem *memDB) bool {
	x := &fbuilder{fbuild: b, emit: emit, con: fab.NewController(b.Top), r: rand.New(rand.NewSource(b.Seed))}
	for i, n := range b.Proj.Nodes {
		t := x.tree(n.Trees[b.Rix[i]-1], i+1)
		spell := b.Spell
		for _, m := range b.Proj.Nodes {
			if m.Sub == i+1 {
				spell = false
			}
		}
		x.targets = append(x.targets, fab.Files(t, x.paths(n.Inss[b.Iix[i]-1], spell), x.paths(n.Outs, spell)))
	}
	ctx := context.Background()
	ctx = fab.WithForce(ctx, b.Op.Force)
	ctx = fab.WithDryRun(ctx, b.Op.Dry)
	ctx = fab.WithVerbose(ctx, b.Proj.Conc.Verbose)
	if b.Op.DB != "none" {
		var under fab.HashDB = mem
		if mem == nil {
			db, err := sqlite.Open(b.DB)
			must(err)
			defer db.Close()
			under = db
		}
		ctx = fab.WithHashDB(ctx, &fdb{b: x, under: under})
	}
	var roots []fab.Target
	for _, r := range b.Op.Roots {
		t := x.targets[r-1]
		if b.ByName && x.r.Intn(2) == 0 {
			t = x.byName(t)
		}
		roots = append(roots, t)
	}
	done := make(chan error, 1)
	go func() { done <- x.con.Run(ctx, roots...) }()
	select {
	case err := <-done:
		x.mu.Lock()
		defer x.mu.Unlock()
		x.exits(fevent{"e": "end", "x": 0, "ok": err == nil, "adds": x.adds})
		return true
	case <-time.After(hangTimeout):
		x.mu.Lock()
		defer x.mu.Unlock()
		emit(fevent{"e": "stuck", "x": 0})
		return false
	}
}

func filesChild(args []string) error {
	var b fbuild
	if err := readJSON(args[0], &b); err != nil {
		return err
	}
	if err := os.Chdir(b.Top); err != nil {
		return err
	}
	f, err := os.OpenFile(b.Log, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0644)
	if err != nil {
		return err
	}
	defer f.Close()
	b.run(func(ev fevent) {
		j, err := json.Marshal(ev)
		must(err)
		_, err = f.Write(append(j, '\n'))
		must(err)
	}, nil)
	return nil
}

func (s fscript) exec(dir string, idx int) ftrace {
	p := s.Prog
	top := filepath.Join(dir, fmt.Sprintf("p%d", idx))
	must(os.MkdirAll(top, 0755))
	defer func() {
		must(exec.Command("chmod", "-R", "u+rwx", top).Run())
		must(os.RemoveAll(top))
	}()
	r := rand.New(rand.NewSource(s.Seed))
	tr := ftrace{Prog: p, Events: []fevent{}}
	emit := func(ev fevent) { tr.Events = append(tr.Events, ev) }

	cm := make([]int, len(p.Paths))
	rix, iix := make([]int, len(p.Nodes)), make([]int, len(p.Nodes))
	for i := range p.Nodes {
		rix[i], iix[i] = 1, 1
	}
	links := map[int]bool{}
	isOut := map[int]bool{}
	for _, n := range p.Nodes {
		for _, w := range n.Writes {
			isOut[w] = true
		}
	}
	if p.Conc.Links {
		for i := range p.Paths {
			links[i] = !isOut[i+1] && r.Intn(2) == 0
		}
	}
	put := func(i, v int) {
		if v == cm[i] && v != 9 {
			return
		}
		cm[i] = v
		p.put(top, p.Paths[i], v, links[i])
	}
	// What is on disk now, in terms of content numbers.
	read := func() {
		for i := range cm {
			cm[i] = -1
		}
		for _, e := range p.snapshot(top) {
			for i, path := range p.Paths {
				if strings.Join(path, "/") == strings.Join(e.P, "/") {
					switch e.C {
					case "unreadable":
						cm[i] = 9
					case "dir":
					default:
						fmt.Sscan(e.C, &cm[i])
					}
				}
			}
		}
		for i := range cm {
			if cm[i] == -1 {
				cm[i] = 0
			}
		}
	}
	observe := func() { emit(fevent{"e": "fs", "x": 0, "fs": p.snapshot(top)}) }

	for i, v := range p.Init {
		put(i, v)
	}
	observe()

	var mem *memDB
	if p.Conc.DB == "mem" && !p.Conc.Proc {
		mem = &memDB{m: map[string]bool{}}
	}
	spell, byname := false, false
	for n, op := range s.Steps {
		switch op.Op {
		case "put":
			read()
			put(op.P-1, op.V)
			observe()
		case "del":
			read()
			put(op.P-1, 0)
			observe()
		case "swap":
			read()
			a, b := cm[op.P-1], cm[op.Q-1]
			put(op.P-1, b)
			put(op.Q-1, a)
			observe()
		case "mv":
			read()
			a := cm[op.P-1]
			put(op.P-1, 0)
			put(op.Q-1, a)
			observe()
		case "set":
			read()
			for i := range cm {
				put(i, op.C[i])
			}
			observe()
		case "rule":
			rix[op.X-1] = op.V
		case "ins":
			iix[op.X-1] = op.V
		case "touch":
			for _, path := range p.Paths {
				when := time.Unix(1000000000+int64(r.Intn(2000000000)), 0)
				must2(os.Chtimes(filepath.Join(top, p.concrete(path)), when, when))
			}
		case "respell":
			spell = !spell
		case "byname":
			byname = !byname
		case "run":
			b := fbuild{Proj: p, Rix: rix, Iix: iix, Op: op, Top: top, Prefix: top, DB: filepath.Join(top, "zz-hash.db"),
				Seed: r.Int63(), Spell: spell, ByName: byname, Log: filepath.Join(top, "zz-log")}
			defs := []fdef{}
			for i, nd := range p.Nodes {
				defs = append(defs, fdef{Ins: nd.Inss[iix[i]-1], Outs: nd.Outs, Rule: nd.Rules[rix[i]-1], Sub: nd.Sub})
			}
			emit(fevent{"e": "run", "x": n, "def": defs, "force": op.Force, "dry": op.Dry, "db": op.DB, "roots": op.Roots})
			if p.Conc.Proc {
				if !b.child(emit) {
					return tr
				}
			} else if !b.run(emit, mem) {
				return tr
			}
		default:
			panic("HARNESS: bad op " + op.Op)
		}
	}
	return tr
}

// Runs a build in a process of its own.
func (b fbuild) child(emit func(fevent)) bool {
	b.Prefix = ""
	in := filepath.Join(b.Top, "zz-in")
	must(writeJSON(in, b))
	must2(os.Remove(b.Log))
	cmd := exec.Command(os.Args[0], "fileschild", in)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	err := cmd.Run()
	var last string
	if f, err := os.Open(b.Log); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			var ev fevent
			must(json.Unmarshal(sc.Bytes(), &ev))
			emit(ev)
			last = ev["e"].(string)
		}
		must(sc.Err())
		f.Close()
	}
	if last == "stuck" {
		return false
	}
	if err == nil {
		return true
	}
	if strings.Contains(stderr.String(), "HARNESS") {
		panic(stderr.String())
	}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL && b.Op.Crash > 0 {
		emit(fevent{"e": "crash", "x": 0, "fs": b.Proj.snapshot(b.Top)})
		return true
	}
	emit(fevent{"e": "panic", "x": 0, "stderr": stderr.String()})
	return false
}

func filesRun(args []string) error {
	f := newFlags("files")
	hang := f.Duration("hang", hangTimeout, "how long until a build counts as stuck")
	f.Parse(args)
	hangTimeout = *hang
	var scripts []fscript
	if err := readJSON(f.in, &scripts); err != nil {
		return err
	}
	return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(tr any) bool {
		evs := tr.(ftrace).Events
		return len(evs) > 0 && evs[len(evs)-1]["e"] == "stuck"
	})
}

// Generation of projects

var weirdNames = []string{"with space", "new\nline", "-dash", ".hidden", "ünïcode", "a.tmp", "back~", "q\"uote", "semi;colon", "%41", "*", "tab\tx", "CVS", "_fab", "x.go", "$HOME"}

type filesProfile struct {
	cats       []string
	proc       int // percent
	maxops     int
	crash      bool
	maxnodes   int
	nested     int // percent
	contentsRe []string
}

func rep(s string, n int) []string {
	return strings.Split(strings.TrimSuffix(strings.Repeat(s+",", n), ","), ",")
}

func cats(m map[string]int) []string {
	var result []string
	for _, k := range sortedKeys(m) {
		if m[k] > 0 {
			result = append(result, rep(k, m[k])...)
		}
	}
	return result
}

var filesProfiles = map[string]filesProfile{
	"edits":  {cats: cats(map[string]int{"put": 3, "del": 1, "swap": 2, "mv": 2, "restore": 1, "save": 1, "build": 8, "fuzz": 1, "lock": 1}), proc: 10, maxops: 16, maxnodes: 3, nested: 20},
	"rules":  {cats: cats(map[string]int{"put": 1, "rule": 5, "ins": 2, "build": 8, "fuzz": 1}), proc: 10, maxops: 14, maxnodes: 2, nested: 30},
	"fresh":  {cats: cats(map[string]int{"put": 2, "del": 1, "restore": 3, "save": 3, "rule": 1, "ins": 1, "build": 9, "fuzz": 4, "swap": 1}), proc: 20, maxops: 18, maxnodes: 3, nested: 20},
	"modes":  {cats: cats(map[string]int{"put": 2, "del": 1, "restore": 1, "save": 1, "build": 6, "mode": 6, "fail": 4, "lock": 1}), proc: 10, maxops: 16, maxnodes: 3, nested: 20},
	"crash":  {cats: cats(map[string]int{"put": 2, "del": 1, "restore": 1, "save": 1, "build": 5, "mode": 1, "fail": 1, "crash": 4}), proc: 100, maxops: 12, maxnodes: 3, nested: 15},
	"chains": {cats: cats(map[string]int{"put": 4, "del": 2, "rule": 1, "ins": 1, "build": 7, "fail": 2, "mode": 1, "fuzz": 1}), proc: 5, maxops: 12, maxnodes: 5, nested: 15},
	"dry":    {cats: cats(map[string]int{"put": 2, "del": 1, "build": 4, "mode": 8, "fail": 1}), proc: 5, maxops: 14, maxnodes: 3, nested: 20},
}

func filesGen(args []string) error {
	f := newFlags("filesgen")
	f.Parse(args)
	r := rand.New(rand.NewSource(f.seed))
	projs := make([]fproject, 0, f.n)
	for i := 0; i < f.n; i++ {
		projs = append(projs, randFiles(r, f.profile))
	}
	return writeJSON(f.out, projs)
}

func randFiles(r *rand.Rand, profile string) fproject {
	prof, ok := filesProfiles[profile]
	if !ok {
		panic("HARNESS: no such profile " + profile)
	}
	p := fproject{K: 3, Cats: prof.cats, MaxOps: prof.maxops, Ws: []int{0, 0, 0, 1, 2, 3, 4, 5}, Nodes: []fnode{}, Paths: [][]string{}}
	p.Conc.Contents = []string{"", "", "empty", "bigtail", "bigmid", "same", "space", "lines"}[r.Intn(8)]
	if r.Intn(25) == 0 {
		p.Conc.Contents = "huge"
	}
	p.Conc.Proc = r.Intn(100) < prof.proc
	p.Conc.Links = r.Intn(6) == 0
	p.Conc.Verbose = r.Intn(4) == 0
	p.Conc.KeepTime = r.Intn(3) == 0
	if r.Intn(2) == 0 {
		p.Conc.DB = "mem"
	}
	p.Conc.Names = map[string]string{}

	// Sources
	all := [][]string{{"a"}, {"b"}, {"d", "a"}, {"d", "b"}, {"d", "e", "a"}, {"d", "e", "f", "b"}, {"g", "a"}}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	nsrc := 2 + r.Intn(4)
	idx := func(path []string) int {
		for i, q := range p.Paths {
			if strings.Join(q, "/") == strings.Join(path, "/") {
				return i + 1
			}
		}
		p.Paths = append(p.Paths, path)
		p.Init = append(p.Init, 0)
		return len(p.Paths)
	}
	var items [][]string // possible inputs
	for _, s := range all[:nsrc] {
		i := idx(s)
		if r.Intn(4) > 0 {
			p.Init[i-1] = 1 + r.Intn(p.K)
		}
		items = append(items, s)
		for k := 1; k < len(s); k++ {
			items = append(items, s[:k])
		}
	}
	if r.Intn(2) == 0 {
		for _, s := range []string{"a", "b", "d", "e", "f", "g", "o1", "x"} {
			if r.Intn(2) == 0 {
				k := r.Intn(len(weirdNames))
				p.Conc.Names[s] = weirdNames[k]
				for t, n := range p.Conc.Names {
					if t != s && n == weirdNames[k] {
						delete(p.Conc.Names, s)
					}
				}
			}
		}
	}

	nnodes := 1 + r.Intn(prof.maxnodes)
	nestedIn := map[int]bool{}
	produced := [][]string{}
	for x := 1; x <= nnodes; x++ {
		n := fnode{Inss: [][][]string{}, Outs: [][]string{}, Writes: []int{}}
		if x > 1 && !nestedIn[x-1] && r.Intn(100) < prof.nested {
			// (Nobody else refers to that one.)
			n.Sub = x - 1
			nestedIn[x-1] = true
			// Outputs of nested targets are not inputs of others.
		}
		if n.Sub == 0 {
			switch r.Intn(5) {
			case 0: // no declared outputs
			case 1, 2:
				o := []string{fmt.Sprint("o", x)}
				n.Outs = append(n.Outs, o)
				n.Writes = append(n.Writes, idx(o))
				if r.Intn(3) == 0 {
					o := []string{fmt.Sprint("q", x), "o"}
					n.Outs = append(n.Outs, o)
					n.Writes = append(n.Writes, idx(o))
				}
			case 3:
				o := []string{fmt.Sprint("p", x)}
				n.Outs = append(n.Outs, o)
				n.Writes = append(n.Writes, idx([]string{o[0], "x"}))
				switch r.Intn(4) {
				case 0:
					n.Writes = append(n.Writes, idx([]string{o[0], "y", "z"}))
				case 1: // far below the output
					far := []string{o[0]}
					for k := 3 + r.Intn(6); k > 0; k-- {
						far = append(far, []string{"d", "e", "f", "y"}[r.Intn(4)])
					}
					n.Writes = append(n.Writes, idx(append(far, "z")))
				}
			case 4:
				o := []string{fmt.Sprint("p", x), "y"}
				n.Outs = append(n.Outs, o)
				n.Writes = append(n.Writes, idx([]string{o[0], "y", "z"}))
			}
		}
		pickIns := func() [][]string {
			ins := [][]string{}
			for k := r.Intn(3); k >= 0; k-- {
				if len(produced) > 0 && r.Intn(5) < 3 {
					q := produced[r.Intn(len(produced))]
					ins = append(ins, q)
				} else {
					ins = append(ins, items[r.Intn(len(items))])
				}
			}
			if len(n.Outs) > 0 && r.Intn(12) == 0 {
				ins = append(ins, n.Outs[0])
			}
			return dedup(ins)
		}
		first := pickIns()
		n.Inss = append(n.Inss, first)
		for k := 0; k < 2; k++ {
			alt := pickIns()
			if r.Intn(2) == 0 {
				alt = dedup(append(append([][]string{}, first...), alt[0]))
			}
			n.Inss = append(n.Inss, alt)
		}
		// The rule, and variations of it.
		core := ftree{T: "main", P: "p0"}
		if n.Sub > 0 {
			core = ftree{T: "sub"}
		}
		base := wrapTree(r, core, r.Intn(3))
		n.Trees = []ftree{base}
		// (The subtargets of different nodes have different names.)
		rule := func(t ftree) string { return fmt.Sprint(x, ":", t.key()) }
		n.Rules = []string{rule(base)}
		for k := 0; k < 12 && len(n.Trees) < 4; k++ {
			from := n.Trees[r.Intn(len(n.Trees))]
			v := mutateTree(r, from)
			if key := rule(v); !contains(n.Rules, key) {
				n.Trees = append(n.Trees, v)
				n.Rules = append(n.Rules, key)
			}
		}
		p.Nodes = append(p.Nodes, n)
		// Which outputs may be used by later nodes: those of nodes that don't become nested.
		if x < nnodes && r.Intn(100) < 80 {
			for _, o := range n.Outs {
				produced = append(produced, o)
				for _, w := range n.Writes {
					if q := p.Paths[w-1]; isPrefix(o, q) && len(q) > len(o) {
						produced = append(produced, q)
						if len(q) > len(o)+1 {
							produced = append(produced, q[:len(o)+1+r.Intn(len(q)-len(o)-1)])
						}
					}
				}
			}
			if len(n.Outs) > 0 {
				nestedIn[x] = true // not to be nested
			}
		}
	}
	var top []int
	for x := 1; x <= nnodes; x++ {
		used := false
		for _, n := range p.Nodes {
			if n.Sub == x {
				used = true
			}
		}
		if !used {
			top = append(top, x)
		}
	}
	p.Rootss = [][]int{{top[len(top)-1]}, top}
	if len(top) > 1 {
		k := r.Intn(len(top))
		p.Rootss = append(p.Rootss, []int{top[k]})
	}
	return p
}

func dedup(list [][]string) [][]string {
	seen := map[string]bool{}
	result := [][]string{}
	for _, p := range list {
		k := strings.Join(p, "/")
		if !seen[k] {
			seen[k] = true
			result = append(result, p)
		}
	}
	sort.Slice(result, func(i, j int) bool { return strings.Join(result[i], "/") < strings.Join(result[j], "/") })
	return result
}

func isPrefix(p, q []string) bool {
	if len(p) > len(q) {
		return false
	}
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

func contains(list []string, s string) bool {
	for _, t := range list {
		if t == s {
			return true
		}
	}
	return false
}

func randDecor(r *rand.Rand) ftree {
	switch r.Intn(8) {
	case 0:
		return ftree{T: "cmd", F: randCommand(r)}
	case 1:
		return ftree{T: "clean", A: []string{"u", "v"}[:1+r.Intn(2)], B: r.Intn(3) == 0}
	}
	return ftree{T: "decor", P: fmt.Sprint("x", r.Intn(3))}
}

func randCommand(r *rand.Rand) *fab.Command {
	c := &fab.Command{Shell: ":"}
	for k := r.Intn(3); k > 0; k-- {
		mutateCommand(r, c)
	}
	return c
}

func mutateCommand(r *rand.Rand, c *fab.Command) {
	switch r.Intn(9) {
	case 0:
		c.Shell, c.Cmd, c.Args = []string{":", "true", ": x"}[r.Intn(3)], "", nil
	case 1:
		c.Shell, c.Cmd, c.Args = "", "true", [][]string{{"a b"}, {"a", "b"}, {"b", "a"}, nil}[r.Intn(4)]
	case 2:
		c.Env = [][]string{nil, {"A=1"}, {"A=2"}, {"A=1", "B=1"}}[r.Intn(4)]
	case 3:
		c.Dir = []string{"", "/", "/tmp"}[r.Intn(3)]
	case 4:
		c.StdinFile = []string{"", "/dev/null", "/dev/zero"}[r.Intn(3)]
	case 5:
		c.StdoutFile = []string{"", "/dev/null", ">>/dev/null"}[r.Intn(3)]
		c.StderrFile = ""
	case 6:
		c.StderrFile = []string{"", "/dev/null", ">>/dev/null"}[r.Intn(3)]
		c.StdoutFile = ""
	case 7:
		c.Shell = c.Shell + " "
	case 8:
		if c.Cmd != "" {
			c.Args = append(append([]string{}, c.Args...), "z")
		}
	}
}

func wrapTree(r *rand.Rand, t ftree, depth int) ftree {
	for ; depth > 0; depth-- {
		switch r.Intn(6) {
		case 0, 1:
			c := []ftree{t}
			for k := r.Intn(3); k > 0; k-- {
				c = append(c, randDecor(r))
			}
			r.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
			t = ftree{T: []string{"seq", "all"}[r.Intn(2)], C: c}
		case 2:
			t = ftree{T: "deps", C: []ftree{t, randDecor(r)}}
		case 3:
			t = ftree{T: "deps", C: []ftree{randDecor(r), t}}
		case 4, 5:
			t = ftree{T: "arg", A: [][]string{{"a b"}, {"a", "b"}, {}, {"-x"}}[r.Intn(4)], C: []ftree{t}}
		}
	}
	return t
}

func cloneTree(t ftree) ftree {
	var u ftree
	b, err := json.Marshal(t)
	must(err)
	must(json.Unmarshal(b, &u))
	return u
}

func mutateTree(r *rand.Rand, t ftree) ftree {
	u := cloneTree(t)
	// A random node of the tree
	var nodes []*ftree
	var walk func(*ftree)
	walk = func(n *ftree) {
		nodes = append(nodes, n)
		for i := range n.C {
			walk(&n.C[i])
		}
	}
	walk(&u)
	n := nodes[r.Intn(len(nodes))]
	switch n.T {
	case "main", "main2":
		if r.Intn(4) == 0 {
			n.T = map[string]string{"main": "main2", "main2": "main"}[n.T]
		} else {
			n.P = fmt.Sprint("p", r.Intn(5))
		}
	case "decor":
		n.P = fmt.Sprint("x", r.Intn(5))
	case "seq", "all":
		switch r.Intn(4) {
		case 0:
			n.T = map[string]string{"seq": "all", "all": "seq"}[n.T]
		case 1:
			n.C = append(n.C, randDecor(r))
		case 2:
			if n.T == "seq" && len(n.C) > 1 {
				n.C[0], n.C[1] = n.C[1], n.C[0]
			}
		case 3:
			for i := range n.C {
				if n.C[i].T == "decor" || n.C[i].T == "cmd" || n.C[i].T == "clean" {
					n.C = append(n.C[:i], n.C[i+1:]...)
					break
				}
			}
		}
	case "deps":
		for i := range n.C {
			if n.C[i].T == "decor" {
				n.C[i].P = fmt.Sprint("x", r.Intn(5))
			}
		}
		if r.Intn(2) == 0 {
			n.C = append(n.C, randDecor(r))
		}
	case "arg":
		n.A = [][]string{{"a b"}, {"a", "b"}, {}, {"-x"}, {"a", "b", ""}, {"ab"}}[r.Intn(6)]
	case "cmd":
		mutateCommand(r, n.F)
	case "clean":
		if r.Intn(2) == 0 {
			n.B = !n.B
		} else {
			n.A = [][]string{{"u"}, {"u", "v"}, {"w"}}[r.Intn(3)]
		}
	case "sub":
		return wrapTree(r, u, 1)
	}
	return u
}
