package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bobg/fab"
)

// The "command" driver: Command targets, see spec/FabCommand.tla.

func init() {
	subcmds["command"] = commandRun
	subcmds["commandchild"] = commandChild
}

type (
	mdest struct {
		T string `json:"t"`
		F string `json:"f"`
	}
	mconfig struct {
		Form    string     `json:"form"`
		YD      string     `json:"yd"`
		Mode    string     `json:"mode"`
		Shells  []string   `json:"shells"`
		List    bool       `json:"list"`
		Args    []string   `json:"args"`
		Prog    string     `json:"prog"`
		Dir     string     `json:"dir"`
		Env     [][]string `json:"env"`
		Stdin   string     `json:"stdin"`
		Out     mdest      `json:"out"`
		Err     mdest      `json:"err"`
		Verbose bool       `json:"verbose"`
		Dry     bool       `json:"dry"`
		Depth   int        `json:"depth"`
		Sp      bool       `json:"sp"` // files are named in unusual ways
	}
	mchunk struct {
		S     string   `json:"s"`
		Items []string `json:"items"`
	}
	mproc struct {
		Reads  bool     `json:"reads"`
		Chunks []mchunk `json:"chunks"`
		Code   int      `json:"code"`
	}
	mscript struct {
		Prog  struct{}          `json:"prog"`
		C     mconfig           `json:"c"`
		Init  map[string]string `json:"init"`
		Procs []mproc           `json:"procs"`
		Seed  int64             `json:"seed"`
	}
	mtrace struct {
		Prog   struct{} `json:"prog"`
		Events []fevent `json:"events"`
		Notes  []string `json:"notes"`
	}
	mjob struct {
		mscript
		Base string `json:"base"` // scratch directory
	}
	mresult struct {
		Ok    bool             `json:"ok"`
		Cap   string           `json:"cap"`
		W     [2]string        `json:"w"`
		Fns   map[string]mfnst `json:"fns"`
		Err   string           `json:"err"`
		Stuck bool             `json:"stuck"`
	}
	mfnst struct {
		Called int `json:"called"`
		Closed int `json:"closed"`
	}
)

const mabsent = "(absent)"

// Command "vhproc": the process that a Command starts.
func vhproc() {
	var procs []mproc
	must(readJSON(os.Getenv("VH_PROCS"), &procs))
	logname := os.Getenv("VH_LOG")
	b, err := os.ReadFile(logname)
	if !errors.Is(err, os.ErrNotExist) {
		must(err)
	}
	idx := bytes.Count(b, []byte(`"e":"proc"`))
	logf, err := os.OpenFile(logname, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	must(err)
	emit := func(ev fevent) {
		b, err := json.Marshal(ev)
		must(err)
		_, err = logf.Write(append(b, '\n'))
		must(err)
	}
	cwd, err := os.Getwd()
	must(err)
	info, err := os.Stat(os.Getenv("VH_FABOUT"))
	must(err)
	env := map[string]string{}
	for _, n := range []string{"BASE", "X1", "X2"} {
		v, ok := os.LookupEnv(n)
		if !ok {
			v = "(unset)"
		}
		env[n] = v
	}
	var p mproc
	if idx < len(procs) {
		p = procs[idx]
	}
	ev := fevent{"e": "proc", "args": append([]string{}, os.Args[1:]...), "dir": cwd, "env": env, "reads": p.Reads, "stdin": "", "off": info.Size()}
	if p.Reads {
		b, err := io.ReadAll(os.Stdin)
		must(err)
		ev["stdin"] = string(b)
	}
	emit(ev)
	for _, ch := range p.Chunks {
		w := os.Stdout
		if ch.S == "err" {
			w = os.Stderr
		}
		emit(fevent{"e": "chunk", "s": ch.S, "items": ch.Items})
		_, err := w.Write(toBytes(strings.Join(ch.Items, "")))
		must(err)
	}
	emit(fevent{"e": "exit", "code": p.Code})
	if p.Code == 137 {
		must(syscall.Kill(os.Getpid(), syscall.SIGKILL))
		time.Sleep(time.Minute)
	}
	os.Exit(p.Code)
}

type mwriter struct {
	mu     *sync.Mutex
	buf    *bytes.Buffer
	closed *int
}

func (w *mwriter) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.buf.Write(b)
}

type mcloser struct{ mwriter }

func (w *mcloser) Close() error {
	*w.closed++
	return nil
}

func shquote(s string) string {
	return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'"
}

func (j mjob) shell(i int) string {
	if j.C.Mode == "shell" {
		return j.C.Shells[i]
	}
	s := "exec vhproc"
	for _, a := range j.C.Args {
		s += " " + shquote(a)
	}
	return s
}

// The name of a file, as a user would write it.
func (j mjob) fileName(r *rand.Rand, d mdest) string {
	name := d.F
	if name == "A" {
		name = filepath.Join(j.Base, "abs", "A")
	}
	if d.T == "nodir" {
		name = "gone/o"
	}
	if j.C.Sp {
		name = respell(r, name)
	}
	if d.T == "append" {
		name = []string{">>", ">> "}[r.Intn(2)] + name
	}
	return name
}

func commandChild(args []string) error {
	var j mjob
	must(readJSON(args[0], &j))
	r := rand.New(rand.NewSource(j.Seed))
	c := j.C
	con := fab.NewController([]string{filepath.Join(j.Base, "top"), "../top"}[r.Intn(2)])
	var (
		target fab.Target
		mu     sync.Mutex
		bufs   [2]bytes.Buffer
		fns    = map[string]*mfnst{"out": {}, "err": {}}
	)
	vhprocName := "vhproc"
	if r.Intn(2) == 0 {
		vhprocName = filepath.Join(j.Base, "bin", "vhproc")
	}
	if c.Prog == "missing" {
		vhprocName = []string{"no-such-program", "./none", "/nonexistent/prog"}[r.Intn(3)]
	}
	dir := c.Dir
	if dir == "abs" {
		dir = filepath.Join(j.Base, "abs")
	}
	var env []string
	for _, e := range c.Env {
		env = append(env, e[0]+"="+e[1])
	}
	switch c.Form {
	case "go":
		cmd := &fab.Command{Dir: dir, Env: env}
		if c.Mode == "cmd" {
			cmd.Cmd = vhprocName
			cmd.Args = c.Args
		} else {
			cmd.Shell = j.shell(0)
		}
		switch c.Stdin {
		case "reader":
			cmd.Stdin = strings.NewReader("from the reader")
		case "file":
			cmd.StdinFile = filepath.Join(j.Base, "cwd", "in")
		case "missing":
			cmd.StdinFile = "missing"
		case "$stdin":
			cmd.Stdin = os.Stdin
		}
		writers := [2]*mwriter{{mu: &mu, buf: &bufs[0]}, {mu: &mu, buf: &bufs[1]}}
		dest := func(s string, d mdest, w *io.Writer, file *string, fn *func(context.Context, *fab.Controller) io.Writer) {
			switch d.T {
			case "file", "append", "nodir":
				*file = j.fileName(r, d)
			case "writer":
				*w = writers[d.F[1]-'1']
			case "fn", "fnclose", "fnnil":
				*fn = func(context.Context, *fab.Controller) io.Writer {
					fns[s].Called++
					switch d.T {
					case "fn":
						return writers[d.F[1]-'1']
					case "fnclose":
						return &mcloser{mwriter{mu: &mu, buf: &bufs[d.F[1]-'1'], closed: &fns[s].Closed}}
					}
					return nil
				}
			case "$stdout":
				*w = os.Stdout
			case "$stderr":
				*w = os.Stderr
			case "$discard":
				*w = io.Discard
			case "default":
			default:
				panic("HARNESS: dest " + d.T)
			}
		}
		dest("out", c.Out, &cmd.Stdout, &cmd.StdoutFile, &cmd.StdoutFn)
		dest("err", c.Err, &cmd.Stderr, &cmd.StderrFile, &cmd.StderrFn)
		target = cmd
	case "yaml":
		doc := "X: !Command\n"
		if c.YD != "" {
			doc = "_dir: " + c.YD + "\n" + doc
		}
		q := func(s string) string {
			b, err := json.Marshal(s)
			must(err)
			return string(b)
		}
		field := func(name, val string) { doc += "  " + name + ": " + q(val) + "\n" }
		list := func(name string, vals []string) {
			doc += "  " + name + ": ["
			for i, v := range vals {
				if i > 0 {
					doc += ", "
				}
				doc += q(v)
			}
			doc += "]\n"
		}
		if c.Mode == "cmd" {
			field("Cmd", vhprocName)
			if len(c.Args) > 0 || r.Intn(2) == 0 {
				list("Args", c.Args)
			}
		} else if c.List {
			var shells []string
			for i := range c.Shells {
				shells = append(shells, j.shell(i))
			}
			list("Shell", shells)
		} else {
			field("Shell", j.shell(0))
		}
		if dir != "" || r.Intn(3) == 0 {
			field("Dir", dir)
		}
		if len(env) > 0 {
			list("Env", env)
		}
		switch c.Stdin {
		case "file":
			field("Stdin", []string{"in", filepath.Join(j.Base, "top", c.YD, "in")}[r.Intn(2)])
		case "missing":
			field("Stdin", "missing")
		case "$stdin":
			field("Stdin", "$stdin")
		}
		dest := func(name string, d mdest) {
			switch d.T {
			case "file", "append", "nodir":
				field(name, j.fileName(r, d))
			case "default":
			default:
				field(name, d.T)
			}
		}
		dest("Stdout", c.Out)
		dest("Stderr", c.Err)
		if err := con.ReadYAML(strings.NewReader(doc), c.YD); err != nil {
			panic(fmt.Sprintf("cannot read YAML: %s\n%s", err, doc))
		}
		target, _ = con.RegistryTarget(filepath.Join(c.YD, "X"))
		if target == nil {
			panic("target not registered")
		}
	}
	for i := 0; i < c.Depth; i++ {
		switch r.Intn(3) {
		case 0:
			target = fab.All(target)
		case 1:
			target = fab.Seq(target)
		default:
			target = fab.ArgTarget(target, "x")
		}
	}
	ctx := fab.WithDryRun(fab.WithVerbose(context.Background(), c.Verbose), c.Dry)
	res := mresult{}
	done := make(chan error, 1)
	go func() { done <- con.Run(ctx, target) }()
	select {
	case err := <-done:
		res.Ok = err == nil
		if err != nil {
			res.Err = err.Error()
			var ce fab.CommandErr
			if errors.As(err, &ce) {
				res.Cap = fromBytes(ce.Output)
			}
		}
	case <-time.After(hangTimeout):
		res.Stuck = true
	}
	mu.Lock()
	res.W = [2]string{fromBytes(bufs[0].Bytes()), fromBytes(bufs[1].Bytes())}
	mu.Unlock()
	res.Fns = map[string]mfnst{"out": *fns["out"], "err": *fns["err"]}
	return writeJSON(args[0]+".result", res)
}

func (s mscript) exec(dir string, idx int) mtrace {
	tr := mtrace{Events: []fevent{}}
	emit := func(ev fevent) { tr.Events = append(tr.Events, ev) }
	base := filepath.Join(dir, fmt.Sprintf("m%d", idx))
	defer func() { must(os.RemoveAll(base)) }()
	mk := func(elts ...string) { must(os.MkdirAll(filepath.Join(append([]string{base}, elts...)...), 0755)) }
	put := func(text string, elts ...string) {
		must(os.WriteFile(filepath.Join(append([]string{base}, elts...)...), []byte(text), 0644))
	}
	for _, d := range []string{"cwd", "top", "top/y", "top/y/z"} {
		mk(d, "sub")
		put("from the file\n", d, "in")
	}
	mk("abs")
	mk("bin")
	must(os.Symlink(os.Args[0], filepath.Join(base, "bin", "vhproc")))
	put("fab's standard input", "stdin")
	where := filepath.Join(base, "cwd")
	if s.C.Form == "yaml" {
		where = filepath.Join(base, "top", s.C.YD)
	}
	files := map[string]string{"o1": filepath.Join(where, "o1"), "o2": filepath.Join(where, "o2"), "A": filepath.Join(base, "abs", "A"),
		"fabout": filepath.Join(base, "fabout"), "faberr": filepath.Join(base, "faberr")}
	for _, f := range sortedKeys(files) {
		if v := s.Init[f]; v != mabsent {
			must(os.WriteFile(files[f], toBytes(v), 0644))
		}
	}
	emit(fevent{"e": "config", "c": s.C, "sinks": s.Init})
	j := mjob{mscript: s, Base: base}
	must(writeJSON(filepath.Join(base, "job"), j))
	must(writeJSON(filepath.Join(base, "procs"), s.Procs))
	open := func(name string, flags int) *os.File {
		f, err := os.OpenFile(filepath.Join(base, name), flags, 0644)
		must(err)
		return f
	}
	stdin, stdout, stderr := open("stdin", os.O_RDONLY), open("fabout", os.O_WRONLY|os.O_APPEND), open("faberr", os.O_WRONLY|os.O_APPEND)
	defer stdin.Close()
	defer stdout.Close()
	defer stderr.Close()
	cmd := exec.Command(os.Args[0], "commandchild", filepath.Join(base, "job"))
	cmd.Dir = filepath.Join(base, "cwd")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = stdin, stdout, stderr
	cmd.Env = []string{"BASE=base", "X1=old", "PATH=" + filepath.Join(base, "bin") + ":/usr/bin:/bin", "VH_PROCS=" + filepath.Join(base, "procs"),
		"VH_LOG=" + filepath.Join(base, "log"), "VH_FABOUT=" + files["fabout"], "HOME=" + base}
	switch s.C.Mode {
	case "shell":
		cmd.Env = append(cmd.Env, "SHELL="+filepath.Join(base, "bin", "vhproc"))
	case "sh":
		cmd.Env = append(cmd.Env, []string{"SHELL=/bin/sh", "SHELL=", "NOSHELL="}[idx%3])
	default:
		cmd.Env = append(cmd.Env, []string{"SHELL=/bin/sh", "NOSHELL=", "SHELL=/nonexistent"}[idx%3])
	}
	err := cmd.Run()
	if err != nil {
		b, _ := os.ReadFile(files["faberr"])
		if strings.Contains(string(b), "HARNESS") {
			panic(string(b))
		}
		emit(fevent{"e": "panic", "err": err.Error(), "stderr": string(b)})
		return tr
	}
	var res mresult
	must(readJSON(filepath.Join(base, "job.result"), &res))
	tr.Notes = append(tr.Notes, res.Err)
	off := int64(-1)
	nproc := 0
	if f, err := os.Open(filepath.Join(base, "log")); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			var ev fevent
			must(json.Unmarshal(sc.Bytes(), &ev))
			if ev["e"] == "proc" {
				nproc++
				if off < 0 {
					off = int64(ev["off"].(float64))
				}
				delete(ev, "off")
				real, err := filepath.EvalSymlinks(base)
				must(err)
				ev["dir"] = strings.TrimPrefix(strings.TrimPrefix(ev["dir"].(string), real), "/")
			}
			emit(ev)
		}
		must(sc.Err())
		f.Close()
	}
	if res.Stuck {
		emit(fevent{"e": "stuck"})
		return tr
	}
	sinks := map[string]string{"w1": res.W[0], "w2": res.W[1]}
	for _, f := range sortedKeys(files) {
		b, err := os.ReadFile(files[f])
		switch {
		case errors.Is(err, os.ErrNotExist):
			sinks[f] = mabsent
		default:
			must(err)
			if f == "fabout" && s.C.Verbose {
				// Leave out what fab says about what it does.
				switch {
				case off >= 0:
					b = b[off:]
					if nproc > 1 {
						d := 2 * (1 + s.C.Depth + 1)
						b = regexp.MustCompile(fmt.Sprintf("(?: {%d}| {%d})Running [^\\n]*\\n", d+2, d)).ReplaceAll(b, nil)
					}
				default:
					b = nil
				}
			}
			sinks[f] = fromBytes(b)
		}
	}
	emit(fevent{"e": "end", "ok": res.Ok, "cap": res.Cap, "sinks": sinks, "fns": res.Fns})
	return tr
}

func commandRun(args []string) error {
	f := newFlags("command")
	f.Parse(args)
	var scripts []mscript
	if err := readJSON(f.in, &scripts); err != nil {
		return err
	}
	return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(tr any) bool {
		evs := tr.(mtrace).Events
		return len(evs) > 0 && evs[len(evs)-1]["e"] == "stuck"
	})
}
