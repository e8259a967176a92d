package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Driver "fab": invocations of the fab command (see spec/FabMain.tla).
// The driver for the Go targets was compiled before; the go command producing it here is a stand-in.

func init() {
	subcmds["fab"] = func(args []string) error {
		f := newFlags("fab")
		f.Parse(args)
		var scripts []fmscript
		if err := readJSON(f.in, &scripts); err != nil {
			return err
		}
		return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(any) bool { return false })
	}
}

type (
	fmscript struct {
		Files  map[string]string `json:"texts"` // initially
		Gone   []string          `json:"gone"`  // of those, put aside
		Driver string            `json:"driver"`
		Prog   struct {
			Files [][2]string `json:"files"`
		} `json:"prog"`
		Steps []fmstep `json:"steps"`
	}
	fmstep struct {
		Op string `json:"op"` // fab, edit, toggle

		// fab
		Argv    []string        `json:"argv"`
		Fl      json.RawMessage `json:"fl"`
		Dir     string          `json:"dir"`     // where the database should be (an identifier)
		DirForm string          `json:"dirform"` // how that is said
		Words   []string        `json:"words"`
		Input   string          `json:"input"`
		Cwd     string          `json:"cwd"`
		Dashes  bool            `json:"dashes"`

		// edit
		F    string `json:"f"`
		Text string `json:"text"`

		// toggle
		Go, Yaml, Bad bool
	}
	fmtrace struct {
		Events []fevent `json:"events"`
		Notes  []string `json:"notes"`
	}
)

const standinCompiler = `#!/bin/sh
case "$1" in
mod)
	[ "$2" = init ] && printf 'module x\n\ngo 1.20\n' >go.mod
	exit 0
	;;
build)
	out=x
	while [ $# -gt 0 ]; do
		[ "$1" = -o ] && out="$2"
		shift
	done
	exec cp "$PREBUILT" "$out"
	;;
esac
exec "$REALGO" "$@"
`

const fabStub = `package fab

import (
	"context"
	"io"
)

type Target interface {
	Run(context.Context, *Controller) error
	Desc() string
}
type Controller struct{}
type FilesOpt func(*int)
type Command struct {
	Shell          string
	Stdin          io.Reader
	Stdout, Stderr io.Writer
}

func (*Command) Run(context.Context, *Controller) error                { return nil }
func (*Command) Desc() string                                          { return "" }
func All(targets ...Target) Target                                     { return nil }
func Seq(targets ...Target) Target                                     { return nil }
func F(f func(context.Context, *Controller) error) Target              { return nil }
func Files(target Target, in, out []string, opts ...FilesOpt) Target   { return nil }
func GetArgs(ctx context.Context) []string                             { return nil }
func GetVerbose(ctx context.Context) bool                              { return false }
func GetForce(ctx context.Context) bool                                { return false }
func GetDryRun(ctx context.Context) bool                               { return false }
`

var tokenRegex = regexp.MustCompile(`@(OUT|ERR|VERB):(\w+)@`)

func (s fmscript) exec(dir string, idx int) fmtrace {
	tr := fmtrace{Events: []fevent{}}
	base := filepath.Join(dir, fmt.Sprintf("m%d-%d", os.Getpid(), idx))
	defer removeAll(base)
	put := func(name, text string, mode os.FileMode) {
		name = filepath.Join(base, name)
		must(os.MkdirAll(filepath.Dir(name), 0755))
		must(os.WriteFile(name, []byte(text), mode))
	}
	put("bin/go", standinCompiler, 0755)
	put("fab/go.mod", "module github.com/bobg/fab\n\ngo 1.20\n", 0644)
	put("fab/fab.go", fabStub, 0644)
	put("p/go.mod", "module ex.com/p\n\ngo 1.20\n\nrequire github.com/bobg/fab v0.0.0\n\nreplace github.com/bobg/fab => ../fab\n", 0644)
	for name, text := range s.Files {
		put("p/"+name, text, 0644)
	}
	contents := map[string]string{}
	proj := filepath.Join(base, "p")
	for _, f := range s.Prog.Files {
		if f[1] != "" {
			put("p/"+f[0], f[1], 0644)
		}
		contents[f[0]] = f[1]
	}
	names := sortedKeys(contents)
	for _, d := range []string{"p/sub/deep", "tmp", "home", "off"} {
		must(os.MkdirAll(filepath.Join(base, d), 0755))
	}
	move := func(name string, present bool) {
		here, there := filepath.Join(proj, name), filepath.Join(base, "off", name)
		if present {
			here, there = there, here
		}
		if _, err := os.Lstat(here); err == nil {
			must(os.Rename(here, there))
		}
	}
	for _, n := range s.Gone {
		move(n, false)
	}
	vlog := filepath.Join(base, "vlog")
	dirs := map[string]string{"d1": filepath.Join(base, "F1"), "d2": filepath.Join(base, "F2", "deep"), "xdg": filepath.Join(base, "xdg", "fab"), "home": filepath.Join(base, "home", ".cache", "fab")}
	tree := func(top string) map[string]bool {
		m := map[string]bool{}
		must(filepath.WalkDir(top, func(name string, e fs.DirEntry, err error) error {
			if err == nil {
				m[name] = true
			}
			return nil
		}))
		return m
	}

	for _, op := range s.Steps {
		switch op.Op {
		case "edit":
			name := filepath.Join(proj, op.F)
			if op.Text == "" {
				must(os.RemoveAll(name))
			} else {
				put("p/"+op.F, op.Text, 0644)
			}
			contents[op.F] = op.Text
			tr.Events = append(tr.Events, fevent{"e": "edit", "f": op.F, "text": op.Text})
		case "toggle":
			move("_fab", op.Go)
			move("fab.yaml", op.Yaml)
			if op.Yaml {
				text := s.Files["fab.yaml"]
				if op.Bad {
					text += "\n[}\n"
				}
				put("p/fab.yaml", text, 0644)
			}
			tr.Events = append(tr.Events, fevent{"e": "toggle", "go": op.Go, "yaml": op.Yaml, "bad": op.Bad})
		case "fab":
			must(os.RemoveAll(vlog))
			before := tree(proj)
			cwd := filepath.Join(proj, op.Cwd)
			argv := append([]string{}, op.Argv...)
			env := append(os.Environ(), "PATH="+filepath.Join(base, "bin")+":/usr/bin:/bin", "TMPDIR="+filepath.Join(base, "tmp"), "HOME="+filepath.Join(base, "home"),
				"VLOG="+vlog, "PROJ="+proj, "PREBUILT="+s.Driver)
			d := dirs[op.Dir]
			rel, err := filepath.Rel(cwd, d)
			must(err)
			var dirArgs []string
			switch op.DirForm {
			case "abs":
				dirArgs = []string{"-fab", d}
			case "abs=":
				dirArgs = []string{"--fab=" + d}
			case "rel":
				dirArgs = []string{"-fab", rel}
			case "rel=":
				dirArgs = []string{"-fab=" + rel}
			case "twice":
				dirArgs = []string{"-fab", filepath.Join(base, "F3"), "-fab", d}
			case "xdg":
				env = append(env, "XDG_CACHE_HOME="+filepath.Join(base, "xdg"))
			}
			argv = append(append([]string{}, dirArgs...), argv...)
			if op.Dashes {
				argv = append(argv, "--")
			}
			argv = append(argv, op.Words...)
			cmd := exec.Command(os.Getenv("FAB1"), argv...)
			cmd.Dir = cwd
			cmd.Env = env
			cmd.Stdin = strings.NewReader(op.Input)
			var out, errout strings.Builder
			cmd.Stdout, cmd.Stderr = &out, &errout
			err = cmd.Run()
			if err != nil && len(tr.Notes) < 20 {
				tr.Notes = append(tr.Notes, fmt.Sprintf("%d: %q: %v: %.600s %.300s", len(tr.Events), argv, err, out.String(), errout.String()))
			}
			ev := fevent{"e": "fab", "fl": op.Fl, "dir": op.Dir, "words": append([]string{}, op.Words...), "input": op.Input, "ok": err == nil, "argv": argv, "cwd": op.Cwd}
			ran := [][]string{}
			text, _ := os.ReadFile(vlog)
			for _, line := range strings.Split(string(text), "\n") {
				if line == "" {
					continue
				}
				var note []string
				if json.Unmarshal([]byte(line), &note) != nil || len(note) == 0 {
					note = []string{"?", line}
				}
				ran = append(ran, note)
			}
			ev["ran"] = ran
			tokens := func(text, kind string) []string {
				res := []string{}
				for _, m := range tokenRegex.FindAllStringSubmatch(text, -1) {
					if m[1] == kind {
						res = append(res, m[2])
					}
				}
				return res
			}
			ev["out"], ev["err"], ev["verb"] = tokens(out.String(), "OUT"), tokens(errout.String(), "ERR"), tokens(out.String(), "VERB")
			listed := []map[string]string{}
			for _, line := range strings.Split(out.String(), "\n") {
				var fl map[string]bool
				must(json.Unmarshal(op.Fl, &fl))
				if line == "" || !fl["l"] || fl["v"] && (strings.HasPrefix(line, "Running in driverless mode") || strings.HasSuffix(line, " driver") || strings.Contains(line, "compil")) {
					continue
				}
				if !strings.HasPrefix(line, " ") {
					listed = append(listed, map[string]string{"name": line, "doc": ""})
				} else if len(listed) > 0 {
					d := listed[len(listed)-1]
					d["doc"] = strings.Join(strings.Fields(d["doc"]+" "+line), " ")
				}
			}
			ev["listed"] = listed
			files := [][2]string{}
			for _, n := range names {
				text, _ := os.ReadFile(filepath.Join(proj, n))
				files = append(files, [2]string{n, string(text)})
			}
			ev["files"] = files
			extra := []string{}
			after := tree(proj)
			for n := range after {
				r, _ := filepath.Rel(proj, n)
				if _, ok := contents[r]; !before[n] && !ok {
					extra = append(extra, "+"+r)
				}
			}
			for n := range before {
				r, _ := filepath.Rel(proj, n)
				if _, ok := contents[r]; !after[n] && !ok {
					extra = append(extra, "-"+r)
				}
			}
			sort.Strings(extra)
			ev["extra"] = extra
			found := []string{}
			for n := range tree(base) {
				if filepath.Base(n) != "hash.db" {
					continue
				}
				id := "other"
				for k, d := range dirs {
					if d == filepath.Dir(n) {
						id = k
					}
				}
				found = append(found, id)
			}
			sort.Strings(found)
			ev["found"] = found
			tr.Events = append(tr.Events, ev)
		}
	}
	return tr
}
