package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Driver "driver": which drivers fab compiles and runs (see spec/FabDriver.tla).
// The go command compiling them is a stand-in producing a script that says what it was made from.

func init() {
	subcmds["driver"] = func(args []string) error {
		f := newFlags("driver")
		f.Parse(args)
		var scripts []drscript
		if err := readJSON(f.in, &scripts); err != nil {
			return err
		}
		return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(any) bool { return false })
	}
}

type (
	drop struct {
		Op    string          `json:"op"` // put, del, harm, run
		Proj  int             `json:"proj"`
		Name  string          `json:"name"`
		Text  string          `json:"text"`
		C     json.RawMessage `json:"c"`
		How   string          `json:"how"`
		V     int             `json:"v"`
		Tags  bool            `json:"tags"`
		Force bool            `json:"force"`
		Fails string          `json:"fails"` // "", or when compiling fails
		Kill  string          `json:"kill"`  // "", what go is doing when fab is killed, or "step"
		At    float64         `json:"at"`    // which part of the steps are done then
		Sub   string          `json:"sub"`
		Verb  bool            `json:"verb"`
	}
	drscript struct {
		Steps  []drop `json:"steps"`
		FabRel bool   `json:"fabrel"`
	}
	drtrace struct {
		Events []fevent `json:"events"`
		Notes  []string `json:"notes"`
	}
)

const fakeCompiler = `#!/bin/sh
phase() {
	[ "$GOKILL" = "$1" ] && kill -9 $PPID
	[ "$GOFAIL" = "$1" ] && { echo F >>"$DLOG"; echo "failing as requested"; exit 1; }
	return 0
}
case "$1" in
mod)
	echo A >>"$DLOG"
	phase "$2"
	[ "$2" = init ] && printf 'module x\n\ngo 1.20\n' >go.mod
	exit 0
	;;
build)
	echo A >>"$DLOG"
	phase build
	m="$FABVER"
	out=x
	while [ $# -gt 0 ]; do
		case "$1" in
		-C) cd "$2" ;;
		-o) out="$2" ;;
		esac
		shift
	done
	for f in $(grep -rl --include='*.go' '^// ID:' . | sort); do
		case "${f##*/}" in .*|_*|*_test.go|*_windows.go) continue ;; esac
		read -r first <"$f"
		case "$first" in
		*ignore*) continue ;;
		*vtag*) case "$GOFLAGS" in *vtag*) ;; *) continue ;; esac ;;
		esac
		while read -r l; do
			case "$l" in "// ID:"*) m="$m $(basename "$f"):${l#// ID:}" ;; esac
		done <"$f"
	done
	printf '#!/bin/sh\necho "R %s" >>"$DLOG"\n' "$m" >"$out"
	chmod +x "$out"
	echo "C $m" >>"$DLOG"
	phase built
	exit 0
	;;
esac
exec "$REALGO" "$@"
`

func (s drscript) exec(dir string, idx int) drtrace {
	tr := drtrace{Events: []fevent{}}
	r := rand.New(rand.NewSource(int64(idx)))
	base := filepath.Join(dir, fmt.Sprintf("v%d-%d", os.Getpid(), idx))
	defer removeAll(base)
	put := func(name, text string, mode os.FileMode) {
		name = filepath.Join(base, name)
		must(os.MkdirAll(filepath.Dir(name), 0755))
		must(os.WriteFile(name, []byte(text), mode))
	}
	put("bin/go", fakeCompiler, 0755)
	must(os.MkdirAll(filepath.Join(base, "tmp"), 0755))
	for i := 1; i <= 2; i++ {
		put(fmt.Sprintf("p%d/go.mod", i), "module ex.com/p\n\ngo 1.20\n", 0644)
		put(fmt.Sprintf("p%d/_fab/README", i), "hello", 0644)
		put(fmt.Sprintf("p%d/sub/deep/file", i), "hello", 0644)
	}
	dlog := filepath.Join(base, "dlog")
	drivers := filepath.Join(base, "F", "ex.com", "p", "_fab")
	steps := 0 // of a run that compiles

	// Runs fab.  Returns what was logged, and the error.
	run := func(op drop, env ...string) ([]string, error) {
		must(os.RemoveAll(dlog))
		fabdir := filepath.Join(base, "F")
		cwd := filepath.Join(base, fmt.Sprintf("p%d", op.Proj), op.Sub)
		if s.FabRel {
			rel, err := filepath.Rel(cwd, fabdir)
			must(err)
			fabdir = rel
		}
		args := []string{"-fab", fabdir}
		if op.Force {
			args = append(args, "-f")
		}
		if op.Verb {
			args = append(args, "-v")
		}
		cmd := exec.Command(os.Getenv("FAB"+strconv.Itoa(op.V)), args...)
		cmd.Dir = cwd
		flags := os.Getenv("GOFLAGS")
		if op.Tags {
			flags += " -tags=vtag"
		}
		cmd.Env = append(os.Environ(), "PATH="+filepath.Join(base, "bin")+":/usr/bin:/bin", "DLOG="+dlog, "TMPDIR="+filepath.Join(base, "tmp"), "GOFLAGS="+flags,
			"FABVER="+strconv.Itoa(op.V), "GOFAIL="+op.Fails)
		cmd.Env = append(cmd.Env, env...)
		out, err := groupOutput(cmd)
		if err != nil && len(tr.Notes) < 30 {
			tr.Notes = append(tr.Notes, fmt.Sprintf("%v: %.500s", err, out))
		}
		text, _ := os.ReadFile(dlog)
		return strings.Split(strings.TrimSpace(string(text)), "\n"), err
	}

	for _, op := range s.Steps {
		pkgdir := fmt.Sprintf("p%d/_fab", op.Proj)
		switch op.Op {
		case "put":
			put(filepath.Join(pkgdir, op.Name), op.Text, 0644)
			tr.Events = append(tr.Events, fevent{"e": "put", "p": op.Proj, "n": op.Name, "c": op.C})
		case "del":
			must(os.Remove(filepath.Join(base, pkgdir, op.Name)))
			tr.Events = append(tr.Events, fevent{"e": "del", "p": op.Proj, "n": op.Name})
		case "harm":
			var names []string
			entries, _ := os.ReadDir(drivers)
			for _, e := range entries {
				names = append(names, filepath.Join(drivers, e.Name()))
			}
			if op.How == "all" {
				must(os.RemoveAll(drivers))
			} else if len(names) > 0 {
				n := names[r.Intn(len(names))]
				if info, err := os.Stat(n); err != nil || info.Mode()&0111 != 0 || op.How == "remove" { // (never spoil the driver itself)
					must(os.Remove(n))
				} else if op.How == "empty" {
					must(os.WriteFile(n, nil, 0644))
				} else {
					must(os.WriteFile(n, []byte("{]garbage"), 0644))
				}
			}
			tr.Events = append(tr.Events, fevent{"e": "harm"})
		case "run":
			env := []string{}
			if op.Kill == "step" {
				if steps == 0 {
					steps = calibrate(op.V)
				}
				env = append(env, fmt.Sprintf("VERIF_CRASH=%d", 1+int(op.At*float64(steps))))
			} else if op.Kill != "" {
				env = append(env, "GOKILL="+op.Kill)
			}
			log, err := run(op, env...)
			killed := false
			var exit *exec.ExitError
			if errors.As(err, &exit) && exit.ExitCode() < 0 {
				killed = true
			}
			ev := fevent{"e": "run", "p": op.Proj, "v": op.V, "tags": op.Tags, "force": op.Force, "killed": killed, "ok": err == nil}
			attempted, compiled, failed := false, false, false
			ran := []any{}
			for _, l := range log {
				f := strings.Fields(l)
				switch {
				case len(f) == 0:
				case f[0] == "F":
					failed = true
				case f[0] == "A":
					attempted = true
				case f[0] == "C":
					compiled = true
				case f[0] == "R":
					v, _ := strconv.Atoi(f[1])
					files := [][]any{}
					for _, m := range f[2:] {
						n, id, _ := strings.Cut(m, ":")
						k, _ := strconv.Atoi(id)
						files = append(files, []any{n, k})
					}
					ran = append(ran, map[string]any{"v": v, "c": files})
				}
			}
			ev["attempted"], ev["compiled"], ev["ran"], ev["fails"] = attempted, compiled && !failed, ran, failed
			tr.Events = append(tr.Events, ev)
		}
	}
	return tr
}

// Runs cmd, and ends the processes it leaves behind.
func groupOutput(cmd *exec.Cmd) ([]byte, error) {
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = 200 * time.Millisecond
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pgid := cmd.Process.Pid
	err := cmd.Wait()
	if errors.Is(err, exec.ErrWaitDelay) {
		err = nil
	}
	for i := 0; i < 500 && syscall.Kill(-pgid, syscall.SIGKILL) == nil; i++ {
		time.Sleep(2 * time.Millisecond)
	}
	return buf.Bytes(), err
}

// Removes a directory in which a process just ended may still be creating a file.
func removeAll(dir string) {
	for i := 0; i < 100; i++ {
		if os.RemoveAll(dir) == nil {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// How many steps a run takes that compiles a driver.
func calibrate(v int) int {
	if n := calibrated[v]; n > 0 {
		return n
	}
	calibrated[v] = 400
	work, err := os.Getwd()
	must(err)
	steplog := filepath.Join(work, fmt.Sprintf("steplog%d", os.Getpid()))
	must(os.Setenv("VERIF_STEPLOG", steplog))
	defer os.Unsetenv("VERIF_STEPLOG")
	s := drscript{Steps: []drop{{Op: "put", Proj: 1, Name: "p.go", Text: "package fab\n"}, {Op: "run", Proj: 1, V: v}}}
	s.exec(work, 1<<20)
	text, err := os.ReadFile(steplog)
	must(err)
	n, err := strconv.Atoi(strings.TrimSpace(string(text)))
	must(err)
	must(os.Remove(steplog))
	calibrated[v] = n
	return n
}

var calibrated = map[int]int{}
