package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Driver "static": what a driver compiled from a _fab package offers (see spec/FabStatic.tla).

func init() {
	subcmds["static"] = func(args []string) error {
		f := newFlags("static")
		f.Parse(args)
		var scripts []stscript
		if err := readJSON(f.in, &scripts); err != nil {
			return err
		}
		return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(any) bool { return false })
	}
}

type (
	stscript struct {
		Files map[string]string `json:"files"`
		Links map[string]string `json:"links"`
		Sub   string            `json:"sub"`  // where fab is run
		Runs  int               `json:"runs"` // how many
	}
	sttrace struct {
		Events []fevent `json:"events"`
		Notes  []string `json:"notes"`
	}
)

func (s stscript) exec(dir string, idx int) sttrace {
	tr := sttrace{Events: []fevent{}}
	r := rand.New(rand.NewSource(int64(idx)))
	base := filepath.Join(dir, fmt.Sprintf("s%d-%d", os.Getpid(), idx))
	defer removeAll(base)
	for name, text := range s.Files {
		name = filepath.Join(base, "p", name)
		must(os.MkdirAll(filepath.Dir(name), 0755))
		must(os.WriteFile(name, []byte(text), 0644))
	}
	for name, to := range s.Links {
		must(os.Symlink(to, filepath.Join(base, "p", name)))
	}
	cwd := filepath.Join(base, "p", s.Sub)
	must(os.MkdirAll(cwd, 0755))
	tmp := filepath.Join(base, "tmp")
	must(os.Mkdir(tmp, 0755))
	vlog := filepath.Join(base, "vlog")
	fab := func(args ...string) (string, bool) {
		must(os.RemoveAll(vlog))
		cmd := exec.Command(os.Getenv("FAB1"), append([]string{"-fab", filepath.Join(base, "F")}, args...)...)
		cmd.Dir = cwd
		cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "VLOG="+vlog)
		out, err := groupOutput(cmd)
		if err != nil && len(tr.Notes) < 10 {
			tr.Notes = append(tr.Notes, fmt.Sprintf("%q: %v: %.1500s", args, err, out))
		}
		return string(out), err == nil
	}

	out, ok := fab("-list")
	listed := []map[string]string{}
	var names []string
	if ok {
		for _, line := range strings.Split(out, "\n") {
			if line == "" {
				continue
			}
			if !strings.HasPrefix(line, " ") {
				listed = append(listed, map[string]string{"name": line, "doc": ""})
				names = append(names, line)
			} else if len(listed) > 0 {
				d := listed[len(listed)-1]
				d["doc"] = strings.Join(strings.Fields(d["doc"]+" "+line), " ")
			}
		}
	}
	tr.Events = append(tr.Events, fevent{"e": "list", "ok": ok, "listed": listed})
	if !ok {
		return tr
	}
	for i := 0; i < s.Runs; i++ {
		r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		words := append([]string{}, names...)
		switch {
		case i > 0 && len(names) > 0:
			words = words[:1]
		case i > 0 || len(names) == 0:
			words = []string{"Nosuchtarget"}
		}
		_, ok := fab(words...)
		text, _ := os.ReadFile(vlog)
		tr.Events = append(tr.Events, fevent{"e": "run", "words": words, "ok": ok, "ran": append([]string{}, strings.Fields(string(text))...)})
	}
	return tr
}
