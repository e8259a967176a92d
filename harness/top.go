package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/bobg/fab"
)

// Driver "top": searches for top directories (see spec/FabTop.tla).

func init() {
	subcmds["top"] = func(args []string) error {
		f := newFlags("top")
		f.Parse(args)
		var scripts []topscript
		if err := readJSON(f.in, &scripts); err != nil {
			return err
		}
		return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(any) bool { return false })
	}
}

type (
	topscript []struct {
		Op    string            `json:"op"` // "set" or "top"
		D     []string          `json:"d"`
		C     any               `json:"c"`
		Fab   string            `json:"fab"`   // "", "dir", "file", "link" or "dangling"
		Files map[string]string `json:"files"` // name -> content
		Form  string            `json:"form"`
	}
	toptrace struct {
		Events []fevent `json:"events"`
		Notes  []string `json:"notes"`
	}
)

func (s topscript) exec(dir string, idx int) toptrace {
	tr := toptrace{Events: []fevent{}}
	base := filepath.Join(dir, fmt.Sprintf("base%d-%d", os.Getpid(), idx))
	must(os.MkdirAll(base, 0755))
	old, err := os.Getwd()
	must(err)
	defer func() {
		must(os.Chdir(old))
		must(os.RemoveAll(base))
	}()
	for _, op := range s {
		d := filepath.Join(base, yjoin(op.D))
		switch op.Op {
		case "set":
			must(os.MkdirAll(d, 0755))
			for _, n := range []string{"fab.yaml", "fab.yml", "_fab"} {
				must(os.RemoveAll(filepath.Join(d, n)))
			}
			for n, text := range op.Files {
				must(os.WriteFile(filepath.Join(d, n), []byte(text), 0644))
			}
			switch op.Fab {
			case "dir":
				must(os.Mkdir(filepath.Join(d, "_fab"), 0755))
			case "file":
				must(os.WriteFile(filepath.Join(d, "_fab"), nil, 0644))
			case "link":
				must(os.Symlink(base, filepath.Join(d, "_fab")))
			case "dangling":
				must(os.Symlink("nowhere", filepath.Join(d, "_fab")))
			}
			tr.Events = append(tr.Events, fevent{"e": "set", "d": op.D, "c": op.C})

		case "top":
			must(os.MkdirAll(d, 0755))
			name := d
			switch op.Form {
			case "here":
				must(os.Chdir(d))
				name = "."
			case "empty":
				must(os.Chdir(d))
				name = ""
			case "rel":
				must(os.Chdir(base))
				name, err = filepath.Rel(base, d)
				must(err)
			case "odd":
				name = base + "//x/.././" + yjoin(op.D) + "/"
			}
			got, err := fab.TopDir(name)
			must(os.Chdir(old))
			ev := fevent{"e": "top", "d": op.D, "form": op.Form, "ok": err == nil, "got": []string{}}
			if err != nil {
				tr.Notes = append(tr.Notes, err.Error())
			} else if !filepath.IsAbs(got) {
				ev["got"] = []string{"relative", got}
			} else {
				ev["got"] = ysegs(base, "/", got)
			}
			tr.Events = append(tr.Events, ev)
		}
	}
	return tr
}
