package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
)

// The "yaml" driver: reads the YAML files of a project and runs targets in it, see spec/FabYaml.tla.

func init() {
	subcmds["yaml"] = yamlRun
	fab.RegisterYAMLTarget("Leaf", func(con *fab.Controller, node *yaml.Node, dir string) (fab.Target, error) {
		if node.Kind != yaml.ScalarNode {
			return nil, fmt.Errorf("a Leaf is a scalar")
		}
		return &yleaf{Label: node.Value}, nil
	})
	sublist := func(f func([]string) []string) fab.YAMLStringListFunc {
		return func(con *fab.Controller, node *yaml.Node, dir string) ([]string, error) {
			if node.Kind != yaml.SequenceNode {
				return nil, fmt.Errorf("want a sequence")
			}
			strs, err := con.YAMLStringListFromNodes(node.Content, dir)
			return f(strs), err
		}
	}
	fab.RegisterYAMLStringList("Rev", sublist(func(l []string) []string {
		var result []string
		for i := len(l) - 1; i >= 0; i-- {
			result = append(result, l[i])
		}
		return result
	}))
	fab.RegisterYAMLStringList("Twice", sublist(func(l []string) []string {
		var result []string
		for _, s := range l {
			result = append(result, s, s)
		}
		return result
	}))
}

type (
	ygo struct {
		Name string `json:"name"`
		Doc  string `json:"doc"`
		ID   string `json:"id"`
	}
	yscript struct {
		Prog   json.RawMessage `json:"prog"`
		Texts  [][2]string     `json:"texts"` // names and contents of files
		Exist  []string        `json:"exist"` // other files
		Gos    []ygo           `json:"gos"`
		Reads  [][]string      `json:"reads"`
		TopRel bool            `json:"toprel"`
		Calls  [][]string      `json:"calls"`
		Lists  []ylist         `json:"lists"`
		Top    []string        `json:"top"`
		Reader bool            `json:"reader"` // use ReadYAML rather than ReadYAMLFile
		Main   bool            `json:"main"`   // use fab.Main
	}
	ylist struct {
		Dir  []string        `json:"dir"`
		Text string          `json:"text"`
		Node json.RawMessage `json:"node"`

		Clean bool `json:"clean"` // try it with a Clean target
	}
	ytrace struct {
		Events []fevent   `json:"events"`
		Run    []fevent   `json:"run"`
		Calls  [][]string `json:"calls"`
		Notes  []string   `json:"notes"`
	}
)

var ylog func(ev fevent)

// A user-defined target.
type yleaf struct{ Label string }

type yleafErr struct{ label string }

func (e yleafErr) Error() string { return e.label + " failed" }

func (l *yleaf) Desc() string { return l.Label }
func (l *yleaf) Run(ctx context.Context, _ *fab.Controller) error {
	a := "-"
	if args := fab.GetArgs(ctx); len(args) > 0 {
		b, err := json.Marshal(args)
		must(err)
		a = string(b)
	}
	ylog(fevent{"e": "enter", "l": l.Label, "a": a})
	var err error
	if strings.HasSuffix(l.Label, "x") {
		err = yleafErr{l.Label}
	}
	ylog(fevent{"e": "exit", "l": l.Label, "ok": err == nil})
	return err
}

// What Command targets run: the same, in a process.
const yleafScript = `#!/bin/sh
n=${1#L}
n=${n%x}
echo '{"e":"enter","l":"'"$1"'","a":"?"}' >>"$YLOG"
case $1 in
*x) echo '{"e":"exit","l":"'"$1"'","ok":false}' >>"$YLOG"; exit $((20 + n)) ;;
esac
echo '{"e":"exit","l":"'"$1"'","ok":true}' >>"$YLOG"
`

func ysegs(base, cwd, name string) []string {
	if !filepath.IsAbs(name) {
		name = filepath.Join(cwd, name)
	}
	rel, err := filepath.Rel(base, filepath.Clean(name))
	must(err)
	if rel == "." {
		return []string{}
	}
	return strings.Split(rel, "/")
}

func yjoin(elts ...[]string) string {
	var all []string
	for _, e := range elts {
		all = append(all, e...)
	}
	return filepath.Join(all...)
}

func (s yscript) exec(dir string, idx int) ytrace {
	tr := ytrace{Events: []fevent{}, Run: []fevent{}, Calls: [][]string{}}
	base := filepath.Join(dir, fmt.Sprintf("y%d-%d", os.Getpid(), idx))
	defer func() { must(os.RemoveAll(base)) }()
	cwd, err := os.Getwd()
	must(err)
	put := func(name, text string, mode fs.FileMode) {
		name = filepath.Join(base, name)
		must(os.MkdirAll(filepath.Dir(name), 0755))
		must(os.WriteFile(name, []byte(text), mode))
	}
	subst := func(text string) string { return strings.ReplaceAll(text, "%B", base) }
	for _, t := range s.Texts {
		put(t[0], subst(t[1]), 0644)
	}
	for _, e := range s.Exist {
		put(e, "x", 0644)
	}
	put("bin/yleaf", yleafScript, 0755)
	put("log", "", 0644)
	must(os.Setenv("PATH", filepath.Join(base, "bin")+":/usr/bin:/bin"))
	must(os.Setenv("YLOG", filepath.Join(base, "log")))
	topdir := filepath.Join(base, yjoin(s.Top))
	must(os.MkdirAll(topdir, 0755))
	if s.TopRel {
		topdir, err = filepath.Rel(cwd, topdir)
		must(err)
		if idx%2 == 1 {
			topdir = "./" + topdir + "/"
		}
	}

	logf, err := os.OpenFile(filepath.Join(base, "log"), os.O_WRONLY|os.O_APPEND, 0)
	must(err)
	defer logf.Close()
	var mu sync.Mutex
	closed := false
	ylog = func(ev fevent) {
		b, err := json.Marshal(ev)
		must(err)
		mu.Lock()
		defer mu.Unlock()
		if !closed {
			_, err = logf.Write(append(b, '\n'))
			must(err)
		}
	}
	emit := func(ev fevent) {
		mu.Lock()
		defer mu.Unlock()
		if !closed {
			tr.Events = append(tr.Events, ev)
		}
	}

	con := fab.NewController(topdir)
	for _, g := range s.Gos {
		_, err := con.RegisterTarget(g.Name, g.Doc, &yleaf{Label: g.ID})
		must(err)
	}

	finished := make(chan bool, 1)
	go func() {
		defer func() { finished <- true }()
		if s.Main {
			// All at once.
			m := fab.Main{Topdir: topdir, Fabdir: filepath.Join(base, "fabdir"), Args: s.Calls[0]}
			ylog(fevent{"e": "call", "x": 1})
			err := m.Run(context.Background())
			note := ""
			if err != nil {
				note = err.Error()
			}
			tr.Notes = append(tr.Notes, note)
			if strings.HasPrefix(note, "reading YAML file") {
				emit(fevent{"e": "read", "dir": s.Top, "ok": false})
				return
			}
			mentioned := []string{}
			for _, w := range s.Calls[0] {
				if strings.Contains(note, w) {
					mentioned = append(mentioned, w)
				}
			}
			emit(fevent{"e": "read", "dir": s.Top, "ok": true})
			emit(fevent{"e": "select", "x": 1, "words": s.Calls[0], "ok": !strings.HasPrefix(note, "parsing args"), "mentioned": mentioned})
			if !strings.HasPrefix(note, "parsing args") {
				tr.Calls = append(tr.Calls, s.Calls[0])
				ylog(fevent{"e": "ret", "x": 1, "ok": err == nil, "errs": yerrs(err)})
			}
			return
		}
		for _, d := range s.Reads {
			rel, err := filepath.Rel(yjoin(s.Top), yjoin(d))
			must(err)
			if rel == "." {
				rel = ""
			}
			known := false
			for _, n := range con.RegistryNames() {
				isGo := false
				for _, g := range s.Gos {
					isGo = isGo || g.Name == n
				}
				known = known || (!isGo && filepath.Dir(filepath.Join("/r/r/r", n)) == filepath.Join("/r/r/r", rel))
			}
			if known {
				continue
			}
			if s.Reader {
				f, oerr := os.Open(filepath.Join(base, yjoin(d), "fab.yaml"))
				if oerr == nil {
					err = con.ReadYAML(f, rel)
					f.Close()
				} else {
					err = con.ReadYAMLFile(rel)
				}
			} else {
				err = con.ReadYAMLFile(rel)
			}
			note := ""
			if err != nil {
				note = err.Error()
			}
			mu.Lock()
			tr.Notes = append(tr.Notes, note)
			mu.Unlock()
			emit(fevent{"e": "read", "dir": d, "ok": err == nil})
			if err != nil {
				return
			}
		}
		names := []fevent{}
		for _, n := range con.RegistryNames() {
			t, doc := con.RegistryTarget(n)
			if t != nil {
				names = append(names, fevent{"name": n, "doc": doc})
			}
		}
		emit(fevent{"e": "reg", "names": names})
		for _, l := range s.Lists {
			ev := fevent{"e": "list", "dir": l.Dir, "node": l.Node, "ok": false, "strs": []string{}, "files": [][]string{}}
			var doc yaml.Node
			must(yaml.Unmarshal([]byte(subst(l.Text)), &doc))
			rel, err := filepath.Rel(yjoin(s.Top), yjoin(l.Dir))
			must(err)
			if rel == "." {
				rel = ""
			}
			node := doc.Content[0].Content[1]
			strs, err := con.YAMLStringList(node, rel)
			files, err2 := con.YAMLFileList(node, rel)
			if err == nil && err2 == nil {
				ev["ok"] = true
				s2 := []string{}
				for _, x := range strs {
					s2 = append(s2, strings.ReplaceAll(x, base, "%B"))
				}
				ev["strs"] = s2
				f2 := [][]string{}
				for _, x := range files {
					f2 = append(f2, ysegs(base, cwd, x))
				}
				ev["files"] = f2
			}
			emit(ev)
			if !l.Clean || node.Kind != yaml.SequenceNode || node.Tag != "!!seq" {
				continue
			}
			// What a Clean target with this list removes.
			before := map[string]string{} // where else the file is
			bak := base + "-bak"
			must(os.MkdirAll(bak, 0755))
			must(filepath.WalkDir(base, func(name string, e fs.DirEntry, err error) error {
				must(err)
				before[name] = "/"
				if e.Type().IsRegular() {
					before[name] = filepath.Join(bak, strconv.Itoa(len(before)))
					must(os.Link(name, before[name]))
				}
				return nil
			}))
			node.Tag = "!Clean"
			ev = fevent{"e": "clean", "dir": l.Dir, "node": l.Node, "ok": false}
			target, err := con.YAMLTarget(node, rel)
			if err == nil {
				err = con.Run(context.Background(), target)
			}
			ev["ok"] = err == nil
			removed := [][]string{}
			for name, text := range before {
				if _, err := os.Lstat(name); err == nil {
					continue
				}
				removed = append(removed, ysegs(base, cwd, name))
				if text == "/" {
					must(os.MkdirAll(name, 0755))
				}
			}
			for name, text := range before {
				if _, err := os.Lstat(name); err != nil && text != "/" {
					must(os.MkdirAll(filepath.Dir(name), 0755))
					must(os.Link(text, name))
				}
			}
			must(os.RemoveAll(bak))
			ev["removed"] = removed
			emit(ev)
		}
		for i, words := range s.Calls {
			targets, err := con.ParseArgs(words)
			note := ""
			if err != nil {
				note = err.Error()
			}
			mentioned := []string{}
			for _, w := range words {
				if strings.Contains(note, w) {
					mentioned = append(mentioned, w)
				}
			}
			emit(fevent{"e": "select", "x": i + 1, "words": words, "ok": err == nil, "mentioned": mentioned})
			if err != nil {
				continue
			}
			mu.Lock()
			tr.Calls = append(tr.Calls, words)
			mu.Unlock()
			ylog(fevent{"e": "call", "x": i + 1})
			err = con.Run(context.Background(), targets...)
			if err != nil && len(yerrs(err)) == 0 {
				mu.Lock()
				tr.Notes = append(tr.Notes, err.Error())
				mu.Unlock()
			}
			ylog(fevent{"e": "ret", "x": i + 1, "ok": err == nil, "errs": yerrs(err)})
		}
	}()
	select {
	case <-finished:
	case <-time.After(hangTimeout):
		emit(fevent{"e": "stuck"})
		ylog(fevent{"e": "stuck"})
	}
	mu.Lock()
	closed = true
	mu.Unlock()
	f, err := os.Open(filepath.Join(base, "log"))
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var ev fevent
		must(json.Unmarshal([]byte(strings.ReplaceAll(sc.Text(), base, "%B")), &ev))
		tr.Run = append(tr.Run, ev)
	}
	return tr
}

var exitStatus = regexp.MustCompile(`exit status ([0-9]+)`)

// Which leaves failed, according to the error.
func yerrs(err error) []string {
	labels := map[string]bool{}
	if err == nil {
		return []string{}
	}
	var walk func(error)
	walk = func(err error) {
		if err == nil {
			return
		}
		if e, ok := err.(yleafErr); ok {
			labels[e.label] = true
		}
		switch u := err.(type) {
		case interface{ Unwrap() error }:
			walk(u.Unwrap())
		case interface{ Unwrap() []error }:
			for _, e := range u.Unwrap() {
				walk(e)
			}
		}
	}
	walk(err)
	for _, m := range exitStatus.FindAllStringSubmatch(err.Error(), -1) {
		n, _ := strconv.Atoi(m[1])
		labels[fmt.Sprintf("L%dx", n-20)] = true
	}
	return sortedKeys(labels)
}

func yamlRun(args []string) error {
	f := newFlags("yaml")
	f.Parse(args)
	var scripts []yscript
	if err := readJSON(f.in, &scripts); err != nil {
		return err
	}
	return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(tr any) bool {
		evs := tr.(ytrace).Events
		return len(evs) > 0 && evs[len(evs)-1]["e"] == "stuck"
	})
}


