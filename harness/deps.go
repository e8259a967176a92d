package main

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"github.com/bobg/fab/proto"
	"github.com/bobg/fab/ts"
	"gopkg.in/yaml.v3"
)

// Driver "deps": dependency lists, and targets made from them (see spec/FabDeps.tla).

func init() {
	subcmds["deps"] = func(args []string) error {
		f := newFlags("deps")
		f.Parse(args)
		var scripts []dscript
		if err := readJSON(f.in, &scripts); err != nil {
			return err
		}
		return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(any) bool { return false })
	}
}

type (
	dop struct {
		Op    string          `json:"op"`
		P     []string        `json:"p"`
		Text  string          `json:"text"` // of a file, or of a YAML node
		C     json.RawMessage `json:"c"`
		Form  string          `json:"form"`
		T     string          `json:"t"`
		Dir   []string        `json:"dir"`
		Files []string        `json:"files"`
		Incs  []string        `json:"incs"`
		Outs  []string        `json:"outs"`
		Opts  []string        `json:"opts"`
		Rec   bool            `json:"rec"`
		Tests bool            `json:"tests"`
		Dry   bool            `json:"dry"`
		Force bool            `json:"force"`
		Fails bool            `json:"fails"`
		Type  string          `json:"type"`
	}
	dscript struct {
		Top    []string `json:"top"`
		TopRel bool     `json:"toprel"`
		CwdTop bool     `json:"cwdtop"`
		Steps  []dop    `json:"steps"`
	}
	dtrace struct {
		Events []fevent `json:"events"`
		Notes  []string `json:"notes"`
	}
)

const fakeProtoc = `#!/bin/sh
for a in "$@"; do printf '%s\n' "$a" >>"$DLOG"; done
printf 'END\n' >>"$DLOG"
[ "$DFAIL" = 1 ] && exit 3
printf '%s\n' "$DOUTS" | while read -r f; do [ -z "$f" ] || echo made >"$f"; done
exit 0
`

const fakeGo = `#!/bin/sh
if [ "$1" = build ]; then
	exec "$(dirname "$0")/protoc" "$@"
fi
exec "$REALGO" "$@"
`

func (s dscript) exec(dir string, idx int) dtrace {
	tr := dtrace{Events: []fevent{}}
	base := filepath.Join(dir, fmt.Sprintf("d%d-%d", os.Getpid(), idx))
	defer func() { must(os.RemoveAll(base)) }()
	put := func(name, text string, mode os.FileMode) {
		name = filepath.Join(base, name)
		must(os.MkdirAll(filepath.Dir(name), 0755))
		must(os.WriteFile(name, []byte(text), mode))
	}
	put("bin/protoc", fakeProtoc, 0755)
	put("bin/go", fakeGo, 0755)
	dlog := filepath.Join(base, "dlog")
	must(os.Setenv("PATH", filepath.Join(base, "bin")+":/usr/bin:/bin"))
	must(os.Setenv("DLOG", dlog))
	topdir := filepath.Join(base, yjoin(s.Top))
	must(os.MkdirAll(topdir, 0755))
	if s.CwdTop {
		old, err := os.Getwd()
		must(err)
		must(os.Chdir(topdir))
		defer func() { must(os.Chdir(old)) }()
	}
	cwd, err := os.Getwd()
	must(err)
	if s.TopRel {
		topdir, err = filepath.Rel(cwd, topdir)
		must(err)
		if topdir == "." && idx%2 == 1 {
			topdir = ""
		}
	}
	subst := func(text string) string { return strings.ReplaceAll(text, "%B", base) }

	for _, op := range s.Steps {
		switch op.Op {
		case "put":
			put(yjoin(op.P), subst(op.Text), 0644)
			tr.Events = append(tr.Events, fevent{"e": "put", "p": op.P, "c": op.C})
			continue
		case "del":
			must(os.RemoveAll(filepath.Join(base, yjoin(op.P))))
			tr.Events = append(tr.Events, fevent{"e": "del", "p": op.P})
			continue
		}

		con := fab.NewController(topdir)
		rel, err := filepath.Rel(yjoin(s.Top), yjoin(op.Dir))
		must(err)
		if rel == "." {
			rel = ""
		}
		// A name as given to Go functions.
		name := func(n string) string {
			n = subst(n)
			if filepath.IsAbs(n) {
				return filepath.Clean(n) // (it may lead through directories that do not exist)
			}
			n = filepath.Join(base, yjoin(op.Dir), n)
			if op.Form == "rel" {
				n, err = filepath.Rel(cwd, n)
				must(err)
			}
			return n
		}
		names := func(l []string) []string {
			var result []string
			for _, n := range l {
				result = append(result, name(n))
			}
			return result
		}
		node := func() *yaml.Node {
			var doc yaml.Node
			must(yaml.Unmarshal([]byte(subst(op.Text)), &doc))
			return doc.Content[0].Content[1]
		}
		var outs []string
		for _, o := range op.Outs {
			o = subst(o)
			if !filepath.IsAbs(o) {
				o = filepath.Join(base, yjoin(op.Dir), o)
			}
			o = filepath.Clean(o)
			outs = append(outs, o)
			must(os.MkdirAll(filepath.Dir(o), 0755))
		}
		must(os.RemoveAll(dlog))
		must(os.Setenv("DOUTS", strings.Join(outs, "\n")))
		must(os.Setenv("DFAIL", map[bool]string{true: "1", false: "0"}[op.Fails]))

		ev := fevent{"e": op.Op, "form": op.Form, "t": op.T, "dir": op.Dir, "files": op.Files, "incs": op.Incs, "outs": op.Outs, "opts": op.Opts,
			"rec": op.Rec, "tests": op.Tests, "dry": op.Dry, "force": op.Force, "fails": op.Fails}
		var (
			list   []string
			target fab.Target
		)
		switch op.Op {
		case "protodeps":
			if op.Form == "yaml" {
				list, err = con.YAMLFileList(node(), rel)
			} else {
				list, err = proto.Deps(name(op.Files[0]), names(op.Incs))
			}
		case "godeps":
			if op.Form == "yaml" {
				list, err = con.YAMLFileList(node(), rel)
			} else {
				list, err = golang.Deps(name(op.Files[0]), op.Rec, op.Tests)
			}
		case "protoc":
			if op.Form == "yaml" {
				target, err = con.YAMLTarget(node(), rel)
			} else {
				target, err = proto.Proto(names(op.Files), names(op.Outs), names(op.Incs), op.Opts)
			}
		case "gobuild":
			if op.Form == "yaml" {
				target, err = con.YAMLTarget(node(), rel)
			} else {
				target, err = golang.Binary(name(op.Files[0]), name(op.Outs[0]), op.Opts...)
			}
		case "decls":
			if op.Form == "yaml" {
				target, err = con.YAMLTarget(node(), rel)
			} else {
				target, err = ts.Decls(name(op.Files[0]), op.Type, "/p", name(op.Outs[0]))
			}
		}
		if target == nil && (op.Op == "protodeps" || op.Op == "godeps") {
			ev["ok"] = err == nil
			got := [][]string{}
			for _, f := range list {
				got = append(got, ysegs(base, cwd, f))
			}
			ev["got"] = got
			if op.Form == "yaml" {
				// The same asked with absolute names.
				abs := func(n string) string {
					if n = subst(n); !filepath.IsAbs(n) {
						n = filepath.Join(base, yjoin(op.Dir), n)
					}
					return filepath.Clean(n)
				}
				var incs []string
				for _, n := range op.Incs {
					incs = append(incs, abs(n))
				}
				plain, plainok := map[string]bool{}, true
				for _, f := range op.Files {
					var l []string
					var err error
					if op.Op == "protodeps" {
						l, err = proto.Deps(abs(f), incs)
					} else {
						l, err = golang.Deps(abs(f), op.Rec, op.Tests)
					}
					plainok = plainok && err == nil
					for _, x := range l {
						plain[strings.Join(ysegs(base, cwd, x), "/")] = true
					}
				}
				ev["plain"], ev["plainok"] = sortedKeys(plain), plainok
			}
			if err != nil {
				tr.Notes = append(tr.Notes, err.Error())
			}
			tr.Events = append(tr.Events, ev)
			continue
		}

		past := time.Unix(1000000000, 0)
		if op.Op == "decls" {
			if _, err := os.Stat(outs[0]); err == nil {
				must(os.Chtimes(outs[0], past, past))
			}
		}
		if err == nil {
			ctx := context.Background()
			ctx = fab.WithDryRun(ctx, op.Dry)
			ctx = fab.WithForce(ctx, op.Force)
			db, derr := fab.OpenHashDB(filepath.Join(base, "fabdir"))
			must(derr)
			ctx = fab.WithHashDB(ctx, db)
			err = con.Run(ctx, target)
			must(db.Close())
		}
		if err != nil {
			tr.Notes = append(tr.Notes, err.Error())
		}
		ev["ok"] = err == nil
		if op.Op == "decls" {
			info, serr := os.Stat(outs[0])
			ev["ran"] = serr == nil && !info.ModTime().Equal(past)
			text, _ := os.ReadFile(outs[0])
			ev["made"] = fmt.Sprintf("%x", sha256.Sum224(text))
			tr.Events = append(tr.Events, ev)
			continue
		}
		text, _ := os.ReadFile(dlog)
		if ev["ran"] = len(text) > 0; len(text) > 0 {
			lines := strings.Split(string(text), "\n")
			if strings.Count(string(text), "END\n") > 1 {
				ev["e"] = "twice"
			}
			lines = lines[:len(lines)-2]
			if op.Op == "protoc" {
				incs, opts, files := [][]string{}, []string{}, [][]string{}
				for _, a := range lines {
					switch {
					case strings.HasPrefix(a, "-I"):
						incs = append(incs, ysegs(base, cwd, a[2:]))
					case strings.HasPrefix(a, "-"):
						opts = append(opts, a)
					default:
						files = append(files, ysegs(base, cwd, a))
					}
				}
				ev["gotincs"], ev["gotopts"], ev["gotfiles"] = incs, opts, files
			} else {
				// build -C dir -o out flags .
				d, o, opts := cwd, "", []string{}
				for i := 1; i < len(lines); i++ {
					switch {
					case lines[i] == "-C":
						i++
						d = filepath.Join(base, yjoin(ysegs(base, cwd, lines[i])))
					case lines[i] == "-o":
						i++
						o = lines[i]
					default:
						opts = append(opts, lines[i])
					}
				}
				if n := len(opts) - 1; n >= 0 && opts[n] == "." {
					opts = opts[:n]
				}
				ev["gotdir"], ev["gotout"], ev["gotopts"] = ysegs(base, cwd, d), ysegs(base, d, o), opts
			}
		}
		tr.Events = append(tr.Events, ev)
	}
	return tr
}
