package main

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/bobg/fab"
)

// The "indent" driver: indented output, see spec/FabIndent.tla.

func init() {
	subcmds["indent"] = indentRun
}

type (
	iop struct {
		Op     string   `json:"op"`
		R      int      `json:"r"`
		How    string   `json:"how"`
		K      int      `json:"k"`
		Prefix int      `json:"prefix"`
		Sink   int      `json:"sink"`
		Items  []string `json:"items"`
	}
	iscript struct {
		Prog struct {
			Prefixes []string `json:"prefixes"`
		} `json:"prog"`
		Steps []iop `json:"steps"`
	}
	itrace struct {
		Prog   int      `json:"prog"`
		Events []fevent `json:"events"`
	}
	ileaf struct {
		name          string
		enter, unlock chan struct{}
		err           error
	}
)

func (t *ileaf) Desc() string { return t.name }
func (t *ileaf) Run(context.Context, *fab.Controller) error {
	t.enter <- struct{}{}
	<-t.unlock
	return t.err
}

// Text in JSON has one code point for every byte.
func toBytes(s string) []byte {
	var b []byte
	for _, r := range s {
		if r > 255 {
			panic("HARNESS: not a byte")
		}
		b = append(b, byte(r))
	}
	return b
}

func fromBytes(b []byte) string {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return string(r)
}

func (s iscript) exec(dir string, idx int) itrace {
	tr := itrace{Events: []fevent{}}
	emit := func(ev fevent) { tr.Events = append(tr.Events, ev) }
	name := filepath.Join(dir, "stdout")
	f, err := os.Create(name)
	must(err)
	saved := os.Stdout
	os.Stdout = f
	defer func() {
		os.Stdout = saved
		f.Close()
	}()
	var bufs [2]bytes.Buffer
	sinkw := []io.Writer{f, &bufs[0], &bufs[1]}
	text := func(k int) string {
		if k == 1 {
			b, err := os.ReadFile(name)
			must(err)
			return fromBytes(b)
		}
		return fromBytes(bufs[k-2].Bytes())
	}
	type runrec struct {
		leaf *ileaf
		how  string
		done chan error
	}
	con := fab.NewController(dir)
	ctx := context.Background()
	runs := map[int]*runrec{}
	copiers := map[int]io.Writer{}
	sinkOf := map[int]int{}
	over := &ileaf{name: "over", enter: make(chan struct{}, 1), unlock: make(chan struct{})}
	close(over.unlock)
	defer func() {
		for _, r := range runs {
			close(r.leaf.unlock)
		}
	}()
	stuck := time.NewTimer(hangTimeout)
	defer stuck.Stop()
	for _, op := range s.Steps {
		switch op.Op {
		case "begin":
			leaf := &ileaf{name: "leaf", enter: make(chan struct{}), unlock: make(chan struct{})}
			if op.How == "fail" {
				leaf.err = errors.New("failed")
			}
			ts := []fab.Target{leaf}
			if op.How == "twice" {
				ts = append(ts, leaf)
			}
			r := &runrec{leaf: leaf, how: op.How, done: make(chan error, 1)}
			go func() { r.done <- con.Run(ctx, ts...) }()
			select {
			case <-leaf.enter:
			case <-stuck.C:
				emit(fevent{"e": "stuck"})
				return tr
			}
			runs[op.R] = r
			emit(fevent{"e": "begin", "r": op.R})
		case "end":
			r := runs[op.R]
			delete(runs, op.R)
			close(r.leaf.unlock)
			select {
			case err := <-r.done:
				emit(fevent{"e": "end", "r": op.R, "how": r.how, "ok": err == nil})
			case <-stuck.C:
				emit(fevent{"e": "stuck"})
				return tr
			}
		case "empty":
			switch op.How {
			case "none":
				con.Run(ctx)
			case "bad":
				con.Run(ctx, nil)
			case "again":
				con.Run(ctx, over, over)
			}
		case "new":
			prefix := s.Prog.Prefixes[op.Prefix-1]
			copiers[op.K] = con.IndentingCopier(sinkw[op.Sink-1], string(toBytes(prefix)))
			sinkOf[op.K] = op.Sink
			emit(fevent{"e": "new", "k": op.K, "prefix": prefix, "sink": op.Sink})
		case "write":
			b := toBytes(strings.Join(op.Items, ""))
			n, err := copiers[op.K].Write(b)
			emit(fevent{"e": "write", "k": op.K, "items": op.Items, "ok": err == nil && n == len(b), "text": text(sinkOf[op.K])})
		case "indentf":
			b := toBytes(strings.Join(op.Items, ""))
			con.Indentf(strings.ReplaceAll(string(b), "%", "%%"))
			emit(fevent{"e": "indentf", "items": op.Items, "text": text(1)})
		default:
			panic("HARNESS: bad op " + op.Op)
		}
	}
	return tr
}

func indentRun(args []string) error {
	f := newFlags("indent")
	f.Parse(args)
	var scripts []iscript
	if err := readJSON(f.in, &scripts); err != nil {
		return err
	}
	return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(tr any) bool {
		evs := tr.(itrace).Events
		return len(evs) > 0 && evs[len(evs)-1]["e"] == "stuck"
	})
}
