package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
	"gopkg.in/yaml.v3"
)

// Driver "cancel": builds that are canceled, see spec/FabCancel.tla.

func init() {
	subcmds["cancel"] = func(args []string) error {
		f := newFlags("cancel")
		f.Parse(args)
		var scripts []xscript
		if err := readJSON(f.in, &scripts); err != nil {
			return err
		}
		return runAll(f, len(scripts), func(i int) any { return scripts[i].exec(f.dir, i) }, func(t any) bool { return t.(xtrace).Stuck })
	}
}

type (
	xnode struct {
		K    string `json:"k"`
		Subs []int  `json:"subs"`
		Ref  int    `json:"ref"`
		Fail bool   `json:"fail"`
		Form string `json:"form"`
		Out  string `json:"out"`
		Trap bool   `json:"trap"` // heeds no signal that can be ignored
	}
	xbuild struct {
		Targets []int `json:"targets"`
		Pre     bool  `json:"pre"`
		Verbose bool  `json:"verbose"`
		Force   bool  `json:"force"`
	}
	xop struct {
		Op   string `json:"op"`
		X    int    `json:"x"`
		Ok   bool   `json:"ok"`
		Wait bool   `json:"wait"`
		Run  []int  `json:"run"`
		Recs []int  `json:"recs"`
	}
	xscript struct {
		Prog struct {
			Nodes  []xnode  `json:"nodes"`
			Builds []xbuild `json:"builds"`
		} `json:"prog"`
		Steps []xop `json:"steps"`
		Seed  int64 `json:"seed"`
	}
	xtrace struct {
		Events []fevent `json:"events"`
		Stuck  bool     `json:"stuck"`
	}
)

// The hash DB, counting the entries added in a build.
type xdb struct {
	*sqlite.DB
	mu    sync.Mutex
	added map[string]bool
}

func (d *xdb) Add(ctx context.Context, h []byte) error {
	err := d.DB.Add(ctx, h)
	if err == nil {
		d.mu.Lock()
		d.added[string(h)] = true
		d.mu.Unlock()
	}
	return err
}

func (d *xdb) count(reset bool) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	if reset {
		d.added = map[string]bool{}
	}
	return len(d.added)
}

type xexec struct {
	s        xscript
	base     string
	mu       sync.Mutex
	events   []fevent
	running  map[int]bool // started and not told to end
	pids     []int
	sentinel int
	fns      map[int]chan bool
	fifos    map[int]*os.File
	nodes    []fab.Target
}

func (x *xexec) log(e fevent) {
	x.mu.Lock()
	x.events = append(x.events, e)
	x.mu.Unlock()
}

func (x *xexec) started(n int) {
	x.mu.Lock()
	x.events = append(x.events, fevent{"e": "start", "x": n})
	x.running[n] = true
	x.mu.Unlock()
}

// The outputs of the leaves under a node.
func (x *xexec) outs(n int) []string {
	nd := x.s.Prog.Nodes[n-1]
	var result []string
	switch nd.K {
	case "cmd", "fn":
		return []string{filepath.Join(x.base, fmt.Sprintf("out%d", n))}
	case "files":
		return x.outs(nd.Ref)
	}
	for _, s := range nd.Subs {
		result = append(result, x.outs(s)...)
	}
	if nd.Ref > 0 {
		result = append(result, x.outs(nd.Ref)...)
	}
	return result
}

func (x *xexec) target(con *fab.Controller, n int, r *rand.Rand) fab.Target {
	if t := x.nodes[n-1]; t != nil {
		return t
	}
	nd := x.s.Prog.Nodes[n-1]
	sub := func(n int) fab.Target { return x.target(con, n, r) }
	subs := func(list []int) []fab.Target {
		var result []fab.Target
		for _, s := range list {
			result = append(result, sub(s))
		}
		return result
	}
	var t fab.Target
	switch nd.K {
	case "cmd":
		trap := ""
		if nd.Trap {
			trap = "trap '' INT TERM HUP QUIT PIPE; "
		}
		script := trap + fmt.Sprintf("echo some output; echo start %d $$ >%s/ev && read x <%s/f%d && echo more output && [ $x = ok ] && echo made >%s/out%d",
			n, x.base, x.base, n, x.base, n)
		c := &fab.Command{Shell: script}
		if nd.Form == "prog" {
			c = &fab.Command{Cmd: "/bin/sh", Args: []string{"-c", script}}
		}
		switch nd.Out {
		case "file":
			c.StdoutFile = filepath.Join(x.base, fmt.Sprintf("log%d", n))
		case "discard":
			c.Stdout = io.Discard
		case "fn":
			c.StdoutFn = func(_ context.Context, con *fab.Controller) io.Writer { return con.IndentingCopier(io.Discard, "> ") }
		}
		t = c
	case "fn":
		ch := x.fns[n]
		t = fab.F(func(ctx context.Context, _ *fab.Controller) error {
			x.started(n)
			select {
			case ok := <-ch:
				if !ok {
					return errors.New("failing as requested")
				}
				return nil
			case <-ctx.Done():
				return ctx.Err()
			}
		})
	case "all":
		t = fab.All(subs(nd.Subs)...)
	case "seq":
		t = fab.Seq(subs(nd.Subs)...)
	case "deps":
		t = fab.Deps(sub(nd.Ref), subs(nd.Subs)...)
	case "arg":
		t = fab.ArgTarget(sub(nd.Ref), "-x", "y")
	case "name":
		name := fmt.Sprintf("target%d", nd.Ref)
		_, err := con.RegisterTarget(name, "", sub(nd.Ref))
		must(err)
		t, err = con.YAMLTarget(&yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: name}, "")
		must(err)
	case "files":
		in := []string{filepath.Join(x.base, "src")}
		for _, s := range nd.Subs {
			sub(s)
			in = append(in, x.outs(s)...)
		}
		t = fab.Files(sub(nd.Ref), in, x.outs(n))
	default:
		panic("HARNESS: node kind " + nd.K)
	}
	x.nodes[n-1] = t
	return t
}

func (x *xexec) wait(d time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(d)
	for pause := 200 * time.Microsecond; ; {
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(pause)
		if pause < 20*time.Millisecond {
			pause = pause * 5 / 4
		}
	}
}

func (x *xexec) runningNow() []int {
	x.mu.Lock()
	defer x.mu.Unlock()
	result := []int{}
	for n := range x.running {
		result = append(result, n)
	}
	sort.Ints(result)
	return result
}

func (x *xexec) isRunning(n int) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.running[n]
}

// Have a leaf end.
func (x *xexec) release(n int, ok bool) {
	x.mu.Lock()
	delete(x.running, n)
	x.events = append(x.events, fevent{"e": "release", "x": n, "ok": ok})
	x.mu.Unlock()
	if x.s.Prog.Nodes[n-1].K == "fn" {
		x.fns[n] <- ok
		return
	}
	_, err := x.fifos[n].WriteString(map[bool]string{true: "ok\n", false: "no\n"}[ok])
	must(err)
}

func (s xscript) exec(dir string, idx int) (tr xtrace) {
	r := rand.New(rand.NewSource(s.Seed))
	x := &xexec{s: s, base: filepath.Join(dir, fmt.Sprintf("x%d-%d", os.Getpid(), idx)), fifos: map[int]*os.File{}}
	defer removeAll(x.base)
	must(os.MkdirAll(x.base, 0755))
	must(os.WriteFile(filepath.Join(x.base, "src"), []byte("source"), 0644))
	must(syscall.Mkfifo(filepath.Join(x.base, "ev"), 0600))
	ev, err := os.OpenFile(filepath.Join(x.base, "ev"), os.O_RDWR, 0)
	must(err)
	defer ev.Close()
	go func() {
		for sc := bufio.NewScanner(ev); sc.Scan(); {
			var n, pid int
			if _, err := fmt.Sscanf(sc.Text(), "start %d %d", &n, &pid); err == nil {
				x.mu.Lock()
				x.pids = append(x.pids, pid)
				x.mu.Unlock()
				x.started(n)
			} else if sc.Text() == "sentinel" {
				x.mu.Lock()
				x.sentinel++
				x.mu.Unlock()
			}
		}
	}()
	// What commands print in verbose mode goes nowhere.
	devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	oldOut, oldErr := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = devnull, devnull
	defer func() { os.Stdout, os.Stderr = oldOut, oldErr }()

	sdb, err := sqlite.Open(filepath.Join(x.base, "db"))
	must(err)
	defer sdb.Close()
	db := &xdb{DB: sdb, added: map[string]bool{}}

	var (
		cancel   = func() {}
		returned chan error
		pend     error
		isBack   bool
	)
	back := func() bool {
		if !isBack {
			select {
			case pend = <-returned:
				isBack = true
			default:
			}
		}
		return isBack
	}
	defer func() {
		cancel()
		for _, f := range x.fifos {
			f.Close()
		}
		tr.Events = x.events
	}()
	// Once a build has been canceled it is open how much of it was done,
	// so what later builds have to do is too: from there on the steps are followed as far as they apply.
	free, canceled := false, false
	for _, op := range s.Steps {
		// Wait until fab has done what it owes.
		switch {
		case op.Op == "return" || !op.Wait || canceled:
		case free:
			now := fmt.Sprint(x.runningNow())
			since := time.Now()
			x.wait(30*time.Second, func() bool {
				if n := fmt.Sprint(x.runningNow()); n != now {
					now, since = n, time.Now()
				}
				return back() || op.Op == "release" && x.isRunning(op.X) || len(x.runningNow()) > 0 && time.Since(since) > 30*time.Millisecond
			})
		default:
			sort.Ints(op.Run)
			x.wait(30*time.Second, func() bool {
				return fmt.Sprint(x.runningNow()) == fmt.Sprint(op.Run) && db.count(false) >= len(op.Recs)
			})
			x.log(fevent{"e": "settled", "run": x.runningNow()}) // (tells whether it has)
		}
		switch op.Op {
		case "build":
			b := s.Prog.Builds[op.X-1]
			x.mu.Lock()
			x.running = map[int]bool{}
			x.pids = nil
			x.mu.Unlock()
			x.fns = map[int]chan bool{}
			for i, nd := range s.Prog.Nodes {
				switch nd.K {
				case "cmd":
					name := filepath.Join(x.base, fmt.Sprintf("f%d", i+1))
					if f := x.fifos[i+1]; f != nil {
						f.Close()
						must(os.Remove(name))
					}
					must(syscall.Mkfifo(name, 0600))
					f, err := os.OpenFile(name, os.O_RDWR, 0)
					must(err)
					x.fifos[i+1] = f
				case "fn":
					x.fns[i+1] = make(chan bool, 1)
				}
			}
			db.count(true)
			con := fab.NewController("")
			x.nodes = make([]fab.Target, len(s.Prog.Nodes))
			for i := range s.Prog.Nodes {
				x.target(con, i+1, r)
			}
			var targets []fab.Target
			for _, t := range b.Targets {
				targets = append(targets, x.nodes[t-1])
			}
			ctx := context.Background()
			switch r.Intn(3) {
			case 0:
				ctx, cancel = context.WithCancel(ctx)
			case 1:
				var c context.CancelCauseFunc
				ctx, c = context.WithCancelCause(ctx)
				cancel = func() { c(errors.New("enough")) }
			case 2: // a deadline, far away; the parent is canceled
				ctx, cancel = context.WithCancel(ctx)
				var c2 context.CancelFunc
				ctx, c2 = context.WithTimeout(ctx, time.Hour)
				defer c2()
			}
			if r.Intn(2) == 0 {
				ctx = fab.WithVerbose(ctx, b.Verbose)
			}
			ctx = fab.WithHashDB(ctx, db)
			if b.Pre {
				cancel()
			}
			canceled = b.Pre
			x.log(fevent{"e": "build", "x": op.X})
			ch := make(chan error, 1)
			returned, isBack = ch, false
			go func() { ch <- con.Run(ctx, targets...) }()

		case "release":
			if !free || x.isRunning(op.X) {
				x.release(op.X, op.Ok)
			}

		case "cancel":
			if !op.Wait {
				for i := r.Intn(4); i > 0; i-- {
					time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
				}
			}
			// (A start that is about to be logged may precede the cancellation.)
			x.mu.Lock()
			x.events = append(x.events, fevent{"e": "cancel"})
			cancel()
			x.mu.Unlock()
			canceled = true

		case "return":
			over := func() bool {
				if back() {
					return true
				}
				if free && !canceled {
					for _, n := range x.runningNow() {
						x.release(n, !s.Prog.Nodes[n-1].Fail)
					}
				}
				return false
			}
			if !x.wait(60*time.Second, over) {
				x.log(fevent{"e": "stuck"})
				x.mu.Lock()
				for _, pid := range x.pids {
					syscall.Kill(pid, syscall.SIGKILL)
				}
				x.mu.Unlock()
				tr.Stuck = true
				return
			}
			x.mu.Lock()
			want := x.sentinel + 1
			x.mu.Unlock()
			_, err := ev.WriteString("sentinel\n")
			must(err)
			if !x.wait(30*time.Second, func() bool { x.mu.Lock(); defer x.mu.Unlock(); return x.sentinel >= want }) {
				panic("HARNESS: events are not read")
			}
			e := fevent{"e": "return", "ok": pend == nil}
			if pend != nil {
				e["err"] = strings.ToValidUTF8(pend.Error(), "?")
			}
			x.log(e)
			alive := []int{}
			x.mu.Lock()
			for _, pid := range x.pids {
				if syscall.Kill(pid, 0) == nil {
					alive = append(alive, pid)
				}
			}
			x.mu.Unlock()
			x.log(fevent{"e": "alive", "run": alive})
			for _, pid := range alive {
				syscall.Kill(pid, syscall.SIGKILL)
			}
			cancel()
			free = free || canceled
		}
	}
	return tr
}
