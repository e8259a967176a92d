package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
)

// The "run" driver: executes programs (graphs of targets, and Run calls on one controller),
// see spec/FabRun.tla.

func init() {
	subcmds["rungen"] = runGen
	subcmds["run"] = runRun
}

type (
	rnode struct {
		K      string     `json:"k"`
		Subs   []int      `json:"subs"`
		Ref    int        `json:"ref"`
		Args   string     `json:"args"`
		Fail   bool       `json:"fail"`
		Prop   bool       `json:"prop"`
		Steps  [][]int    `json:"steps"`
		Ins    [][]string `json:"ins"`
		Outs   [][]string `json:"outs"`
		Flavor string     `json:"flavor"`
		Name   string     `json:"name"` // registered name, if any
	}
	rcall struct {
		Client  int   `json:"client"`
		Targets []int `json:"targets"`
	}
	rprog struct {
		Nodes []rnode  `json:"nodes"` // node i+1
		Calls []rcall  `json:"calls"` // call i+1
		Descs []string `json:"descs"`
		GC    bool     `json:"gc"`
	}
	rstep struct {
		Op  string `json:"op"`
		Arg int    `json:"arg"`
		Run []int  `json:"run"`
		Ret []int  `json:"ret"`
	}
	rbeh struct {
		Tid   int     `json:"tid"`
		Steps []rstep `json:"steps"`
	}
	rscript struct {
		Prog  rprog   `json:"prog"`
		Steps []rstep `json:"steps"` // empty: run freely
		Seed  int64   `json:"seed"`
	}
	revent struct {
		E    string `json:"e"`
		X    int    `json:"x"`
		A    string `json:"a"`
		OK   bool   `json:"ok"`
		Errs []int  `json:"errs"`
	}
	rtrace struct {
		Prog   rprog    `json:"prog"`
		Events []revent `json:"events"`
	}
)

type leafErr struct{ id int }

func (e *leafErr) Error() string { return fmt.Sprintf("leaf %d failed", e.id) }

// execution of one program
type rexec struct {
	prog rprog
	con  *fab.Controller
	ctx  context.Context
	ctl  bool
	free *rand.Rand

	mu      sync.Mutex
	cond    *sync.Cond
	events  []revent
	running map[int]chan struct{} // controlled mode: leaves waiting to be released
	ret     map[int]bool
	closed  bool
	objs    map[int]fab.Target
	errs    map[int]*leafErr
	prefix  string
}

func (x *rexec) emit(ev revent) {
	if ev.Errs == nil {
		ev.Errs = []int{}
	}
	x.mu.Lock()
	if !x.closed {
		x.events = append(x.events, ev)
	}
	x.cond.Broadcast()
	x.mu.Unlock()
}

func (x *rexec) jitter() {
	x.mu.Lock()
	n := x.free.Intn(10)
	x.mu.Unlock()
	switch {
	case n < 4:
	case n < 7:
		runtime.Gosched()
	default:
		time.Sleep(time.Duration(n*n) * time.Microsecond)
	}
}

func argString(ctx context.Context) string {
	a := fab.GetArgs(ctx)
	if a == nil {
		return "-"
	}
	b, _ := json.Marshal(a)
	return string(b)
}

func (x *rexec) runNode(ctx context.Context, id int) error {
	n := x.prog.Nodes[id-1]
	a := argString(ctx)
	var gate chan struct{}
	if x.ctl && n.K == "leaf" {
		gate = make(chan struct{})
	}
	x.mu.Lock()
	if !x.closed {
		x.events = append(x.events, revent{E: "enter", X: id, A: a, Errs: []int{}})
	}
	if gate != nil {
		x.running[id] = gate
	}
	x.cond.Broadcast()
	x.mu.Unlock()

	var err error
	if n.K == "leaf" {
		if gate != nil {
			<-gate
		} else {
			x.jitter()
		}
		if n.Fail {
			err = x.errs[id]
		}
	} else {
		for i, step := range n.Steps {
			x.emit(revent{E: "dyncall", X: id})
			rerr := x.con.Run(ctx, x.targets(step)...)
			x.emit(revent{E: "dynret", X: id, OK: rerr == nil, Errs: x.errset(rerr)})
			if rerr != nil && n.Prop {
				err = rerr
				break
			}
			_ = i
		}
		if err == nil && n.Fail {
			err = x.errs[id]
		}
	}

	x.mu.Lock()
	if !x.closed {
		x.events = append(x.events, revent{E: "exit", X: id, OK: err == nil, Errs: []int{}})
	}
	delete(x.running, id)
	x.cond.Broadcast()
	x.mu.Unlock()
	return err
}

func (x *rexec) errset(err error) []int {
	result := []int{}
	if err == nil {
		return result
	}
	for id := 1; id <= len(x.prog.Nodes); id++ {
		if errors.Is(err, x.errs[id]) {
			result = append(result, id)
		}
	}
	return result
}

func (x *rexec) targets(ids []int) []fab.Target {
	var result []fab.Target
	for _, id := range ids {
		result = append(result, x.obj(id))
	}
	return result
}

// Target types. A target's identity must not depend on what kind of Go value it is.

type leafT struct { // ordinary heap object
	X  *rexec
	ID int
}

func (t *leafT) Run(ctx context.Context, _ *fab.Controller) error { return t.X.runNode(ctx, t.ID) }
func (t *leafT) Desc() string                                     { return fmt.Sprintf("leaf%d", t.ID) }

type outerT struct { // begins with another target
	Inner leafT
	X     *rexec
	ID    int
}

func (t *outerT) Run(ctx context.Context, _ *fab.Controller) error { return t.X.runNode(ctx, t.ID) }
func (t *outerT) Desc() string                                     { return fmt.Sprintf("leaf%d", t.ID) }

type outer2T struct { // embeds another target
	outerT
	X2  *rexec
	ID2 int
}

func (t *outer2T) Run(ctx context.Context, _ *fab.Controller) error { return t.X2.runNode(ctx, t.ID2) }
func (t *outer2T) Desc() string                                     { return fmt.Sprintf("leaf%d", t.ID2) }

type smallT byte // tiny, no pointers: shares allocation blocks

var smallX *rexec

func (t *smallT) Run(ctx context.Context, _ *fab.Controller) error {
	return smallX.runNode(ctx, int(*t))
}
func (t *smallT) Desc() string { return fmt.Sprintf("leaf%d", int(*t)) }

// Targets whose contents say nothing about who they are.
type sameT struct{ Name string }

var sameX *rexec
var sameID sync.Map // *sameT -> int

func (t *sameT) Run(ctx context.Context, _ *fab.Controller) error {
	return sameX.runNode(ctx, t.id())
}
func (t *sameT) id() int {
	id, _ := sameID.Load(t)
	return id.(int)
}
func (t *sameT) Desc() string { return fmt.Sprintf("leaf%d", t.id()) }

// Targets of size zero.
var zeroX *rexec
var zeroID [4]int

type (
	zero0 struct{}
	zero1 struct{}
	zero2 [0]int
	zero3 struct{ _ [0]string }
)

func (*zero0) Run(ctx context.Context, _ *fab.Controller) error { return zeroX.runNode(ctx, zeroID[0]) }
func (*zero1) Run(ctx context.Context, _ *fab.Controller) error { return zeroX.runNode(ctx, zeroID[1]) }
func (*zero2) Run(ctx context.Context, _ *fab.Controller) error { return zeroX.runNode(ctx, zeroID[2]) }
func (*zero3) Run(ctx context.Context, _ *fab.Controller) error { return zeroX.runNode(ctx, zeroID[3]) }
func (*zero0) Desc() string                                     { return fmt.Sprintf("leaf%d", zeroID[0]) }
func (*zero1) Desc() string                                     { return fmt.Sprintf("leaf%d", zeroID[1]) }
func (*zero2) Desc() string                                     { return fmt.Sprintf("leaf%d", zeroID[2]) }
func (*zero3) Desc() string                                     { return fmt.Sprintf("leaf%d", zeroID[3]) }

// Not usable as a target, because it's not a pointer.
type valueT struct{ ID int }

func (valueT) Run(context.Context, *fab.Controller) error { return nil }
func (valueT) Desc() string                               { return "value" }

func (x *rexec) obj(id int) fab.Target {
	x.mu.Lock()
	t := x.objs[id]
	x.mu.Unlock()
	if t != nil {
		return t
	}
	t = x.make(id)
	x.mu.Lock()
	if t2 := x.objs[id]; t2 != nil {
		t = t2
	} else {
		x.objs[id] = t
	}
	x.mu.Unlock()
	return t
}

func scalar(s string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s} }

func (x *rexec) make(id int) fab.Target {
	n := x.prog.Nodes[id-1]
	switch n.K {
	case "leaf", "dyn":
		switch {
		case n.Flavor == "f":
			return fab.F(func(ctx context.Context, _ *fab.Controller) error { return x.runNode(ctx, id) })
		case n.Flavor == "small":
			t := smallT(id)
			return &t
		case n.Flavor == "same":
			t := &sameT{Name: "same"}
			sameID.Store(t, id)
			return t
		case strings.HasPrefix(n.Flavor, "zero"):
			k := int(n.Flavor[4] - '0')
			zeroID[k] = id
			switch k {
			case 0:
				return &zero0{}
			case 1:
				return &zero1{}
			case 2:
				return &zero2{}
			default:
				return &zero3{}
			}
		case n.Flavor == "in": // part of the next node, or the one after it (made there)
			owner := id + 1
			for x.prog.Nodes[owner-1].Flavor == "in" {
				owner++
			}
			x.obj(owner)
			return x.objs[id]
		case n.Flavor == "outer": // begins with the preceding node
			o := &outerT{X: x, ID: id, Inner: leafT{X: x, ID: id - 1}}
			x.mu.Lock()
			x.objs[id-1] = &o.Inner
			x.mu.Unlock()
			return o
		case n.Flavor == "outer2": // embeds the two preceding nodes
			o := &outer2T{X2: x, ID2: id, outerT: outerT{X: x, ID: id - 1, Inner: leafT{X: x, ID: id - 2}}}
			x.mu.Lock()
			x.objs[id-1] = &o.outerT
			x.objs[id-2] = &o.outerT.Inner
			x.mu.Unlock()
			return o
		}
		return &leafT{X: x, ID: id}
	case "all":
		return fab.All(x.targets(n.Subs)...)
	case "seq":
		return fab.Seq(x.targets(n.Subs)...)
	case "deps":
		return fab.Deps(x.obj(n.Ref), x.targets(n.Subs)...)
	case "arg":
		var a []string
		must(json.Unmarshal([]byte(n.Args), &a))
		return fab.ArgTarget(x.obj(n.Ref), a...)
	case "name":
		t, err := x.con.YAMLTarget(scalar(x.prog.Nodes[n.Ref-1].Name), "")
		must(err)
		return t
	case "files":
		return fab.Files(x.obj(n.Ref), x.paths(n.Ins), x.paths(n.Outs))
	case "bad":
		switch n.Flavor {
		case "value":
			return valueT{ID: id}
		case "nil":
			return nil
		default:
			t, err := x.con.YAMLTarget(scalar(fmt.Sprintf("NoSuchTarget%d", id)), "")
			must(err)
			return t
		}
	}
	panic("HARNESS: bad kind " + n.K)
}

func (x *rexec) paths(list [][]string) []string {
	var result []string
	for _, p := range list {
		result = append(result, x.prefix+"/"+strings.Join(p, "/"))
	}
	return result
}

var hangTimeout = 30 * time.Second

var runCounter int

func (s rscript) exec() rtrace {
	runCounter++
	x := &rexec{
		prog:    s.Prog,
		con:     fab.NewController("."),
		ctx:     context.Background(),
		ctl:     len(s.Steps) > 0,
		free:    rand.New(rand.NewSource(s.Seed)),
		running: make(map[int]chan struct{}),
		ret:     make(map[int]bool),
		objs:    make(map[int]fab.Target),
		errs:    make(map[int]*leafErr),
		prefix:  fmt.Sprintf("/nonexistent-verif/%d-%d", os.Getpid(), runCounter),
	}
	x.cond = sync.NewCond(&x.mu)
	for id := 1; id <= len(s.Prog.Nodes); id++ {
		x.errs[id] = &leafErr{id: id}
	}
	smallX, zeroX, sameX = x, x, x

	if !s.Prog.GC {
		for id := 1; id <= len(s.Prog.Nodes); id++ {
			if n := s.Prog.Nodes[id-1]; n.Name != "" {
				_, err := x.con.RegisterTarget(n.Name, "doc", x.obj(id))
				must(err)
			}
		}
		for id := 1; id <= len(s.Prog.Nodes); id++ {
			x.obj(id)
		}
	}

	if s.Prog.GC {
		x.gcClient()
	} else if x.ctl {
		x.controlled(s.Steps)
	} else {
		x.freely()
	}

	if !s.Prog.GC {
		for id := 1; id <= len(s.Prog.Nodes); id++ {
			if s.Prog.Descs[id-1] != "" {
				x.emit(revent{E: "desc", X: id, A: x.con.Describe(x.obj(id))})
			}
		}
	}

	x.mu.Lock()
	defer x.mu.Unlock()
	x.closed = true
	for id, g := range x.running {
		close(g)
		delete(x.running, id)
	}
	return rtrace{Prog: s.Prog, Events: x.events}
}

func (x *rexec) doCall(c int) {
	ts := x.targets(x.prog.Calls[c-1].Targets)
	x.emit(revent{E: "call", X: c})
	err := x.con.Run(x.ctx, ts...)
	x.mu.Lock()
	if !x.closed {
		x.events = append(x.events, revent{E: "ret", X: c, OK: err == nil, Errs: x.errset(err)})
	}
	x.ret[c] = true
	x.cond.Broadcast()
	x.mu.Unlock()
}

// Targets are created just before the call that mentions them, and dropped afterwards.
func (x *rexec) gcClient() {
	done := make(chan struct{})
	go func() {
		defer close(done)
		for c := range x.prog.Calls {
			for _, id := range x.prog.Calls[c].Targets {
				if name := x.prog.Nodes[id-1].Name; name != "" {
					_, err := x.con.RegisterTarget(name, "doc", x.obj(id))
					must(err)
				}
				x.emit(revent{E: "desc", X: id, A: x.con.Describe(x.obj(id))})
			}
			x.doCall(c + 1)
			x.mu.Lock()
			x.objs = make(map[int]fab.Target)
			x.mu.Unlock()
			if c%3 == 0 {
				runtime.GC()
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(hangTimeout):
		x.emit(revent{E: "stuck"})
	}
}

func (x *rexec) freely() {
	clients := make(map[int][]int)
	for c, call := range x.prog.Calls {
		clients[call.Client] = append(clients[call.Client], c+1)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, calls := range clients {
		calls := calls
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, c := range calls {
				x.doCall(c)
				x.jitter()
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	close(start)
	select {
	case <-done:
	case <-time.After(hangTimeout):
		x.emit(revent{E: "stuck"})
	}
}

// Follow the steps, waiting before each one until everything has happened that must have.
func (x *rexec) controlled(steps []rstep) {
	for _, step := range steps {
		if !x.await(step) {
			x.emit(revent{E: "stuck"})
			return
		}
		switch step.Op {
		case "call":
			go x.doCall(step.Arg)
		case "fin":
			x.mu.Lock()
			close(x.running[step.Arg])
			x.mu.Unlock()
			if !x.waitFor(func() bool { return x.running[step.Arg] == nil }) {
				x.emit(revent{E: "stuck"})
				return
			}
		}
	}
}

func (x *rexec) await(step rstep) bool {
	return x.waitFor(func() bool {
		for _, id := range step.Run {
			if x.running[id] == nil {
				return false
			}
		}
		for _, c := range step.Ret {
			if !x.ret[c] {
				return false
			}
		}
		return true
	})
}

func (x *rexec) waitFor(f func() bool) bool {
	deadline := time.Now().Add(hangTimeout)
	timer := time.AfterFunc(hangTimeout, func() { x.cond.Broadcast() })
	defer timer.Stop()
	x.mu.Lock()
	defer x.mu.Unlock()
	for !f() {
		if time.Now().After(deadline) {
			return false
		}
		x.cond.Wait()
	}
	return true
}

func runRun(args []string) error {
	f := newFlags("run")
	hang := f.Duration("hang", hangTimeout, "how long until a run counts as stuck")
	f.Parse(args)
	hangTimeout = *hang
	var scripts []rscript
	if err := readJSON(f.in, &scripts); err != nil {
		return err
	}
	return runAll(f, len(scripts), func(i int) any { return scripts[i].exec() }, func(tr any) bool {
		for _, ev := range tr.(rtrace).Events {
			if ev.E == "stuck" {
				return true
			}
		}
		return false
	})
}

// runAll executes scripts 0..n-1 and appends the traces to f.out, one JSON document per line,
// each preceded by its index.
// What is running is on record in case of a crash.
// It ends after something got stuck (which leaves goroutines behind).
func runAll(f *stdflags, n int, exec func(int) any, isStuck func(any) bool) error {
	out, err := os.OpenFile(f.out, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0644)
	if err != nil {
		return err
	}
	defer out.Close()
	start := *startAt(f.out)
	for i := start; i < n; i++ {
		if err := os.WriteFile(f.out+".cur", []byte(fmt.Sprint(i)), 0644); err != nil {
			return err
		}
		tr := exec(i)
		b, err := json.Marshal(tr)
		if err != nil {
			return err
		}
		if _, err = fmt.Fprintf(out, "%d %s\n", i, b); err != nil {
			return err
		}
		if isStuck(tr) {
			return nil
		}
	}
	return nil
}

// The index after the one last recorded as being executed.
func startAt(out string) *int {
	var i int
	b, err := os.ReadFile(out + ".next")
	if err == nil {
		fmt.Sscan(string(b), &i)
	}
	return &i
}

