package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
)

// Generation of programs for the "run" driver.

type runWeights map[string]int

func (w runWeights) pick(r *rand.Rand) string {
	total := 0
	for _, k := range sortedKeys(w) {
		total += w[k]
	}
	n := r.Intn(total)
	for _, k := range sortedKeys(w) {
		if n < w[k] {
			return k
		}
		n -= w[k]
	}
	panic("HARNESS: pick")
}

var runProfiles = map[string]struct {
	min, max, clients int
	composite         runWeights
	leafFrac          int // percent of nodes that are leaves, at least
	failFrac          int
}{
	"graph": {4, 10, 3, runWeights{"all": 3, "seq": 3, "deps": 3, "arg": 1, "name": 2, "files": 2, "dyn": 2, "bad": 1}, 45, 25},
	"seq":   {5, 11, 2, runWeights{"all": 2, "seq": 5, "deps": 5, "dyn": 1, "name": 1, "bad": 1}, 50, 35},
	"wide":  {6, 14, 4, runWeights{"all": 5, "seq": 2, "deps": 2, "dyn": 3, "name": 2, "files": 2}, 50, 15},
	"files": {6, 12, 3, runWeights{"files": 6, "all": 2, "seq": 1, "name": 1, "dyn": 1}, 40, 20},
	"ident": {6, 14, 2, runWeights{"all": 4, "seq": 2, "deps": 2, "arg": 1, "name": 2}, 70, 15},
	"small": {3, 6, 2, runWeights{"all": 3, "seq": 3, "deps": 3, "arg": 1, "name": 2, "files": 2, "dyn": 3, "bad": 1}, 40, 30},
	"args":  {4, 10, 2, runWeights{"arg": 6, "all": 2, "seq": 2, "deps": 2, "name": 3, "files": 1, "dyn": 2}, 40, 10},
}

func runGen(args []string) error {
	f := newFlags("rungen")
	f.Parse(args)
	r := rand.New(rand.NewSource(f.seed))
	progs := make([]rprog, 0, f.n)
	for i := 0; i < f.n; i++ {
		switch f.profile {
		case "gc":
			progs = append(progs, gcProg(r))
			continue
		case "huge":
			progs = append(progs, hugeProg(r, i))
			continue
		}
		progs = append(progs, randProg(r, f.profile))
	}
	return writeJSON(f.out, progs)
}

func emptyNode(k string) rnode {
	return rnode{K: k, Subs: []int{}, Steps: [][]int{}, Ins: [][]string{}, Outs: [][]string{}, Args: "-"}
}

func gcProg(r *rand.Rand) rprog {
	p := rprog{GC: true, Nodes: []rnode{}, Calls: []rcall{}, Descs: []string{}}
	for c := 0; c < 12+r.Intn(20); c++ {
		var ts []int
		for k := 0; k < 1+r.Intn(3); k++ {
			n := emptyNode("leaf")
			n.Flavor = []string{"", "f", "small"}[r.Intn(3)]
			n.Fail = r.Intn(4) == 0
			p.Nodes = append(p.Nodes, n)
			id := len(p.Nodes)
			if r.Intn(4) == 0 {
				p.Nodes[id-1].Name = fmt.Sprintf("T%d", id)
			}
			p.Descs = append(p.Descs, descOf(p.Nodes[id-1], id))
			ts = append(ts, id)
		}
		if len(p.Nodes) > 200 {
			break
		}
		p.Calls = append(p.Calls, rcall{Client: 1, Targets: ts})
	}
	return p
}

func descOf(n rnode, id int) string {
	switch {
	case n.Name != "":
		return n.Name
	case n.K == "leaf" || n.K == "dyn":
		if n.Flavor == "f" {
			return "unnamed F"
		}
		return fmt.Sprintf("unnamed leaf%d", id)
	}
	return ""
}

func randProg(r *rand.Rand, profile string) rprog {
	prof, ok := runProfiles[profile]
	if !ok {
		panic("HARNESS: no such profile " + profile)
	}
	total := prof.min + r.Intn(prof.max-prof.min+1)
	p := rprog{Nodes: []rnode{}, Calls: []rcall{}, Descs: []string{}}

	// Leaves first.
	nleaf := 1 + total*prof.leafFrac/100
	zeros := r.Perm(4)
	for len(p.Nodes) < nleaf {
		leaf := func(flavor string) rnode {
			n := emptyNode("leaf")
			n.Flavor = flavor
			n.Fail = r.Intn(100) < prof.failFrac
			return n
		}
		k := r.Intn(10)
		if profile != "ident" && r.Intn(3) > 0 {
			k = r.Intn(2)
		}
		switch {
		case k <= 2:
			p.Nodes = append(p.Nodes, leaf(""))
		case k == 3:
			p.Nodes = append(p.Nodes, leaf("f"))
		case k <= 4:
			p.Nodes = append(p.Nodes, leaf("small"))
		case k == 5:
			p.Nodes = append(p.Nodes, leaf("same"), leaf("same"))
		case k <= 7:
			if len(zeros) > 0 {
				p.Nodes = append(p.Nodes, leaf(fmt.Sprintf("zero%d", zeros[0])))
				zeros = zeros[1:]
			}
		case k == 8:
			p.Nodes = append(p.Nodes, leaf("in"), leaf("outer"))
		default:
			p.Nodes = append(p.Nodes, leaf("in"), leaf("in"), leaf("outer2"))
		}
	}
	top := map[int]bool{}
	for i := range p.Nodes {
		top[i+1] = true
	}
	// prefer nodes that nobody refers to yet
	pick := func() int {
		if r.Intn(3) > 0 {
			var cand []int
			for i := 1; i <= len(p.Nodes); i++ {
				if top[i] {
					cand = append(cand, i)
				}
			}
			if len(cand) > 0 {
				return cand[r.Intn(len(cand))]
			}
		}
		return 1 + r.Intn(len(p.Nodes))
	}
	refs := func(min, max int) []int {
		result := []int{}
		for k := min + r.Intn(max-min+1); k > 0; k-- {
			x := pick()
			delete(top, x)
			result = append(result, x)
		}
		return result
	}
	ref1 := func() int { return refs(1, 1)[0] }

	var outs [][]string // output paths so far
	dirs := map[int]bool{}
	for len(p.Nodes) < total {
		n := emptyNode(prof.composite.pick(r))
		id := len(p.Nodes) + 1
		switch n.K {
		case "all":
			n.Subs = refs(0, 4)
		case "seq":
			n.Subs = refs(0, 4)
		case "deps":
			n.Subs = refs(0, 3)
			n.Ref = ref1()
		case "arg":
			n.Ref = ref1()
			a := []string{}
			for k := r.Intn(4); k > 0; k-- {
				a = append(a, []string{"-x", "", "a b", fmt.Sprint("v", id), "--", "-" + fmt.Sprint(id)}[r.Intn(6)])
			}
			b, _ := json.Marshal(a)
			n.Args = string(b)
		case "name":
			n.Ref = ref1()
			if t := &p.Nodes[n.Ref-1]; t.Name == "" {
				if t.K == "name" || t.K == "bad" {
					// Not registrable, or pointless.
					n.K = "all"
					n.Subs = []int{n.Ref}
					n.Ref = 0
				} else {
					t.Name = fmt.Sprintf("N%d", n.Ref)
				}
			}
		case "files":
			n.Ref = ref1()
			for k := r.Intn(3); k > 0; k-- {
				if len(outs) > 0 && r.Intn(4) > 0 {
					o := outs[r.Intn(len(outs))]
					in := append([]string{}, o...)
					for r.Intn(2) == 0 && len(in) < 5 {
						in = append(in, fmt.Sprint("d", r.Intn(3)))
					}
					n.Ins = append(n.Ins, in)
				} else {
					n.Ins = append(n.Ins, []string{fmt.Sprint("i", r.Intn(5))})
				}
			}
			for k := r.Intn(3); k > 0; k-- {
				// Unique, and no output below another one of another target.
				o := []string{fmt.Sprint("o", id)}
				if r.Intn(2) == 0 {
					o = append(o, fmt.Sprint("d", k))
				} else if dirs[id] {
					continue
				}
				dirs[id] = true
				n.Outs = append(n.Outs, o)
			}
			if len(n.Outs) > 0 && r.Intn(6) == 0 {
				n.Ins = append(n.Ins, n.Outs[0])
			}
			outs = append(outs, n.Outs...)
		case "dyn":
			n.Prop = r.Intn(2) == 0
			n.Fail = r.Intn(100) < prof.failFrac/2
			for k := r.Intn(3); k >= 0; k-- {
				n.Steps = append(n.Steps, refs(0, 3))
			}
		case "bad":
			n.Flavor = []string{"value", "noname", "nil"}[r.Intn(3)]
		}
		p.Nodes = append(p.Nodes, n)
		top[id] = true
	}
	// Inputs of files may have become outputs of later files? No: only outputs of earlier ones are used.

	for i := range p.Nodes {
		if n := &p.Nodes[i]; n.Name == "" && n.K != "name" && n.K != "bad" && r.Intn(5) == 0 {
			n.Name = fmt.Sprintf("R%d", i+1)
		}
		p.Descs = append(p.Descs, descOf(p.Nodes[i], i+1))
	}

	clients := 1 + r.Intn(prof.clients)
	for c := 1; c <= clients; c++ {
		for k := 1 + r.Intn(2); k > 0; k-- {
			var ts []int
			for m := 1 + r.Intn(3); m > 0; m-- {
				x := pick()
				delete(top, x)
				ts = append(ts, x)
			}
			p.Calls = append(p.Calls, rcall{Client: c, Targets: ts})
		}
	}
	return p
}

// Wide and deep programs: nothing may limit how much is in progress at once.
func hugeProg(r *rand.Rand, i int) rprog {
	p := rprog{Nodes: []rnode{}, Calls: []rcall{}, Descs: []string{}}
	add := func(n rnode) int {
		p.Nodes = append(p.Nodes, n)
		p.Descs = append(p.Descs, "")
		return len(p.Nodes)
	}
	leaf := func() int {
		n := emptyNode("leaf")
		n.Fail = r.Intn(20) == 0
		return add(n)
	}
	comp := func(k string, subs ...int) int {
		n := emptyNode(k)
		n.Subs = subs
		return add(n)
	}
	switch i % 4 {
	case 0: // one call, very many targets
		var ts []int
		for k := 70 + r.Intn(2)*r.Intn(300); k > 0; k-- {
			ts = append(ts, leaf())
		}
		if r.Intn(2) == 0 {
			ts = []int{comp("all", ts...)}
		}
		p.Calls = []rcall{{Client: 1, Targets: ts}}
	case 1: // Alls within Alls
		var ts []int
		for k := 0; k < 9; k++ {
			var sub []int
			for m := 0; m < 10; m++ {
				sub = append(sub, leaf())
			}
			ts = append(ts, comp("all", sub...))
		}
		p.Calls = []rcall{{Client: 1, Targets: []int{comp("all", ts...)}}, {Client: 2, Targets: ts[:4]}}
	case 2: // deep nesting, everything in progress at once
		x := leaf()
		for k := []int{40, 300}[i/4%2]; k > 0; k-- {
			if k%10 == 0 {
				leaf()
				x = comp("all", x, len(p.Nodes))
			} else {
				x = comp("all", x)
			}
		}
		p.Calls = []rcall{{Client: 1, Targets: []int{x}}, {Client: 2, Targets: []int{x - 2, x - 23}}}
	case 3: // many clients wanting the same
		x := leaf()
		y := comp("all", x, leaf())
		z := comp("seq", y, x, leaf())
		for c := 1; c <= 40; c++ {
			p.Calls = append(p.Calls, rcall{Client: c, Targets: []int{x + r.Intn(z-x+1), z}})
		}
	}
	return p
}
