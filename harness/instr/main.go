// Command instr copies the sources of packages into an overlay in which every statement
// is preceded by a call that may yield the processor for a while.
// This changes schedules, and nothing else.
//
// With a third argument "crash", the call kills the process instead
// if it is the one whose number is in the environment variable VERIF_CRASH.
// (It also counts the calls in the file named by VERIF_STEPLOG.)
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const (
	imports = `; import verifRand "math/rand"; import verifRuntime "runtime"; import verifTime "time"`
	yielder = `
func verifYield() {
	switch n := verifRand.Intn(400); {
	case n < 100:
		verifRuntime.Gosched()
	case n < 103:
		verifTime.Sleep(verifTime.Duration(verifRand.Intn(300)) * verifTime.Microsecond)
	}
}
`
)

const (
	crashImports = `; import verifOS "os"; import verifAtomic "sync/atomic"; import verifStrconv "strconv"; import verifSyscall "syscall"`
	crasher      = `
var (
	verifCrash, _ = verifStrconv.ParseInt(verifOS.Getenv("VERIF_CRASH"), 10, 64)
	verifStepLog  = verifOS.Getenv("VERIF_STEPLOG")
	verifSteps    verifAtomic.Int64
)

func verifYield() {
	if verifCrash == 0 && verifStepLog == "" {
		return
	}
	n := verifSteps.Add(1)
	if verifStepLog != "" {
		verifOS.WriteFile(verifStepLog, []byte(verifStrconv.FormatInt(n, 10)), 0644)
	}
	if n == verifCrash {
		verifSyscall.Kill(verifOS.Getpid(), verifSyscall.SIGKILL)
		select {}
	}
}
`
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	imports, yielder := imports, yielder
	if len(os.Args) > 3 && os.Args[3] == "crash" {
		imports, yielder = crashImports, crasher
	}
	overlay := map[string]string{}
	for _, dir := range []string{"", "sqlite"} {
		d := filepath.Join(repo, dir)
		entries, err := os.ReadDir(d)
		if err != nil {
			panic(err)
		}
		first := true
		for _, e := range entries {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			name := filepath.Join(d, e.Name())
			fset := token.NewFileSet()
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
			if err != nil {
				panic(err)
			}
			var at []int
			for _, decl := range f.Decls {
				fn, ok := decl.(*ast.FuncDecl)
				if !ok || fn.Body == nil {
					continue
				}
				if fn.Name.Name == "Write" || fn.Name.Name == "newline" || fn.Name.Name == "init" {
					continue // would take too long
				}
				ast.Inspect(fn.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.BlockStmt:
						at = append(at, weave(fset, n.List)...)
					case *ast.CaseClause:
						at = append(at, weave(fset, n.Body)...)
					case *ast.CommClause:
						at = append(at, weave(fset, n.Body)...)
					}
					return true
				})
			}
			sort.Sort(sort.Reverse(sort.IntSlice(at)))
			for _, off := range at {
				src = append(src[:off:off], append([]byte("verifYield(); "), src[off:]...)...)
			}
			if first {
				first = false
				off := fset.Position(f.Name.End()).Offset
				src = append(src[:off:off], append([]byte(imports), src[off:]...)...)
				src = append(src, yielder...)
			}
			to := filepath.Join(out, strings.ReplaceAll(filepath.Join(dir, e.Name()), "/", "_"))
			if err := os.WriteFile(to, src, 0644); err != nil {
				panic(err)
			}
			overlay[name] = to
		}
	}
	b, err := json.Marshal(map[string]any{"Replace": overlay})
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		panic(err)
	}
}

// The offsets of the statements in a list.
func weave(fset *token.FileSet, list []ast.Stmt) []int {
	var result []int
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return nil // the body of a switch or select
		}
		result = append(result, fset.Position(s.Pos()).Offset)
	}
	return result
}
