// Command vh drives the real code of github.com/bobg/fab and records what it does.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

type subcmd func(args []string) error

var subcmds = map[string]subcmd{}

func main() {
	if filepath.Base(os.Args[0]) == "vhproc" {
		vhproc()
	}
	if len(os.Args) < 2 {
		usage()
	}
	f, ok := subcmds[os.Args[1]]
	if !ok {
		usage()
	}
	if err := f(os.Args[2:]); err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS ERROR: %s\n", err)
		os.Exit(3)
	}
}

func usage() {
	var names []string
	for n := range subcmds {
		names = append(names, n)
	}
	sort.Strings(names)
	fmt.Fprintln(os.Stderr, "usage: vh", names)
	os.Exit(3)
}

func readJSON(name string, into any) error {
	b, err := os.ReadFile(name)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, into)
}

func writeJSON(name string, val any) error {
	b, err := json.Marshal(val)
	if err != nil {
		return err
	}
	tmp := name + ".tmp"
	if err := os.WriteFile(tmp, b, 0644); err != nil {
		return err
	}
	return os.Rename(tmp, name)
}

func must(err error) {
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
}

// stdflags are the flags that all subcommands take.
type stdflags struct {
	*flag.FlagSet
	in, out, dir, profile string
	seed                  int64
	n                     int
}

func newFlags(name string) *stdflags {
	f := &stdflags{FlagSet: flag.NewFlagSet(name, flag.ExitOnError)}
	f.StringVar(&f.in, "in", "", "input file")
	f.StringVar(&f.out, "out", "", "output file")
	f.StringVar(&f.dir, "dir", "", "scratch directory")
	f.StringVar(&f.profile, "profile", "", "what kind of cases")
	f.Int64Var(&f.seed, "seed", 1, "random seed")
	f.IntVar(&f.n, "n", 100, "how many cases")
	return f
}
