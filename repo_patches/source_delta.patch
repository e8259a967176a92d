From 3998d8f6af81f91f93cda036fc29b54bfcf65ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 01/41] fix: run a target once even when it is referred to by
 name from several places

The outcome cache was keyed by the address of the reference,
not of the target it resolves to.
---
 runner.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/runner.go b/runner.go
index 941228c..7a803c0 100644
--- a/runner.go
+++ b/runner.go
@@ -63,16 +63,13 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 		wg      sync.WaitGroup
 	)
 	for i, target := range targets {
-		addr, err := targetAddr(target)
-		if err != nil {
-			errs[i] = err
-			continue
-		}
-
 		i, target := i, target // Go loop-var pitfall
 
 		if d, ok := target.(*deferredResolutionTarget); ok {
 			// Short-circuit here to avoid some confusing extra output in verbose mode.
+			// This must precede computing the target's address,
+			// since different references to a target must all have the same address.
+			var err error
 			target, err = d.resolve(con)
 			if err != nil {
 				errs[i] = err
@@ -80,6 +77,12 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			}
 		}
 
+		addr, err := targetAddr(target)
+		if err != nil {
+			errs[i] = err
+			continue
+		}
+
 		wg.Add(1)
 		go func() {
 			defer wg.Done()
-- 
2.43.0


From 60611e6d8fe9e28f55d75da903f805b7746d8627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 02/41] fix: identify targets by the targets themselves, not by
 their addresses

Distinct targets could be mistaken for one another:
a new target could get the address of a garbage-collected one,
zero-size targets of different types share an address,
and so do a target and another that it begins with.
---
 controller.go | 13 +++++++++----
 register.go   | 18 +++++++++---------
 runner.go     | 11 +++++------
 3 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/controller.go b/controller.go
index 23f35f6..bf6ebe9 100644
--- a/controller.go
+++ b/controller.go
@@ -23,12 +23,17 @@ type Controller struct {
 	depth int
 
 	// Records targets that have run or are running.
-	ran map[uintptr]*outcome
+	// The keys are targets rather than their addresses:
+	// distinct targets can have the same address,
+	// if one is embedded at the start of the other,
+	// or has size zero,
+	// or is allocated after the other is garbage collected.
+	ran map[Target]*outcome
 
 	// Keys are names related to topdir.
 	targetsByName map[string]targetRegistryTuple
 
-	targetsByAddr map[uintptr]targetRegistryTuple
+	targetsByAddr map[Target]targetRegistryTuple
 }
 
 // NewController creates a new [Controller]
@@ -38,9 +43,9 @@ type Controller struct {
 func NewController(topdir string) *Controller {
 	return &Controller{
 		topdir:        topdir,
-		ran:           make(map[uintptr]*outcome),
+		ran:           make(map[Target]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
-		targetsByAddr: make(map[uintptr]targetRegistryTuple),
+		targetsByAddr: make(map[Target]targetRegistryTuple),
 	}
 }
 
diff --git a/register.go b/register.go
index 7180e62..5bf10fa 100644
--- a/register.go
+++ b/register.go
@@ -10,8 +10,7 @@ import (
 
 // RegisterTarget places a target in the registry with a given name and doc string.
 func (con *Controller) RegisterTarget(name, doc string, target Target) (Target, error) {
-	addr, err := targetAddr(target)
-	if err != nil {
+	if err := checkTarget(target); err != nil {
 		return nil, err
 	}
 
@@ -19,18 +18,20 @@ func (con *Controller) RegisterTarget(name, doc string, target Target) (Target,
 
 	con.mu.Lock()
 	con.targetsByName[name] = tuple
-	con.targetsByAddr[addr] = tuple
+	con.targetsByAddr[target] = tuple
 	con.mu.Unlock()
 
 	return target, nil
 }
 
-func targetAddr(target Target) (uintptr, error) {
+// checkTarget checks that target is a pointer,
+// which is what gives it its identity.
+func checkTarget(target Target) error {
 	v := reflect.ValueOf(target)
 	if v.Kind() != reflect.Pointer {
-		return 0, fmt.Errorf("got type %T for target, want a pointer type", target)
+		return fmt.Errorf("got type %T for target, want a pointer type", target)
 	}
-	return uintptr(v.UnsafePointer()), nil
+	return nil
 }
 
 type targetRegistryTuple struct {
@@ -63,10 +64,9 @@ func (con *Controller) RegistryTarget(name string) (Target, string) {
 // otherwise it's "unnamed X"
 // where X is the result of calling the target's Desc method.
 func (con *Controller) Describe(target Target) string {
-	addr, err := targetAddr(target)
-	if err == nil { // sic
+	if err := checkTarget(target); err == nil { // sic
 		con.mu.Lock()
-		tuple, ok := con.targetsByAddr[addr]
+		tuple, ok := con.targetsByAddr[target]
 		con.mu.Unlock()
 		if ok {
 			return tuple.name
diff --git a/runner.go b/runner.go
index 7a803c0..511474c 100644
--- a/runner.go
+++ b/runner.go
@@ -67,8 +67,8 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 
 		if d, ok := target.(*deferredResolutionTarget); ok {
 			// Short-circuit here to avoid some confusing extra output in verbose mode.
-			// This must precede computing the target's address,
-			// since different references to a target must all have the same address.
+			// This must precede looking for the target's outcome,
+			// which must be the same for all references to the target.
 			var err error
 			target, err = d.resolve(con)
 			if err != nil {
@@ -77,8 +77,7 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			}
 		}
 
-		addr, err := targetAddr(target)
-		if err != nil {
+		if err := checkTarget(target); err != nil {
 			errs[i] = err
 			continue
 		}
@@ -88,10 +87,10 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			defer wg.Done()
 
 			con.mu.Lock()
-			o, ok := con.ran[addr]
+			o, ok := con.ran[target]
 			if !ok {
 				o = &outcome{g: newGate(false)}
-				con.ran[addr] = o
+				con.ran[target] = o
 			}
 			con.mu.Unlock()
 
-- 
2.43.0


From 914c1e27d5230aa22fd9d6eac0af28433c13069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 03/41] fix: report errors from statting the files of a Files
 target

An error other than fs.ErrNotExist caused a nil-pointer panic.
---
 files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/files.go b/files.go
index aa9fc57..5d36c73 100644
--- a/files.go
+++ b/files.go
@@ -287,6 +287,9 @@ func fileHashesItemHelper(item string, hashes map[string]string) error {
 		hashes[item] = ""
 		return nil
 	}
+	if err != nil {
+		return errors.Wrapf(err, "statting %s", item)
+	}
 
 	if info.IsDir() {
 		entries, err := os.ReadDir(item)
-- 
2.43.0


From 7919b017dd29b0bc4bacbd0f421a44b501331d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 04/41] fix: a Files target is not its own prerequisite

A Files target with the same file among its inputs and its outputs
waited for itself forever.
---
 files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/files.go b/files.go
index 5d36c73..8a4fac8 100644
--- a/files.go
+++ b/files.go
@@ -198,7 +198,8 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
 	for _, in := range ft.In {
-		if target := findInFilesRegistry(in); target != nil {
+		// (A target whose output is also among its inputs is not its own prerequisite.)
+		if target := findInFilesRegistry(in); target != nil && target != ft {
 			prereqs = append(prereqs, target)
 		}
 	}
-- 
2.43.0


From 5611b700cee7004caac986c58cfca85ac574f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 05/41] fix: running a Clean target must not change it

Its file list was sorted in place,
which changes the JSON encoding that Files depends on,
and races with other users of the list.
---
 clean.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clean.go b/clean.go
index 1cc3cfb..8f6acae 100644
--- a/clean.go
+++ b/clean.go
@@ -36,7 +36,8 @@ type Clean struct {
 
 // Run implements Target.Run.
 func (c *Clean) Run(ctx context.Context, con *Controller) error {
-	files := c.Files
+	// Copy c.Files, since it must not be changed by sorting.
+	files := append([]string(nil), c.Files...)
 	if c.Autoclean {
 		autocleanMu.Lock()
 		autocleanFiles := autocleanRegistry.Slice()
-- 
2.43.0


From 53c3ef3f5b1adb937c01ae85242807997bbe1586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 06/41] fix: include the targets of a Seq in its JSON encoding

All Seq and Deps targets had the same encoding,
so a Files target did not notice changes in such a subtarget.
---
 seq.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seq.go b/seq.go
index ef84027..1e69a59 100644
--- a/seq.go
+++ b/seq.go
@@ -20,18 +20,20 @@ import (
 // The elements in the sequence are targets themselves,
 // or target names.
 func Seq(targets ...Target) Target {
-	return &seq{targets: targets}
+	return &seq{Targets: targets}
 }
 
+// The JSON encoding must include the targets,
+// and differ from that of All.
 type seq struct {
-	targets []Target
+	Targets []Target `json:"seq"`
 }
 
 var _ Target = &seq{}
 
 // Run implements Target.Run.
 func (s *seq) Run(ctx context.Context, con *Controller) error {
-	for _, t := range s.targets {
+	for _, t := range s.Targets {
 		if err := con.Run(ctx, t); err != nil {
 			return err
 		}
-- 
2.43.0


From 2e5871826a569787c36b60d4a0e49e78b3a7fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 07/41] fix: let a Files subtarget be given by name

The encoding of a reference changed when it was resolved,
so a Files target with a named target in its rule was never up to date.
Encode the definitions of nested targets, with their types, instead.
---
 files.go | 87 +++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 77 insertions(+), 10 deletions(-)

diff --git a/files.go b/files.go
index 8a4fac8..f186956 100644
--- a/files.go
+++ b/files.go
@@ -4,11 +4,11 @@ import (
 	"context"
 	"crypto/sha256"
 	"encoding/hex"
+	"fmt"
 	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
-	"reflect"
 	"sort"
 
 	"github.com/bobg/errors"
@@ -173,17 +173,18 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
 	}
-	tt := reflect.TypeOf(ft.Target)
+	rule, err := newFilesRule(con, ft.Target, nil)
+	if err != nil {
+		return nil, errors.Wrapf(err, "computing rule for %s", con.Describe(ft))
+	}
 	s := struct {
-		Target     Target   `json:"target"`
-		TargetType string   `json:"target_type"`
-		In         []string `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
-		Out        []string `json:"out,omitempty"` // [filename, hash, filename, hash, ...]
+		Rule filesRule `json:"rule"`
+		In   []string  `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
+		Out  []string  `json:"out,omitempty"` // [filename, hash, filename, hash, ...]
 	}{
-		Target:     ft.Target,
-		TargetType: tt.String(),
-		In:         inHashes,
-		Out:        outHashes,
+		Rule: rule,
+		In:   inHashes,
+		Out:  outHashes,
 	}
 	j, err := json.Marshal(s)
 	if err != nil {
@@ -194,6 +195,72 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	return sum[:], nil
 }
 
+// A filesRule is a JSON-encodable description of a Files subtarget.
+// It depends on the definition of the subtarget and of every target nested in it,
+// whether nested directly or by name,
+// but not on whether references have been resolved or targets have run.
+type filesRule struct {
+	Type   string      `json:"type"`
+	Target Target      `json:"target,omitempty"`
+	Args   []string    `json:"args,omitempty"`
+	In     []string    `json:"in,omitempty"`
+	Out    []string    `json:"out,omitempty"`
+	Nested []filesRule `json:"nested,omitempty"`
+}
+
+// The outer argument is the list of targets that target is nested in.
+func newFilesRule(con *Controller, target Target, outer []Target) (filesRule, error) {
+	if err := checkTarget(target); err != nil {
+		return filesRule{}, err
+	}
+	for _, o := range outer {
+		if o == target {
+			return filesRule{}, fmt.Errorf("%s is nested in itself", con.Describe(target))
+		}
+	}
+
+	var (
+		result = filesRule{Type: fmt.Sprintf("%T", target)}
+		nested []Target
+	)
+
+	switch t := target.(type) {
+	case *deferredResolutionTarget:
+		resolved, err := t.resolve(con)
+		if err != nil {
+			return filesRule{}, err
+		}
+		return newFilesRule(con, resolved, append(outer, target))
+
+	case *all:
+		nested = t.Targets
+
+	case *seq:
+		nested = t.Targets
+
+	case *argTarget:
+		result.Args = t.Args
+		nested = []Target{t.Target}
+
+	case *files:
+		result.In, result.Out = t.In, t.Out
+		nested = []Target{t.Target}
+
+	default:
+		result.Target = target
+	}
+
+	for _, n := range nested {
+		r, err := newFilesRule(con, n, append(outer, target))
+		if err != nil {
+			return filesRule{}, err
+		}
+		result.Nested = append(result.Nested, r)
+	}
+
+	return result, nil
+}
+
 func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
-- 
2.43.0


From 0472e58bf8954bb0b42f49bc0ef2e5ca7457b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 08/41] fix: append to the right file for a Command with a >>
 prefix in YAML

The directory was joined in front of the prefix,
so that neither the prefix nor the filename was recognized.
---
 command.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/command.go b/command.go
index 238cd26..52c15cf 100644
--- a/command.go
+++ b/command.go
@@ -470,10 +470,7 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StdoutFile = con.JoinPath(dir, c.Stdout)
-		if forceAppend && !strings.HasPrefix(result.StdoutFile, ">>") {
-			result.StdoutFile = ">>" + result.StdoutFile
-		}
+		result.StdoutFile = outputFile(con, dir, c.Stdout, forceAppend)
 	}
 
 	switch c.Stderr {
@@ -496,15 +493,26 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StderrFile = con.JoinPath(dir, c.Stderr)
-		if forceAppend && !strings.HasPrefix(result.StderrFile, ">>") {
-			result.StderrFile = ">>" + result.StderrFile
-		}
+		result.StderrFile = outputFile(con, dir, c.Stderr, forceAppend)
 	}
 
 	return result
 }
 
+// Joins an output filename with dir and con's top directory,
+// keeping any >> prefix in front (or adding one if forceAppend is true).
+func outputFile(con *Controller, dir, name string, forceAppend bool) string {
+	isAppend := strings.HasPrefix(name, ">>")
+	if isAppend {
+		name = strings.TrimLeft(name, "> ")
+	}
+	name = con.JoinPath(dir, name)
+	if isAppend || forceAppend {
+		name = ">>" + name
+	}
+	return name
+}
+
 func deferredIndent(w io.Writer) func(context.Context, *Controller) io.Writer {
 	return func(_ context.Context, con *Controller) io.Writer {
 		return con.IndentingCopier(w, "    ")
-- 
2.43.0


From ecf179d626a8c4b2fc7e19bc593b3c67bddeb5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 09/41] fix: honor a filename in the Stdin field of a Command
 in YAML

---
 command.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 52c15cf..bfba299 100644
--- a/command.go
+++ b/command.go
@@ -28,6 +28,7 @@ import (
 //     mutually exclusive with Shell.
 //   - Args, list of arguments for Cmd.
 //   - Stdin, the name of a file from which the command's standard input should be read,
+//     either absolute or relative to the directory in which the YAML file is found,
 //     or the special string $stdin to mean read Fab's standard input.
 //   - Stdout, the name of a file to which the command's standard output should be written,
 //     either absolute or relative to the directory in which the YAML file is found.
@@ -446,8 +447,15 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		Env:   env,
 	}
 
-	if c.Stdin == "$stdin" {
+	switch c.Stdin {
+	case "$stdin":
 		result.Stdin = os.Stdin
+
+	case "":
+		// do nothing
+
+	default:
+		result.StdinFile = con.JoinPath(dir, c.Stdin)
 	}
 
 	switch c.Stdout {
-- 
2.43.0


From bcf69203015ec16ac4e15f2a30a3a25a994d93f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 10/41] fix: don't panic when the second command-line argument
 is empty

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index bf6ebe9..728fde6 100644
--- a/controller.go
+++ b/controller.go
@@ -90,7 +90,7 @@ func (con *Controller) ParseArgs(args []string) ([]Target, error) {
 		unknown []string
 	)
 
-	if len(args) > 1 && args[1][0] == '-' {
+	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
 		// Just one target, and remaining args are arguments for that target.
 		if target, _ := con.RegistryTarget(args[0]); target != nil {
 			targets = append(targets, ArgTarget(target, args[1:]...))
-- 
2.43.0


From 3f897ff7aedf1e11d9fb9e517d043017f105103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 11/41] fix: find all imports in .proto files

Weak imports, single quotes, indented imports, and all but the first import on a line were missed,
as were imports in files with very long lines.
Also, an import already seen was looked up again in later include directories,
possibly adding some other file by the same name.
---
 proto/proto.go | 68 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 11 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 856d0cc..8fc492d 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -1,13 +1,13 @@
 package proto
 
 import (
-	"bufio"
 	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
 	"regexp"
 	"sort"
+	"strings"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/set"
@@ -110,20 +110,66 @@ func Deps(filename string, includes []string) ([]string, error) {
 	return slice, err
 }
 
-var importRegex = regexp.MustCompile(`^import(\s+public)?\s*"([^"]+)"`)
+// This matches one token of a .proto file: a comment, a string, a word, or some other character.
+var tokenRegex = regexp.MustCompile(`//[^\n]*|(?s:/\*.*?\*/)|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\w+|\S`)
 
 func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
-	sc := bufio.NewScanner(r)
-	for sc.Scan() {
-		m := importRegex.FindStringSubmatch(sc.Text())
-		if len(m) == 0 {
-			continue
+	contents, err := io.ReadAll(r)
+	if err != nil {
+		return err
+	}
+
+	var (
+		depth int      // how many braces are open
+		stmt  []string // the tokens so far of the current top-level statement
+	)
+	for _, tok := range tokenRegex.FindAllString(string(contents), -1) {
+		switch {
+		case strings.HasPrefix(tok, "//"), strings.HasPrefix(tok, "/*"):
+			// do nothing
+
+		case tok == "{":
+			depth++
+
+		case tok == "}":
+			depth--
+			stmt = nil
+
+		case depth > 0:
+			// do nothing
+
+		case tok == ";":
+			if imp := importedFile(stmt); imp != "" {
+				if err := protodepsImport(imp, includes, result); err != nil {
+					return err
+				}
+			}
+			stmt = nil
+
+		default:
+			stmt = append(stmt, tok)
 		}
-		if err := protodepsImport(m[2], includes, result); err != nil {
-			return err
+	}
+	return nil
+}
+
+// Returns the name of the imported file if stmt is an import statement, and "" otherwise.
+func importedFile(stmt []string) string {
+	if len(stmt) == 0 || stmt[0] != "import" {
+		return ""
+	}
+	stmt = stmt[1:]
+	if len(stmt) > 0 && (stmt[0] == "public" || stmt[0] == "weak") {
+		stmt = stmt[1:]
+	}
+	var result string
+	for _, tok := range stmt { // Adjacent string literals are concatenated.
+		if len(tok) < 2 || (tok[0] != '"' && tok[0] != '\'') {
+			return ""
 		}
+		result += tok[1 : len(tok)-1]
 	}
-	return sc.Err()
+	return result
 }
 
 func protodepsImport(imp string, includes []string, result set.Of[string]) error {
@@ -131,7 +177,7 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 		full := filepath.Join(inc, imp)
 
 		if result.Has(full) {
-			continue
+			return nil
 		}
 
 		f, err := os.Open(full)
-- 
2.43.0


From 7aabcf726b87a6c0290c9692c5e0e4ba772df7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 12/41] fix: interpret the Includes of a proto.Deps in YAML
 relative to the YAML file

---
 proto/proto.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 8fc492d..1802a90 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -197,13 +197,17 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 
 func protodepsDecoder(con *fab.Controller, node *yaml.Node, dir string) ([]string, error) {
 	var pd struct {
-		File     string   `yaml:"File"`
-		Includes []string `yaml:"Includes"`
+		File     string    `yaml:"File"`
+		Includes yaml.Node `yaml:"Includes"`
 	}
 	if err := node.Decode(&pd); err != nil {
 		return nil, errors.Wrap(err, "YAML error in proto.Deps node")
 	}
-	return Deps(con.JoinPath(dir, pd.File), pd.Includes)
+	includes, err := con.YAMLFileList(&pd.Includes, dir)
+	if err != nil {
+		return nil, errors.Wrap(err, "YAML error in proto.Deps.Includes node")
+	}
+	return Deps(con.JoinPath(dir, pd.File), includes)
 }
 
 func init() {
-- 
2.43.0


From 0dffbb7707368a6b9a50c40ba7fb08803ed9ab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 13/41] fix: don't join the directory twice to the filenames of
 a proto.Deps in YAML

In a project with a relative top directory,
the dependencies are relative to the current directory,
but string lists are interpreted relative to the YAML file's directory.
---
 proto/proto.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 1802a90..32be6cc 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -207,7 +207,21 @@ func protodepsDecoder(con *fab.Controller, node *yaml.Node, dir string) ([]strin
 	if err != nil {
 		return nil, errors.Wrap(err, "YAML error in proto.Deps.Includes node")
 	}
-	return Deps(con.JoinPath(dir, pd.File), includes)
+	deps, err := Deps(con.JoinPath(dir, pd.File), includes)
+	if err != nil {
+		return nil, err
+	}
+
+	// The caller interprets relative filenames as relative to dir.
+	for i, dep := range deps {
+		if filepath.IsAbs(dep) {
+			continue
+		}
+		if deps[i], err = filepath.Rel(con.JoinPath(dir), dep); err != nil {
+			return nil, errors.Wrapf(err, "getting relative path from %s to %s", con.JoinPath(dir), dep)
+		}
+	}
+	return deps, nil
 }
 
 func init() {
-- 
2.43.0


From 06b522fbb790fa815e0202d17a801b3281f638d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 14/41] fix: don't list generated files in the build cache
 among the dependencies of Go tests

---
 golang/go.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/golang/go.go b/golang/go.go
index ea769e2..e49dda5 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -137,6 +137,11 @@ func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string]) error
 	if pkg.Module.Path != modpath {
 		return nil
 	}
+	if len(pkg.GoFiles) > 0 && !inDir(pkg.GoFiles[0], pkg.Module.Dir) {
+		// This is the main package of a test binary,
+		// whose source file is generated by Go and kept in the build cache.
+		return gopkgAddImports(pkg, modpath, files)
+	}
 	files.Add(pkg.GoFiles...)
 	files.Add(pkg.CompiledGoFiles...)
 	files.Add(pkg.OtherFiles...)
@@ -148,6 +153,10 @@ func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string]) error
 		}
 		files.Add(matches...)
 	}
+	return gopkgAddImports(pkg, modpath, files)
+}
+
+func gopkgAddImports(pkg *packages.Package, modpath string, files set.Of[string]) error {
 	for _, imp := range pkg.Imports {
 		if err := gopkgAdd(imp, modpath, files); err != nil {
 			return errors.Wrapf(err, "in import of %s", imp.PkgPath)
@@ -156,6 +165,11 @@ func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string]) error
 	return nil
 }
 
+func inDir(filename, dir string) bool {
+	rel, err := filepath.Rel(dir, filename)
+	return err == nil && filepath.IsLocal(rel)
+}
+
 func depsDecoder(con *fab.Controller, node *yaml.Node, dir string) ([]string, error) {
 	var gd struct {
 		Dir       string `yaml:"Dir"`
-- 
2.43.0


From 3a56ac8b2c4e5ab4107043a8f3fdeecd438e40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 15/41] fix: visit each package only once when listing Go
 dependencies

The time was exponential in the depth of the import graph.
---
 golang/go.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/golang/go.go b/golang/go.go
index e49dda5..89d6e02 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -118,9 +118,12 @@ func Deps(dir string, recursive, tests bool) ([]string, error) {
 		return nil, errors.Wrapf(err, "after loading from %s", dir)
 	}
 
-	files := set.New[string]()
+	var (
+		files = set.New[string]()
+		seen  = set.New[*packages.Package]()
+	)
 	for _, pkg := range pkgs {
-		if err = gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
+		if err = gopkgAdd(pkg, pkg.Module.Path, files, seen); err != nil {
 			return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
 		}
 	}
@@ -130,17 +133,21 @@ func Deps(dir string, recursive, tests bool) ([]string, error) {
 	return slice, nil
 }
 
-func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string]) error {
+func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string], seen set.Of[*packages.Package]) error {
 	if pkg.Module == nil {
 		return nil
 	}
 	if pkg.Module.Path != modpath {
 		return nil
 	}
+	if seen.Has(pkg) {
+		return nil
+	}
+	seen.Add(pkg)
 	if len(pkg.GoFiles) > 0 && !inDir(pkg.GoFiles[0], pkg.Module.Dir) {
 		// This is the main package of a test binary,
 		// whose source file is generated by Go and kept in the build cache.
-		return gopkgAddImports(pkg, modpath, files)
+		return gopkgAddImports(pkg, modpath, files, seen)
 	}
 	files.Add(pkg.GoFiles...)
 	files.Add(pkg.CompiledGoFiles...)
@@ -153,12 +160,12 @@ func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string]) error
 		}
 		files.Add(matches...)
 	}
-	return gopkgAddImports(pkg, modpath, files)
+	return gopkgAddImports(pkg, modpath, files, seen)
 }
 
-func gopkgAddImports(pkg *packages.Package, modpath string, files set.Of[string]) error {
+func gopkgAddImports(pkg *packages.Package, modpath string, files set.Of[string], seen set.Of[*packages.Package]) error {
 	for _, imp := range pkg.Imports {
-		if err := gopkgAdd(imp, modpath, files); err != nil {
+		if err := gopkgAdd(imp, modpath, files, seen); err != nil {
 			return errors.Wrapf(err, "in import of %s", imp.PkgPath)
 		}
 	}
-- 
2.43.0


From 5b082ecbe4ce94e341c2064def7ec7762bc424a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 16/41] fix: allow YAML references to targets in files that are
 still being read

A reference by path to a target later in the same file,
or in a file that refers back to this one,
caused the file to be read again, endlessly or registering its targets twice.
---
 controller.go |  4 ++++
 yaml.go       | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/controller.go b/controller.go
index 728fde6..9635e49 100644
--- a/controller.go
+++ b/controller.go
@@ -34,6 +34,9 @@ type Controller struct {
 	targetsByName map[string]targetRegistryTuple
 
 	targetsByAddr map[Target]targetRegistryTuple
+
+	// Keys are directories, relative to topdir, whose YAML is being read.
+	readingYAML map[string]int
 }
 
 // NewController creates a new [Controller]
@@ -46,6 +49,7 @@ func NewController(topdir string) *Controller {
 		ran:           make(map[Target]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
 		targetsByAddr: make(map[Target]targetRegistryTuple),
+		readingYAML:   make(map[string]int),
 	}
 }
 
diff --git a/yaml.go b/yaml.go
index 7a1e82a..9cd73e4 100644
--- a/yaml.go
+++ b/yaml.go
@@ -72,6 +72,14 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 				return found, nil
 			}
 
+			con.mu.Lock()
+			reading := con.readingYAML[tdir] > 0
+			con.mu.Unlock()
+			if reading {
+				// The definition of this target is still to come.
+				return &deferredResolutionTarget{Name: qname}, nil
+			}
+
 			if err := con.ReadYAMLFile(tdir); err != nil {
 				return nil, errors.Wrapf(err, "resolving target %s", qname)
 			}
@@ -153,6 +161,17 @@ func (dt *deferredResolutionTarget) Desc() string {
 //	Test: !Command
 //	  - go test ./...
 func (con *Controller) ReadYAML(r io.Reader, dir string) error {
+	readingDir := filepath.Clean(dir)
+	con.mu.Lock()
+	con.readingYAML[readingDir]++
+	con.mu.Unlock()
+
+	defer func() {
+		con.mu.Lock()
+		con.readingYAML[readingDir]--
+		con.mu.Unlock()
+	}()
+
 	var (
 		dec = yaml.NewDecoder(r)
 		doc yaml.Node
-- 
2.43.0


From b2d429f95763571fd46eb068c7e6239ac75ba0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 17/41] fix: don't ignore a missing file that the top-level
 YAML file refers to

It was mistaken for the absence of the top-level YAML file,
so that fab silently went on with the targets read so far.
---
 yaml.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaml.go b/yaml.go
index 9cd73e4..3ad2bf1 100644
--- a/yaml.go
+++ b/yaml.go
@@ -276,6 +276,11 @@ func (con *Controller) ReadYAMLFile(dir string) error {
 	}
 
 	err = con.ReadYAML(f, rel)
+	if errors.Is(err, fs.ErrNotExist) {
+		// Callers take fs.ErrNotExist to mean that there is no YAML file in dir.
+		// Don't let them ignore that something the file refers to is missing.
+		err = errors.New(err.Error())
+	}
 	return errors.Wrapf(err, "reading YAML file in %s", dir)
 }
 
-- 
2.43.0


From 0346210b3f71ebeb6f352ff8b0cbf5b1157d3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 18/41] fix: record the version of fab whenever the driver is
 compiled

It was not recorded when the driver was compiled for the first time,
causing a needless second compilation,
nor when compilation was forced,
so that an older fab could later run a driver built by a newer one.
---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index 6149965..939367f 100644
--- a/main.go
+++ b/main.go
@@ -281,6 +281,10 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
 		return "", errors.Wrapf(err, "writing %s", hashfile)
 	}
+	if buildInfo == nil {
+		// The version check was skipped, but the driver's version must be recorded anyway.
+		buildInfo, _ = debug.ReadBuildInfo()
+	}
 	if buildInfo != nil {
 		v, err := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
-- 
2.43.0


From 970c1f377892014d551f7c94628bf7b8090c9943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 19/41] fix: don't run an outdated driver after an interrupted
 compilation

If fab was killed after replacing the driver and before recording its source hash,
and the source was then reverted,
the next run used the driver compiled from the other version of the source.
---
 main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/main.go b/main.go
index 939367f..9d37b48 100644
--- a/main.go
+++ b/main.go
@@ -275,6 +275,13 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 		return driver, nil
 	}
 
+	// In case of failure or interruption, don't let the next run trust these.
+	for _, f := range []string{hashfile, versionfile} {
+		if err = os.Remove(f); err != nil && !errors.Is(err, fs.ErrNotExist) {
+			return "", errors.Wrapf(err, "removing %s", f)
+		}
+	}
+
 	if err = CompilePackage(ctx, pkg, driver); err != nil {
 		return "", errors.Wrapf(err, "compiling driver %s", driver)
 	}
-- 
2.43.0


From 4a5433ca58c4fef383d2be4d000d4c35ba41c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 20/41] fix: let the driver read fab's standard input

A Command with Stdin: $stdin got no input in projects with a _fab directory.
---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 9d37b48..5ba01cc 100644
--- a/main.go
+++ b/main.go
@@ -100,7 +100,7 @@ func (m *Main) Run(ctx context.Context) error {
 
 	cmd := exec.CommandContext(ctx, driver, args...)
 	cmd.Dir = m.Topdir
-	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
+	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
 	err = cmd.Run()
 	return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))
 }
-- 
2.43.0


From 7e5b3a4744a433d82799a0a1e9443210661dfb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 21/41] fix: find the driver when the Fab directory is given by
 a relative name

The driver is executed in the project's top directory,
where the relative name means something else.
---
 main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/main.go b/main.go
index 5ba01cc..e0cbc02 100644
--- a/main.go
+++ b/main.go
@@ -75,6 +75,16 @@ func (m *Main) Run(ctx context.Context) error {
 		}
 	}
 
+	// The driver runs in a different directory,
+	// so relative names must not depend on the current one.
+	var err error
+	if m.Fabdir, err = filepath.Abs(m.Fabdir); err != nil {
+		return errors.Wrapf(err, "making %s absolute", m.Fabdir)
+	}
+	if m.Topdir, err = filepath.Abs(m.Topdir); err != nil {
+		return errors.Wrapf(err, "making %s absolute", m.Topdir)
+	}
+
 	driver, err := m.getDriver(ctx, false)
 	if errors.Is(err, errNoDriver) {
 		return m.driverless(ctx)
-- 
2.43.0


From fd4b8a184eb63ccee4d63918cfe01d9e546ff3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 22/41] fix: compile drivers when the Fab directory and the
 temp directory are on different file systems

---
 compile.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index fb540d1..93bfec4 100644
--- a/compile.go
+++ b/compile.go
@@ -13,6 +13,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"syscall"
 	"text/template"
 
 	"github.com/bobg/errors"
@@ -250,7 +251,31 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		return fmt.Errorf("error in go build: %w; output follows\n%s", err, string(output))
 	}
 
-	return os.Rename(filepath.Join(tmpdir, "x"), binfile)
+	return moveFile(filepath.Join(tmpdir, "x"), binfile)
+}
+
+// moveFile is like os.Rename but also works across file systems.
+func moveFile(from, to string) error {
+	err := os.Rename(from, to)
+	if !errors.Is(err, syscall.EXDEV) {
+		return err
+	}
+
+	// Copy the file to a temporary one next to the destination, then rename that.
+	tmpdir, err := os.MkdirTemp(filepath.Dir(to), "fab")
+	if err != nil {
+		return errors.Wrap(err, "creating tempdir")
+	}
+	defer os.RemoveAll(tmpdir)
+
+	if err = copyFile(from, tmpdir); err != nil {
+		return err
+	}
+	tmpfile := filepath.Join(tmpdir, filepath.Base(from))
+	if err = os.Chmod(tmpfile, 0755); err != nil {
+		return errors.Wrapf(err, "changing mode of %s", tmpfile)
+	}
+	return os.Rename(tmpfile, to)
 }
 
 // LoadMode is the minimal set of flags to enable for Config.Mode in a call to Packages.Load
-- 
2.43.0


From 9d3e33b202558d0fe7034a1454ec547b15dca5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 23/41] fix: compile _fab packages with exported types and
 explicitly typed variables

An exported type that implements Target was taken for a target,
and a variable declared with a type from the same package had no docstring at all.
In both cases the generated code did not compile.
---
 compile.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/compile.go b/compile.go
index 93bfec4..51c235c 100644
--- a/compile.go
+++ b/compile.go
@@ -7,6 +7,7 @@ import (
 	"go/doc"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"io"
 	"os"
 	"os/exec"
@@ -124,14 +125,16 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		if !ast.IsExported(ident) {
 			continue
 		}
-		obj := scope.Lookup(ident)
-		if obj == nil {
+		obj, ok := scope.Lookup(ident).(*types.Var)
+		if !ok {
+			// Not a variable.
+			// (This could be a type that implements Target.)
 			continue
 		}
 		if err := checkImplementsTarget(obj.Type()); err != nil {
 			continue
 		}
-		targets[ident] = &targetPair{Name: ident}
+		targets[ident] = &targetPair{Name: ident, Doc: `""`}
 	}
 
 	var (
@@ -139,7 +142,12 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		parser = dpkg.Parser()
 		pr     = dpkg.Printer()
 	)
-	for _, v := range dpkg.Vars {
+	vars := dpkg.Vars
+	for _, t := range dpkg.Types {
+		// The doc package lists variables under their types if declared with one from this package.
+		vars = append(vars, t.Vars...)
+	}
+	for _, v := range vars {
 		for _, name := range v.Names {
 			if tp, ok := targets[name]; ok {
 				dstr := string(pr.Text(parser.Parse(v.Doc)))
-- 
2.43.0


From f70689f4e81ec725e233ff61c73e2dfa367c6f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 24/41] fix: compile _fab packages that have tests or excluded
 files

Files with a different package name were taken for a second package.
---
 compile.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index 51c235c..7823d80 100644
--- a/compile.go
+++ b/compile.go
@@ -9,6 +9,7 @@ import (
 	"go/token"
 	"go/types"
 	"io"
+	"io/fs"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -96,7 +97,11 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		fset   = token.NewFileSet()
 		pkgdir = filepath.Dir(pkg.GoFiles[0])
 	)
-	astpkgs, err := parser.ParseDir(fset, pkgdir, nil, parser.ParseComments)
+	// Skip files that aren't part of the package, such as tests.
+	isPkgFile := func(info fs.FileInfo) bool {
+		return slices.Contains(pkg.GoFiles, filepath.Join(pkgdir, info.Name()))
+	}
+	astpkgs, err := parser.ParseDir(fset, pkgdir, isPkgFile, parser.ParseComments)
 	if err != nil {
 		return errors.Wrapf(err, "parsing %s", pkgdir)
 	}
-- 
2.43.0


From efb71e8e5fdd78f15f0809c74c18ddca552d4578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 25/41] fix: recognize targets in projects requiring some other
 version of fab

If the Controller type was defined differently in that version,
no Go targets were found at all.
---
 types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types.go b/types.go
index 5a41ffd..d1d851a 100644
--- a/types.go
+++ b/types.go
@@ -265,6 +265,11 @@ func (ch *typeChecker) checkTypesMatch(t types.Type, r reflect.Type) (err error)
 		if t.Obj().Name() != r.Name() {
 			return fmt.Errorf("names %s and %s do not match", t.Obj().Name(), r.Name())
 		}
+		if pkg := t.Obj().Pkg(); pkg != nil && pkg.Path() == r.PkgPath() {
+			// Same type. Don't compare the definitions,
+			// which may be different when from different versions of the package.
+			return nil
+		}
 		return ch.checkTypesMatch(t.Underlying(), r)
 
 	case *types.Pointer:
-- 
2.43.0


From 4c1f29dba6353c1c2d5929e7e715b4f651a6c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 26/41] fix: indent all lines of a docstring when listing
 targets

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index e0cbc02..05d4afc 100644
--- a/main.go
+++ b/main.go
@@ -152,7 +152,7 @@ func (m *Main) driverless(ctx context.Context) error {
 	return con.Run(ctx, targets...)
 }
 
-var bolRegex = regexp.MustCompile("^")
+var bolRegex = regexp.MustCompile("(?m)^")
 
 // OpenHashDB ensures the given directory exists and opens (or creates) the hash DB there.
 // Callers must make sure to call Close on the returned DB when finished with it.
-- 
2.43.0


From 7a7ffa800e90a14dbe3e7f53f52cc7337e04bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 27/41] fix: remove the comment marks from all lines of a YAML
 docstring

---
 yaml.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaml.go b/yaml.go
index 3ad2bf1..8a3957f 100644
--- a/yaml.go
+++ b/yaml.go
@@ -7,6 +7,7 @@ import (
 	"io/fs"
 	"os"
 	"path/filepath"
+	"regexp"
 	"strings"
 	"sync"
 
@@ -212,7 +213,7 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 		if doc == "" {
 			doc = nameNode.LineComment
 		}
-		doc = strings.TrimLeft(doc, "# ")
+		doc = commentRegex.ReplaceAllString(doc, "")
 
 		if name == "_dir" {
 			decl := m.Content[i+1]
@@ -255,6 +256,8 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 	return nil
 }
 
+var commentRegex = regexp.MustCompile("(?m)^[# ]+")
+
 // ReadYAMLFile calls ReadYAML
 // on the file `fab.yaml` in the given directory
 // or, if that doesn't exist,
-- 
2.43.0


From 1ad01e096aff76043ff5591756c39c26e9158b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 28/41] fix: let any number of goroutines use a hash DB at once

---
 sqlite/db.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlite/db.go b/sqlite/db.go
index 8ae6a80..3832990 100644
--- a/sqlite/db.go
+++ b/sqlite/db.go
@@ -31,6 +31,11 @@ func Open(path string, opts ...Option) (*DB, error) {
 		return nil, errors.Wrapf(err, "opening sqlite db %s", path)
 	}
 
+	// With several connections,
+	// concurrent operations would contend for the database's lock,
+	// and some would eventually fail.
+	db.SetMaxOpenConns(1)
+
 	if _, err = db.Exec(schema); err != nil {
 		db.Close()
 		return nil, errors.Wrap(err, "setting up db schema")
-- 
2.43.0


From 01d73ab92de2f3249870a317b53eb612573d5fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 29/41] fix: combine a command's outputs in one file however
 its name is spelled

---
 command.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index bfba299..29def7a 100644
--- a/command.go
+++ b/command.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"strings"
 
 	"github.com/bobg/errors"
@@ -226,7 +227,9 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 		stderrFile = strings.TrimLeft(stderrFile, "> ")
 	}
 
-	if stdoutFile == stderrFile && stdoutAppend != stderrAppend {
+	sameOutputFile := sameFilename(stdoutFile, stderrFile)
+
+	if sameOutputFile && stdoutAppend != stderrAppend {
 		return fmt.Errorf("stdout and stderr name the same file but disagree about append vs. overwrite")
 	}
 
@@ -260,7 +263,7 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 
 	if stderrFile != "" {
 		switch {
-		case stdoutFile == stderrFile:
+		case sameOutputFile:
 			cmd.Stderr = cmd.Stdout
 
 		case stderrAppend:
@@ -347,6 +350,20 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 	return err
 }
 
+// Tells whether a and b name the same file,
+// even if spelled differently (as in x and ./x).
+func sameFilename(a, b string) bool {
+	if a == "" || b == "" || a == b {
+		return a == b
+	}
+	absA, err := filepath.Abs(a)
+	if err != nil {
+		return false
+	}
+	absB, err := filepath.Abs(b)
+	return err == nil && absA == absB
+}
+
 // Desc implements Target.Desc.
 func (*Command) Desc() string {
 	return "Command"
-- 
2.43.0


From afd837a55d76e47133446a7eb1abad664b2372a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:16 +0000
Subject: [PATCH 30/41] fix: reject duplicate and improper target names in YAML

---
 yaml.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/yaml.go b/yaml.go
index 8a3957f..acf702e 100644
--- a/yaml.go
+++ b/yaml.go
@@ -12,6 +12,7 @@ import (
 	"sync"
 
 	"github.com/bobg/errors"
+	"github.com/bobg/go-generics/v2/set"
 	"github.com/bobg/go-generics/v2/slices"
 	"gopkg.in/yaml.v3"
 )
@@ -198,7 +199,10 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 		return fmt.Errorf("got %d children for second-level node, want an even number", len(m.Content))
 	}
 
-	var sawDirDecl bool
+	var (
+		sawDirDecl bool
+		seen       = set.New[string]()
+	)
 
 	for i := 0; i < len(m.Content); i += 2 {
 		nameNode := m.Content[i]
@@ -215,6 +219,11 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 		}
 		doc = commentRegex.ReplaceAllString(doc, "")
 
+		if seen.Has(name) {
+			return fmt.Errorf("%s is defined more than once", name)
+		}
+		seen.Add(name)
+
 		if name == "_dir" {
 			decl := m.Content[i+1]
 			if decl.Kind != yaml.ScalarNode {
@@ -230,6 +239,9 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 		if strings.Contains(name, "/") {
 			return fmt.Errorf("no slashes in target names")
 		}
+		if name == "" || name == "." || name == ".." {
+			return fmt.Errorf("bad target name %q", name)
+		}
 
 		targetNode := m.Content[i+1]
 		target, err := con.YAMLTarget(targetNode, dir)
-- 
2.43.0


From 6bd047837a98f0a4c5d4182caa0790c7cbd72812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:37 +0000
Subject: [PATCH 31/41] fix: reject a malformed string list in Command.Shell in
 YAML

---
 command.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/command.go b/command.go
index 29def7a..22a1507 100644
--- a/command.go
+++ b/command.go
@@ -407,26 +407,19 @@ func commandDecoder(con *Controller, node *yaml.Node, dir string) (Target, error
 		return nil, errors.Wrap(err, "YAML error decoding Command.Env")
 	}
 
-	if c.Cmd == "" {
+	if isString := c.Shell.Kind == yaml.ScalarNode && normalizeTag(c.Shell.Tag) == ""; c.Cmd == "" && !isString {
 		strs, err := con.YAMLStringList(&c.Shell, dir)
-
-		var e BadYAMLNodeKindError
-		switch {
-		case errors.As(err, &e):
-			// Do nothing (fall through below)
-
-		case err != nil:
+		if err != nil {
 			return nil, errors.Wrap(err, "decoding Command.Shell as a string list")
+		}
 
-		default:
-			// Special case: Shell is a list of strings.
-			// Make this a Seq of identical-except-for-the-shell-string Commands.
+		// Special case: Shell is a list of strings.
+		// Make this a Seq of identical-except-for-the-shell-string Commands.
 
-			targets, err := slices.Mapx(strs, func(idx int, str string) (Target, error) {
-				return c.toTarget(con, str, dir, args, env, idx > 0), nil
-			})
-			return Seq(targets...), err
-		}
+		targets, err := slices.Mapx(strs, func(idx int, str string) (Target, error) {
+			return c.toTarget(con, str, dir, args, env, idx > 0), nil
+		})
+		return Seq(targets...), err
 	}
 
 	var shell string
-- 
2.43.0


From 51a067bb114bc97b543a26047b81c06ec234c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 32/41] fix: let Glob patterns in YAML be absolute or lead out
 of the directory

---
 files.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/files.go b/files.go
index f186956..de52254 100644
--- a/files.go
+++ b/files.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/maps"
@@ -440,11 +441,10 @@ func globDecoder(con *Controller, node *yaml.Node, dir string) ([]string, error)
 	if dir == "" {
 		dir = "."
 	}
-	fsys := os.DirFS(dir)
 
 	var result []string
 	for _, pattern := range patterns {
-		matches, err := fs.Glob(fsys, pattern)
+		matches, err := glob(dir, pattern)
 		if err != nil {
 			return nil, errors.Wrap(err, "in Glob pattern")
 		}
@@ -454,6 +454,27 @@ func globDecoder(con *Controller, node *yaml.Node, dir string) ([]string, error)
 	return result, nil
 }
 
+// Finds the files matching pattern, which is absolute or relative to dir (and so are the results).
+func glob(dir, pattern string) ([]string, error) {
+	if pattern == "" {
+		return nil, nil
+	}
+
+	// An fs.FS deals neither with absolute names nor with names that lead out of it.
+	var prefix string
+	if filepath.IsAbs(pattern) {
+		dir, prefix, pattern = "/", "/", pattern[1:]
+	}
+	pattern = filepath.Clean(pattern)
+	for pattern == ".." || strings.HasPrefix(pattern, "../") {
+		prefix = filepath.Join(prefix, "..")
+		pattern = filepath.Clean(strings.TrimPrefix(pattern[2:], "/"))
+	}
+
+	matches, err := fs.Glob(os.DirFS(filepath.Join(dir, prefix)), pattern)
+	return slices.Map(matches, func(m string) string { return filepath.Join(prefix, m) }), err
+}
+
 func init() {
 	RegisterYAMLTarget("Files", filesDecoder)
 	RegisterYAMLStringList("Glob", globDecoder)
-- 
2.43.0


From 3b0bed900b4a51989e39ff420007f90d2df2c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 33/41] fix: find the Files target producing an input however
 its name is spelled

---
 files.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/files.go b/files.go
index de52254..ff75136 100644
--- a/files.go
+++ b/files.go
@@ -106,6 +106,12 @@ func Files(target Target, in, out []string, opts ...FilesOpt) Target {
 
 	for _, o := range out {
 		filesRegistry.add(o, result)
+
+		// An input of another target may be the same file spelled differently
+		// (absolute in YAML but relative in Go code, for example).
+		if abs, err := filepath.Abs(o); err == nil {
+			filesRegistry.add(abs, result)
+		}
 	}
 
 	return result
@@ -267,7 +273,13 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 
 	for _, in := range ft.In {
 		// (A target whose output is also among its inputs is not its own prerequisite.)
-		if target := findInFilesRegistry(in); target != nil && target != ft {
+		target := findInFilesRegistry(in)
+		if target == nil {
+			if abs, err := filepath.Abs(in); err == nil {
+				target = findInFilesRegistry(abs)
+			}
+		}
+		if target != nil && target != ft {
 			prereqs = append(prereqs, target)
 		}
 	}
-- 
2.43.0


From ac8a6285c2231a140bcd15bdd64e2a2643dacf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 34/41] fix: find imports in .proto files that are for options
 only

---
 proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 32be6cc..7d488ee 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -159,7 +159,7 @@ func importedFile(stmt []string) string {
 		return ""
 	}
 	stmt = stmt[1:]
-	if len(stmt) > 0 && (stmt[0] == "public" || stmt[0] == "weak") {
+	if len(stmt) > 0 && (stmt[0] == "public" || stmt[0] == "weak" || stmt[0] == "option") {
 		stmt = stmt[1:]
 	}
 	var result string
-- 
2.43.0


From 45f55771e8added32d709529c296f8bbb8503ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:09 +0000
Subject: [PATCH 35/41] fix: skip a byte-order mark when finding imports in
 .proto files

---
 proto/proto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proto/proto.go b/proto/proto.go
index 7d488ee..d220b67 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -1,6 +1,7 @@
 package proto
 
 import (
+	"bytes"
 	"io"
 	"io/fs"
 	"os"
@@ -118,6 +119,7 @@ func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
 	if err != nil {
 		return err
 	}
+	contents = bytes.TrimPrefix(contents, []byte("\ufeff")) // byte-order mark
 
 	var (
 		depth int      // how many braces are open
-- 
2.43.0


From 100add432dfe42f785436af281a32816ecdc54e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 36/41] fix: let one of the directory and the output file of a
 go.Binary be absolute and the other relative

---
 golang/go.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/golang/go.go b/golang/go.go
index 89d6e02..bfc852f 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -37,7 +37,15 @@ func Binary(dir, outfile string, flags ...string) (fab.Target, error) {
 		outfile = filepath.Base(dir)
 	}
 
-	relOutfile, err := filepath.Rel(dir, outfile)
+	var (
+		relOutfile string // Relative to dir, or absolute.
+		err        error
+	)
+	if filepath.IsAbs(outfile) == filepath.IsAbs(dir) {
+		relOutfile, err = filepath.Rel(dir, outfile)
+	} else {
+		relOutfile, err = filepath.Abs(outfile)
+	}
 	if err != nil {
 		return nil, errors.Wrapf(err, "getting relative path from %s to %s", dir, outfile)
 	}
-- 
2.43.0


From ea82cc77cb37694d8a76bc7c97531ff2c10b86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 37/41] fix: treat _dir declarations that are numbers, say, or
 end with a slash properly when looking for the top directory

---
 top.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/top.go b/top.go
index 2708605..7578d51 100644
--- a/top.go
+++ b/top.go
@@ -63,13 +63,15 @@ func topDirHelper(dir string) (string, error) {
 	defer rc.Close()
 
 	dec := yaml.NewDecoder(rc)
-	var m map[string]any
+	var m map[string]yaml.Node
 	if err = dec.Decode(&m); err != nil {
 		return "", errors.Wrapf(err, "reading YAML file in %s", dir)
 	}
 
-	decl, ok := m["_dir"].(string)
-	if !ok {
+	// As in ReadYAML, the declaration is any scalar (not necessarily a string),
+	// and in the top directory it is empty or absent.
+	decl := m["_dir"].Value
+	if decl == "" {
 		return dir, nil
 	}
 
@@ -81,6 +83,7 @@ func topDirHelper(dir string) (string, error) {
 		origDir  = dir
 		origDecl = decl
 	)
+	decl = filepath.Clean(decl)
 
 	for {
 		var (
-- 
2.43.0


From 56acfbf53562376bfb4935374f47bd69a22e96e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:25 +0000
Subject: [PATCH 38/41] fix: don't take a method with a different type of the
 same name for one of Target's

---
 types.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index d1d851a..633e2ad 100644
--- a/types.go
+++ b/types.go
@@ -265,12 +265,17 @@ func (ch *typeChecker) checkTypesMatch(t types.Type, r reflect.Type) (err error)
 		if t.Obj().Name() != r.Name() {
 			return fmt.Errorf("names %s and %s do not match", t.Obj().Name(), r.Name())
 		}
-		if pkg := t.Obj().Pkg(); pkg != nil && pkg.Path() == r.PkgPath() {
-			// Same type. Don't compare the definitions,
-			// which may be different when from different versions of the package.
-			return nil
+		// Named types are the same if their names and packages are.
+		// Don't compare the definitions,
+		// which may be different when from different versions of the package.
+		var pkgpath string
+		if pkg := t.Obj().Pkg(); pkg != nil {
+			pkgpath = pkg.Path()
 		}
-		return ch.checkTypesMatch(t.Underlying(), r)
+		if pkgpath != r.PkgPath() {
+			return fmt.Errorf("packages %s and %s of %s do not match", pkgpath, r.PkgPath(), r.Name())
+		}
+		return nil
 
 	case *types.Pointer:
 		if r.Kind() != reflect.Ptr {
-- 
2.43.0


From fcdc43a4b641add499294fa591aa12b99f856d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:25 +0000
Subject: [PATCH 39/41] fix: use the doc comments of variables in groups

---
 compile.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/compile.go b/compile.go
index 7823d80..246bd1d 100644
--- a/compile.go
+++ b/compile.go
@@ -153,11 +153,21 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		vars = append(vars, t.Vars...)
 	}
 	for _, v := range vars {
-		for _, name := range v.Names {
-			if tp, ok := targets[name]; ok {
-				dstr := string(pr.Text(parser.Parse(v.Doc)))
-				dstr = strings.TrimRight(dstr, "\r\n")
-				tp.Doc = strconv.Quote(dstr)
+		for _, spec := range v.Decl.Specs {
+			vspec, ok := spec.(*ast.ValueSpec)
+			if !ok {
+				continue
+			}
+			text := vspec.Doc.Text() // in a parenthesized group, each variable may have its own
+			if text == "" {
+				text = v.Doc
+			}
+			for _, ident := range vspec.Names {
+				if tp, ok := targets[ident.Name]; ok {
+					dstr := string(pr.Text(parser.Parse(text)))
+					dstr = strings.TrimRight(dstr, "\r\n")
+					tp.Doc = strconv.Quote(dstr)
+				}
 			}
 		}
 	}
-- 
2.43.0


From a70338ba6414c65530e4f59d13ccf39be27b565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:25 +0000
Subject: [PATCH 40/41] fix: compile _fab packages whatever their names

---
 compile.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 246bd1d..8599bdb 100644
--- a/compile.go
+++ b/compile.go
@@ -182,7 +182,10 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		return errors.Wrap(err, "copying fab code")
 	}
 
-	subpkgdir := filepath.Join(tmpdir, "pkg", pkg.Name)
+	// This is not pkg.Name, which might not work as an element of an import path
+	// (e.g. "internal," or one with non-ASCII characters).
+	const subpkg = "subpkg"
+	subpkgdir := filepath.Join(tmpdir, "pkg", subpkg)
 	if err = os.MkdirAll(subpkgdir, 0755); err != nil {
 		return errors.Wrapf(err, "creating %s", subpkgdir)
 	}
@@ -211,7 +214,7 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		Subpkg  string
 		Targets []*targetPair
 	}{
-		Subpkg:  pkg.Name,
+		Subpkg:  subpkg,
 		Targets: maps.Values(targets),
 	}
 
-- 
2.43.0


From a3c523466ccee24ad59296b2fdd14ff3546600ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:57 +0000
Subject: [PATCH 41/41] fix: pass target names beginning with a hyphen through
 to the driver

---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 05d4afc..0a451ee 100644
--- a/main.go
+++ b/main.go
@@ -106,6 +106,7 @@ func (m *Main) Run(ctx context.Context) error {
 	if m.DryRun {
 		args = append(args, "-n")
 	}
+	args = append(args, "--") // m.Args are not flags for the driver, even if they look like them.
 	args = append(args, m.Args...)
 
 	cmd := exec.CommandContext(ctx, driver, args...)
-- 
2.43.0

