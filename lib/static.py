"""Check based on spec/FabStatic.tla: the targets that Go code defines (C22)."""

import copy
import json
import random
import re
import threading

from core import CheckError, REPO

CTX = "context.Context"

OTHER = ["int", "string", "[]string", "map[string]int", "func() string", "chan int", "[2]int", "float64"]
GOOD_RUN = [
    "Run(ctx context.Context, con *fab.Controller) error", "Run(context.Context, *fab.Controller) error", "Run(_ context.Context, _ *fab.Controller) (err error)",
    "Run(ctx Ctx, con *Con) error", "Run(ctx Ctx, con Conp) (_ error)",
]
BAD_RUN = [
    "Run(ctx context.Context) error", "Run(ctx context.Context, con *fab.Controller)", "Run(ctx context.Context, con fab.Controller) error",
    "Run(ctx context.Context, con ...*fab.Controller) error", "Run(ctx Context, con *fab.Controller) error", "Run(ctx any, con *fab.Controller) error",
    "Run(ctx context.Context, con *fab.Controller) (error, error)", "Run(ctx context.Context, con *Controller) error", "Run(con *fab.Controller, ctx context.Context) error",
    "Run(ctx context.Context, con **fab.Controller) error", "Run(ctx context.Context, con *fab.Controller, args ...string) error", "Run(ctx context.Context, con *fab.Controller) any",
    "Run(ctx *context.Context, con *fab.Controller) error", "Run(ctx context.Context, con *fab.Controller) string", "Run(ctx context.Context, con *fab.Main) error",
]
GOOD_DESC = ["Desc() string", "Desc() (s string)", "Desc() Str"]
BAD_DESC = ["Desc() (string, error)", "Desc(x int) string", "Desc() String", "Desc(...string) string", "Desc()", "Desc() []byte", "Desc() any", "Desc() error"]

PRELUDE = '''
type (
	Ctx  = context.Context
	Con  = fab.Controller
	Conp = *Con
	Str  = string

	Context interface {
		Deadline() (deadline time.Time, ok bool)
		Done() <-chan struct{}
		Err() error
		Value(key any) any
	}
	Controller struct{ x int }
	String     string
)

type base struct{ id string }

func (b *base) Run(context.Context, *fab.Controller) error { return vlog(b.id) }
func (b *base) Desc() string                               { return "base" }
func (b *base) X()                                         {}
func (b *base) Y() int                                     { return 0 }

func vlog(id string) error {
	f, err := os.OpenFile(os.Getenv("VLOG"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = fmt.Fprintln(f, id)
	return err
}

func ptr[T any](x T) *T { return &x }
'''

WORDS = ("a the build all of it \"quoted\" back\\slash 100% percent %s %d {{.Name}} {{end}} $HOME `back` x.y(z) Ünïcödé 漢字 tab-free e.g. foo_bar <html> &amp; 'single' "
         "--flag ;semi :colon: =equals #hash !bang *star* ~tilde |pipe one two three four five six seven").split()


class Gen:
    def __init__(self, r):
        self.r = r
        self.types = []  # declarations for the specification
        self.code = {}  # name -> declaration in Go
        self.lits = {}  # name -> function from an id to an expression of that type
        self.n = 0

    def fresh(self, exported=None):
        r = self.r
        self.n += 1
        lower, upper = r.choice(["t", "x", "été", "_u", "ж"]), r.choice(["T", "X", "Été", "Run", "Ж", "A_b"])
        if exported is None:
            exported = r.random() < 0.6
        return (upper if exported else lower) + str(self.n)

    # -- types

    def zero(self, t):
        return None

    def lit(self, t, i, depth=0):
        """An expression of type t, whose targets have identification i."""
        r = self.r
        k = t["k"]
        if k == "named":
            if t["n"] == "fab.Target":
                return r.choice(['&base{id: "%s"}', 'fab.All(&base{id: "%s"})', 'fab.F(func(context.Context, *fab.Controller) error { return vlog("%s") })']) % i
            return self.lits[t["n"]](i, depth)
        if k == "ptr":
            u = t["t"]
            if depth > 3:
                return "nil"
            x = self.lit(u, i, depth + 1)
            if x.startswith("&") or x == "nil" or self.under(u)["k"] == "iface":
                return "ptr[%s](%s)" % (self.name(u), x)
            if re.match(r"[\w\[\]]+\{", x):
                return "&" + x
            return "ptr[%s](%s)" % (self.name(u), x)
        if k == "struct":
            return "%s{%s}" % (self.name(t), ", ".join("%s: %s" % (f["n"], self.lit(f["t"], i, depth + 1)) for f in t["fields"] if f["emb"]))
        if k == "iface":
            return self.ifacelit(t, i)
        return "*new(%s)" % t["go"]

    def ifacelit(self, t, i):
        good = all(m["ok"] or m["n"] in ("X", "Y") for m in self.allms(t))
        return '%s(&base{id: "%s"})' % (self.paren(t), i) if good else "%s(nil)" % self.paren(t)

    def paren(self, t):
        return "(%s)" % self.name(t)

    def allms(self, t):
        u = self.under(t)
        return list(u["ms"]) + [m for e in u["embs"] for m in self.allms(e)]

    def decl(self, n):
        return next(d for d in self.types if d["n"] == n)

    def under(self, t):
        while t["k"] == "named":
            t = self.decl(t["n"])["t"]
        return t

    def name(self, t):
        k = t["k"]
        if k == "named":
            return t.get("go", t["n"])
        if k == "ptr":
            return "*" + self.name(t["t"])
        if k == "struct":
            return "struct{ %s }" % "; ".join(self.name(f["t"]) if f["emb"] else "%s %s" % (f["n"], self.name(f["t"])) for f in t["fields"])
        if k == "iface":
            return "interface{ %s }" % "; ".join([m["go"] for m in t["ms"]] + [self.name(e) for e in t["embs"]])
        return t["go"]

    def named(self, n):
        return {"k": "named", "n": n}

    def sig(self, f):
        r = self.r
        if f == "Run":
            ok = r.random() < 0.8
            return ok, r.choice(GOOD_RUN if ok else BAD_RUN)
        ok = r.random() < 0.85
        return ok, r.choice(GOOD_DESC if ok else BAD_DESC)

    def iface(self):
        r = self.r
        ms, embs = [], []
        names = ["Run", "Desc", "X", "Y"]
        x = r.random()
        if x < 0.45:
            embs.append(self.named("fab.Target"))
            names = names[2:]
        for f in names:
            if r.random() < (0.85 if f in ("Run", "Desc") else 0.2):
                ok, go = (r.choice([(True, "X()")]) if f == "X" else (True, "Y() int")) if f in ("X", "Y") else self.sig(f)
                ms.append({"n": f, "ok": ok, "go": go})
        return {"k": "iface", "ms": ms, "embs": embs}

    def structtype(self, self_name=None, own=False):
        """A struct type, perhaps embedding others."""
        r = self.r
        fields, used = [], set()
        for _ in range(r.choice([0, 0, 1, 1, 1, 2, 2, 3])):
            cands = [d for d in self.types if "fab." not in d["n"]]
            x = r.random()
            if x < 0.35 or not cands:
                t = self.named("fab.Target")
            else:
                d = r.choice(cands)
                t = self.named(d["n"])
                if d.get("generic"):
                    continue
                u = self.under(t)["k"]
                if u not in ("iface", "ptr") and r.random() < 0.5:
                    t = {"k": "ptr", "t": t}
                if u == "ptr":
                    continue
            if x > 0.95 and self_name:
                t = {"k": "ptr", "t": self.named(self_name)}
            n = (t["t"] if t["k"] == "ptr" else t)["n"].replace("fab.", "")
            if n in used:
                continue
            used.add(n)
            fields.append({"n": n, "emb": True, "t": t})
        for n, p in (("Run", 0.05), ("Desc", 0.05), ("other", 0.3)):
            if r.random() < p and not own:
                fields.append({"n": n, "emb": False, "t": {"k": "other", "go": r.choice(OTHER)}})
        return {"k": "struct", "fields": fields}

    def methods(self, n, kind, recv, getid, generic=""):
        """Declares methods of type n.  Returns their Go code."""
        r = self.r
        ms, code = [], ""
        names = [f for f in ("Run", "Desc", "X") if r.random() < (0.85 if f != "X" else 0.15)]
        ptrs = r.choice([lambda: False, lambda: True, lambda: True, lambda: r.random() < 0.5])
        for f in names:
            p = ptrs()
            ok, go = (True, "X()") if f == "X" else self.sig(f)
            ms.append({"n": f, "ok": ok, "ptr": p})
            if "Desc" in go and ok and r.random() < 0.7:
                go = "Desc() string"
            rets = go[go.index(")") + 1:].strip()
            body = ""
            if f == "Run" and ok:
                body = "return vlog(%s)" % getid(p)
            elif f == "Desc" and ok:
                body = 'return "%s"' % n
            elif rets:
                body = 'panic("never")'
            code += "\nfunc (r %s%s%s) %s { %s }\n" % ("*" if p else "", n, generic, go, body)
        return ms, code

    def type_(self):
        """Declares a type."""
        r = self.r
        n = self.fresh()
        me = self.named(n)
        x = r.random()
        if x < 0.5:  # a struct type
            own = r.random() < 0.6
            t = self.structtype(n, own)
            if own:
                t["fields"].append({"n": "id", "emb": False, "t": {"k": "other", "go": "string"}})
            d = {"n": n, "alias": False, "t": t, "ms": []}
            code = ""
            self.types.append(d)
            if own:
                d["ms"], code = self.methods(n, "struct", n, lambda p: "r.id")
            self.code[n] = "type %s %s\n" % (n, self.name(t)) + code

            def lit(i, depth):
                parts = []
                for f in t["fields"]:
                    if f["emb"]:
                        if depth > 2 and f["t"]["k"] == "ptr" and f["t"]["t"].get("n") == n:
                            continue
                        parts.append("%s: %s" % (f["n"], self.lit(f["t"], i, depth + 1)))
                    elif f["n"] == "id":
                        parts.append('id: "%s"' % i)
                return "%s{%s}" % (n, ", ".join(parts))
            self.lits[n] = lit
        elif x < 0.62:  # an interface type
            t = self.iface()
            self.types.append({"n": n, "alias": False, "t": t, "ms": []})
            self.code[n] = "type %s %s\n" % (n, self.name(t))
            self.lits[n] = lambda i, depth: self.ifacelit(me, i)
        elif x < 0.72:  # another one with methods
            kind = r.choice(["string", "func() string", "[]string"])
            d = {"n": n, "alias": False, "t": {"k": "other", "go": kind}, "ms": []}
            self.types.append(d)
            get = {"string": lambda p: "string(%sr)" % "*"[:p], "func() string": lambda p: "(%sr)()" % "*"[:p], "[]string": lambda p: "(%sr)[0]" % "*"[:p]}[kind]
            d["ms"], code = self.methods(n, "other", n, get)
            self.code[n] = "type %s %s\n" % (n, kind) + code
            make = {"string": '%s("%s")', "func() string": '%s(func() string { return "%s" })', "[]string": '%s{"%s"}'}[kind]
            self.lits[n] = lambda i, depth: make % (n, i)
        elif x < 0.8:  # generic
            d = {"n": n + "[int]", "alias": False, "t": {"k": "struct", "fields": [{"n": "id", "emb": False, "t": {"k": "other", "go": "string"}}]}, "ms": [], "generic": True}
            self.types.append(d)
            d["ms"], code = self.methods(n, "struct", n, lambda p: "r.id", "[T]")
            self.code[n] = "type %s[T any] struct {\n\tid string\n\tx  T\n}\n" % n + code
            self.lits[n + "[int]"] = lambda i, depth: '%s[int]{id: "%s"}' % (n, i)
            if r.random() < 0.5:
                a = self.fresh()
                self.types.append({"n": a, "alias": True, "t": self.named(n + "[int]"), "ms": []})
                self.code[a] = "type %s = %s[int]\n" % (a, n)
                self.lits[a] = lambda i, depth: '%s{id: "%s"}' % (a, i)
        else:  # defined in terms of another, or an alias
            cands = [d for d in self.types if "fab." not in d["n"]]
            if not cands:
                return self.type_()
            e = r.choice(cands)
            alias = r.random() < 0.5
            t = self.named(e["n"])
            if r.random() < 0.2 and self.under(t)["k"] != "ptr":
                t = {"k": "ptr", "t": t}
            self.types.append({"n": n, "alias": alias, "t": t, "ms": []})
            self.code[n] = "type %s %s%s\n" % (n, "= " * alias, self.name(t))
            self.lits[n] = lambda i, depth: "%s(%s)" % (n, self.lit(t, i, depth))
        return n

    def vartype(self):
        r = self.r
        x = r.random()
        t = self.named(r.choice([d["n"] for d in self.types]))
        if x < 0.08:
            return self.structtype()
        if x < 0.12:
            return {"k": "ptr", "t": self.structtype()}
        if x < 0.17:
            return self.iface()
        if x < 0.22:
            return {"k": "other", "go": r.choice(OTHER)}
        if x < 0.27:
            return {"k": "ptr", "t": {"k": "ptr", "t": t}}
        if x < 0.3:
            return {"k": "other", "go": "[]" + self.name(t)}
        if x < 0.4:
            return self.named("fab.Target")
        if x < 0.75:
            return {"k": "ptr", "t": t}
        return t

    # -- does it implement Target?  Only to avoid what fab does not allow; the specification decides.
    def value_target(self, t):
        u = self.under(t)
        return u["k"] not in ("ptr", "iface") and self.has(t, "Run") and self.has(t, "Desc")

    def has(self, t, f, depth=0):
        while t["k"] == "named" and self.decl(t["n"])["alias"]:
            t = self.decl(t["n"])["t"]
        if t["k"] == "ptr":
            return depth > 0 and self.has(t["t"], f, depth)
        if t["k"] == "named" and any(m["n"] == f for m in self.decl(t["n"])["ms"]):
            return True
        u = self.under(t)
        if u["k"] == "iface":
            return any(m["n"] == f for m in self.allms(u))
        return depth < 4 and u["k"] == "struct" and any(f_["emb"] and self.has(f_["t"], f, depth + 1) for f_ in u["fields"])

    # -- comments

    def text(self, n):
        return [self.r.choice(WORDS) for _ in range(n)]

    def comment(self, indent=""):
        """Returns code, and what it says."""
        r = self.r
        x = r.random()
        if x < 0.3:
            return "", ""
        if x < 0.4:  # detached
            return indent + "// " + " ".join(self.text(4)) + "\n\n", ""
        if x < 0.55:
            w = self.text(r.randrange(1, 30))
            return "%s/*\n%s%s\n%s*/\n" % (indent, indent, " ".join(w), indent), " ".join(w)
        lines, said = [], []
        for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
            y = r.random()
            if y < 0.15 and lines:
                lines.append("//")
            elif y < 0.25 and lines and lines[-1] == "//":
                w = self.text(3)
                lines.append("//\t" + " ".join(w))
                said += w
                lines.append("//")
            else:
                w = ["Some"] + self.text(r.randrange(1, 16))
                lines.append("// " + " ".join(w))
                said += w
        if r.random() < 0.15:
            if lines[-1] != "//":
                lines.append("//")
            lines.append("//nolint:all")
        pre = ""
        if r.random() < 0.15:
            pre = indent + "// Not this.\n\n"
        return pre + "".join(indent + l + "\n" for l in lines), " ".join(said)

    # -- everything

    def package(self, modtext):
        r = self.r
        self.types.append({"n": "fab.Target", "alias": False, "ms": [],
                           "t": {"k": "iface", "ms": [{"n": "Run", "ok": True, "go": ""}, {"n": "Desc", "ok": True, "go": ""}], "embs": []}})
        for _ in range(r.choice([0, 2, 4, 8])):
            self.type_()
        chunks = [self.code[n] for n in self.code]
        # documentation for types
        chunks = [("// %s is a type.\n" % "It" if r.random() < 0.3 else "") + c for c in chunks]
        decls, seen, ids = [], [], 0
        extras = []  # in files that are not part of the package

        def one(t, part=True):
            nonlocal ids
            ids += 1
            exported = r.random() < 0.85
            n = self.fresh(exported)
            d = {"n": n, "exp": exported, "var": True, "part": part, "t": t, "own": "", "group": "", "id": "id%d" % ids}
            decls.append(d)
            return d

        def spec(ts, own_id=None, indent=""):
            """var declarations: returns code without var"""
            ds = [one(t) for t in ts]
            names = ", ".join(d["n"] for d in ds)
            vals = ", ".join(self.lit(d["t"], d["id"]) for d in ds)
            same = all(self.name(d["t"]) == self.name(ds[0]["t"]) for d in ds)
            y = r.random()
            if same and y < 0.4:
                return ds, "%s %s = %s" % (names, self.name(ds[0]["t"]), vals)
            if same and y < 0.5:
                return ds, "%s %s" % (names, self.name(ds[0]["t"])), "func init() { %s = %s }\n" % (names, vals)
            if y < 0.65 and len(ds) > 1:
                f = self.fresh(r.random() < 0.3)
                return ds, "%s = %s()" % (names, f), "func %s() (%s) { return %s }\n" % (f, ", ".join(self.name(d["t"]) for d in ds), vals)
            if any(v.startswith(("nil", "&base", "fab.")) for v in [self.lit(d["t"], d["id"]) for d in ds]) or "nil" in vals:
                if same:
                    return ds, "%s %s = %s" % (names, self.name(ds[0]["t"]), vals)
                vals = ", ".join("%s(%s)" % (self.paren(d["t"]), self.lit(d["t"], d["id"])) for d in ds)
            else:
                vals = ", ".join("%s(%s)" % (self.paren(d["t"]), self.lit(d["t"], d["id"])) for d in ds)
            return ds, "%s = %s" % (names, vals)

        def legal_type():
            for _ in range(20):
                t = self.vartype()
                if not self.value_target(t):
                    return t
            return self.named("fab.Target")

        for _ in range(r.choice([0, 3, 6, 9, 12])):
            x = r.random()
            if x < 0.5:
                com, said = self.comment()
                t = legal_type()
                ds, code, *more = spec([t])
                for d in ds:
                    d["own"] = said
                chunks.append("%svar %s%s\n" % (com, code, r.choice(["", "", " // trailing"])))
                chunks += more
            elif x < 0.65:
                com, said = self.comment()
                t = legal_type()
                ds, code, *more = spec([t, t if r.random() < 0.5 else legal_type()])
                for d in ds:
                    d["own"] = said
                chunks.append("%svar %s\n" % (com, code))
                chunks += more
            elif x < 0.85:
                com, said = self.comment()
                body = ""
                for _ in range(r.choice([1, 2, 3])):
                    c2, own = self.comment("\t")
                    ds, code, *more = spec([legal_type() for _ in range(r.choice([1, 1, 1, 2]))])
                    for d in ds:
                        d["own"], d["group"] = own, said
                    body += "%s\t%s\n%s" % (c2, code, r.choice(["", "\n"]))
                    chunks += more
                chunks.append("%svar (\n%s)\n" % (com, body))
            elif x < 0.9 and decls:  # another name for the same target
                e = r.choice(decls)
                if e["part"] and e["var"] and self.under(e["t"])["k"] in ("ptr", "iface"):
                    exported = r.random() < 0.8
                    n = self.fresh(exported)
                    decls.append(dict(e, n=n, exp=exported, own="", group=""))
                    chunks.append("var %s = %s\n" % (n, e["n"]))
            else:  # something else
                n = self.fresh(True)
                chunks.append(r.choice([
                    "const %s = \"x\"\n", "func %s() fab.Target { return nil }\n", "var _ fab.Target = fab.All() // %s\n", "type %s = fab.Target\n", "func init() { %s := fab.All(); _ = %s }\n",
                    "type %s struct{ fab.Target }\n"]).replace("%s", n))
        if r.random() < 0.25:
            decls.append({"n": "Dry", "exp": True, "var": True, "part": True, "t": self.named("fab.Target"), "own": "Dry is it.", "group": "", "id": "idry"})
            chunks.append("// Dry is it.\nvar Dry fab.Target = &base{id: \"idry\"}\n")

        # files
        r.shuffle(chunks)
        pname = r.choice(["fab", "fab", "rules", "rules", "p", "subpkg", "x", "main2", "context", "errors", "flag", "strings", "internal", "vendor", "testdata", "_fab", "été", "driver", "pkg"])
        files = {}
        names = r.sample(["a.go", "rules.go", "main.go", "driver.go", "fab_linux.go", "z_amd64.go", "é.go", "pkg.go", "embeds.go"], r.choice([1, 1, 2, 3]))
        parts = [[] for _ in names]
        parts[0].append(PRELUDE)
        for c in chunks:
            r.choice(parts).append(c)
        for n, p in zip(names, parts):
            files["_fab/" + n] = self.file(pname, p)
        # files that are not part of the package
        for name, head, pk in (("x_test.go", "", pname), ("y_test.go", "", pname + "_test"), ("ign.go", "//go:build ignore\n\n", pname), ("ign2.go", "//go:build ignore\n\n", "main"),
                               ("w_windows.go", "", pname), ("tag.go", "//go:build sometag\n\n", pname), ("_under.go", "", pname), (".hidden.go", "", pname), ("sub/s.go", "", "sub")):
            if r.random() < 0.2:
                d = one(self.named("fab.Target"), part=False)
                d["n"] = "N" + d["n"]
                d["exp"] = True
                files["_fab/" + name] = head + "package " + pk + "\n\nimport \"github.com/bobg/fab\"\n\n// Not this.\nvar %s fab.Target = fab.All()\n" % d["n"]
        if r.random() < 0.2:
            files["_fab/README.md"] = "hello"
        if r.random() < 0.15:
            files["_fab/broken.txt.go.bak"] = "]]]"
        yaml = []
        if r.random() < 0.6:
            text = ""
            for i in range(r.choice([1, 2, 4])):
                n = "Y%d" % i
                w = self.text(3) if r.random() < 0.6 else []
                w = [re.sub(r"[^\w.%-]", "", x) or "x" for x in w]
                text += ("# %s\n" % " ".join(w) if w else "") + "%s: !Command\n  Shell: echo %s >>$VLOG\n\n" % (n, n)
                yaml.append({"name": n, "doc": " ".join(w)})
            files["fab.yaml"] = text
        files["go.mod"], files["go.sum"] = modtext
        clean = lambda t: json.loads(json.dumps(t))
        return {"prog": {"types": clean(self.types), "decls": clean(decls), "yaml": yaml}, "files": files, "links": {}, "sub": r.choice(["", "", "sub", "_fab"]), "runs": r.choice([1, 1, 1, 2])}

    def file(self, pname, parts):
        r = self.r
        body = "\n".join(parts)
        imps = []
        for path in ("context", "fmt", "os", "time"):
            if re.search(r"\b%s\." % path, body):
                imps.append('"%s"' % path)
        if re.search(r"\bfab\.", body):
            x = r.random()
            if x < 0.2:
                body = re.sub(r"\bfab\.(?=[A-Z])", "f.", body)
                imps.append('f "github.com/bobg/fab"')
            elif x < 0.3 and "type Controller" not in body and PRELUDE not in body and False:
                body = re.sub(r"\bfab\.(?=[A-Z])", "", body)
                imps.append('. "github.com/bobg/fab"')
            else:
                imps.append('"github.com/bobg/fab"')
        if r.random() < 0.1:
            imps.append('_ "github.com/bobg/fab/golang"')
        return r.choice(["", "// Package documentation.\n", "//go:build !sometag\n\n", "// Copyright.\n\n"]) + "package %s\n\n" % pname + ("import (\n%s)\n" % "".join("\t%s\n" % i for i in imps) if imps else "") + body


def corrupt(prog, t):
    out = []
    for i, e in enumerate(t):
        if e["e"] == "list" and e["listed"]:
            u = copy.deepcopy(t)
            u[i]["listed"].pop()
            out.append((u, "missing"))
            u = copy.deepcopy(t)
            u[i]["listed"].append({"name": "Other", "doc": ""})
            out.append((u, "extra"))
            u = copy.deepcopy(t)
            u[i]["listed"][0]["doc"] += " x"
            out.append((u, "documentation"))
        if e["e"] == "run" and e["ran"]:
            u = copy.deepcopy(t)
            u[i]["ran"].append(u[i]["ran"][0])
            out.append((u, "selected"))
            u = copy.deepcopy(t)
            u[i]["ran"][0] += "0"
            out.append((u, "selected"))
    return out


def modtext(c):
    with open(REPO + "/go.mod") as f:
        mod = f.read()
    mod = re.sub(r"^module .*$", "module ex.com/p", mod, flags=re.M) + "\nrequire github.com/bobg/fab v0.0.0\n\nreplace github.com/bobg/fab => %s\n" % REPO
    with open(REPO + "/go.sum") as f:
        return mod, f.read()


def check(c):
    c.build()
    fab = c.build_fab(1)
    c.log("built")
    env = dict(c.go_for_nobody(), FAB1=fab)
    mod = modtext(c)
    warm = threading.Thread(target=lambda: c.drive("static", [dict(Gen(random.Random(0)).package(mod), runs=0)], env=env))
    warm.start()
    c.model_check("FabStaticMC", "FabStaticMC" if c.tier == "quick" else "FabStaticMCDeep")
    c.log("specification checked")
    warm.join()
    c.log("compiler ready")
    scripts = [Gen(random.Random(c.rng.randrange(2**31))).package(mod) for _ in range(c.scale(64, 800))]
    traces = c.drive("static", scripts, crash_event={"e": "panic"}, env=env, timeout=c.scale(600, 5000))
    done = [(s, t) for s, t in zip(scripts, traces) if t is not None]
    c.log(len(done), "packages compiled")
    bad = c.validate("FabStaticTrace", [s["prog"] for s, _ in done], [t["events"] for _, t in done])
    for j in bad:
        s, t = done[j["tid"]]
        if j["why"] == "harness":
            raise CheckError("harness produced a malformed trace: %r" % j)
        c.violation("static:" + j["why"], "%s (%s) %s" % (j["why"], json.dumps(j["ev"])[:600], " ".join(t.get("notes") or [])[:1200]),
                    {"driver": "static", "script": s, "events": t["events"], "notes": t.get("notes"), "stderr": t.get("stderr", ""), "rejection": j})
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    c.notes["packages"] = len(done)
    c.notes["failed_to_list"] = sum(1 for _, t in done if t["events"] and not t["events"][0].get("ok"))
    c.notes["targets_offered"] = sum(len(t["events"][0].get("listed", [])) for _, t in done if t["events"])
    if good:
        s, t = good[0]
        c.sample({"what": "package", "prog": s["prog"], "events": t["events"]})
        part = [(s["prog"], x) for s, t in c.rng.sample(good, min(40, len(good))) if t["events"][0]["ok"] for x in corrupt(s["prog"], t["events"])]
        if part:
            rej = {j["tid"]: j["why"] for j in c.validate("FabStaticTrace", [p for p, _ in part], [t for _, (t, _) in part], count=False)}
            for i, (p, (t, w)) in enumerate(part):
                if rej.get(i) != w:
                    raise CheckError("self-test: falsified trace got %r, want %r: %s" % (rej.get(i), w, json.dumps(t)[:3000]))
            c.notes["falsified_traces_rejected"] = len(part)
