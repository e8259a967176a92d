"""Checks based on spec/FabDeps.tla: dependency lists and the targets made from them (C20, C21, part of C11 and C15)."""

import copy
import json
import os
import random

from core import CheckError, GOENV
import yamlgen
from yamlgen import scalar, seq, mapping, strs, boolean, rel, spell

CLASSES = {
    "C20": {"missing", "extra", "result", "skipped", "needless", "names"},
    "C21": {"missing", "extra", "result", "skipped", "needless", "names"},
    "C15": {"missing", "extra", "names"},
    "C11": {"dryrun", "skipped"},
}

DIRS = [["top"], ["top", "inc"], ["top", "inc", "sub"], ["top", "d"], ["top", "d", "e"], ["o", "lib"]]
NOTHING = {"imports": [], "v": "", "kind": "data", "embeds": [], "also": []}


# -- protocol buffers

def quoted(r, s):
    q = r.choice(["\"", "\"", "'"])
    if r.random() < 0.08 and len(s) > 1:
        n = r.randrange(1, len(s))
        return q + s[:n] + q + r.choice([" ", "", "\n  "]) + "'" + s[n:] + "'"
    return q + s + q


def decoy(r):
    return r.choice(['// import "a.proto";', '/* import "b.proto"; */', '/*\nimport "c.proto";\n*/', 'option java_package = "import";', "option a = 'import \"d.proto\";';",
                     'message M { optional string s = 1 [default = "import \'a.proto\';"]; }', 'message import_ { message N { } enum E { X = 0; } }',
                     'option (o) = { a: "}" b { c: 1 } };', "option x = \"\\\"\";", ";", 'package imports.import_;', '// it\'s', '/** " */', 'message A { option (import) = "b.proto"; }',
                     'service S { rpc R (A) returns (B) { option (y) = "import"; } }', "message Q { // }\n}", "message Q2 { /* } */ string import = 1; }", 'option s = "//";', "option t = '/*';", "// */ /*"])


def proto_text(r, imports, v):
    out = r.choice(["", 'syntax = "proto3";\n', "syntax = 'proto2'; ", 'edition = "2024";\n', "\ufeff"]) + "// %s\n" % v
    for i in imports:
        while r.random() < 0.4:
            out += decoy(r) + "\n"
        sp = lambda need=True: r.choice([" ", " ", " ", "\t", "\n", "  ", " /* x */ ", " // y\n"] + ([] if need else [""]))
        mod = r.choice(["", "", "", "public", "weak", "option"])
        out += r.choice(["", "", "  ", "; "]) + "import" + (sp() + mod if mod else "") + sp(False) + quoted(r, i) + r.choice(["", "", " ", "\n"]) + ";" + r.choice(["\n", "\n", " ", ""])
    while r.random() < 0.4:
        out += "\n" + decoy(r)
    return out + r.choice(["", "\n"])


class Proto:
    def __init__(self, r, prop):
        self.r = r
        self.prop = prop
        self.files = {}
        self.version = 0

    def path(self):
        return self.r.choice(DIRS) + [self.r.choice(["a", "b", "c", "d"]) + ".proto"]

    def imports(self):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            if self.files and r.random() < 0.85:
                p = list(r.choice(sorted(self.files)))
            else:
                p = self.path()
            n = r.choice([1, 1, 2, 3])
            out.append("/".join(p[-n:]))
        if r.random() < 0.1:
            out.append("google/protobuf/any.proto")
        return out

    def put(self, p):
        self.version += 1
        imps = self.imports()
        c = dict(NOTHING, imports=imps, v="v%d" % self.version)
        self.files[tuple(p)] = c
        return {"op": "put", "p": list(p), "text": proto_text(self.r, imps, c["v"]), "c": c}

    def fresh(self, p):
        """p with the same imports, but changed otherwise"""
        self.version += 1
        c = dict(self.files[p], v="v%d" % self.version)
        self.files[p] = c
        return {"op": "put", "p": list(p), "text": proto_text(self.r, c["imports"], c["v"]), "c": c}

    def names(self, d, paths):
        return [spell(self.r, d, p) for p in paths]

    def base(self, op):
        r = self.r
        d = r.choice(DIRS[:5])
        incs = r.sample(DIRS, r.choice([0, 1, 2, 3, 4]))
        if r.random() < 0.1:
            incs.append(["nodir"])
        return {"op": op, "form": r.choice(["abs", "rel", "yaml", "yaml"]), "dir": d, "incs": self.names(d, incs), "files": [], "outs": [], "opts": [], "t": "",
                "rec": False, "tests": False, "dry": False, "force": False, "fails": False}

    def query(self):
        r = self.r
        q = self.base("protodeps")
        p = r.choice(sorted(self.files)) if self.files and r.random() < 0.95 else self.path()
        q["files"] = self.names(q["dir"], [list(p)])
        node = mapping([("File", scalar(q["files"][0]))] + ([("Includes", strs(q["incs"]))] if q["incs"] or r.random() < 0.5 else []), "proto.Deps")
        q["text"] = "X: " + yamlgen.flow(r, node)
        return q

    def target(self, n):
        r = self.r
        t = self.base("protoc")
        t["t"] = "t%d" % n
        t["files"] = self.names(t["dir"], [list(r.choice(sorted(self.files))) for _ in range(r.choice([1, 1, 2]))] if self.files else [["top", "a.proto"]])
        t["outs"] = self.names(t["dir"], [r.choice(DIRS) + ["made%d-%d" % (n, i)] for i in range(r.choice([0, 1, 1, 2]))])
        t["opts"] = r.sample(["--x_out=.", "--y_out=a=b:c", "--opt", "--z=./q"], r.choice([0, 1, 2]))
        pairs = [("Inputs", strs(t["files"])), ("Outputs", strs(t["outs"])), ("Includes", strs(t["incs"])), ("Opts", strs(t["opts"]))]
        if r.random() < 0.3:
            pairs.append(("Autoclean", boolean(r.choice(["true", "false"]))))
        pairs = [p for p in pairs if p[1]["k"] != "seq" or p[1]["kids"] or r.random() < 0.5]
        r.shuffle(pairs)
        t["text"] = "X: " + yamlgen.flow(r, mapping(pairs, "proto.Proto"))
        return t

    def script(self):
        r = self.r
        steps = [self.put(self.path()) for _ in range(r.randrange(2, 9))]
        if self.prop in ("C20", "C15"):
            for _ in range(r.randrange(3, 8)):
                steps.append(self.query())
                if r.random() < 0.3:
                    steps.append(self.put(self.path()))
        targets = [self.target(n) for n in range(r.choice([1, 2]))]
        for _ in range(r.randrange(4, 12)):
            x = r.random()
            if x < 0.2:
                steps.append(self.fresh(r.choice(sorted(self.files))) if self.files else self.put(self.path()))
            elif x < 0.3:
                steps.append(self.put(self.path()))
            elif x < 0.35 and self.files:
                p = r.choice(sorted(self.files))
                del self.files[p]
                steps.append({"op": "del", "p": list(p)})
            elif x < 0.42 and any(t["outs"] for t in targets):
                t = r.choice([t for t in targets if t["outs"]])
                p = denotes(t["dir"], r.choice(t["outs"]))
                if r.random() < 0.5:
                    steps.append({"op": "del", "p": p})
                else:
                    self.version += 1
                    steps.append({"op": "put", "p": p, "text": "other%d" % self.version, "c": dict(NOTHING, v="other%d" % self.version)})
            else:
                steps.append(modes(r, r.choice(targets), self.prop))
        return {"top": ["top"], "toprel": r.random() < 0.5, "cwdtop": r.random() < 0.5, "steps": steps}


def modes(r, t, prop):
    x = r.random()
    dry = r.random() < (0.5 if prop == "C11" else 0.1)
    return dict(t, dry=dry, force=x < 0.1, fails=0.1 < x < 0.2 and t["op"] != "decls")


def denotes(d, name):
    p = [] if name.startswith("%B") else list(d)
    for s in name.replace("%B", "").split("/"):
        if s == "..":
            p = p[:-1]
        elif s not in ("", "."):
            p.append(s)
    return p


# -- Go

class Go:
    """A module in top/m (or top), with packages that may import those after them."""

    def __init__(self, r, prop):
        self.r = r
        self.prop = prop
        self.root = r.choice([["top", "m"], ["top", "m"], ["top"]])
        self.version = 0
        self.files = {}

    def src(self, pkg, name, kind, imports, xtest=False, embeds=(), also=(), pats=(), extra=""):
        self.version += 1
        base = self.pkgname(pkg)
        text = "// v%d\n\n" % self.version
        if extra:
            text = extra + "\n\n" + text
        text += "package %s%s\n\n" % (base, "_test" if xtest else "")
        imps = []
        for i in imports:
            imps.append('_ "%s"' % "/".join(["ex.com/m"] + self.rel(i)))
        if kind == "go" and self.other and not (self.decls and self.rel(pkg) == ["c"]) and self.r.random() < 0.3:
            imps.append('_ "ex.com/other/q"')
        if pats:
            imps.append(self.r.choice(['"embed"', '"embed"']))
        if imps:
            text += "import (\n\t" + "\n\t".join(imps) + "\n)\n"
        for n, p in enumerate(pats):
            text += "\n//go:embed %s\nvar fs%s%d embed.FS\n" % (p, name.replace(".", "").replace("_", "").replace("-", ""), n)
        if base == "main" and name == "main.go":
            text += "\nfunc main() {}\n"
        if name == "types.go":
            text += TSTYPE
        c = {"kind": kind, "imports": [list(i) for i in imports], "embeds": [list(e) for e in embeds], "also": [list(e) for e in also], "v": "v%d" % self.version}
        p = list(pkg) + [name]
        self.files[tuple(p)] = (c, text)
        return {"op": "put", "p": p, "text": text, "c": c}

    def rel(self, pkg):
        return list(pkg[len(self.root):])

    def pkgname(self, pkg):
        if self.rel(pkg) == ["cmd", "x"]:
            return "main"
        return "p" + "".join(ch for ch in pkg[-1] if ch.isalnum())

    def data(self, p, text="data"):
        self.version += 1
        c = dict(NOTHING, v="v%d" % self.version)
        t = "%s v%d\n" % (text, self.version)
        self.files[tuple(p)] = (c, t)
        return {"op": "put", "p": list(p), "text": t, "c": c}

    def module(self):
        r = self.r
        steps = []
        self.decls = r.random() < 0.2
        self.other = r.random() < 0.3
        steps.append(self.data(self.root + ["go.mod"]))
        steps[-1]["text"] = "module ex.com/m\n\ngo 1.20\n" + ("\nrequire ex.com/other v0.0.0\n\nreplace ex.com/other => %s/other\n" % "/".join([".."] * len(self.root)) if self.other else "")
        if self.other:
            steps.append({"op": "put", "p": ["other", "go.mod"], "text": "module ex.com/other\n\ngo 1.20\n", "c": dict(NOTHING)})
            steps.append({"op": "put", "p": ["other", "q", "q.go"], "text": "package q\n", "c": dict(NOTHING)})
        cand = [[], ["a"], ["a", "b"], ["a", "internal", "i"], ["c"], ["d"], ["a", "testdata", "t"], ["_x"], ["d", "testdatax"], ["c", "d", "e"], ["x-y"]]
        chosen = [["cmd", "x"]] + sorted(r.sample(cand, r.randrange(2, len(cand) + 1)), key=lambda _: r.random())
        self.pkgs = [self.root + p for p in chosen]

        def importable(frm, to):
            tail = to[len(self.root):]
            if to == frm or tail == ["cmd", "x"] or (tail and tail[-1] == "i" and self.rel(frm)[:1] != ["a"]):
                return False
            return True
        for i, pkg in enumerate(self.pkgs):
            later = [p for p in self.pkgs[i + 1:] if importable(pkg, p)]
            names = ["main.go"] if self.pkgname(pkg) == "main" else ["p.go"]
            names += r.sample(["q.go", "zz.go", "types.go"], r.choice([0, 0, 1, 2]))
            if pkg[len(self.root):] == ["c"] and "types.go" not in names:
                names.append("types.go")
            for name in names:
                imps = r.sample(later, min(len(later), r.choice([0, 1, 1, 2])))
                embeds, also, pats = [], [], []
                decls = self.decls and self.rel(pkg) == ["c"]
                if decls:  # tsdecls finds no packages in modules
                    imps = []
                if not decls and r.random() < 0.12:
                    kind = r.choice(["file", "glob", "dir", "two"])
                    sub = "e%d" % self.version
                    if kind == "file":
                        steps.append(self.data(pkg + [sub + ".txt"]))
                        pats.append(sub + ".txt")
                        embeds.append(pkg + [sub + ".txt"])
                    elif kind == "glob":
                        for n in range(r.choice([1, 2])):
                            steps.append(self.data(pkg + [sub + "-%d.dat" % n]))
                            embeds.append(pkg + [sub + "-%d.dat" % n])
                        pats.append(sub + "-*.dat")
                    else:
                        steps.append(self.data(pkg + [sub, "f"]))
                        steps.append(self.data(pkg + [sub, "g", "h.txt"]))
                        steps.append(self.data(pkg + [sub, ".hidden"]))
                        embeds += [pkg + [sub, "f"], pkg + [sub, "g", "h.txt"]]
                        also.append(pkg + [sub])
                        pats.append(sub)
                        if kind == "two":
                            pats.append("all:" + sub)
                            embeds.append(pkg + [sub, ".hidden"])
                steps.append(self.src(pkg, name, "go", imps, embeds=embeds, also=also, pats=pats))
            plain = self.decls and self.rel(pkg) == ["c"]  # tsdecls reads all files
            if not plain and r.random() < 0.2:
                steps.append(self.src(pkg, r.choice(["p_windows.go", "ign.go"]), "skip", r.sample(later, min(1, len(later))), extra="//go:build ignore"))
            if r.random() < 0.15:
                steps.append(self.data(pkg + [r.choice(["asm.s", "hd.h"])], "//"))
                steps[-1]["c"]["kind"] = "other"
            if r.random() < 0.15:
                steps.append(self.data(pkg + [r.choice(["README", "x.txt", "go.go.txt"])]))
            if not plain and r.random() < 0.3:
                if r.random() < 0.5:
                    steps.append(self.src(pkg, "p_test.go", "test", r.sample(later, min(1, len(later)))))
                else:
                    cands = [p for p in self.pkgs if importable(pkg, p)]
                    if self.pkgname(pkg) != "main":
                        cands.append(pkg)
                    steps.append(self.src(pkg, "x_test.go", "test", r.sample(cands, min(len(cands), r.choice([0, 1, 2]))), xtest=True))
        if r.random() < 0.2:
            n = self.root + ["nested"]
            steps.append({"op": "put", "p": n + ["go.mod"], "text": "module ex.com/nested\n", "c": dict(NOTHING)})
            steps.append({"op": "put", "p": n + ["n.go"], "text": "package n\n", "c": dict(NOTHING)})
        return steps

    def base(self, op, pkg):
        r = self.r
        d = r.choice([["top"], ["top", "y"], self.root, pkg, ["o"]])
        return {"op": op, "form": r.choice(["abs", "rel", "yaml", "yaml"]), "dir": d, "incs": [], "files": [spell(r, d, pkg)], "outs": [], "opts": [], "t": "",
                "rec": False, "tests": False, "dry": False, "force": False, "fails": False}

    def query(self):
        r = self.r
        q = self.base("godeps", r.choice(self.pkgs))
        q["rec"], q["tests"] = r.random() < 0.4, r.random() < 0.3
        root = denotes(q["dir"], q["files"][0])
        pairs = [("Dir", scalar(q["files"][0]))]
        for k, v in (("Recursive", q["rec"]), ("Tests", q["tests"])):
            if v or r.random() < 0.3:
                pairs.append((k, boolean("true" if v else "false")))
        r.shuffle(pairs)
        q["text"] = "X: " + yamlgen.flow(r, mapping(pairs, "go.Deps"))
        return q

    def target(self):
        r = self.r
        decls = self.decls and self.root + ["c"] in self.pkgs
        t = self.base("decls" if decls else "gobuild", self.root + (["c"] if decls else ["cmd", "x"]))
        t["t"] = "t"
        out = r.choice([["top"], ["o"], ["top", "y"]]) + ["made"]
        t["outs"] = [spell(r, t["dir"], out)]
        pairs = [("Dir", scalar(t["files"][0])), ("Out", scalar(t["outs"][0]))]
        if decls:
            t["type"] = "Server"
            pairs += [("Type", scalar("Server")), ("Prefix", scalar("/p"))]
        else:
            t["opts"] = r.sample(["-v", "-ldflags=-X a=b", "-trimpath"], r.choice([0, 1, 2]))
            if t["opts"]:
                pairs.append(("Flags", strs(t["opts"])))
        r.shuffle(pairs)
        t["text"] = "X: " + yamlgen.flow(r, mapping(pairs, "ts.Decls" if decls else "go.Binary"))
        return t

    def edit(self):
        r = self.r
        p = r.choice(sorted(self.files))
        if p[-1] == "go.mod":
            return []
        c, text = self.files[p]
        self.version += 1
        c = dict(c, v="v%d" % self.version)
        text += ("\n// v%d\n" if c["kind"] in ("go", "test", "skip", "other") else "v%d\n") % self.version
        self.files[p] = (c, text)
        return [{"op": "put", "p": list(p), "text": text, "c": c}]

    def script(self):
        r = self.r
        steps = [{"op": "put", "p": d + ["keep"], "text": "x", "c": dict(NOTHING)} for d in (["top", "y"], ["o"])]
        steps += self.module()
        if self.prop in ("C21", "C15"):
            for _ in range(r.randrange(2, 5)):
                steps.append(self.query())
        if r.random() < (0.5 if self.prop == "C21" else 0.9):
            t = self.target()
            for _ in range(r.randrange(2, 5)):
                for _ in range(r.choice([0, 0, 1, 1])):
                    steps += self.edit()
                if r.random() < 0.1:
                    steps.append({"op": "del", "p": denotes(t["dir"], t["outs"][0])})
                steps.append(modes(r, t, self.prop))
        return {"top": ["top"], "toprel": r.random() < 0.5, "cwdtop": r.random() < 0.5, "steps": steps}


TSTYPE = '''
type Server struct{}

type Req struct {
	A string `json:"a"`
	B []int
}

func (Server) Foo(r Req) (Req, error) { return r, nil }
'''


def corrupt(t):
    out = []
    for i, e in enumerate(t):
        if e["e"] in ("protodeps", "godeps") and e["ok"]:
            for k in range(len(e["got"])):
                u = copy.deepcopy(t[:i + 1])
                del u[-1]["got"][k]
                if u[-1]["got"].count(e["got"][k]) == 0:
                    out.append((u, {"missing", None} if e["e"] == "godeps" else {"missing"}))
                break
            u = copy.deepcopy(t[:i + 1])
            u[-1]["got"].append(["elsewhere"])
            out.append((u, {"extra"}))
        if e["e"] in ("protoc", "gobuild", "decls") and e["ok"] and not e["dry"]:
            u = copy.deepcopy(t[:i + 1])
            u[-1]["ran"] = not e["ran"]
            if not e["ran"]:
                w = {"needless", "names"}
                u[-1].update({"gotincs": [], "gotopts": [], "gotfiles": [], "gotdir": [], "gotout": []})
            else:
                w = {"skipped"}
                if any(x.get("c", NOTHING)["also"] for x in t):
                    w.add(None)
            out.append((u, w))
    return out


def check(c, kinds=None):
    classes = CLASSES[c.prop]
    c.build()
    c.log("built")
    design(c)
    scripts = []
    kinds = kinds or {"C20": [("proto", 1600, 16000)], "C21": [("go", 140, 1200)], "C15": [("proto", 400, 4000), ("go", 70, 600)],
                      "C11": [("proto", 400, 4000), ("go", 70, 500)]}[c.prop]
    for kind, q, th in kinds:
        for _ in range(c.scale(q, th)):
            r = random.Random(c.rng.randrange(2**31))
            scripts.append((Proto if kind == "proto" else Go)(r, c.prop).script())
    c.rng.shuffle(scripts)
    work = c.as_nobody(c.path("gowork"))
    env = {"GOCACHE": work + "/cache", "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOPATH": work + "/gopath", "REALGO": os.path.join(GOENV["PATH"].split(":")[0], "go")}
    traces = c.drive("deps", scripts, crash_event={"e": "panic"}, env=env)
    done = [(s, t) for s, t in zip(scripts, traces) if t is not None]
    c.log(len(done), "histories executed")
    bad = c.validate("FabDepsTrace", [0] * len(done), [t["events"] for _, t in done])
    for j in bad:
        s, t = done[j["tid"]]
        if j["why"] == "harness":
            raise CheckError("harness produced a malformed trace: %r %r" % (j, t.get("notes")))
        if c.prop == "C11" and j["why"] == "skipped" and not any(e.get("dry") and e.get("t") == j["ev"]["t"] for e in t["events"][:j["at"] - 1]):
            c.notes.setdefault("rejections_of_other_classes", []).append(j["why"])
            continue  # (not about dry runs)
        if c.prop == "C15" and j["why"] in classes:
            # Is it the names in YAML that make the difference?
            e = j["ev"]
            if e.get("form") != "yaml" or e["e"] in ("protodeps", "godeps") and e["plainok"] == e["ok"] and e["plain"] == sorted({"/".join(p) for p in e["got"]}):
                c.notes.setdefault("rejections_of_other_classes", []).append(j["why"])
                continue
        if j["why"] in classes or j["why"] in ("panic", "stuck"):
            c.violation("deps:" + j["why"], "%s at event %d (%s) of a recorded history" % (j["why"], j["at"], json.dumps(t["events"][j["at"] - 1])[:900]),
                        {"driver": "deps", "script": s, "events": t["events"][:j["at"]], "notes": t.get("notes"), "stderr": t.get("stderr", ""), "rejection": j})
        else:
            c.notes.setdefault("rejections_of_other_classes", []).append(j["why"])
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    for k in ("protodeps", "godeps", "protoc", "gobuild", "decls"):
        c.notes[k] = sum(1 for _, t in done for e in t["events"] if e["e"] == k)
    if good:
        for s, t in (good[0], good[len(good) // 2]):
            c.sample({"what": "dependencies", "steps": s["steps"][:8], "events": t["events"][:8]})
        part = [x for s, t in c.rng.sample(good, min(60, len(good))) for x in corrupt(t["events"])]
        rej = {j["tid"]: j["why"] for j in c.validate("FabDepsTrace", [0] * len(part), [t for t, _ in part], count=False)}
        for i, (t, w) in enumerate(part):
            if rej.get(i) not in w:
                raise CheckError("self-test: falsified history got %r, want %r: %s" % (rej.get(i), w, json.dumps(t)[:6000]))
        c.notes["falsified_traces_rejected"] = c.notes.get("falsified_traces_rejected", 0) + len(part)


def design(c):
    """proto.Deps does what FabDeps says, for all small projects."""
    if c.prop == "C20":
        for config in c.scale(["Big"], ["Big", ""]):
            c.model_check("FabDepsImpl", "FabDepsImpl" + config)
        c.log("design model checked")
