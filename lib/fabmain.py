"""Check based on spec/FabMain.tla: invocations of the fab command (C23, and part of C11)."""

import concurrent.futures
import copy
import json
import os
import random
import subprocess

from core import CheckError, GOENV, NOBODY
import static

CLASSES = {
    "C23": {"drychange", "falsesuccess", "falsefailure", "notrun", "undemanded", "double", "modes", "output", "listed", "files", "extra", "database", "panic"},
    "C11": {"drychange", "falsefailure", "notrun", "files", "extra"},
}
GOPRE = '''package fab

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/bobg/fab"
)

var _ = fmt.Sprint(errors.New(""), io.EOF, fab.All())

func vlog(note ...string) error {
	f, err := os.OpenFile(os.Getenv("VLOG"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	defer f.Close()
	line, err := json.Marshal(note)
	if err != nil {
		return err
	}
	_, err = f.Write(append(line, '\\n'))
	return err
}

func mode(name string, on bool) string {
	if on {
		return name
	}
	return ""
}

func where() string {
	d, err := os.Getwd()
	if err != nil {
		return err.Error()
	}
	return strings.TrimPrefix(d, os.Getenv("PROJ"))
}

func in(name string) string { return os.Getenv("PROJ") + "/" + name }

var _ = context.Background
'''
WORDS = "the build of all things one two three makes it 100% \"so\" foo_bar".split()


def shell(t):
    k = t["kind"]
    note = "d=$(pwd); echo \"[\\\"%s\\\",\\\"${d#$PROJ}\\\"]\" >>$VLOG" % t["id"]
    if k == "cmd":
        return note + ("; exit %d" % t["code"] if t["fail"] else "")
    if k == "out":
        return note + "; printf '@%%s:%%s@\\n' OUT %s; printf '@%%s:%%s@\\n' ERR %s >&2" % (t["id"], t["id"])
    if k == "verb":
        return note + "; printf '@%%s:%%s@\\n' VERB %s" % t["id"]
    if k == "stdin":
        return "d=$(pwd); printf '[\"%s\",\"%%s\",\"%%s\"]\\n' \"${d#$PROJ}\" \"$(cat)\" >>$VLOG" % t["id"]
    if k == "files":
        return note + "; x=$(cat $PROJ/%s); printf '%s(%%s)' \"$x\" >$PROJ/%s" % (t["in"], t["id"], t["out"])
    raise ValueError(k)


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def doc(self):
        return " ".join(self.r.choice(WORDS) for _ in range(self.r.choice([0, 1, 4])))

    def targets(self, go, prefix, files, others, stdin):
        """A list of targets.  files: those that may be inputs; others: targets that may be referred to."""
        r = self.r
        kinds = ["cmd"] * 3 + ["fail", "out", "verb", "files", "files", "all", "all", "seq", "seq"] + (["probe"] * 3 + ["args"] * 2 if go else []) + (["stdin"] * 2 if stdin else [])
        res = []
        for i in range(r.choice([2, 4, 6, 9])):
            k = r.choice(kinds)
            fail = k == "fail"
            if fail:
                k = "cmd"
            if k == "stdin":
                if any(t["kind"] == "stdin" for t in res):
                    continue
            i = "%s%d" % (prefix, i)
            t = {"name": "", "id": i, "kind": k, "go": go, "subs": [], "in": "", "out": "", "fail": fail, "where": "", "doc": self.doc(), "code": r.choice([1, 2, 3, 127])}
            if k in ("all", "seq"):
                t["subs"] = [x["id"] for x in r.sample(res + others, min(len(res + others), r.choice([0, 1, 2, 2, 3])))]
            if k == "files":
                t["in"], t["out"] = r.choice(files), "out-" + i
                files.append(t["out"])
            res.append(t)
        return res


def gocode(r, ts):
    by = {t["id"]: t for t in ts}
    out = GOPRE
    for t in ts:
        k = t["kind"]
        q = json.dumps
        if k in ("cmd", "verb"):
            e = "&fab.Command{Shell: %s}" % q(shell(t))
        elif k == "out":
            e = "&fab.Command{Shell: %s, Stdout: os.Stdout, Stderr: os.Stderr}" % q(shell(t))
        elif k == "stdin":
            e = "fab.F(func(context.Context, *fab.Controller) error {\n\tb, err := io.ReadAll(os.Stdin)\n\tif err != nil {\n\t\treturn err\n\t}\n\treturn vlog(%s, where(), string(b))\n})" % q(t["id"])
        elif k == "probe":
            e = "fab.F(func(ctx context.Context, _ *fab.Controller) error {\n\treturn vlog(%s, where(), mode(\"v\", fab.GetVerbose(ctx)), mode(\"f\", fab.GetForce(ctx)), mode(\"n\", fab.GetDryRun(ctx)))\n})" % q(t["id"])
        elif k == "args":
            e = "fab.F(func(ctx context.Context, _ *fab.Controller) error {\n\treturn vlog(append([]string{%s, where()}, fab.GetArgs(ctx)...)...)\n})" % q(t["id"])
        elif k == "files":
            e = "fab.Files(&fab.Command{Shell: %s}, []string{in(%s)}, []string{in(%s)})" % (q(shell(t)), q(t["in"]), q(t["out"]))
        else:
            e = "fab.%s(%s)" % (k.title(), ", ".join(by[s]["name"] for s in t["subs"]))
        out += "\n" + ("// %s\n" % t["doc"] if t["doc"] else "") + "var %s%s = %s\n" % (t["name"], r.choice(["", " fab.Target"]), e)
    return out


def yamltext(r, ts, d, by, subdir):
    """The YAML file in directory d ("" or "sub")."""
    out = "_dir: sub\n\n" if d else (r.choice(["", "", "_dir: .\n"]) if False else "")
    for t in ts:
        if (t["d"] if "d" in t else "") != d:
            continue
        name = t["name"][len("sub/"):] if d else t["name"]
        q = json.dumps

        def ref(s):
            s = by[s]
            n = s["name"]
            if d:
                return "./" + n[4:] if n.startswith("sub/") else n if s["go"] or r.random() < 0.5 and "/" not in n else "../" + n
            return n
        if t["doc"]:
            out += "# %s\n" % t["doc"]
        out += q(name, ensure_ascii=False) + ": "
        k = t["kind"]
        if k == "all" and len(t["subs"]) == 1 and r.random() < 0.5:
            out += q(ref(t["subs"][0])) + "\n"
        elif k in ("all", "seq"):
            out += "!%s [%s]\n" % (k.title(), ", ".join(q(ref(s)) for s in t["subs"]))
        elif k == "files":
            rel = lambda f: q(("../" if d else "") + f)
            out += "!Files\n  Target: !Command\n    Shell: %s\n  In: [%s]\n  Out: [%s]\n" % (q(shell(t)), rel(t["in"]), rel(t["out"]))
        else:
            out += "!Command\n  Shell: %s\n" % q(shell(t))
            if k == "out":
                out += "  Stdout: $stdout\n  Stderr: $stderr\n"
            if k == "stdin":
                out += "  Stdin: $stdin\n"
            if k == "verb" and r.random() < 0.5:
                out += "  Stdout: $verbose\n"
        out += "\n"
    return out


def variant(r):
    """Go targets."""
    g = Gen(r)
    ts = g.targets(True, "g", ["src1", "src2"], [], True)
    for i, t in enumerate(ts):
        t["name"] = "G%d" % i
    return ts, gocode(r, ts)


ODD = ["-x", "-v", "--", "-top", "a b", "é", "A=1", "-fab", "x.y", "list", "-", "%s", "$HOME", "*"]


def script(r, variants, dry=0.2):
    g = Gen(r)
    both = r.choice(["go", "yaml", "yaml", "yaml", "yaml", "yaml", "both"])
    gots, gotext, driver = r.choice(variants) if both != "yaml" else ([], None, "")
    gots = copy.deepcopy(gots)
    if both == "both" and r.random() < 0.5:
        toggles = True
    else:
        toggles = False
    yts, texts = [], {}
    files = ["src1", "src2"] + [t["out"] for t in gots if t["kind"] == "files" and not toggles]
    if both != "go":
        yts = g.targets(False, "y", files, [] if toggles or both == "yaml" else gots, not any(t["kind"] == "stdin" for t in gots))
        odd = r.sample(ODD, 4)
        sub = r.random() < 0.4
        for i, t in enumerate(yts):
            t["name"] = "Y%d" % i
            if r.random() < 0.2 and odd and i > 0:
                t["name"] = odd.pop()
            if sub and i > 0 and r.random() < 0.4 and t["name"][0] == "Y":
                t["d"], t["where"] = "sub", "/sub"
                t["name"] = "sub/Y%d" % i
        if any("d" in t for t in yts):
            yts.append({"name": "S", "id": "ys", "kind": "all", "go": False, "subs": [next(t["id"] for t in yts if "d" in t)], "in": "", "out": "", "fail": False, "where": "", "doc": ""})
        by = {t["id"]: t for t in yts + gots}
        texts["fab.yaml"] = yamltext(r, yts, "", by, sub)
        if any("d" in t for t in yts):
            texts["sub/fab.yaml"] = yamltext(r, yts, "sub", by, sub)
    if gotext:
        texts["_fab/fab.go"] = gotext
    ts = [{k: v for k, v in t.items() if k not in ("d", "code")} for t in gots + yts]
    fnames = ["src1", "src2"] + sorted(t["out"] for t in ts if t["kind"] == "files")
    prog = {"targets": ts, "files": [[f, f + "-0" if f.startswith("src") else ""] for f in fnames], "dirs": ["d1", "d2", "xdg", "home"], "hasgo": bool(gots) or both == "go", "hasyaml": both != "go"}
    state = {"go": prog["hasgo"], "yaml": prog["hasyaml"], "bad": False}
    names = [t["name"] for t in ts]
    favourite = r.choice(["d1", "d2", "home"])
    steps = []
    for n in range(r.randrange(3, 9)):
        x = r.random()
        if x < 0.25 and steps:
            f = r.choice(fnames)
            steps.append({"op": "edit", "f": f, "text": "%s-%d" % (f, r.randrange(3)) if f.startswith("src") else r.choice(["", "", "garbage"])})
            continue
        if x < 0.32 and steps and (toggles or prog["hasyaml"]):
            if state["bad"]:
                state["bad"] = False
            elif toggles and r.random() < 0.8:
                if state["go"] and state["yaml"]:
                    k = r.choice(["go", "yaml"])
                    if k == "go" or "sub/fab.yaml" not in texts:
                        state[k] = False
                else:
                    state["go"] = state["yaml"] = True
            elif state["yaml"]:
                state["bad"] = True
            steps.append({"op": "toggle", "Go": state["go"], "Yaml": state["yaml"], "Bad": state["bad"]})
            continue
        fl = {"v": r.random() < 0.3, "f": r.random() < 0.2, "n": r.random() < dry, "l": r.random() < 0.12, "bad": r.random() < 0.03}
        argv = []
        for k, name in (("v", "v"), ("f", "f"), ("n", "n"), ("l", "list")):
            if fl[k]:
                argv.append(r.choice(["-%s", "-%s", "--%s", "-%s=true", "--%s=1"]) % name)
            elif r.random() < 0.05:
                argv.append("-%s=false" % name)
        if fl["bad"]:
            argv.append(r.choice(["-zzz", "-vv", "-top=/", "-n=x"]))
        r.shuffle(argv)
        present = [t["name"] for t in ts if state["go" if t["go"] else "yaml"]]
        y = r.random()
        if y < 0.04 or not present:
            words = []
        elif y < 0.2:
            args = [t["name"] for t in ts if t["kind"] == "args" and t["name"] in present]
            words = [r.choice(args or present), r.choice(["-a", "-v", "--", "-f", "-", "-list", "-fab", "--x=y z"])] + [r.choice(["a", "-n", "", "b c", "é", names[0], "--", "*"]) for _ in range(r.randrange(3))]
        else:
            words = [r.choice(present) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            if r.random() < 0.05:
                words.insert(r.randrange(len(words) + 1), r.choice(["Nope", "y0", "", "sub/Nope", "fab.yaml", "Y0/", "main", names[-1] + "x"]))
        d = favourite if r.random() < 0.8 else r.choice(["d1", "d2", "xdg", "home"])
        form = {"xdg": ["xdg"], "home": ["home"]}.get(d, ["abs", "abs=", "rel", "rel=", "twice"])
        cwds = ["", "", "", "sub", "sub/deep"]
        if state["go"]:
            cwds.append("_fab")
        if not state["yaml"] and not state["go"]:
            continue
        steps.append({"op": "fab", "argv": argv, "fl": fl, "dir": d, "dirform": r.choice(form), "words": words, "input": r.choice(["", "some input", "two\nlines" if False else "x y z", "a" * 100]),
                      "cwd": r.choice(cwds), "dashes": bool(words and words[0].startswith("-")) or r.random() < 0.15})
    return {"prog": prog, "texts": texts, "gone": [], "driver": driver, "steps": steps}


def corrupt(prog, t):
    out = []
    for i, e in enumerate(t):
        if e["e"] != "fab":
            continue

        def change(w, **kw):
            u = copy.deepcopy(t[:i + 1])
            u[i].update(kw)
            out.append((u, w))
        dry = e["fl"]["n"]
        change({"falsesuccess", "falsefailure"}, ok=not e["ok"])
        change({"drychange" if dry else "undemanded"}, ran=e["ran"] + [["alien"]])
        if e["ran"]:
            change({"notrun"}, ran=e["ran"][1:])
            change({"double"}, ran=e["ran"] + e["ran"][:1])
            change({"modes"}, ran=[e["ran"][0] + ["more"]] + e["ran"][1:])
        change({"output"}, out=e["out"] + ["alien"])
        change({"drychange" if dry else "files"}, files=[[f, x + "x"] for f, x in e["files"]])
        change({"extra"}, extra=["+x"])
        change({"database"}, found=e["found"] + ["other"])
        if e["fl"]["l"] and e["ok"]:
            change({"listed"}, listed=e["listed"] + [{"name": "alien", "doc": ""}])
    return out


def compile_variants(c, env, fab, num):
    mod = static.modtext(c)
    base = c.as_nobody(c.path("variants"))
    c.r2 = random.Random(c.rng.randrange(2**31))

    def one(i, r):
        ts, code = variant(r)
        d = os.path.join(base, str(i))
        p = os.path.join(d, "p")
        os.makedirs(os.path.join(p, "_fab"))
        os.makedirs(os.path.join(d, "tmp"))
        for name, text in (("go.mod", mod[0]), ("go.sum", mod[1]), ("_fab/fab.go", code)):
            with open(os.path.join(p, name), "w") as f:
                f.write(text)
        subprocess.run(["chown", "-R", "%d:%d" % (NOBODY, NOBODY), d], check=True)
        e = dict(env, HOME=d, TMPDIR=os.path.join(d, "tmp"), PROJ="/nonexistent", VLOG="/nonexistent")
        q = subprocess.run([fab, "-fab", os.path.join(d, "F"), "-list"], cwd=p, env=e, user=NOBODY, group=NOBODY, extra_groups=[], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=400)
        bins = [os.path.join(a, n) for a, _, ns in os.walk(os.path.join(d, "F")) for n in ns if os.access(os.path.join(a, n), os.X_OK) and not n.endswith((".db", ".json"))]
        exe = [b for b in bins if os.stat(b).st_mode & 0o111]
        return ts, code, exe[0] if len(exe) == 1 else None, q.stdout.decode(errors="replace")
    rs = [random.Random(c.rng.randrange(2**31)) for _ in range(num)]
    result = [one(0, rs[0])]
    result += list(concurrent.futures.ThreadPoolExecutor(8).map(one, range(1, num), rs[1:]))
    return result


def check(c, want=None):
    want = want or CLASSES[c.prop]
    c.build()
    fab = c.build_fab(1)
    c.log("built")
    c.model_check("FabMainImpl", "FabMainImpl" if c.tier == "quick" else "FabMainImplDeep")
    env = c.go_for_nobody()
    variants = compile_variants(c, env, fab, c.scale(4 if c.prop == "C23" else 2, 24))
    c.log("drivers compiled")
    for ts, code, exe, out in variants:
        if not exe:
            c.violation("fab:driver", "no driver for the Go targets was made: " + out[:800], {"code": code, "output": out})
    if not all(v[2] for v in variants):
        return
    variants = [v[:3] for v in variants]
    env = dict(env, FAB1=fab, REALGO=os.path.join(GOENV["PATH"].split(":")[0], "go"))
    scripts = [script(random.Random(c.rng.randrange(2**31)), variants, 0.5 if c.prop == "C11" else 0.2) for _ in range(c.scale(280 if c.prop == "C23" else 150, 4000))]
    traces = c.drive("fab", scripts, crash_event={"e": "panic"}, env=env)
    done = [(s, t) for s, t in zip(scripts, traces) if t is not None]
    inv = [e for _, t in done for e in t["events"] if e["e"] == "fab"]
    c.log(len(done), "histories with", len(inv), "invocations executed")
    c.notes["invocations"] = len(inv)
    c.notes["dry"] = sum(1 for e in inv if e["fl"]["n"])
    c.notes["targets_run"] = sum(len(e["ran"]) for e in inv)
    c.notes["succeeded"] = sum(1 for e in inv if e["ok"])
    bad = c.validate("FabMainTrace", [s["prog"] for s, _ in done], [t["events"] for _, t in done])
    rejected = {j["tid"] for j in bad}
    other = 0
    for j in bad:
        s, t = done[j["tid"]]
        if j["why"] == "harness":
            raise CheckError("harness produced a malformed trace: %r" % j)
        if j["why"] not in want or (c.prop == "C11" and not (j["ev"].get("fl") or {}).get("n")):
            other += 1
            continue
        c.violation("fab:" + j["why"], "%s at event %d (%s) of %s" % (j["why"], j["at"], json.dumps(j["ev"])[:900], json.dumps(t["events"][:j["at"] - 1])[:600]),
                    {"driver": "fab", "script": s, "events": t["events"][:j["at"]], "notes": t.get("notes"), "stderr": t.get("stderr", ""), "rejection": j})
    if other:
        c.notes["rejected_for_other_properties"] = other
    good = [d for i, d in enumerate(done) if i not in rejected]
    if good:
        for s, t in (good[0], good[len(good) // 2]):
            c.sample({"what": "invocations", "prog": s["prog"], "events": t["events"][:8]})
        part = [(s["prog"], x) for s, t in c.rng.sample(good, min(40, len(good))) for x in corrupt(s["prog"], t["events"])]
        rej = {j["tid"]: j["why"] for j in c.validate("FabMainTrace", [p for p, _ in part], [t for _, (t, _) in part], count=False)}
        for i, (p, (t, w)) in enumerate(part):
            if rej.get(i) not in w:
                raise CheckError("self-test: falsified history got %r, want %r: %s" % (rej.get(i), w, json.dumps(t)[-3000:]))
        c.notes["falsified_traces_rejected"] = len(part)
