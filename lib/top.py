"""Check based on spec/FabTop.tla: where the top directory of a project is (C19)."""

import copy
import json
import random

from core import CheckError
import yamlgen

NAMES = ["a", "b", "a", "b", "foo", "c d", "2024", "1.50", "true", "null", "0x1F", "x-y", ".h", "é", "a.b", "_fab2", "~x", "2024-01-02", "fab"]
BAD = ["", "# nothing\n", "[", "x: [", "- a\n", "just text\n", "a: x\na: y\n", "\tx: y\n", "[a, b]\n", "5\n", "{a: b\n", "x: y\n z: w\n", "_dir: a\n_dir: a\n"]
OTHERS = ["Foo: !Command\n  Shell: echo hi\n", "Bar: !All [Foo]\n", "Baz: Foo\n", "# about Quux\nQuux: !F.unknown {a: b}\n", "Dir: a\n", "dir: b\n", "Seq: !Seq\n- !Clean [x]\n- Foo\n", "5: x\n", "true: Foo\n",
          '"_Dir": a\n', "M: {_dir: b}\n"]


def decl_text(r, v):
    styles = ['"' + v + '"', "'" + v + "'"]
    if v and v == v.strip() and v not in ("~",) and not v.startswith(("[", "{", "!", "*", "&", "/..")):
        styles += [v] * 4 + ["!!str " + v]
        if r.random() < 0.1:
            styles = ["|-\n  " + v + "", ">-\n    " + v]
    return r.choice(["_dir: ", "_dir: ", '"_dir": ', "'_dir' : ", "_dir:  "]) + r.choice(styles) + r.choice(["", "", " # here"]).replace("#", "#" ) + "\n"


def yaml_text(r, v):
    parts = r.sample(OTHERS, r.choice([0, 1, 1, 2, 3]))
    if v is not None:
        t = decl_text(r, v)
        if "|-" in t or ">-" in t:
            t = t.replace(" # here", "")
        parts.insert(r.randrange(len(parts) + 1), t)
    elif not parts or r.random() < 0.1:
        parts.append(r.choice(["Zoo: Bar\n", "_dir:\n", '_dir: ""\n']))
    return r.choice(["", "", "---\n", "# hello\n\n", "%YAML 1.1\n---\n"]) + "".join(parts) + r.choice(["", "", "...\n", "---\n_dir: other\n"])


class Gen:
    def __init__(self, r):
        self.r = r
        self.dirs = [[]]
        names = r.sample(NAMES, r.choice([1, 2, 3, 4]))
        for _ in range(r.choice([2, 3, 4, 6, 9])):
            d = list(r.choice(self.dirs)) + [r.choice(names)]
            if len(d) <= 6 and d not in self.dirs:
                self.dirs.append(d)

    def decl(self, d):
        r = self.r
        x = r.random()
        good = d[len(d) - r.randrange(1, len(d) + 1):] if d else []
        if x < 0.6 and good:
            return "/".join(good)
        other = r.choice(self.dirs)
        s = "/".join(other[-r.randrange(1, 4):]) if other else r.choice(NAMES)
        if x < 0.75:
            return s
        if x < 0.8:
            return "/".join(["zz"] + good)
        if x < 0.85:
            return "/" + "/".join(good)
        g = "/".join(good)
        return r.choice(["./" + g, g + "/", g.replace("/", "//"), "x/../" + g, "../" + g, "..", ".", g + "/.", g + "/..", "zz/" + g, "/".join(good[:-1] + [good[-1] + "x"]) if good else "b",
                         g[1:] or "q", g.upper() or "r", g + "/" + g])

    def set(self, d):
        r = self.r
        x = r.random()
        c = {"fab": False, "yaml": "no", "decl": ""}
        fab, files = "", {}
        if x < 0.12:
            fab = r.choice(["dir", "dir", "link"])
            c["fab"] = True
        elif x < 0.22:
            fab = r.choice(["file", "dangling"])
        if r.random() < (0.6 if d else 0.3):
            y = r.random()
            name = r.choice(["fab.yaml", "fab.yaml", "fab.yml"])
            if y < 0.1:
                c["yaml"] = "bad"
                files[name] = r.choice(BAD)
            elif y < (0.25 if d else 0.8):
                c["yaml"] = "plain"
                files[name] = yaml_text(r, None)
            else:
                v = self.decl(d)
                c["yaml"], c["decl"] = "decl", v
                files[name] = yaml_text(r, v)
            if name == "fab.yaml" and r.random() < 0.1:
                files["fab.yml"] = r.choice(BAD + ["_dir: a\n"])
        if r.random() < 0.1:
            files[r.choice(["fab.yam", "Fab.yaml", "_fab.yaml", "fab.json", ".fab.yaml"])] = "x: y\n"
        return {"op": "set", "d": d, "c": c, "fab": fab, "files": files}

    def script(self):
        r = self.r
        steps = []
        for d in self.dirs:
            if r.random() < 0.5:
                steps.append(self.set(d))
        for _ in range(r.randrange(3, 10)):
            if r.random() < 0.25:
                steps.append(self.set(r.choice(self.dirs)))
            else:
                d = list(r.choice(self.dirs)) + (["in", "side"][:r.choice([1, 2])] if r.random() < 0.2 else [])
                steps.append({"op": "top", "d": d, "form": r.choice(["abs", "abs", "here", "empty", "rel", "odd"])})
        return steps


def corrupt(t):
    out = []
    for i, e in enumerate(t):
        if e["e"] == "top":
            u = copy.deepcopy(t[:i + 1])
            u[-1]["ok"] = not e["ok"]
            if e["ok"]:
                out.append((u, {"refused", None}))
                u = copy.deepcopy(t[:i + 1])
                u[-1]["got"] = e["got"] + ["more"]
                out.append((u, {"wrong"}))
            else:
                u[-1]["got"] = e["d"] + ["more"]
                out.append((u, {"accepted", "wrong"}))
    return out


def check(c):
    c.build()
    c.log("built")
    for config in c.scale([""], ["", "Deep"]):
        c.model_check("FabTopImpl", "FabTopImpl" + config)
    c.log("design model checked")
    scripts = [Gen(random.Random(c.rng.randrange(2**31))).script() for _ in range(c.scale(8000, 80000))]
    traces = c.drive("top", scripts, crash_event={"e": "panic"})
    done = [(s, t) for s, t in zip(scripts, traces) if t is not None]
    c.log(len(done), "projects searched")
    bad = c.validate("FabTopTrace", [0] * len(done), [t["events"] for _, t in done])
    for j in bad:
        s, t = done[j["tid"]]
        if j["why"] == "harness":
            raise CheckError("harness produced a malformed trace: %r" % j)
        c.violation("top:" + j["why"], "%s at event %d (%s) in %s" % (j["why"], j["at"], json.dumps(j["ev"]), json.dumps([x for x in s if x["op"] == "set"])[:900]),
                    {"driver": "top", "script": s, "events": t["events"][:j["at"]], "notes": t.get("notes"), "stderr": t.get("stderr", ""), "rejection": j})
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    c.notes["searches"] = sum(1 for _, t in done for e in t["events"] if e["e"] == "top")
    c.notes["found"] = sum(1 for _, t in done for e in t["events"] if e["e"] == "top" and e["ok"])
    if good:
        for s, t in (good[0], good[len(good) // 2]):
            c.sample({"what": "top directories", "steps": s, "events": t["events"]})
        part = [x for s, t in c.rng.sample(good, min(60, len(good))) for x in corrupt(t["events"])]
        rej = {j["tid"]: j["why"] for j in c.validate("FabTopTrace", [0] * len(part), [t for t, _ in part], count=False)}
        for i, (t, w) in enumerate(part):
            if rej.get(i) not in w:
                raise CheckError("self-test: falsified history got %r, want %r: %s" % (rej.get(i), w, json.dumps(t)[:3000]))
        c.notes["falsified_traces_rejected"] = len(part)
