"""Check based on spec/FabDriver.tla: which driver fab runs (C18)."""

import copy
import json
import os
import random

from core import CheckError, GOENV

GO = ["p.go", "q.go", "r_linux.go", "z.go"]
OTHER = ["x_test.go", "ign.go", "p_windows.go", "README", "sub/s.go", "data.txt", ".hidden.go", "_u.go"]


class Gen:
    def __init__(self, r):
        self.r = r
        self.files = {1: {}, 2: {}}

    def put(self, p, name, kind, i=None):
        r = self.r
        i = i or r.choice([1, 1, 2, 2, 3])
        text = "// ID:%d\npackage fab\n" % i
        if kind == "tag":
            text = "//go:build vtag\n\n" + text
        elif kind == "broken":
            text += r.choice(["\nvar x int = \"a\"\n", "\nfunc {\n", "\nimport _ \"no/such/package\"\n", "\nvar a = b\n"])
        elif name == "ign.go":
            text = "//go:build ignore\n\n" + text
        elif name == "sub/s.go":
            text = text.replace("package fab", "package sub")
        elif kind == "other" and r.random() < 0.2 and not name.endswith(".go"):
            text = "x%d" % i
        self.files[p][name] = (kind, i)
        return {"op": "put", "proj": p, "name": name, "text": text, "c": {"kind": kind, "id": i}}

    def delete(self, p, name):
        del self.files[p][name]
        return {"op": "del", "proj": p, "name": name}

    def edit(self, p):
        r = self.r
        x = r.random()
        fs = self.files[p]
        gos = [n for n in fs if n in GO]
        if x < 0.45 or not gos:
            return [self.put(p, r.choice(GO), "go")]
        if x < 0.55:
            return [self.put(p, r.choice(OTHER), "other")]
        if x < 0.62:
            return [self.put(p, "t.go", "tag")]
        if x < 0.68:
            return [self.put(p, r.choice(gos), "broken")]
        if x < 0.78:
            return [self.delete(p, r.choice(sorted(fs)))]
        if x < 0.88 and len(gos) > 1:  # swap
            a, b = r.sample(gos, 2)
            (ka, ia), (kb, ib) = fs[a], fs[b]
            return [self.put(p, a, kb, ib), self.put(p, b, ka, ia)]
        a = r.choice(gos)  # rename
        k, i = fs[a]
        return [self.delete(p, a), self.put(p, r.choice(GO), k, i)]

    def script(self):
        r = self.r
        two = r.random() < 0.3
        steps = [self.put(1, "p.go", "go")]
        if two:
            steps.append(self.put(2, "p.go", "go"))
        cur = 1
        v = 1
        for _ in range(r.randrange(4, 14)):
            x = r.random()
            if x < 0.3:
                steps += self.edit(cur)
            elif x < 0.36:
                steps.append({"op": "harm", "how": r.choice(["all", "remove", "remove", "empty", "garbage"])})
            else:
                if two and r.random() < 0.4:
                    cur = 3 - cur
                if r.random() < 0.2:
                    v = 3 - v
                op = {"op": "run", "proj": cur, "v": v, "tags": r.random() < 0.1, "force": r.random() < 0.1, "fails": "", "kill": "", "at": r.random(), "sub": r.choice(["", "", "sub", "sub/deep", "_fab"]),
                      "verb": r.random() < 0.3}
                y = r.random()
                if y < 0.12:
                    op["fails"] = r.choice(["init", "tidy", "build", "built"])
                elif y < 0.2:
                    op["kill"] = r.choice(["init", "tidy", "build", "built"])
                elif y < 0.45:
                    op["kill"] = "step"
                    if r.random() < 0.6:
                        op["at"] = 1 - r.random() * 0.12
                steps.append(op)
                if r.random() < 0.3:  # the sources as they are for the time being: something else for a moment
                    gos = [n for n in self.files[cur] if n in GO]
                    if gos:
                        n = r.choice(gos)
                        old = self.files[cur][n]
                        steps.append(self.put(cur, n, "go"))
                        steps.append(dict(op, kill=r.choice(["", "step", "built"]), at=1 - r.random() * 0.12, fails=r.choice(["", "", "build", "tidy"])))
                        steps.append(self.put(cur, n, *old))
                        steps.append(dict(op, kill="", fails=""))
        return {"steps": steps, "fabrel": r.random() < 0.3}


def corrupt(t):
    out = []
    for i, e in enumerate(t):
        if e["e"] != "run" or e["killed"]:
            continue
        if e["ran"]:
            u = copy.deepcopy(t[:i + 1])
            u[-1]["ran"][0]["v"] = 3 - e["v"]
            out.append((u, {"outdated"}))
            u = copy.deepcopy(t[:i + 1])
            u[-1]["ran"][0]["c"][0][1] += 10
            out.append((u, {"outdated"}))
            u = copy.deepcopy(t[:i + 1])
            u[-1]["ok"] = False
            out.append((u, {"result"}))
            u = copy.deepcopy(t[:i + 1])
            u[-1].update(ran=[], ok=False)
            out.append((u, {"result"}))
        if e["ran"] and not e["attempted"]:
            u = copy.deepcopy(t[:i + 1])
            u[-1]["attempted"] = u[-1]["compiled"] = True
            out.append((u, {"recompiled", None}))
        if e["attempted"] and e["fails"]:
            u = copy.deepcopy(t[:i + 1])
            u[-1]["ok"] = True
            out.append((u, {"swallowed"}))
    return out


def check(c):
    c.build()
    fabs = {"FAB%d" % v: c.build_fab(v, crash=True) for v in (1, 2)}
    c.log("built")
    c.model_check("FabDriverImpl", "FabDriverImplDeep")
    c.log("design model checked")
    work = c.as_nobody(c.path("gowork"))
    env = dict(fabs, GOCACHE=work + "/cache", GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOPATH=work + "/gopath", REALGO=os.path.join(GOENV["PATH"].split(":")[0], "go"))
    scripts = [Gen(random.Random(c.rng.randrange(2**31))).script() for _ in range(c.scale(450, 5000))]
    traces = c.drive("driver", scripts, crash_event={"e": "panic"}, env=env)
    done = [(s, t) for s, t in zip(scripts, traces) if t is not None]
    runs = [e for _, t in done for e in t["events"] if e["e"] == "run"]
    c.log(len(done), "histories with", len(runs), "runs executed")
    c.notes["runs"] = len(runs)
    c.notes["compilations"] = sum(1 for e in runs if e["compiled"])
    c.notes["reused"] = sum(1 for e in runs if e["ran"] and not e["attempted"])
    c.notes["killed"] = sum(1 for e in runs if e["killed"])
    if not c.notes["compilations"] or not c.notes["killed"]:
        raise CheckError("no drivers were compiled, or no crashes happened: %r" % [t.get("notes") for _, t in done[:3]])
    bad = c.validate("FabDriverTrace", [0] * len(done), [t["events"] for _, t in done])
    for j in bad:
        s, t = done[j["tid"]]
        if j["why"] == "harness":
            raise CheckError("harness produced a malformed trace: %r" % j)
        c.violation("driver:" + j["why"], "%s at event %d (%s) of %s" % (j["why"], j["at"], json.dumps(j["ev"])[:600], json.dumps(t["events"][:j["at"]])[:1200]),
                    {"driver": "driver", "script": s, "events": t["events"][:j["at"]], "notes": t.get("notes"), "stderr": t.get("stderr", ""), "rejection": j})
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    if good:
        for s, t in (good[0], good[len(good) // 2]):
            c.sample({"what": "drivers", "steps": s["steps"][:12], "events": t["events"][:12]})
        part = [x for s, t in c.rng.sample(good, min(60, len(good))) for x in corrupt(t["events"])]
        rej = {j["tid"]: j["why"] for j in c.validate("FabDriverTrace", [0] * len(part), [t for t, _ in part], count=False)}
        for i, (t, w) in enumerate(part):
            if rej.get(i) not in w:
                raise CheckError("self-test: falsified history got %r, want %r: %s" % (rej.get(i), w, json.dumps(t)[:3000]))
        c.notes["falsified_traces_rejected"] = len(part)
