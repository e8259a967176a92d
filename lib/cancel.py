"""Checks based on spec/FabCancel.tla: builds whose context is canceled (C25)."""

import copy
import json

from core import CheckError

CLASSES = {"afterward", "early", "result", "alive", "stuck", "crash", "stalled", "double", "undemanded", "start"}


def program(r, small=False):
    nodes = []

    def add(**n):
        nodes.append(dict({"k": "", "subs": [], "ref": 0, "fail": False, "form": "shell", "out": "", "trap": False}, **n))
        return len(nodes)

    def leaf(cmd=False):
        if not cmd and r.random() < 0.2:
            return add(k="fn", fail=r.random() < 0.15)
        return add(k="cmd", fail=r.random() < 0.12, form=r.choice(["shell", "prog"]), trap=r.random() < 0.3, out=r.choice(["", "", "file", "discard", "fn"]))

    def pure(depth):  # something to put under a Files target
        if depth == 0 or r.random() < 0.5:
            return leaf(True)
        k = r.choice(["seq", "all", "arg"])
        if k == "arg":
            return add(k=k, ref=pure(depth - 1))
        return add(k=k, subs=[pure(depth - 1) for _ in range(r.randrange(1, 4))])

    shared = []
    if small:
        for _ in range(r.randrange(1, 3)):
            shared.append(leaf())
    else:
        for _ in range(r.randrange(1, 5)):
            shared.append(leaf())
    for _ in range(r.randrange(0, 3 if small else 5)):
        files = [i + 1 for i, n in enumerate(nodes) if n["k"] == "files"]
        shared.append(add(k="files", ref=pure(0 if small else 2), subs=r.sample(files, min(len(files), r.choice([0, 1, 1, 2])))))
    for _ in range(r.randrange(1, 3 if small else 6)):
        k = r.choice(["all", "all", "seq", "seq", "seq", "deps", "arg", "name"])
        pick = lambda: r.choice(shared[-6:] if r.random() < 0.7 else shared)
        if k in ("all", "seq"):
            shared.append(add(k=k, subs=[pick() for _ in range(r.randrange(0 if r.random() < 0.1 else 1, 5))]))
        elif k == "deps":
            shared.append(add(k=k, ref=pick(), subs=[pick() for _ in range(r.randrange(0, 4))]))
        else:
            shared.append(add(k=k, ref=pick()))
    builds = []
    for i in range(r.randrange(1, 3 if small else 4)):
        top = shared[-1:] if r.random() < 0.6 else [r.choice(shared) for _ in range(r.randrange(1, 4))]
        pre = r.random() < 0.12
        builds.append({"targets": top, "pre": pre, "cancel": not pre and r.random() < 0.75, "verbose": r.random() < 0.4})
    if len(builds) > 1 and r.random() < 0.7:
        builds[-1].update(pre=False, cancel=False, targets=builds[0]["targets"])
    return {"nodes": nodes, "builds": builds}


def corrupt(progs, traces):
    out = []
    for i, t in enumerate(traces):
        for j, e in enumerate(t):
            if e["e"] == "alive":
                u = copy.deepcopy(t[:j + 1])
                u[-1]["run"] = [1]
                out.append((progs[i], u, {"alive"}))
                break
        for j, e in enumerate(t):
            if e["e"] == "cancel" and t[j - 1]["e"] == "settled" and t[j - 1]["run"]:
                u = copy.deepcopy(t[:j + 1]) + [{"e": "start", "x": t[j - 1]["run"][0]}]
                out.append((progs[i], u, {"double"}))
                k = next((k for k in range(j, len(t)) if t[k]["e"] == "return"), None)
                if k:
                    u = copy.deepcopy(t[:k + 1])
                    u[-1]["ok"] = not u[-1]["ok"]
                    if any(n["k"] == "cmd" and x + 1 in t[j - 1]["run"] for x, n in enumerate(progs[i]["nodes"])):
                        out.append((progs[i], u, {"result"}))
                started = {f["x"] for f in t[:j] if f["e"] == "start"}
                for x, n in enumerate(progs[i]["nodes"]):
                    if n["k"] == "cmd" and x + 1 not in started and not any(f["e"] == "return" for f in t[:j]):
                        u = copy.deepcopy(t[:j + 1]) + [{"e": "start", "x": x + 1}]
                        out.append((progs[i], u, {"afterward", "undemanded"}))
                        break
                break
        for j, e in enumerate(t):
            if e["e"] == "settled" and e["run"]:
                u = copy.deepcopy(t[:j + 1])
                u[-1]["run"] = []
                out.append((progs[i], u, {"stalled"}))
                u = copy.deepcopy(t[:j]) + [{"e": "return", "ok": False}]
                out.append((progs[i], u, {"early"}))
                break
    return out


def check(c):
    small = [program(c.rng, True) for _ in range(c.scale(60, 400))]
    with open(c.path("cancelmc.json"), "w") as f:
        json.dump(small, f)
    c.model_check("FabCancel", env={"PROGS": c.path("cancelmc.json")})
    c.log("design model checked")
    c.build()
    c.build(perturb=True)
    progs = [program(c.rng, c.rng.random() < 0.2) for _ in range(c.scale(400, 4000))]
    behs = c.generate("FabCancelGen", progs, c.scale(4, 8) * len(progs))
    scripts, seen = [], set()
    for b in behs:
        key = json.dumps([b["tid"], b["steps"]])
        if key not in seen:
            seen.add(key)
            scripts.append({"prog": progs[b["tid"]], "steps": b["steps"], "seed": c.rng.randrange(2**31)})
    c.rng.shuffle(scripts)
    scripts = scripts[:c.scale(1200, 12000)]
    c.log(len(progs), "programs,", len(behs), "behaviours,", len(scripts), "scripts")
    half = len(scripts) * 2 // 3
    done = []
    for part, binary in ((scripts[:half], c.build()), (scripts[half:], c.build(perturb=True))):
        done += [(s, t) for s, t in zip(part, c.drive("cancel", part, binary=binary, crash_event={"e": "crash"})) if t is not None]
    c.log("executed")
    bad = c.validate("FabCancelTrace", [s["prog"] for s, _ in done], [t["events"] for _, t in done])
    for j in bad:
        s, t = done[j["tid"]]
        if j["why"] not in CLASSES:
            raise CheckError("harness produced a malformed trace: %r" % j)
        c.violation("cancel:" + j["why"], "%s at event %d (%s) of a recorded execution" % (j["why"], j["at"], json.dumps(t["events"][j["at"] - 1])[:600]),
                    {"driver": "cancel", "script": s, "events": t["events"][:j["at"]], "stderr": t.get("stderr", ""), "rejection": j})
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    c.notes["canceled_builds"] = sum(1 for _, t in done for e in t["events"] if e["e"] == "cancel")
    c.notes["builds"] = sum(1 for _, t in done for e in t["events"] if e["e"] == "build")
    if good:
        for s, t in (good[0], good[len(good) // 2]):
            c.sample({"what": "builds", "prog": s["prog"], "events": t["events"][:25]})
        part = c.rng.sample(good, min(60, len(good)))
        part = corrupt([s["prog"] for s, _ in part], [t["events"] for _, t in part])
        rej = {j["tid"]: j["why"] for j in c.validate("FabCancelTrace", [p for p, _, _ in part], [t for _, t, _ in part], count=False)}
        for i, (p, t, w) in enumerate(part):
            if rej.get(i) not in w:
                raise CheckError("self-test: falsified execution got %r, want %r: %s" % (rej.get(i), w, json.dumps([p, t])[:4000]))
        c.notes["falsified_traces_rejected"] = len(part)
