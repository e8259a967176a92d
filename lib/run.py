"""Checks based on spec/FabRun.tla: what running targets means (C01-C05, part of C16)."""

import copy

from core import CheckError

CLASSES = {
    "C01": {"double"},
    "C02": {"early", "result", "unstarted"},
    "C03": {"undemanded", "unstarted", "early", "result"},
    "C04": {"stuck"},
    "C05": {"unstarted", "result", "early", "desc", "undemanded"},
    "C16": {"args"},
}

PROFILES = {
    "C01": ["graph", "wide", "files", "args"],
    "C02": ["graph", "wide", "seq", "huge"],
    "C03": ["seq", "graph", "files", "huge"],
    "C04": ["wide", "graph", "files", "huge"],
    "C05": ["ident", "gc", "graph", "huge"],
    "C16": ["args"],
}


def gen_programs(c, vh, profile, n):
    import json
    out = c.path("gen-%s.json" % profile)
    c.sh([vh, "rungen", "-profile", profile, "-seed", str(c.subseed("rungen", profile)), "-n", str(n), "-out", out])
    with open(out) as f:
        return json.load(f)


def design(c):
    """The specification's own properties, and that the controller's algorithm implements it."""
    import json
    with open(c.path("spec", "FabRunMC.json")) as f:
        progs = json.load(f)
    with open(c.path("spec", "FabControllerMC.json")) as f:
        cprogs = json.load(f)
    if c.tier == "quick":
        cprogs = cprogs[:2] + cprogs[3:11]
    else:
        vh = c.build()
        progs += gen_programs(c, vh, "small", 600)
        cprogs += gen_programs(c, vh, "small", 60)
    for name, ps in (("FabRunMC", progs), ("FabController", cprogs)):
        with open(c.path(name + "-progs.json"), "w") as f:
            json.dump(ps, f)
        c.model_check(name, env={"PROGS": c.path(name + "-progs.json")})


def corrupt(c, progs, traces):
    """Falsified traces: the checker must reject every one of them."""
    out_p, out_t, whys = [], [], []

    def add(p, t, why):
        out_p.append(p)
        out_t.append(t)
        whys.append(why)

    for p, t in zip(progs, traces):
        ents = [i for i, e in enumerate(t) if e["e"] == "enter"]
        rets = [i for i, e in enumerate(t) if e["e"] == "ret"]
        exits = [i for i, e in enumerate(t) if e["e"] == "exit"]
        if ents:
            add(p, t + [dict(t[ents[0]])], {"double"})
            u = copy.deepcopy(t)
            u[ents[-1]]["a"] = '["other"]'
            add(p, u, {"args"})
        if rets:
            u = copy.deepcopy(t)
            u[rets[0]]["ok"] = not u[rets[0]]["ok"]
            add(p, u, {"result"})
        if rets and exits:
            r = rets[-1]
            x = max((i for i in exits if i < r), default=None)
            if x is not None and all(e["e"] not in ("ret", "dynret") for e in t[x:r]):
                # the call returns before the last target ends -- if it is one it waits for
                u = t[:x] + [t[r]] + t[x:r] + t[r + 1:]
                add(p, u, {"early", "unstarted", "result", None})
    return out_p, out_t, whys


def selftest(c, progs, traces):
    """The trace checker must tell falsified traces from genuine ones."""
    p, t, whys = corrupt(c, progs, traces)
    bad = {j["tid"]: j["why"] for j in c.validate("FabRunTrace", p, t, count=False)}
    for i, w in enumerate(whys):
        if bad.get(i) not in w:
            raise CheckError("self-test: falsified trace %d got %r, want %r: %r" % (i, bad.get(i), w, t[i]))
    c.notes["falsified_traces_rejected"] = c.notes.get("falsified_traces_rejected", 0) + len(bad)


def check(c, classes=None, profiles=None, with_design=True):
    classes = classes or CLASSES[c.prop]
    profiles = profiles or PROFILES[c.prop]
    vh = c.build()
    vhp = c.build(perturb=True)
    c.log("built")
    if with_design:
        design(c)
        c.log("design models checked")

    # Programs, and behaviours of the specification for them.
    progs, labels, free = [], [], []
    for prof in profiles:
        n = c.scale(160, 1500)
        if prof == "huge":
            n = c.scale(8, 40)
        ps = gen_programs(c, vh, prof, n)
        for p in ps:
            for _ in range(c.scale(2, 6)):
                free.append(({"prog": p, "steps": [], "seed": c.rng.randrange(2**31)}, prof + ", free"))
        if prof not in ("gc", "huge"):
            progs += ps
            labels += [prof + ", driven by a behaviour of the specification"] * len(ps)
    behs = c.generate("FabRunGen", progs, c.scale(3, 8) * len(progs))
    ctl = [({"prog": progs[b["tid"]], "steps": b["steps"], "seed": 1}, labels[b["tid"]]) for b in behs]
    c.rng.shuffle(free)
    c.log(len(progs), "programs,", len(behs), "behaviours")

    # Execute.
    done = []
    for binary, what, scripts in ((vh, "", ctl), (vhp, ", perturbed", ctl[::2]), (vhp, ", perturbed", free), (vh, "", free[::2])):
        traces = c.drive("run", [s for s, _ in scripts], binary)
        for (s, label), t in zip(scripts, traces):
            if t is not None:
                done.append((s, t, label + what))
    c.log(len(done), "executions")

    bad = c.validate("FabRunTrace", [s["prog"] for s, _, _ in done], [t["events"] for _, t, _ in done])
    for j in bad:
        s, t, label = done[j["tid"]]
        why = j["why"]
        if why == "harness":
            raise CheckError("harness produced a malformed trace: %r at %d of %r" % (j["ev"], j["at"], t))
        if why in classes or why == "crash":
            c.violation("run:" + why, "%s: %s at event %d (%s) of a recorded execution" % (label, why, j["at"], j["ev"]),
                        {"driver": "run", "script": s, "events": t["events"], "stderr": t.get("stderr", ""), "rejection": j})
        else:
            c.notes.setdefault("rejections_of_other_classes", []).append(why)
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    if good:
        for s, t, label in (good[0], good[len(good) // 2], good[-1]):
            c.sample({"what": label, "program": s["prog"], "events": t["events"][:40]})
        part = c.rng.sample(good, min(60, len(good)))
        selftest(c, [s["prog"] for s, _, _ in part], [t["events"] for _, t, _ in part])
