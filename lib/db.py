"""The check based on spec/FabDB.tla: what a hash database promises (C10)."""

import copy
import json

from core import CheckError

STYLES = ["", "short", "zeros", "prefix", "suffix", "text", "space"]
DAY = 24 * 3600


def rnd(op, hd, h):
    return {"r": "ops", "ops": [{"op": op, "hd": hd, "h": h}]}


def opened(hd, keep, upd=True):
    return {"r": "open", "hd": hd, "keep": keep, "upd": upd}


def fab_script(c):
    """Entries of various ages, then fab's own handle (30 days)."""
    r = c.rng
    steps = [opened(1, 0, r.random() < 0.5)]
    for _ in range(r.randrange(3, 9)):
        for _ in range(r.randrange(1, 4)):
            steps.append(rnd(r.choice(["add", "add", "has"]), 1, r.randrange(1, 7)))
        steps.append({"r": "advance", "d": r.choice([DAY, 9 * DAY, 15 * DAY, 29 * DAY, 31 * DAY, 3 * 3600])})
    # Nothing is as old as 30 days exactly.
    steps.append({"r": "advance", "d": 7200})
    steps.append({"r": "close", "hd": 1})
    steps.append(opened(9, 30 * DAY))
    for _ in range(r.randrange(4, 12)):
        steps.append(rnd(r.choice(["add", "has", "has"]), 9, r.randrange(1, 8)))
    steps += [{"r": "close", "hd": 9}, opened(9, 30 * DAY)]
    steps += [rnd("has", 9, h) for h in range(1, 8)]
    return {"prog": {}, "steps": steps, "seed": 1, "style": r.choice(STYLES), "fab": True}


def ages_ok(s):
    """No entry's age comes close to 30 days."""
    now, times = 0, {0}
    for st in s["steps"]:
        if st["r"] == "advance":
            now += st["d"]
            times.add(now)
    return all(not -1800 < now - t - 30 * DAY < 3600 for t in times)


def stress_script(c, n):
    r = c.rng
    steps = [opened(1, r.choice([0, 5000]))]
    if r.random() < 0.3:
        steps.append(opened(2, r.choice([0, 5000])))
    for _ in range(3):
        hds = [s["hd"] for s in steps if s["r"] == "open"]
        # (Handles on the same file, like processes, wait for each other for a limited time.)
        m = n if len(hds) == 1 else 12
        steps.append({"r": "ops", "ops": [{"op": r.choice(["add", "add", "has"]), "hd": r.choice(hds), "h": r.randrange(1, 201)} for _ in range(m)]})
        steps.append({"r": "advance", "d": 1000})
    steps += [rnd("has", 1, h) for h in range(1, 201, 7)]
    return {"prog": {}, "steps": steps, "seed": r.randrange(2**31), "style": r.choice(["", "prefix", "space"]), "fab": False}


def corrupt(traces):
    out = []
    for t in traces:
        # Wrong answers
        for i, e in enumerate(t):
            if e["e"] == "end" and t[i - 1]["e"] == "begin" and t[i - 1]["op"] == "has" and t[i - 1]["x"] == e["x"]:
                h = t[i - 1]["h"]
                if all(not (g["e"] == "begin" and g["op"] == "add" and g["h"] == h) for g in t[:i]):
                    u = copy.deepcopy(t[:i + 1])
                    u[-1]["res"] = True
                    out.append((u, {"phantom"}))
                    break
        for i, e in enumerate(t):
            if e["e"] == "end" and t[i - 1]["e"] == "begin" and t[i - 1]["op"] == "add" and t[i - 1]["x"] == e["x"]:
                b = t[i - 1]
                if all(g["e"] != "begin" or g["x"] in [q["x"] for q in t[:i] if q["e"] == "end"] for g in t[:i - 1]):
                    u = copy.deepcopy(t[:i + 1])
                    u.append(dict(b, x=9999, op="has"))
                    u.append(dict(e, x=9999, res=False))
                    out.append((u, {"lost"}))
                    u = copy.deepcopy(t[:i + 1])
                    u[-1]["err"] = True
                    out.append((u, {"error"}))
                    break
    return out


def check(c):
    c.build()
    c.log("built")
    with open(c.path("dbmc.json"), "w") as f:
        json.dump(c.scale({"keeps": [0, 2500], "steps": [500, 2600], "maxrounds": 5, "maxpar": 2, "maxhandles": 2},
                          {"keeps": [0, 5000, 2500], "steps": [500, 2600, 5000, 6500], "maxrounds": 6, "maxpar": 2, "maxhandles": 2}), f)
    c.model_check("FabDBImpl", env={"DBCFG": c.path("dbmc.json")})
    c.log("design model checked")

    scripts = []
    seen = {}
    for keeps, steps, rounds, par in (([0, 10000], [1000, 5000, 9000], 24, 1), ([2000, 10000], [500, 999, 1000, 1001, 1500, 9001, 10000, 10001], 24, 1),
                                      ([0, 2500, 10000], [400, 2500, 8000, 11000], 16, 4), ([3000], [1000, 3000, 4000], 16, 3)):
        name = c.path("dbgen%d-%d.json" % (rounds, len(steps)))
        with open(name, "w") as f:
            json.dump({"keeps": keeps, "steps": steps, "maxrounds": rounds, "maxpar": par, "maxhandles": 3}, f)
        for b in c.generate("FabDBImpl", None, c.scale(80, 1200), config="FabDBGen", env={"DBCFG": name}):
            key = json.dumps(b["steps"][:-1])
            if seen.get(key, 0) < 2:
                seen[key] = seen.get(key, 0) + 1
                scripts.append(({"prog": {}, "steps": b["steps"], "seed": c.rng.randrange(2**31), "style": c.rng.choice(STYLES), "fab": False},
                                "behaviour of the specification"))
    for _ in range(c.scale(40, 400)):
        s = fab_script(c)
        while not ages_ok(s):
            s = fab_script(c)
        scripts.append((s, "fab's own handle"))
    for n in c.scale([40, 100, 200, 300, 300], [40, 100, 200, 300] * 20):
        scripts.append((stress_script(c, n), "stress"))
    c.log(len(scripts), "histories")
    traces = c.drive("db", [s for s, _ in scripts], crash_event={"e": "panic", "x": 0})
    done = [(s, t, l) for (s, l), t in zip(scripts, traces) if t is not None]
    bad = c.validate("FabDBTrace", [0] * len(done), [t["events"] for _, t, _ in done])
    for j in bad:
        s, t, label = done[j["tid"]]
        if j["why"] == "harness":
            raise CheckError("harness produced a malformed trace: %r" % j)
        c.violation("db:" + j["why"], "%s: %s at event %d (%s) of a recorded history" % (label, j["why"], j["at"], t["events"][j["at"] - 1]),
                    {"driver": "db", "script": s, "events": t["events"][:j["at"]], "rejection": j})
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    if good:
        for s, t, label in (good[0], good[len(good) // 2]):
            c.sample({"what": label, "steps": s["steps"][:8], "events": t["events"][:12]})
        part = corrupt([t["events"] for _, t, _ in c.rng.sample(good, min(80, len(good)))])
        rej = {j["tid"]: j["why"] for j in c.validate("FabDBTrace", [0] * len(part), [t for t, _ in part], count=False)}
        for i, (t, w) in enumerate(part):
            if rej.get(i) not in w:
                raise CheckError("self-test: falsified history got %r, want %r: %s" % (rej.get(i), w, json.dumps(t)[:3000]))
        c.notes["falsified_traces_rejected"] = len(part)
