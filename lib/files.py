"""Checks based on spec/FabFiles.tla: what Files targets do (C06-C09, part of C11)."""

import copy
import json

from core import CheckError

CLASSES = {
    "C06": {"skipped"},
    "C07": {"needless", "falsefail", "double"},
    "C08": {"skipped", "falseok", "dberr", "dryadd", "needless", "falsefail"},
    "C09": {"order", "prereqfail", "skipped", "stuck", "falseok", "double"},
    "C11": {"dryadd", "drychange", "skipped", "falsefail"},
}

# profile: how many projects (quick, thorough)
PROFILES = {
    "C06": {"edits": (170, 1600), "rules": (130, 1200), "chains": (60, 600)},
    "C07": {"fresh": (220, 2000), "edits": (80, 800), "rules": (40, 400)},
    "C08": {"modes": (160, 1500), "crash": (110, 900)},
    "C09": {"chains": (240, 2400), "modes": (50, 500)},
    "C11": {"dry": (200, 2000)},
}


def design(c):
    with open(c.path("spec", "FabFilesMC.json")) as f:
        progs = json.load(f)
    for p in progs:
        p["maxops"] = c.scale(3, 4)
    with open(c.path("filesmc.json"), "w") as f:
        json.dump(progs, f)
    c.model_check("FabFilesImpl", env={"PROGS": c.path("filesmc.json")})


def gen_projects(c, vh, profile, n):
    out = c.path("files-%s.json" % profile)
    c.sh([vh, "filesgen", "-profile", profile, "-seed", str(c.subseed("filesgen", profile)), "-n", str(n), "-out", out])
    with open(out) as f:
        return json.load(f)


def histories(c, projs, num):
    """Behaviours of FabFilesImpl.  (TLC prints all successors of the last state but one; keep a few that matter.)"""
    seen = {}
    result = []
    for b in c.generate("FabFilesImpl", projs, num, config="FabFilesGen"):
        steps = b["steps"]
        if steps[-1]["op"] != "run":
            steps = steps[:-1]
        key = (b["tid"], json.dumps(steps))
        pre = (b["tid"], json.dumps(b["steps"][:-1]))
        if key in seen or seen.get(pre, 0) >= 2:
            continue
        seen[key] = 1
        seen[pre] = seen.get(pre, 0) + 1
        result.append((b["tid"], steps))
    return result


def corrupt(traces):
    out, whys = [], []

    def add(t, why):
        out.append(t)
        whys.append(why)

    for t in traces:
        runs = [i for i, e in enumerate(t) if e["e"] == "run"]
        if not runs:
            continue
        ends = [i for i, e in enumerate(t) if e["e"] == "end"]
        ents = [i for i, e in enumerate(t) if e["e"] == "enter"]
        if ents:
            i = ents[0]
            x = t[i]["x"]
            j = next((k for k in range(i, len(t)) if t[k]["e"] == "exit" and t[k]["x"] == x), None)
            end = next((k for k in ends if k > i), None)
            if j is not None:
                add(t[:j + 1] + [dict(t[i])], {"double"})
            run = t[max(k for k in runs if k < i)]
            if j is not None and end is not None:
                u = t[:i] + [e for e in t[i:end] if e["x"] != x] + [copy.deepcopy(t[end])]
                u[-1]["fs"] = next(e for e in reversed(u[:-1]) if "fs" in e)["fs"]
                # the subtarget's run is left out
                if not any(n["sub"] for n in run["def"]) and not run["dry"] and all(e["e"] in ("enter", "exit") for e in t[i:end]):
                    add(u, {"skipped", "order", "prereqfail", "falseok", "falsefail", "harness"})
                if all(e["e"] in ("enter", "exit") for e in t[i:end]) and run["db"] == "ok" and not run["dry"] and t[end]["ok"] and run["def"][x - 1]["outs"] == [] \
                        and not any(f["c"] == "unreadable" for f in t[end]["fs"]):
                    add(t[:end + 1] + [dict(run, force=False), dict(t[i])], {"needless", "order", "prereqfail"})
        if ends:
            u = copy.deepcopy(t[:ends[-1] + 1])
            u[-1]["ok"] = not u[-1]["ok"]
            add(u, {"falseok", "falsefail", None} if any(f["c"] == "unreadable" for f in u[-1]["fs"]) else {"falseok", "falsefail"})
            u = copy.deepcopy(t[:ends[-1] + 1])
            u[-1]["fs"] = u[-1]["fs"] + [{"p": ["zz"], "c": "1"}]
            add(u, {"change", "drychange"})
            for k in ends:
                r = t[max(q for q in runs if q < k)]
                if r["dry"]:
                    u = copy.deepcopy(t[:k + 1])
                    u[-1]["adds"] = 1
                    add(u, {"dryadd"})
                    break
    return out, whys


def selftest(c, traces):
    t, whys = corrupt(traces)
    bad = {j["tid"]: j["why"] for j in c.validate("FabFilesTrace", [0] * len(t), t, count=False)}
    for i, w in enumerate(whys):
        if bad.get(i) not in w:
            raise CheckError("self-test: falsified history %d got %r, want %r: %s" % (i, bad.get(i), w, json.dumps(t[i])[:3000]))
    c.notes["falsified_traces_rejected"] = c.notes.get("falsified_traces_rejected", 0) + len(bad)


def check(c, classes=None, profiles=None, with_design=True):
    classes = classes or CLASSES[c.prop]
    profiles = profiles or PROFILES[c.prop]
    vh = c.build()
    vhp = c.build(perturb=True)
    c.log("built")
    if with_design:
        design(c)
        c.log("design model checked")
    projs, labels = [], []
    for prof, (q, th) in profiles.items():
        ps = gen_projects(c, vh, prof, c.scale(q, th))
        projs += ps
        labels += [prof] * len(ps)
    hists = histories(c, projs, c.scale(2, 4) * len(projs))
    c.log(len(projs), "projects,", len(hists), "histories")
    scripts = [({"prog": projs[i], "steps": steps, "seed": c.rng.randrange(2**31)}, labels[i]) for i, steps in hists]
    done = []
    for binary, what, part in ((vh, "", [s for k, s in enumerate(scripts) if k % 4]), (vhp, ", perturbed", scripts[::4])):
        traces = c.drive("files", [s for s, _ in part], binary, crash_event={"e": "panic", "x": 0})
        for (s, label), t in zip(part, traces):
            if t is not None:
                done.append((s, t, label + what))
    c.log(len(done), "histories executed")
    bad = c.validate("FabFilesTrace", [0] * len(done), [t["events"] for _, t, _ in done])
    for j in bad:
        s, t, label = done[j["tid"]]
        why = j["why"]
        if why == "harness":
            raise CheckError("harness produced a malformed trace: %r at %d of %r" % (j["ev"], j["at"], t))
        runs = [e for e in t["events"][:j["at"]] if e["e"] == "run"]
        if c.prop == "C11" and (why == "falsefail" and not runs[-1]["dry"] or why == "skipped" and not any(e["dry"] for e in runs)):
            c.notes.setdefault("rejections_of_other_classes", []).append(why)
            continue  # (not about dry runs)
        if why in classes or why in ("panic", "stuck"):
            c.violation("files:" + why, "%s: %s at event %d (%s) of a recorded history" % (label, why, j["at"], j["ev"]),
                        {"driver": "files", "script": s, "events": t["events"][:j["at"]], "stderr": t.get("stderr", ""), "rejection": j})
        else:
            c.notes.setdefault("rejections_of_other_classes", []).append(why)
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    builds = sum(1 for _, t, _ in done for e in t["events"] if e["e"] == "run")
    c.notes["builds"] = c.notes.get("builds", 0) + builds
    if good:
        for s, t, label in (good[0], good[len(good) // 2]):
            c.sample({"what": "Files, " + label, "steps": s["steps"][:6], "events": t["events"][:10]})
        part = c.rng.sample(good, min(60, len(good)))
        selftest(c, [t["events"] for _, t, _ in part])
