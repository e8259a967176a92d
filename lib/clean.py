"""Checks based on spec/FabClean.tla: what Clean targets do (C12, part of C11)."""

import copy
import json

from core import CheckError

CLASSES = {"C12": {"altered", "toomuch", "left", "falsefail", "drychange"}, "C11": {"drychange", "falsefail"}}


def corrupt(traces):
    out = []
    for t in traces:
        for i, e in enumerate(t):
            if e["e"] != "clean":
                continue
            pre = t[:i]
            if e["fs"]:
                u = copy.deepcopy(t[:i + 1])
                u[-1]["fs"].append({"p": ["new"], "c": "f1"})
                out.append((u, {"toomuch", "drychange"}))
            u = copy.deepcopy(t[:i + 1])
            u[-1]["same"] = False
            out.append((u, {"altered"}))
            u = copy.deepcopy(t[:i + 1])
            n = len(u[-1]["fs"])
            u[-1]["fs"] = [f for f in u[-1]["fs"] if f["p"] != ["kept", "file"]]
            if len(u[-1]["fs"]) < n:
                out.append((u, {"toomuch", "drychange"}))
            last = next(f["fs"] for f in reversed(pre) if "fs" in f)
            listed = [p for s in e["ts"] for p in s["files"]]
            if e["ok"] and not e["dry"] and not any(f["e"] in ("put", "del", "lock") for f in pre[-1:]) and pre[-1]["e"] in ("clean", "init") \
                    and any(f["p"] in listed for f in last):
                u = copy.deepcopy(t[:i + 1])
                u[-1]["fs"] = last
                out.append((u, {"left"}))
            break
    return out


def check(c, share=1.0):
    classes = CLASSES[c.prop]
    vh = c.build()
    c.log("built")
    # The algorithm implements the specification.
    mc = [{"paths": [["a"], ["d"], ["d", "x"]], "kinds": [["f1", "link"], ["dir"], ["f1", "dir"]], "init": ["f1", "dir", ""],
           "targets": [{"files": [1, 2, 3], "auto": False}, {"files": [3], "auto": True}], "decls": [{"outs": [2, 1], "auto": True}],
           "cats": ["put", "lock", "declare", "clean", "both", "dry"], "maxops": c.scale(4, 5)},
          {"paths": [["a"], ["d"], ["d", "x"], ["d", "y"]], "kinds": [["f1"], ["dir"], ["f1"], ["f2"]], "init": ["f1", "dir", "f1", ""],
           "targets": [{"files": [2], "auto": True}, {"files": [1, 1], "auto": True}], "decls": [{"outs": [4], "auto": True}, {"outs": [3], "auto": False}],
           "cats": ["put", "del", "declare", "clean", "both"], "maxops": c.scale(4, 6)}]
    with open(c.path("cleanmc.json"), "w") as f:
        json.dump(mc, f)
    c.model_check("FabCleanImpl", env={"PROGS": c.path("cleanmc.json")})
    c.log("design model checked")
    out = c.path("cleangen.json")
    c.sh([vh, "cleangen", "-seed", str(c.subseed("cleangen")), "-n", str(int(share * c.scale(1000, 6000))), "-out", out])
    with open(out) as f:
        progs = json.load(f)
    scripts, seen = [], {}
    for b in c.generate("FabCleanImpl", progs, c.scale(2, 4) * len(progs), config="FabCleanGen"):
        pre = (b["tid"], json.dumps(b["steps"][:-1]))
        if seen.get(pre, 0) < 2:
            seen[pre] = seen.get(pre, 0) + 1
            scripts.append({"prog": progs[b["tid"]], "steps": b["steps"], "seed": c.rng.randrange(2**31)})
    c.log(len(progs), "programs,", len(scripts), "histories")
    traces = c.drive("clean", scripts, crash_event={"e": "panic"})
    done = [(s, t) for s, t in zip(scripts, traces) if t is not None]
    bad = c.validate("FabCleanTrace", [0] * len(done), [t["events"] for _, t in done])
    for j in bad:
        s, t = done[j["tid"]]
        if j["why"] == "harness":
            raise CheckError("harness produced a malformed trace: %r" % j)
        if c.prop == "C11" and j["why"] == "falsefail" and not j["ev"].get("dry"):
            c.notes.setdefault("rejections_of_other_classes", []).append(j["why"])
            continue  # (not about dry runs)
        if j["why"] in classes or j["why"] in ("panic", "stuck"):
            c.violation("clean:" + j["why"], "%s at event %d (%s) of a recorded history" % (j["why"], j["at"], json.dumps(t["events"][j["at"] - 1])[:600]),
                        {"driver": "clean", "script": s, "events": t["events"][:j["at"]], "stderr": t.get("stderr", ""), "rejection": j})
        else:
            c.notes.setdefault("rejections_of_other_classes", []).append(j["why"])
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    c.notes["cleanings"] = sum(1 for _, t in done for e in t["events"] if e["e"] == "clean")
    if good:
        for s, t in (good[0], good[len(good) // 2]):
            c.sample({"what": "Clean", "steps": s["steps"][:8], "events": t["events"][:8]})
        part = corrupt([t["events"] for _, t in c.rng.sample(good, min(80, len(good)))])
        rej = {j["tid"]: j["why"] for j in c.validate("FabCleanTrace", [0] * len(part), [t for t, _ in part], count=False)}
        for i, (t, w) in enumerate(part):
            if rej.get(i) not in w:
                raise CheckError("self-test: falsified history got %r, want %r: %s" % (rej.get(i), w, json.dumps(t)[:3000]))
        c.notes["falsified_traces_rejected"] = c.notes.get("falsified_traces_rejected", 0) + len(part)
