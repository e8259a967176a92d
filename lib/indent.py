"""The check based on spec/FabIndent.tla: indented output (C17)."""

import copy
import json

from core import CheckError

CATS = ["begin", "begin", "end", "empty", "new"] + ["write"] * 7 + ["indentf"]


def corrupt(traces):
    out = []
    for t in traces:
        for i in range(len(t) - 1, -1, -1):
            e = t[i]
            if e["e"] not in ("write", "indentf"):
                continue
            why = {"text", "indentf"}
            for f in (lambda s: s + " ", lambda s: s + "\n", lambda s: " " + s, lambda s: s[:-1] if s else "x"):
                u = copy.deepcopy(t[:i + 1])
                u[-1]["text"] = f(u[-1]["text"])
                out.append((u, why))
            if e["e"] == "write":
                u = copy.deepcopy(t[:i + 1])
                u[-1]["ok"] = False
                out.append((u, {"error"}))
            break
        for i, e in enumerate(t):
            if e["e"] == "end":
                u = copy.deepcopy(t[:i + 1])
                u[-1]["ok"] = not u[-1]["ok"]
                out.append((u, {"result"}))
                break
    return out


def check(c):
    c.build()
    c.log("built")
    cfg = {"items": ["\n", "\r", "a"], "prefixes": ["", "> "], "maxwrite": 3, "maxops": 4, "maxdepth": 1, "maxcopiers": 1,
           "cats": ["new", "write", "begin"]}
    cfgs = [cfg, dict(cfg, maxwrite=2, maxops=c.scale(4, 5), maxdepth=2, maxcopiers=2, cats=["new", "write", "begin", "end", "indentf"])]
    for i, g in enumerate(cfgs):
        with open(c.path("indmc%d.json" % i), "w") as f:
            json.dump(g, f)
        c.model_check("FabIndentGen", config="FabIndentMC", env={"INDCFG": c.path("indmc%d.json" % i)})
    c.log("design model checked")
    scripts, labels = [], []
    texts = [["\n", "\r", "a"], ["\n", "\r", "\n", "\r", "text ", "more  text", " ", "\t", "%", "\u00c3", "\u00a9", "\u00ff"],
             ["\n", "\r", "y" * 5000, "x" * 4095, "z"], ["\r", "\n", "a", "    "]]
    for k, items in enumerate(texts):
        for maxwrite, maxops, share in ((1, 25, 1), (3, 20, 2), (8, 14, 1)):
            if len(items[2]) > 1000:
                maxops = 12
            prefixes = ["", "    ", "> ", "\u00a7\t", "%s"]
            name = c.path("indgen.json")
            with open(name, "w") as f:
                json.dump({"items": items, "prefixes": prefixes, "maxwrite": maxwrite, "maxops": maxops, "maxdepth": 4, "maxcopiers": 3,
                           "cats": CATS}, f)
            seen = set()
            for b in c.generate("FabIndentGen", None, share * c.scale(60, 900), env={"INDCFG": name}):
                key = json.dumps(b["steps"][:-1])
                if key not in seen:
                    seen.add(key)
                    scripts.append({"prog": {"prefixes": prefixes}, "steps": b["steps"]})
    c.log(len(scripts), "behaviours")
    traces = c.drive("indent", scripts, crash_event={"e": "panic"})
    done = [(s, t) for s, t in zip(scripts, traces) if t is not None]
    bad = c.validate("FabIndentTrace", [0] * len(done), [t["events"] for _, t in done])
    for j in bad:
        s, t = done[j["tid"]]
        if j["why"] == "harness":
            raise CheckError("harness produced a malformed trace: %r" % j)
        c.violation("indent:" + j["why"], "%s at event %d (%s) of a recorded execution" % (j["why"], j["at"], json.dumps(t["events"][j["at"] - 1])[:600]),
                    {"driver": "indent", "script": s, "events": t["events"][:j["at"]], "stderr": t.get("stderr", ""), "rejection": j})
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    c.notes["writes"] = sum(1 for _, t in done for e in t["events"] if e["e"] == "write")
    if good:
        for s, t in (good[0], good[len(good) // 2]):
            c.sample({"what": "indented output", "events": t["events"][:12]})
        part = corrupt([t["events"] for _, t in c.rng.sample(good, min(60, len(good)))])
        rej = {j["tid"]: j["why"] for j in c.validate("FabIndentTrace", [0] * len(part), [t for t, _ in part], count=False)}
        for i, (t, w) in enumerate(part):
            if rej.get(i) not in w:
                raise CheckError("self-test: falsified execution got %r, want %r: %s" % (rej.get(i), w, json.dumps(t)[:3000]))
        c.notes["falsified_traces_rejected"] = len(part)
