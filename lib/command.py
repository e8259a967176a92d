"""Checks based on spec/FabCommand.tla: what Command targets do (C13, parts of C11 and C15)."""

import copy
import json

from core import CheckError

CLASSES = {
    "C13": {"started", "args", "dir", "env", "stdin", "notrun", "result", "output", "closer", "captured"},
    "C11": {"dryrun", "dryoutput", "result"},
    "C15": {"dir", "stdin", "output", "started", "notrun", "result"},
}

FILEDESTS = [{"t": t, "f": f} for t in ("file", "append") for f in ("o1", "o2", "A")]
DESTS = [{"t": "default", "f": ""}] * 3 + FILEDESTS + [{"t": "writer", "f": "w1"}, {"t": "writer", "f": "w2"}, {"t": "fn", "f": "w1"},
    {"t": "fnclose", "f": "w1"}, {"t": "fnclose", "f": "w2"}, {"t": "fnnil", "f": ""}] + [{"t": t, "f": ""} for t in ("$stdout", "$stderr", "$discard", "$indent", "$verbose", "nodir")]
TEXTS = [["o", "\n"], ["abc"], ["line", "\r", "\n", "next", "\r"], ["\n"], ["x", "\n", "\n", "y"], ["\u00e9\u00ff", "\t", "\n"], [">>"], ["p", "\r"], ["two  words", "\n", " indented", "\n"]]
ALL = {"forms": ["go", "yaml"], "modes": ["shell", "sh", "cmd", "cmd"], "args": [[], ["a"], ["a b", "", "-x"], ["$HOME", "*", "'", "\\"], ["new\nline", "\u00fc"]],
       "shargs": [[], ["a"], ["a b", "", "-x"], ["$HOME", "*", "'", "\\"]],
       "progs": ["ok"] * 12 + ["missing"], "dirs": ["", "", "", "", "sub", "sub", "abs", "abs", "gone"],
       "envs": [[], [], [["X1", "new"]], [["X2", "a=b c"]], [["X2", ""]], [["X1", "1"], ["X1", "2"]]],
       "stdins": ["none", "none", "none", "reader", "file", "file", "$stdin", "missing"], "dests": DESTS, "drys": [False], "depths": [0, 0, 1, 3],
       "yds": ["", "y", "y/z"], "sps": [False, True], "inits": ["(absent)", "", "before\n"],
       "texts": TEXTS, "codes": [0, 0, 0, 1, 77, 137], "maxchunks": 5}


def uniq(cfg):
    """For exhaustive checking: no repetitions."""
    return {k: (v if not isinstance(v, list) else [x for i, x in enumerate(v) if x not in v[:i]]) for k, v in cfg.items()}


def corrupt(traces):
    out = []
    for t in traces:
        for i, e in enumerate(t):
            if e["e"] == "proc":
                for f, v, why in (("args", e["args"] + ["more"], "args"), ("dir", e["dir"] + "/x", "dir"), ("env", dict(e["env"], X1="?"), "env"),
                                  ("stdin", e["stdin"] + "?", "stdin")):
                    if f == "stdin" and not e["reads"]:
                        continue
                    u = copy.deepcopy(t[:i + 1])
                    u[-1][f] = v
                    out.append((u, {why}))
                break
        e = t[-1]
        if e["e"] != "end":
            continue
        ran = any(f["e"] == "proc" for f in t)
        u = copy.deepcopy(t)
        u[-1]["ok"] = not u[-1]["ok"]
        out.append((u, {"result"}))
        for p in e["sinks"]:
            u = copy.deepcopy(t)
            u[-1]["sinks"][p] += "?"
            out.append((u, {"output", "dryoutput"}))
        if not e["ok"] and ran:
            u = copy.deepcopy(t)
            u[-1]["cap"] += "?"
            out.append((u, {"captured"}))
        if ran:
            u = copy.deepcopy([f for f in t if f["e"] not in ("proc", "chunk", "exit")])
            out.append((u, {"notrun"}))
    return out


def check(c, profiles=None):
    classes = CLASSES[c.prop]
    c.build()
    c.log("built")
    # The specification loses and invents nothing.
    small = {"forms": ["go", "yaml"], "modes": ["cmd", "shell"], "args": [[]], "shargs": [[]], "progs": ["ok"], "dirs": [""], "envs": [[]], "stdins": ["none"],
             "dests": [{"t": "default", "f": ""}, {"t": "file", "f": "o1"}, {"t": "append", "f": "o1"}, {"t": "$stdout", "f": ""}], "drys": [False], "depths": [0], "yds": [""], "sps": [False], "inits": ["before\n"],
             "texts": [["a"], ["bc", "\n"]], "codes": [0, 1], "maxchunks": c.scale(1, 2)}
    with open(c.path("cmdmc.json"), "w") as f:
        json.dump(small, f)
    c.model_check("FabCommandGen", config="FabCommandMC", env={"CMDCFG": c.path("cmdmc.json")})
    c.log("design model checked")
    scripts = []
    plain = dict(ALL, progs=["ok"], dirs=["", "sub", "abs"], stdins=["none", "file"], dests=[d for d in DESTS if d["t"] != "nodir"])
    profiles = profiles or {
        "C13": [(ALL, 160, 1600), (plain, 160, 1600),
                (dict(plain, forms=["yaml"], modes=["shell", "sh"], dests=FILEDESTS + [{"t": "default", "f": ""}], codes=[0, 0, 0, 0, 1]), 120, 1200),
                (dict(plain, dests=FILEDESTS), 80, 800),
                (dict(plain, forms=["go"], dests=[d for d in DESTS if d["t"][0] in "dwf" and d["t"] != "file"]), 80, 800),
                (dict(plain, texts=TEXTS[:2] + [["z" * 70000], ["y" * 5000, "\n"]], maxchunks=4), 16, 100)],
        "C11": [(dict(ALL, drys=[True]), 160, 1600), (dict(ALL, drys=[True], dests=FILEDESTS), 80, 800)],
        "C15": [(dict(ALL, forms=["yaml"], modes=["cmd", "shell"], args=[[]], shargs=[[]], progs=["ok"], dirs=["", "sub", "abs"], envs=[[]], stdins=["none", "file"],
                      dests=FILEDESTS, drys=[False], depths=[0], inits=["before\n"], texts=[["a"], ["bc", "\n"]], codes=[0], maxchunks=1), 300, 3000)],
    }[c.prop]
    for n, (cfg, quick, thorough) in enumerate(profiles):
        name = c.path("cmdgen%d.json" % n)
        with open(name, "w") as f:
            json.dump(cfg, f)
        seen = set()
        for b in c.generate("FabCommandGen", None, c.scale(quick, thorough), env={"CMDCFG": name}):
            key = json.dumps(b)
            if key in seen:
                continue
            seen.add(key)
            scripts.append({"prog": {}, "c": b["c"], "init": b["init"], "procs": b["procs"], "seed": c.rng.randrange(2**31)})
    c.log(len(scripts), "commands")
    traces = c.drive("command", scripts, crash_event={"e": "panic"})
    done = [(s, t) for s, t in zip(scripts, traces) if t is not None]
    bad = c.validate("FabCommandTrace", [0] * len(done), [t["events"] for _, t in done])
    for j in bad:
        s, t = done[j["tid"]]
        if j["why"] == "harness":
            raise CheckError("harness produced a malformed trace: %r" % j)
        if j["why"] in classes or j["why"] in ("panic", "stuck"):
            c.violation("command:" + j["why"], "%s at event %d (%s) of a recorded execution of %s" % (
                j["why"], j["at"], json.dumps(t["events"][j["at"] - 1])[:400], json.dumps(s["c"])),
                {"driver": "command", "script": s, "events": t["events"], "notes": t.get("notes"), "rejection": j})
        else:
            c.notes.setdefault("rejections_of_other_classes", []).append(j["why"])
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    c.notes["commands"] = len(done)
    c.notes["processes"] = sum(1 for _, t in done for e in t["events"] if e["e"] == "proc")
    if good:
        for s, t in (good[0], good[len(good) // 2]):
            c.sample({"what": "Command", "config": s["c"], "events": t["events"][1:8]})
        part = corrupt([t["events"] for _, t in c.rng.sample(good, min(60, len(good))) if len(json.dumps(t)) < 20000])
        rej = {j["tid"]: j["why"] for j in c.validate("FabCommandTrace", [0] * len(part), [t for t, _ in part], count=False)}
        for i, (t, w) in enumerate(part):
            if rej.get(i) not in w:
                raise CheckError("self-test: falsified execution got %r, want %r: %s" % (rej.get(i), w, json.dumps(t)[:3000]))
        c.notes["falsified_traces_rejected"] = c.notes.get("falsified_traces_rejected", 0) + len(part)
