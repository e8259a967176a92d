"""Checks based on spec/FabYaml.tla: what YAML files mean (C14, C24)."""

import copy
import json
import random

from core import CheckError
import yamlgen

CLASSES = {
    "C15": {"list", "clean", "early", "unstarted"},
    "C16": {"selected", "unreported", "args", "undemanded", "unstarted", "result"},
    "C14": {"accepted", "refused", "names", "double", "undemanded", "unstarted", "early", "result", "args"},
    "C24": {"accepted", "refused", "names", "docs", "double", "undemanded", "unstarted", "early", "result", "args"},
}


def script(r, p):
    """A project with everything needed to try it out."""
    texts = []
    for f in p["files"]:
        name = "/".join(f["dir"] + [r.choice(["fab.yaml", "fab.yaml", "fab.yml"])])
        texts.append([name, yamlgen.render(r, f["doc"])])
        if name.endswith(".yaml") and r.random() < 0.1:
            texts.append([name[:-4] + "yml", "[this file: is not used"])
    if r.random() < 0.2:
        texts.append(["/".join(p["top"]) + "/fab.txt", "nor is this"])
    if "exist" in p:
        paths = {("bin", "yleaf"), ("log",)} | {tuple(x.split("/")) for x in p["exist"]} | {tuple(t[0].split("/")) for t in texts} | {tuple(p["top"]) + ("-",)}
        paths = {q[:i] for q in paths for i in range(1, len(q) + 1)} - {tuple(p["top"]) + ("-",)}
        p["fs"] = [[]] + [list(q) for q in sorted(paths, key=lambda q: [s.encode() for s in q])]
    return {"prog": {k: p[k] for k in ("top", "files", "gos", "fs", "calls")}, "texts": texts, "exist": p.get("exist", []), "gos": p["gos"], "reads": p["reads"],
            "toprel": p["toprel"], "calls": p["calls"], "lists": p.get("lists", []), "top": p["top"], "reader": r.random() < 0.2, "main": p.get("main", False)}


def run_scripts(c, scripts, what):
    """Executes the scripts and has the recordings judged.  Returns rejections and accepted executions."""
    traces = c.drive("yaml", scripts)
    done = []
    for s, t in zip(scripts, traces):
        if t is None:
            continue
        if "run" not in t:  # crashed
            t = dict(t, run=[], calls=[])
        done.append((s, t))
    return done, judge(c, [s["prog"] for s, _ in done], [t for _, t in done])


def judge(c, progs, traces, count=True):
    """Rejections (of both parts of the traces)."""
    compiled = {}
    orig = c.tlc

    def tlc(module, config=None, opts=(), env=None, **kw):
        r = orig(module, config, opts=opts, env=env, **kw)
        if module == "FabYamlTrace":
            with open(env["PROGS"]) as f:
                ps = json.load(f)
            for j in r.tagged("PROG"):
                compiled[ps[j["tid"] - 1]["n"]] = j["prog"]
        return r

    c.tlc = tlc
    try:
        bad = c.validate("FabYamlTrace", [dict(p, n=i) for i, p in enumerate(progs)], [t["events"] for t in traces], count=count)
    finally:
        c.tlc = orig
    result = [dict(j, part="events") for j in bad]
    rejected = {j["tid"] for j in bad}
    ids, ps, ts = [], [], []
    for i, t in enumerate(traces):
        if i in rejected or not t["run"]:
            continue
        if i not in compiled:
            raise CheckError("no program for %r %r" % (t["events"], progs[i],))
        prog = compiled[i]
        if not prog["nodes"]:
            continue  # some commands are not known
        labels = [n["name"] for n in prog["nodes"] if n["k"] == "leaf"]
        if len(labels) != len(set(labels)):
            continue  # (a mistake)
        t["judged"] = True
        label = {n["name"]: k + 1 for k, n in enumerate(prog["nodes"]) if n["k"] == "leaf"}
        evs = []
        for e in t["run"]:
            x = e["x"] if "x" in e else label.get(e.get("l"), 0)
            if "l" in e and x == 0:
                # something ran that is not part of the program
                evs.append({"e": "alien", "x": 0, "a": e["l"], "ok": False, "errs": []})
                break
            evs.append({"e": e["e"], "x": x, "a": e.get("a", ""), "ok": e.get("ok", False),
                        "errs": [label.get(l, 0) for l in e.get("errs", [])]})
        ids.append(i)
        ps.append(prog)
        ts.append(evs)
    for j in c.validate("FabRunTrace", ps, ts, count=count):
        if j["ev"]["e"] == "alien":
            j["why"] = "undemanded"
        result.append(dict(j, tid=ids[j["tid"]], part="run"))
    return result


def corrupt(r, t):
    out = []
    for i, e in enumerate(t["events"]):
        if e["e"] == "read":
            u = copy.deepcopy(t)
            u["events"][i]["ok"] = not e["ok"]
            u["events"], u["run"] = u["events"][:i + 1], []
            out.append((u, {"accepted", "refused", "either"}))
        if e["e"] == "list":
            u = copy.deepcopy(t)
            u["events"][i]["ok"] = not e["ok"]
            out.append((u, {"list"}))
            if e["files"]:
                u = copy.deepcopy(t)
                del u["events"][i]["files"][0]
                out.append((u, {"list"}))
                if e["files"] != e["files"][::-1]:
                    u = copy.deepcopy(t)
                    u["events"][i]["files"].reverse()
                    out.append((u, {"list"}))
        if e["e"] == "clean" and e["ok"] and e["removed"]:
            u = copy.deepcopy(t)
            del u["events"][i]["removed"][0]
            out.append((u, {"clean"}))
        if e["e"] == "select":
            u = copy.deepcopy(t)
            u["events"][i]["ok"] = not e["ok"]
            out.append((u, {"selected"}))
            if not e["ok"] and e["mentioned"]:
                u = copy.deepcopy(t)
                u["events"][i]["mentioned"] = []
                out.append((u, {"unreported"}))
        if e["e"] == "reg" and e["names"]:
            u = copy.deepcopy(t)
            del u["events"][i]["names"][0]
            out.append((u, {"names"}))
            u = copy.deepcopy(t)
            u["events"][i]["names"][0]["doc"] += "?"
            out.append((u, {"docs"}))
    ents = [i for i, e in enumerate(t["run"]) if e["e"] == "enter"]
    if ents and t.get("judged"):
        u = copy.deepcopy(t)
        del u["run"][ents[0]:ents[0] + 2]
        out.append((u, {"result", "early", "unstarted", "undemanded", "args", "harness"}))
        u = copy.deepcopy(t)
        u["run"].append(u["run"][ents[0]])
        out.append((u, {"double"}))
    return out


def check(c):
    classes = CLASSES[c.prop]
    c.build()
    c.log("built")
    design(c)
    scripts = []
    for n in range(c.scale(1200, 12000)):
        r = random.Random(c.rng.randrange(2**31))
        p = yamlgen.Gen(r, c.prop).project()
        if c.prop == "C24":
            p["reads"] = p["reads"][:2]
            if r.random() < 0.75:
                for _ in range(r.choice([1, 1, 2])):
                    yamlgen.spoil(r, p)
        scripts.append(script(r, p))
    done, bad = run_scripts(c, scripts, c.prop)
    c.log(len(done), "projects")
    finish(c, classes, done, bad)


def finish(c, classes, done, bad):
    for j in bad:
        s, t = done[j["tid"]]
        if j["why"] == "harness":
            raise CheckError("harness produced a malformed trace: %r" % j)
        if j["why"] in classes or j["why"] in ("crash", "stuck"):
            c.violation("yaml:" + j["why"], "%s at event %d (%s) of a recorded execution of %s" % (
                j["why"], j["at"], json.dumps(j["ev"])[:300], json.dumps(s["texts"])[:1500]),
                {"driver": "yaml", "script": s, "events": t["events"], "run": t["run"], "notes": t.get("notes"), "stderr": t.get("stderr", ""), "rejection": j})
        else:
            c.notes.setdefault("rejections_of_other_classes", []).append(j["why"])
    rejected = {j["tid"] for j in bad}
    good = [d for i, d in enumerate(done) if i not in rejected]
    c.notes["projects"] = len(done)
    c.notes["documents"] = sum(len(s["prog"]["files"]) for s, _ in done)
    c.notes["rejected_documents"] = sum(1 for _, t in done if any(e["e"] == "read" and not e["ok"] for e in t["events"]))
    c.notes["runs"] = sum(len(t["calls"]) for _, t in done)
    if good:
        for s, t in (good[0], good[len(good) // 2]):
            c.sample({"what": "project", "texts": s["texts"], "events": t["events"], "run": t["run"][:20]})
        progs, ts, whys = [], [], []
        for s, t in c.rng.sample(good, min(40, len(good))):
            for u, w in corrupt(c.rng, t):
                progs.append(s["prog"])
                ts.append(u)
                whys.append(w)
        rej = {j["tid"]: j["why"] for j in judge(c, progs, ts, count=False)}
        for i, w in enumerate(whys):
            if rej.get(i) not in w and not ("either" in w and rej.get(i) is None):
                raise CheckError("self-test: falsified execution got %r, want %r: %s" % (rej.get(i), w, json.dumps([progs[i], ts[i]])[:3000]))
        c.notes["falsified_traces_rejected"] = c.notes.get("falsified_traces_rejected", 0) + len(rej)


def design(c):
    """The reading algorithm does what FabYaml says, for all small projects."""
    for config in c.scale(["Go"], ["", "Go", "Deep"]):
        c.model_check("FabYamlImpl", "FabYamlImpl" + config)
    c.log("design model checked")
