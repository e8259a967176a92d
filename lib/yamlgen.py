"""Random projects for spec/FabYaml.tla: YAML documents as trees of nodes, and as text."""

import json
import re

PLAIN = re.compile(r"^[A-Za-z_./][A-Za-z0-9_./-]*$|^\.\./[A-Za-z0-9_./-]*$")
RESERVED = {"true", "false", "null", "yes", "no", "on", "off", "y", "n", ".", "..", "~", ".inf", ".nan"}


def scalar(v, tag=""):
    return {"k": "scalar", "tag": tag, "v": v, "kids": [], "doc": ""}


def null():
    return {"k": "scalar", "tag": "", "v": "~", "kids": [], "doc": "null"}


def boolean(v):
    return {"k": "scalar", "tag": "", "v": v, "kids": [], "doc": "bool"}


def seq(kids, tag=""):
    return {"k": "seq", "tag": tag, "v": "", "kids": kids, "doc": ""}


def mapping(pairs, tag=""):
    kids = []
    for key, val in pairs:
        kids += [scalar(key) if isinstance(key, str) else key, val]
    return {"k": "map", "tag": tag, "v": "", "kids": kids, "doc": ""}


def strs(l, tag=""):
    return seq([scalar(x) if isinstance(x, str) else x for x in l], tag)


# -- text

def render_scalar(r, n):
    if n["doc"] == "null":
        return "~"
    v = n["v"]
    if n["doc"] == "bool":
        return v
    styles = ['"']
    if PLAIN.match(v) and v.lower() not in RESERVED:
        styles += ["p"] * 3
    if v.isprintable():
        styles.append("'")
    s = r.choice(styles)
    if s == "p":
        return v
    if s == "'":
        return "'" + v.replace("'", "''") + "'"
    return json.dumps(v, ensure_ascii=r.random() < 0.5)


def tagtext(r, n):
    if n["tag"]:
        return "!" + n["tag"] + " "
    if r.random() < 0.03 and n["doc"] not in ("null", "bool"):
        return {"scalar": "!!str ", "seq": "!!seq ", "map": "!!map "}[n["k"]]
    return ""


def flow(r, n):
    t = tagtext(r, n)
    if n["k"] == "scalar":
        return t + render_scalar(r, n)
    if n["k"] == "seq":
        return t + "[" + ", ".join(flow(r, x) for x in n["kids"]) + "]"
    out = []
    for i in range(0, len(n["kids"]), 2):
        out.append(flow(r, n["kids"][i]) + ": " + flow(r, n["kids"][i + 1]))
    return t + "{" + ", ".join(out) + "}"


def block(r, n, indent):
    """The text of a value, beginning on the line of its key or dash (after a space)."""
    if n["k"] == "scalar" or not n["kids"] or r.random() < 0.4:
        return flow(r, n) + "\n"
    t = tagtext(r, n)
    pad = " " * indent
    out = t.rstrip() + ("  # note" if r.random() < 0.1 else "") + "\n"
    if n["k"] == "seq":
        for x in n["kids"]:
            if r.random() < 0.05:
                out += pad + "# a remark\n"
            out += pad + "- " + block(r, x, indent + 2)
    else:
        for i in range(0, len(n["kids"]), 2):
            key, val = n["kids"][i], n["kids"][i + 1]
            if key["k"] != "scalar":
                out += pad + "? " + flow(r, key) + "\n" + pad + ": " + block(r, val, indent + 2)
            else:
                out += pad + flow(r, key) + ": " + block(r, val, indent + 2)
    return out


def render(r, doc):
    """The text of a document."""
    if doc["k"] == "bad":
        return doc["v"]
    out = r.choice(["", "", "", "---\n", "\n"])
    if doc["k"] != "map" or not doc["kids"]:
        return out + flow(r, doc) + "\n"
    commented = any(k["doc"] for k in doc["kids"][::2])
    if not commented and r.random() < 0.15:
        return out + flow(r, doc) + "\n"
    for i in range(0, len(doc["kids"]), 2):
        key, val = doc["kids"][i], doc["kids"][i + 1]
        if i and (key["doc"] or r.random() < 0.6):
            out += "\n"
        if key["k"] != "scalar":
            out += "? " + flow(r, key) + "\n: " + block(r, val, 2)
            continue
        keytext = (json.dumps(key["v"]) if r.random() < 0.2 or not PLAIN.match(key["v"]) or key["v"] in RESERVED else key["v"])
        lines = key["doc"].split("\n") if key["doc"] else []
        if len(lines) == 1 and i and val["k"] != "scalar" and r.random() < 0.2:
            # a comment at the end of the line
            out += keytext + ": # " + lines[0] + "\n  " + flow(r, val) + "\n"
            continue
        for l in lines:
            out += ("# " if r.random() < 0.8 else "#") + l if l else "#"
            out += "\n"
        out += keytext + ": " + block(r, val, 2)
    return out


# -- projects

TOP = ["top"]
NAMES = ["A", "B", "C", "D-d", "E e", "F", "-n", "-x", "--", "a=b", "55", "true", "\u00e9t\u00e9", " ", "A B", "\\", "*", "_x"]
DIRS = [["top"], ["top", "x"], ["top", "x", "y"], ["top", "z"], ["top", "x-1"], ["o"]]
DOCS = ["", "", "builds it", "two lines\nof text", "a list\n\nof things: x, y", "it's \"quoted\"", "caf\u00e9 & co"]


def rel(d, p):
    i = 0
    while i < len(d) and i < len(p) and d[i] == p[i]:
        i += 1
    return [".."] * (len(d) - i) + p[i:]


def spell(r, d, p, noabs=False, slash=False):
    """A spelling of path p, seen from directory d.  slash: it must contain one."""
    if not noabs and r.random() < 0.1:
        segs = list(p)
        if r.random() < 0.3:
            segs = noise(r, segs)
        return "%B/" + "/".join(segs)
    segs = rel(d, p)
    if r.random() < 0.15 and len(d) > 1 and (not noabs or len(d) > 1):
        # a detour
        n = r.randrange(1, len(d))
        segs = [".."] * n + d[len(d) - n:] + segs
    if r.random() < 0.3:
        segs = noise(r, segs)
    s = "/".join(segs)
    if s.startswith("/"):
        s = "." + s
    if slash and "/" not in s:
        s = "./" + s
    if not s:
        s = "."
    return s


def noise(r, segs):
    segs = list(segs)
    for _ in range(r.randrange(1, 3)):
        i = r.randrange(len(segs) + 1)
        segs[i:i] = r.choice([["."], [""], ["nn", ".."], ["x", ".."]]) if i < len(segs) else r.choice([["."], [".", "."], ["x", ".."]])[:0] or []
    if segs and segs[0] == "":
        segs[0] = "."
    return segs


class Gen:
    def __init__(self, r, profile):
        self.r = r
        self.profile = profile
        self.labels = 0
        self.defs = []  # (dir, name)
        self.outs = 0
        self.files = []  # outputs so far: paths
        self.toprel = r.random() < 0.25
        self.main = profile == "C16" and r.random() < 0.3
        self.exist = []
        global TOP, DIRS
        TOP = ["top"]
        if profile == "C15":
            TOP = r.choice([["top"], ["top"], ["a", "b", "top"], ["t[o]p"], ["to p", "*"]])
        DIRS = [TOP + d for d in ([], ["x"], ["x", "y"], ["z"], ["x-1"])] + [["o"]]
        if profile == "C15":
            DIRS[3:5] = r.sample([TOP + d for d in (["z"], ["x[1]"], ["x", "y", "z", "w"], ["*"], ["\u00e9"], ["b\\c"])], 2)
            for _ in range(r.randrange(12)):
                self.exist.append(r.choice(DIRS) + r.choice([[], [], [], ["sub"], ["x"]]) + [r.choice(["in1", "in2", "in3", "a.go", "b.go", "b.go.x", "ab", "a*b", "[x]", "\u00e9", ".h", "w", "a\\"])])

    def label(self):
        self.labels += 1
        return "L%d%s" % (self.labels, "x" if self.r.random() < 0.15 else "")

    def stringlist(self, d, depth=0):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if depth < 2 and r.random() < 0.25:
                out.append(strs(self.stringlist(d, depth + 1), r.choice(["Rev", "Rev", "Twice"])))
            else:
                out.append(scalar(r.choice(["a", "b c", "-v", "--x=1", "w", "w", "\u00fc", "5", "true", "", "q\nr"])))
        return out

    def pattern(self, d):
        """A pattern, seen from d."""
        r = self.r
        if r.random() < 0.04:
            return r.choice(["[", "*[", "[]", "[^]", "[-a]", "[a-", "[a-]", "x\\", "x/[", "[a", "*/../x", "[]a]", "[a\\", "\\"])
        p = list(r.choice(self.exist)) if self.exist and r.random() < 0.9 else r.choice(DIRS) + [r.choice(["in1", "nosuch", "fab.yaml"])]
        if r.random() < 0.15 and len(p) > 1:
            p.pop()
        for i in range(len(p)):
            n = p[i]
            if i < len(p) - 1 and r.random() < (0.8 if i < len(TOP) else 0.6):
                if r.random() < 0.8:
                    p[i] = re.sub(r"([*?\[\\])", r"\\\1", n)
                continue
            k = r.randrange(len(n))
            c = n[k]
            cls = lambda: r.choice(["[%s]" % c if c not in "-]\\^" else "?", "[a-z]", "[^a-m]", "[!-~]", "[a-cx-z%s]" % (c if c.isalnum() else "q"), "[\\%s]" % c, "[^\\]]"])
            p[i] = r.choice(["*", "*", "*", "?" * len(n), n[:k] + "*", "*" + n[k:], n[:k] + "?" + n[k + 1:], n[:k] + cls() + n[k + 1:], n[:k] + cls() + "*", "\\" + n, n, "*" + c + "*", "**", ".*"])
        return spell(r, d, p) if r.random() < 0.97 else r.choice([".", "..", "../.", "*/.."])

    def inputs(self, d):
        """A pattern matching no outputs of targets that come later (which would make them depend on each other)."""
        r = self.r
        p = list(r.choice(self.files if self.files and r.random() < 0.6 else self.exist or [["o", "in1"]]))
        last = p.pop()
        if len(p) > 1 and r.random() < 0.5:
            k = r.randrange(len(p))
            p[k] = r.choice(["*", "?" * len(p[k]), "*" + re.sub(r"([*?\[\\])", r"\\\1", p[k][1:])])
        else:
            k = -1
        p = [x if i == k else re.sub(r"([*?\[\\])", r"\\\1", x) for i, x in enumerate(p)]
        if last.startswith("out"):
            last = r.choice(["out", "*", "?ut", "o?t", "[no]ut", "\\out", "o[^a-t]t"]) + last[3:]
        elif last[0].isalpha():
            last = last[0] + r.choice(["*", "?", "*" + re.sub(r"([*?\[\\])", r"\\\1", last[1:])])
        else:
            last = "in?"
        return spell(r, d, p + [last])

    def names(self, d, depth=0):
        """A list of names of files, sometimes with something wrong."""
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if depth < 3 and x < 0.2:
                out.append(seq(self.names(d, depth + 1), r.choice(["Rev", "Twice"])))
            elif x < 0.5:
                out.append(self.globs(d, depth))
            elif x < 0.52:
                out.append(r.choice([scalar("a", "Glob"), scalar("a", "Nope"), seq([scalar("a")]), seq([scalar("a")], "Nope"), mapping([("a", scalar("b"))]), mapping([], "Rev")]))
            else:
                p = list(r.choice(self.exist)) if self.exist and r.random() < 0.5 else r.choice(DIRS) + r.choice([[], ["n"], ["n", "m"], ["in1"], ["*"], ["$HOME"], ["a b"], ["5"], ["~"], ["-x"]])
                out.append(scalar(spell(r, d, p)))
        return out

    def globs(self, d, depth=0):
        r = self.r
        kids = [scalar(self.pattern(d)) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if kids and depth < 2 and r.random() < 0.15:
            kids[0] = seq([kids[0]], r.choice(["Rev", "Twice"] + ([] if set("*?[\\") & set("".join("".join(p) for p in DIRS + self.exist)) else ["Glob"] * 3)))
        return seq(kids, "Glob")

    def lists(self):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 5)):
            d = r.choice(DIRS)
            n = r.choice([seq(self.names(d)), seq(self.names(d)), seq(self.names(d), r.choice(["Rev", "Twice"])), self.globs(d), scalar(r.choice(["a", ""])) if r.random() < 0.1 else seq([])])
            out.append({"dir": d, "node": n, "text": "K: " + block(r, n, 2), "clean": r.random() < 0.5})
        return out

    def filelist(self, d, outs):
        """outs: for outputs, otherwise inputs"""
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2])):
            if outs:
                self.outs += 1
                p = r.choice([x for x in DIRS]) + ["out%03d_" % self.outs]
                self.new.append(p)
            elif self.files and r.random() < 0.7:
                p = list(r.choice(self.files))
                if r.random() < 0.2:
                    p.append("below")
            else:
                p = r.choice(DIRS) + [r.choice(["in1", "in2", "in3"])]
            if self.profile == "C15" and not outs and r.random() < 0.4:
                out.append(seq([scalar(self.inputs(d)) for _ in range(r.choice([1, 1, 2]))], "Glob"))
                continue
            out.append(scalar(spell(r, d, p)))
            if self.profile == "C15" and outs and r.random() < 0.6:
                self.exist.append(p)
        if out and r.random() < 0.2:
            out = [strs(out, r.choice(["Rev", "Twice"]))] if not outs or r.random() < 0.5 else [strs(out, "Rev")]
        return seq(out) if len(out) != 1 or out[0]["tag"] == "" or r.random() < 0.5 else out[0]

    def ref(self, d):
        r = self.r
        if not self.defs or r.random() < 0.03:
            return scalar(r.choice(["nosuch", "x/nosuch", "gone/nosuch", "../nosuch", "./nosuch", "~", "5"]))
        e, name = r.choice(self.defs[-6:] if r.random() < 0.5 else self.defs)
        if e == TOP and r.random() < 0.75:
            return scalar(name)
        return scalar(spell(r, d, e + [name], noabs=self.toprel, slash=True))

    def command(self, d):
        r = self.r
        pairs = []
        form = r.choice(["shell", "shell", "list", "cmd"])
        if form == "shell":
            pairs.append(("Shell", scalar("yleaf " + self.label())))
        elif form == "list":
            l = [scalar("yleaf " + self.label()) for _ in range(r.randrange(0, 4))]
            pairs.append(("Shell", seq(l, r.choice(["", "", "Rev"]))))
        else:
            pairs.append(("Cmd", scalar("yleaf")))
            pairs.append(("Args", strs([self.label()])))
        if r.random() < 0.15:
            pairs.append(("Env", strs(["A=b", "C="])))
        if r.random() < 0.15:
            pairs.append(("Stdout", scalar(r.choice(["$discard", "$verbose"]))))
        if r.random() < 0.1:
            pairs.append(("Stderr", null()))
        r.shuffle(pairs)
        return mapping(pairs, "Command")

    def target(self, d, depth):
        r = self.r
        x = r.random()
        if depth >= 3 or x < 0.3:
            return self.ref(d) if r.random() < 0.55 else scalar(self.label(), "Leaf")
        if x < 0.5:
            return scalar(self.label(), "Leaf")
        if x < 0.58:
            return self.command(d)
        if x < 0.66:
            return seq([self.target(d, depth + 1) for _ in range(r.choice([0, 1, 2, 2, 3]))], "All")
        if x < 0.74:
            return seq([self.target(d, depth + 1) for _ in range(r.choice([0, 1, 2, 2, 3]))], "Seq")
        if x < 0.82:
            post = self.target(d, depth + 1)
            pre = [self.target(d, depth + 1) for _ in range(r.choice([0, 1, 1, 2]))]
            if r.random() < 0.5:
                return seq([post] + pre, "Deps")
            pairs = [("Post", post)]
            if pre or r.random() < 0.5:
                pairs.append(("Pre", seq(pre)))
            elif r.random() < 0.3:
                pairs.append(("Pre", null()))
            r.shuffle(pairs)
            return mapping(pairs, "Deps")
        if x < 0.89:
            return seq([self.target(d, depth + 1)] + self.stringlist(d), "ArgTarget")
        if x < 0.97 or self.profile == "C15":
            if self.main:
                return self.target(d, depth)  # (equal Files targets would be skipped)
            t = self.target(d, depth + 1)
            pairs = [("Target", t)]
            if r.random() < 0.8:
                pairs.append(("In", self.filelist(d, False)))
            if r.random() < 0.8:
                pairs.append(("Out", self.filelist(d, True)))
            if r.random() < 0.2:
                pairs.append(("Autoclean", boolean(r.choice(["true", "false"]))))
            r.shuffle(pairs)
            return mapping(pairs, "Files")
        if r.random() < 0.5:
            return strs(["cl1", "../cl2"], "Clean")
        pairs = [("Files", strs(["cl1", "%B/cl2"]))]
        if r.random() < 0.3:
            pairs.append(("Autoclean", boolean("false")))
        return mapping(pairs, "Clean")

    def project(self):
        r = self.r
        gos = []
        for i in range(r.choice([0, 0, 1, 2]) if not self.main else 0):
            d = r.choice(DIRS[:3])
            name = "G%d" % i
            gos.append({"name": "/".join(rel(TOP, d + [name])), "doc": r.choice(DOCS), "id": self.label()})
            self.defs.append((d, name))
        dirs = [DIRS[0]] + r.sample(DIRS[1:], r.choice([0, 1, 1, 2, 2, 3]))
        if r.random() < 0.15 and len(dirs) > 1:
            dirs = dirs[1:]
        if self.main:
            dirs = [TOP] + [d for d in dirs if d != TOP]
        content = {tuple(d): [] for d in dirs}
        for _ in range(r.randrange(1, 4 + 2 * len(dirs))):
            d = r.choice(dirs)
            names = [n for n in (NAMES if self.profile == "C16" else NAMES[:6]) if (d, n) not in self.defs and not any(k == n for k, _, _ in content[tuple(d)])]
            if not names:
                continue
            name = r.choice(names)
            self.new = []
            t = self.target(d, r.choice([0, 0, 1]))
            self.files += self.new
            content[tuple(d)].append((name, r.choice(DOCS), t))
            self.defs.append((d, name))
        files = []
        for d in dirs:
            entries = content[tuple(d)]
            r.shuffle(entries)
            pairs = []
            for name, doc, t in entries:
                key = scalar(name)
                key["doc"] = doc
                pairs.append((key, t))
            if d != TOP or r.random() < 0.1:
                pairs.insert(r.choice([0, 0, 0, len(pairs)]), ("_dir", scalar("/".join(rel(TOP, d)))))
            files.append({"dir": d, "doc": mapping(pairs)})
        reads = [d for d in r.sample(dirs, len(dirs))]
        if r.random() < 0.6 and TOP in reads:
            reads.remove(TOP)
            reads.insert(0, TOP)
        elif r.random() < 0.5:
            reads = reads[:r.randrange(1, len(reads) + 1)]
        calls = []
        names = ["/".join(rel(TOP, d + [n])) for d, n in self.defs]
        for _ in range(r.randrange(1, 5)):
            calls.append([r.choice(names) for _ in range(r.choice([1, 1, 2, 3]))] if names else [])
        if self.profile == "C16":
            reads = [TOP] if self.main else reads
            calls = [self.words(names, files) for _ in range(1 if self.main else r.randrange(2, 7))]
            return {"top": TOP, "files": files, "gos": gos, "fs": [], "calls": calls, "reads": reads, "toprel": self.toprel and not self.main, "main": self.main}
        return {"top": TOP, "files": files, "gos": gos, "fs": [], "calls": [x for x in calls if x], "reads": reads, "toprel": self.toprel,
                "lists": self.lists() if self.profile == "C15" else [], "exist": sorted({"/".join(p) for p in self.exist if not any(q[:len(p)] == p and (q != p or q in DIRS) for q in self.exist + DIRS)})}


    def words(self, names, files):
        r = self.r
        avail = ["/".join(rel(TOP, f["dir"] + [k["v"]])) for f in files for k in f["doc"]["kids"][::2] if k["v"] != "_dir"]
        word = lambda: (r.choice(avail) if avail and r.random() < 0.85 else r.choice(names) if names and r.random() < 0.6 else
                        r.choice(["zq%d" % r.randrange(1000), "zq%d" % r.randrange(1000), "", " ", "x/zq7", "-zq", "./A", "A ", "_dir", "z q", "/", "x/../A"]))
        x = r.random()
        if x < 0.05:
            return []
        if x < 0.6:
            return [word() for _ in range(r.choice([1, 1, 2, 2, 3, 5]))]
        args = [r.choice(["-", "-x", "--", "-n", "-zq", "--a=b c", "-\u00e9", "-1"])]
        args += [r.choice(["", "a", "-", "--", "b c", "q\nr", "\u00fc", "5", "'x'", "$HOME", "*", "\\"] + avail[:2]) for _ in range(r.choice([0, 0, 1, 2, 4]))]
        return [word()] + args


# -- mistakes

TAGS = ["All", "Seq", "Deps", "ArgTarget", "Command", "Files", "Clean", "Leaf", "Nope", "Glob", "Rev", ""]
BADTEXT = ["A: [x", "A: 'x", "\tA: B", "A: !All [B]]", "A: {B: C", "A: B: C", "- a\nB: c", "%", "A: *none", "A: |x\n", "\x00", "", "# nothing\n", "---\n...\n", "A: \"\\q\"\n", "&a", "!!"]


def nodes(doc):
    """All nodes with their parents: (parent, index)."""
    out = []

    def walk(n):
        for i, x in enumerate(n["kids"]):
            out.append((n, i))
            walk(x)
    walk(doc)
    return out


def spoil(r, proj):
    """Makes a mistake somewhere (mostly)."""
    f = r.choice(proj["files"])
    doc = f["doc"]
    if doc["k"] != "map":
        return
    all_ = nodes(doc)
    x = r.random()
    if x < 0.05:
        f["doc"] = {"k": "bad", "tag": "", "v": r.choice(BADTEXT), "kids": [], "doc": ""}
        return
    if x < 0.08:
        f["doc"] = r.choice([scalar("A"), seq([doc]), seq([]), scalar("A", "All")])
        return
    if x < 0.2 or not all_:
        pairs = [(doc["kids"][i], doc["kids"][i + 1]) for i in range(0, len(doc["kids"]), 2)]
        what = r.randrange(8)
        if what == 0:
            pairs = [p for p in pairs if p[0]["v"] != "_dir"]
        elif what == 1:
            pairs = [p for p in pairs if p[0]["v"] != "_dir"]
            pairs.insert(0, ("_dir", r.choice([scalar("elsewhere"), scalar(""), scalar("x"), scalar("top"), seq([scalar("x")]), null(), mapping([("a", scalar("b"))])])))
        elif what == 2:
            pairs.append((r.choice(["", ".", "..", "a/b", "/a", "a/", "x/../A"]), scalar("A")))
        elif what == 3 and pairs:
            pairs.append((dict(r.choice(pairs)[0], doc=""), scalar("nosuch")))
        elif what == 4:
            pairs.append((r.choice([seq([scalar("A")]), mapping([("A", scalar("B"))])]), scalar("A")))
        elif what == 5 and pairs:
            i = r.randrange(len(pairs))
            pairs[i] = (scalar(r.choice(["", ".", "..", "a/b"])), pairs[i][1])
        elif what == 6 and pairs:
            i = r.randrange(len(pairs))
            pairs[i] = (pairs[i][0], scalar(r.choice(["", "a", "..", "x/", "%B/nosuch/nosuch"])))
        else:
            pairs.append(("W", r.choice([seq([]), mapping([]), null(), scalar("", "All"), scalar("x", "Glob"), scalar("", "Deps"), mapping([], "Deps"), seq([], "Deps"),
                                         seq([], "ArgTarget"), mapping([], "Command"), mapping([], "Files"), mapping([], "Clean"), seq([], "Clean"), seq([], "Rev")])))
        f["doc"] = mapping(pairs)
        for k, p in zip(f["doc"]["kids"][::2], pairs):
            if not isinstance(p[0], str):
                k["doc"] = p[0]["doc"]
        return
    deep = [(n, i) for n, i in all_ if not (n is doc)]
    values = [(n, i) for n, i in all_ if n["k"] != "map" or i % 2 == 1]
    n, i = r.choice(deep if deep and r.random() < 0.6 else values)
    y = n["kids"][i]
    iskey = n["k"] == "map" and i % 2 == 0
    what = r.randrange(9)
    if what <= 2 and not iskey:
        n["kids"][i] = dict(y, tag=r.choice(TAGS))
        if y["doc"] in ("null", "bool"):
            n["kids"][i] = scalar("nosuch", r.choice(TAGS))
    elif what == 3:
        n["kids"][i] = seq([y]) if not iskey else seq([dict(y, doc="")])
    elif what == 4 and not iskey:
        n["kids"][i] = mapping([("k", y)], r.choice(["", y["tag"]]))
    elif what == 5 and not iskey:
        n["kids"][i] = scalar(r.choice(["s", "5", "true"]), r.choice(["", y["tag"]]))
    elif what == 6:
        if n["k"] == "map":
            j = i - i % 2
            del n["kids"][j:j + 2]
        else:
            del n["kids"][i]
    elif what == 7:
        if n["k"] == "map" and n is not doc:
            j = i - i % 2
            n["kids"][j + 2:j + 2] = [dict(n["kids"][j], doc=""), scalar("again")]
        elif n["k"] == "seq" and not has_label(y):
            n["kids"].insert(i, y)
    elif iskey and n is not doc:
        n["kids"][i] = scalar(r.choice(["Cmd", "Shell", "In", "Target", "Pre", "Post", "Files", "bogus"]))
    else:
        n["kids"][i] = seq([], y["tag"]) if not iskey else scalar("bogus")


def has_label(n):
    return n["v"].startswith("L") or "yleaf" in n["v"] or any(has_label(x) for x in n["kids"])
