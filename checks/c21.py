"""C21: every short list of facets in both encodings, cut everywhere (TLC), and random files read through odd readers into
models with content, judged by TLC byte by byte."""
import struct
import modelgen
from c20 import f32, positions, NEAR


def key(x):
    return ".".join(str(b) for b in struct.pack("<f", x))


class Numbers:
    """The numbers of some files: the same number has one index; near tells which are within a few millionths."""

    def __init__(self):
        self.words, self.floats, self.vals = {}, {}, []

    def add(self, x, word=None):
        k = key(x)
        if k not in self.floats:
            self.vals.append(x)
            self.floats[k] = len(self.vals)
        if word is not None:
            self.words[word] = self.floats[k]

    def near(self):
        def r(a, b):
            d = abs(a - b)
            return "eq" if d == 0 else "near" if d <= NEAR else "far"
        return [[r(a, b) for b in self.vals] for a in self.vals]

    def case(self):
        return {"words": self.words, "floats": self.floats, "near": self.near()}


def word(rng, x):
    for _ in range(20):
        w = rng.choice(["%r", "%.9g", "%.9e", "%.12f", "+%.9g" if x > 0 else "%.9g", "%.10E"]) % x
        if w.startswith("0.") and rng.random() < .2:
            w = w[1:]
        if f32(float(w)) == x and len(w) < 60:
            return w
    return "%.9g" % x


BADNUM = ["x", "1,5", "1.5.2", "--1", "1e", "e5", "0x", "1e400", "-4e38", "1.0f", "1-2", ".", "+", "one", "1e5e5", "\u0661"]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = Numbers()

    def p(self, x):
        return self.r.random() < x

    def facets(self):
        ps = positions(self.r)
        if self.p(.5):
            ps = ps[:4]
        for q in ps:
            for x in q:
                self.n.add(x)
        return [[self.r.choice(ps) for _ in range(3)] for _ in range(self.r.choice([0, 1, 2, 3, 5, 9]))]

    def num(self, x):
        w = word(self.r, x)
        self.n.add(x, w)
        return w

    def kw(self, w):
        return self.r.choice([w, w, w.upper(), w.capitalize()]) if self.odd else w

    def lines(self, fs):
        self.odd = self.p(.4)
        name = self.r.choice(["", " part", " solid facet", " Created by x; 2020/01/02", " caf\u00e9", " " + "n" * 400, " vertex 1 2"])
        out = [self.kw("solid") + name]
        for f in fs:
            out.append(self.kw("facet") + self.r.choice([" normal 0 0 1", " normal 1e9 nan 2", "", " normal"]))
            out.append(self.kw("outer") + " loop")
            for q in f:
                out.append(self.kw("vertex") + " " + "  ".join(self.num(x) for x in q))
            out += [self.kw("endloop"), self.kw("endfacet")]
            if self.odd and self.p(.2):
                out.append("")
        out.append(self.kw("endsolid") + name)
        if fs and self.p(.1):
            k = 1 + 7 * 0 + self.r.randint(0, 0)
            out[k:k] = [self.kw("endsolid"), self.kw("solid") + " again"]
        return out

    def damage(self, ls):
        r = self.r
        i = r.randrange(len(ls))
        k = r.choice(["drop", "drop", "dup", "word", "num", "more", "fewer", "swap", "odd"])
        v = [j for j, x in enumerate(ls) if x.lower().startswith("vertex")]
        if k == "drop":
            del ls[i]
        elif k == "dup":
            ls.insert(i, ls[i])
        elif k == "word":
            ls[i] = r.choice(["vertex", "endfacet", "solid", "endsolid", "x", "facetx", "vertices 1 2 3", "end facet", "color 1 1 1"])
        elif k == "swap":
            j = r.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
        elif v:
            j = r.choice(v)
            w = ls[j].split()
            if len(w) < 4:
                return
            if k == "num":
                w[r.choice([1, 2, 3])] = r.choice(BADNUM)
            elif k == "more":
                w.insert(r.randint(1, 4), w[1])
            elif k == "fewer":
                del w[r.choice([1, 2, 3])]
            else:
                w[r.choice([1, 2, 3])] = self.num(f32(1.5))
            ls[j] = " ".join(w)

    def text(self, ls):
        out = ""
        nl = self.r.choice(["\n", "\r\n", "\n"])
        for i, l in enumerate(ls):
            if i and self.odd:
                out += self.r.choice(["", " ", "\t", "    ", "\v"])
            out += l
            if self.odd:
                out += self.r.choice(["", " ", "\t "])
            if i < len(ls) - 1 or self.p(.7):
                out += nl
        return out.encode()

    def binary(self, fs, count=None):
        r = self.r
        head = r.choice([b"", b"solid", b"SOLID thing", b"binary stl", bytes(range(80)), b"\xff" * 80, b"solid " + b"x" * 74])
        b = bytearray(head + r.choice([b"\0", b" "]) * (80 - len(head)))
        b += struct.pack("<I", len(fs) if count is None else count)
        for f in fs:
            b += r.choice([struct.pack("<3f", 0, 0, 1), b"\xff" * 12, b"\0" * 12])
            for q in f:
                b += struct.pack("<3f", *q)
            b += r.choice([b"\0\0", b"\xff\xff", b"\n\n"])
        if self.p(.15):
            b += bytes(r.randrange(256) for _ in range(r.choice([1, 10, 49])))
        return bytes(b)

    def cut(self, b):
        r = self.r
        if not b:
            return b
        return b[:r.choice([r.randrange(len(b)), max(0, len(b) - r.randint(1, 12)), min(len(b), r.choice([0, 1, 4, 5, 79, 80, 83, 84, 85, 133, 134, 299, 300, 301]))])]

    def files(self):
        """Returns whether the files have the same facets, and them."""
        r = self.r
        fs = self.facets()
        k = r.random()
        if k < .35:
            raw = [self.text(self.lines(fs)), self.binary(fs), self.text(self.lines(fs))]
            return True, [self.file(b) for b in raw]
        if k < .55:
            ls = self.lines(fs)
            for _ in range(r.choice([1, 1, 2])):
                self.damage(ls)
            return False, [self.file(self.text(ls))]
        if k < .8:
            return False, [self.file(self.cut(b)) for b in (self.text(self.lines(fs)), self.binary(fs))]
        if k < .9:
            n = r.choice([len(fs) + 1, max(0, len(fs) - 1), 0, 255, 256, 65535, 65536, 1 << 20, 1 << 24, 0x7fffffff, 0x80000000, 0xffffffff])
            return False, [self.file(self.binary(fs, n))]
        out = []
        for b in (self.text(self.lines(fs)), self.binary(fs)):
            out.append(self.file(b, r.choice([0, 1, 5, 83, 84, 134, 299, 300, len(b), len(b) - 1, r.randint(0, len(b)), r.randint(0, len(b))])))
        return False, out

    def file(self, b, fails=-1):
        return {"bytes": list(b), "fails": fails, "chunk": self.r.choice([0, 0, 1, 3, 49, 64, 4096]), "with": self.p(.3), "zeros": self.p(.1)}


def check(c):
    rng = c.rng
    lines, _, _ = c.tlc("MC_Stl", consts={"Depth": "2", "NP": "3" if c.thorough else "2"})
    n = Numbers()
    for x, w in ((0.0, "0"), (1.5, "1.5"), (-20.0, "-2e1"), (-20.0, "-2E1")):
        n.add(x, w)
    base = n.case()
    cases, files = [], []
    empty = modelgen.ZERO
    lists = c.emitted(lines)
    few = [e for e in lists if max(e["corners"] + [1]) < 3]
    for e in few + rng.sample([e for e in lists if e not in few], min(80, len(lists) - len(few))):
        for b in (e["text"], e["binary"], e["more"]):
            files += [b[:k] for k in range(len(b) + 1)]
    cov = len(files)
    for i in range(0, len(files), 40):
        cases.append(dict(base, op="stl", model=empty, twins=False, files=[
            {"bytes": b, "fails": -1, "chunk": 0, "with": False, "zeros": False} for b in files[i:i + 40]]))
    for _ in range(15000 if c.thorough else 1500):
        g = Gen(rng)
        twins, fs = g.files()
        m = empty if rng.random() < .3 else modelgen.Gen(rng, size=2).model()
        cases.append(dict(g.n.case(), op="stl", model=m, twins=twins, files=fs))

    def rec(cs):
        return [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    large = [{"op": "stlbig", "n": n, "text": t, "apart": a, "chunk": rng.choice([0, 0, 4096, 1000])} for t in (False, True)
             for n, a in ((700, True), (3000, False), (23000, True), (66000, False), (rng.choice([255, 256, 257, 1024, 4096, 5000]), rng.random() < .5))]
    recs = rec(cases + large)
    big, recs = recs[-len(large):], recs[:-len(large)]
    fast = [r for r in recs if "files" in r["out"]]
    c.cov["files"] = sum(len(r["case"]["files"]) for r in recs)
    c.cov["imported"] = sum(not o["failed"] for r in fast for o in r["out"]["files"])
    c.cov["enumerated"] = cov

    def project(r):
        if "files" not in r["out"]:
            return r
        return {"case": {k: v for k, v in r["case"].items() if k not in ("op", "model")},
                "out": {"files": [{k: v for k, v in o.items() if k != "err"} for o in r["out"]["files"]]}}
    c.judge("Tr_Stl", recs + big, rerun=rec, project=project)
    if fast:
        c.sample(fast[-1])
    c.cov["exhaustive"] = True
    c.assumptions.append("coordinates are finite and written as decimal numbers; 'a few millionths' is 4e-6 units in each coordinate; lines of text are shorter than 64 kB")
