"""Random models, in the notation of the harness."""
import docgen

TEXTS = [t for t in docgen.TEXTS]
URL = {"m": "http://schemas.microsoft.com/3dmanufacturing/material/2015/02", "s": "http://schemas.microsoft.com/3dmanufacturing/slice/2015/07",
       "b": "http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02", "p": "http://schemas.microsoft.com/3dmanufacturing/production/2015/06"}
UNKNOWN = docgen.UNKNOWN
ZERO = {"lang": "", "unit": "millimeter", "thumb": "", "exts": [], "meta": [], "res": {"attrs": [], "assets": [], "objects": []}, "build": {"attrs": [], "items": []},
        "any": [], "attrs": [], "path": "", "childs": [], "rels": [], "rrels": [], "atts": []}


class Gen:
    """ext: probability of extension data; unk: of unknown content; undeclared: of leaving vocabularies undeclared."""

    def __init__(self, rng, ext=0.5, unk=0.2, size=3, undeclared=0.1, meta=True):
        self.r, self.ext, self.unk, self.size = rng, ext, unk, size
        self.pool = rng.choice(docgen.POOLS[:-1])
        self.declared = [k for k in ("m", "s", "b", "p") if self.p(1 - undeclared)]
        self.declunk = [u for u in self.pool if self.p(1 - undeclared)]
        pre = {"m": ["m", "mat", "a"], "s": ["s", "sl"], "b": ["b", "bl"], "p": ["p", "prod", "b2"]}
        self.exts = [{"ns": URL[k], "p": self.r.choice(pre[k]), "req": self.p(.3)} for k in self.declared]
        self.exts += [{"ns": u, "p": p, "req": self.p(.1)} for u, p in zip(self.pool, ("x", "vend", "third")) if u in self.declunk]
        for e in self.exts:
            if self.p(.1):
                q = "ns%d" % self.r.randint(0, 6)
                if all(x["p"] != q for x in self.exts):
                    e["p"] = q
        self.r.shuffle(self.exts)

    def p(self, x):
        return self.r.random() < x

    def n(self, k=None):
        return self.r.randint(0, self.size if k is None else k)

    def u(self):
        return self.r.choice([str(self.r.randint(0, 5)), str(self.r.randint(0, 5)), str(self.r.randint(0, 9)), str(self.r.randint(10, 999)), "4294967295"])

    def f(self):
        k = self.r.random()
        if k < .3:
            return str(self.r.randint(-20, 20))
        if k < .6:
            return "%.*f" % (self.r.randint(1, 7), self.r.uniform(-100, 100))
        if k < .8:
            return repr(self.r.uniform(-1, 1) * 10 ** self.r.randint(-6, 6))
        return self.r.choice(["0.00005", "0.99995", "123456.78", "0.12345", "-0.00004", "16777217", "1e-7", "3e38", "0.5", "1e10", "-2.5e-3", "33554431"])

    def pos(self):
        return self.r.choice(["1", "2", "0.5", "2.25", "0.125", "0", "0.00001", "1.00001"])

    def text(self):
        return self.r.choice(TEXTS)

    def name(self):
        return self.r.choice(["", "a", "Part 1", "B-7", "\u00fcber", "x & y", "<z>", "q\"uote'", "  sp  ", "tab\tnew\nline", "]]>"])

    def color(self):
        return self.r.choice(["%08x" % self.r.randrange(1 << 32), "%06xff" % self.r.randrange(1 << 24), "00000000", "ffffffff", "000000ff", "0a0b0c0d"])

    def uuid(self):
        h = "%032x" % self.r.randrange(1 << 128)
        u = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
        return self.r.choice([u, u, u.upper(), "urn:uuid:" + u, h, "{" + u + "}"])

    def matrix(self):
        k = self.r.random()
        if k < .45:
            return []
        if k < .5:
            return "1 0 0 0 1 0 0 0 1 0 0 0".split()
        if k < .55:
            return ["0"] * 12
        if k < .65:  # the identity, once rounded
            return ["1.0001"] + "0 0 0 1 0 0 0 1 0 0 0.0002".split()
        return [self.f() if float(self.f()) < 1e20 else "1" for _ in range(12)]

    # ------------------------------------------------------------ unknown content
    def attrs(self, elem, loose=False):
        g = []
        if elem in ("build", "object") and self.p(self.ext * .5):
            g.append({"k": "pbuild" if elem == "build" else "pobj", "uuid": self.r.choice([self.uuid(), self.uuid(), ""])})
        if elem in ("item", "component") and self.p(self.ext * .5):
            g.append({"k": "pitem" if elem == "item" else "pcomp", "uuid": self.r.choice([self.uuid(), self.uuid(), ""]), "path": self.r.choice(["", "/3D/a.model", "/x&y.model"])})
        if elem == "object" and self.p(self.ext * .4):
            g.append({"k": "sobj", "id": self.u(), "res": self.r.choice(["fullres", "lowres"])})
        for ns in self.pool:
            if elem == "model" and ns not in self.declunk:
                continue
            if self.p(self.unk / 3):
                names = self.r.sample(docgen.ANAMES + ["pid"] if self.p(.7) else docgen.AODD, self.r.randint(1, 3))
                same = self.text() if self.p(.3) else None
                g.append({"k": "u", "ns": ns, "a": [{"ns": ns, "n": n, "s": self.text() if same is None else same} for n in names]})
        if loose and self.p(self.unk / 4):
            g.append({"k": "u", "ns": "", "a": [{"ns": "", "n": "loose", "s": self.text()}]})
        self.r.shuffle(g)
        return g

    def tree(self, depth=2, top=True):
        ns = self.r.choice(self.pool) if top or self.p(.7) else self.r.choice(["core", "m", "b"])
        a = []
        if self.p(.4):
            a.append({"ns": "", "n": "id", "s": self.u()})
        if self.p(.4):
            a.append({"ns": self.r.choice(self.pool + ["m", "core"]), "n": "q", "s": self.text()})
        kids = []
        for _ in range(self.n(2) if depth else 0):
            if self.p(.35) and (not kids or kids[-1]["t"] != "T"):
                kids.append({"t": "T", "s": self.r.choice([t for t in TEXTS if t.strip()])})
            else:
                kids.append(self.tree(depth - 1, False))
        return {"t": "S", "ns": ns, "n": self.r.choice(docgen.ENAMES if self.p(.7) else docgen.EODD), "a": a, "c": kids}

    def any(self, lattice=False):
        out = []
        for _ in range(2):
            if self.p(self.unk / 2):
                out.append({"k": "tok", "tree": self.tree()})
        if lattice and self.p(self.ext * .6):
            out.append(self.lattice())
        self.r.shuffle(out)
        return out

    # ------------------------------------------------------------ core
    def metadata(self):
        out = []
        for _ in range(self.n(2)):
            pre = self.r.choice(["", ""] + [e["p"] for e in self.exts])
            out.append({"ns": pre, "n": self.r.choice(["Title", "Designer", "Creation Date", "a & b", "un:known" if not pre else "two:parts"]), "val": self.text(), "type": self.r.choice(["", "xs:string", "t & u"]),
                        "pres": self.p(.3)})
        return out

    def group(self):
        return {"md": self.metadata() if self.p(.3) else [], "attrs": self.attrs("metadatagroup", True)}

    def props(self, pid, pidx):
        """A property of a triangle and its indices, often close to the default of the object."""
        k = self.r.random()
        if k < .3:
            return "0", [self.r.choice(["0", "0", "3"])] * 3
        if k < .5:
            return pid, [pidx] * 3
        near = self.r.choice([pid, pid, self.u()])
        ps = [self.r.choice(["0", "1", "2", pidx]) for _ in range(3)] if k < .8 else [self.r.choice([pidx, self.u()])] * 3
        return near, ps

    def mesh(self, pid, pidx):
        ts = []
        for _ in range(self.n(4)):
            q, ps = self.props(pid, pidx)
            ts.append({"v": [self.u() for _ in range(3)], "pid": q, "p": ps, "attrs": self.attrs("triangle") if self.p(.5) else []})
        return {"attrs": self.attrs("mesh", True), "vattrs": self.attrs("vertices", True), "tattrs": self.attrs("triangles", True),
                "vs": [[self.f(), self.f(), self.f()] for _ in range(self.n(4))], "ts": ts, "any": self.any(True)}

    def object(self):
        pid, pidx = self.r.choice(["0", "1", "2", self.u()]), self.r.choice(["0", "0", "1", self.u()])
        k = self.r.random()
        mesh = [self.mesh(pid, pidx)] if k < .65 else []
        comps = [{"attrs": self.attrs("components", True), "list": [{"oid": self.u(), "tr": self.matrix(), "attrs": self.attrs("component")} for _ in range(self.n())]}] if .6 < k < .95 else []
        return {"id": self.u(), "name": self.name(), "pn": self.name(), "thumb": self.r.choice(["", "", "", "/t.png", "/a&b.png"]), "pid": pid, "pidx": pidx,
                "type": self.r.choice(["model", "model", "other", "support", "solidsupport", "surface"]), "meta": self.group(), "mesh": mesh, "comps": comps, "attrs": self.attrs("object")}

    def base(self):
        return {"k": "base", "id": self.u(), "attrs": self.attrs("basematerials"),
                "mats": [{"name": self.name(), "color": self.color(), "attrs": self.attrs("base")} for _ in range(self.n())]}

    # ------------------------------------------------------------ extensions
    def asset(self):
        k = self.r.random()
        if self.p(self.unk / 2):
            return {"k": "unk", "id": "0", "tree": self.tree()}
        if k > self.ext:
            return self.base()
        k = self.r.randrange(6)
        if k == 0:
            return {"k": "color", "id": self.u(), "cs": [self.color() for _ in range(self.n())]}
        if k == 1:
            t = ["wrap", "mirror", "clamp", "none"]
            return {"k": "tex", "id": self.u(), "path": self.r.choice(["/3D/t.png", "/3D/u&v.png", "/t.jpg"]), "ct": self.r.choice(["image/png", "image/jpeg", ""]), "u": self.r.choice(t), "v": self.r.choice(t),
                    "f": self.r.choice(["auto", "linear", "nearest"])}
        if k == 2:
            return {"k": "texg", "id": self.u(), "tid": self.u(), "cs": [[self.f(), self.f()] for _ in range(self.n())]}
        if k == 3:
            return {"k": "comp", "id": self.u(), "mid": self.u(), "idx": [self.u() for _ in range(self.n())], "vals": [[self.f() for _ in range(self.n())] for _ in range(self.n())]}
        if k == 4:
            return {"k": "multi", "id": self.u(), "pids": [self.u() for _ in range(self.n())], "blends": [self.r.choice(["mix", "multiply"]) for _ in range(self.n())],
                    "ms": [[self.u() for _ in range(self.n())] for _ in range(self.n())]}
        return self.stack()

    def segment(self):
        p1 = self.r.choice(["0", "1", self.u()])
        return {"v2": self.u(), "pid": self.r.choice(["0", "1", self.u()]), "p1": p1, "p2": self.r.choice([p1, "0", self.u()])}

    def stack(self):
        sl = [{"zt": self.f(), "vs": [[self.f(), self.f()] for _ in range(self.n())],
               "ps": [{"sv": self.u(), "segs": [self.segment() for _ in range(self.n())]} for _ in range(self.n(2))]} for _ in range(self.n(2))]
        return {"k": "stack", "id": self.u(), "zb": self.r.choice(["0", self.f()]), "slices": sl, "refs": [{"id": self.u(), "path": self.r.choice(["", "/3D/s.model", "/a&b.model"])} for _ in range(self.n(1))]}

    def lattice(self):
        caps = ["sphere", "hemisphere", "butt"]
        rad, cap = self.pos(), self.r.choice(caps)
        beams = [{"v": [self.u(), self.u()], "r": [self.r.choice([rad, rad, self.pos()]), self.r.choice([rad, rad, self.pos()])], "cap": [self.r.choice(caps + [cap]), self.r.choice(caps + [cap])]} for _ in range(self.n(4))]
        return {"k": "bl", "clip": self.r.choice(["none", "inside", "outside"]), "cm": self.u(), "rm": self.u(), "minl": self.pos(), "rad": rad, "cap": cap, "beams": beams,
                "sets": [{"name": self.name(), "ident": self.name(), "refs": [self.u() for _ in range(self.n())]} for _ in range(self.n(2))]}

    # ------------------------------------------------------------ models
    def res(self):
        return {"attrs": self.attrs("resources", True), "assets": [self.asset() for _ in range(self.n())], "objects": [self.object() for _ in range(self.n())]}

    def model(self, childs=True):
        m = dict(ZERO)
        m.update(lang=self.r.choice(["", "en-US", "de & fr"]), unit=self.r.choice(["millimeter", "micron", "centimeter", "inch", "foot", "meter"]), thumb=self.r.choice(["", "", "/thumb.png"]),
                 exts=self.exts, meta=self.metadata(), res=self.res(), any=self.any(), attrs=self.attrs("model"), path=self.r.choice(["", "", "/3D/3dmodel.model", "/other/Root.model", "/top.model"]),
                 build={"attrs": self.attrs("build", True), "items": [{"oid": self.u(), "tr": self.matrix(), "pn": self.name(), "meta": self.group(), "attrs": self.attrs("item")} for _ in range(self.n())]})
        if childs and self.p(.4):
            paths = self.r.sample(["/3D/a.model", "/3D/b.model", "/other/c.model", "/d-e.model"], self.r.randint(1, 3))
            m["childs"] = [{"path": p, "res": self.res(), "any": self.any(), "rels": []} for p in sorted(paths)]
        return m
