"""Random model documents, as trees."""

TEXTS = ["", "a", "plain text", "a & b < c > d \" e ' f", "\u00e9\u4e2d\U0001F600", "  spaced  ", "tab\tnew\nline", "]]>", "&amp;", "x:y:z", "<!-- no -->", "0", "1.5"]
MATS = ["colorgroup", "texture2d", "texture2dgroup", "compositematerials", "multiproperties"]
UNKNOWN = ["http://x.org/one", "http://x.org/two", "urn:three"]
# vocabularies that are easily taken for each other, or for a known one
POOLS = [UNKNOWN] * 3 + [["http://x.org/one", "http://X.org/One", "http://x.org/one/"], ["http://vocabulary.org/2015/02", "http://vocabulary.org/2015/02/a", "http://Vocabulary.org/2015/02"],
                         ["http://schemas.microsoft.com/3dmanufacturing/core/2015/02/x", "http://schemas.microsoft.com/3dmanufacturing/Material/2015/02", "http://schemas.microsoft.com/3dmanufacturing/core/2015/03"],
                         ["x", "vend", "urn:p"]]
ENAMES = ["thing", "vertex", "object", "item", "resources", "mesh"]
EODD = ["Vertex", "camelCase", "x-y.z", "_u", "\u00e9l\u00e9ment", "UPPER", "a1", "metadata", "color", "beamlattice", "long" * 20]
ANAMES = ["w", "id", "objectid", "name", "transform", "x"]
AODD = ["W", "Id", "wide", "weight", "UUID", "path", "pid", "x-1", "slicestackid", "meshresolution", "xmlname", "xm", "xml.x"]


def S(ns, n, attrs=(), kids=()):
    return {"t": "S", "ns": ns, "n": n, "a": [{"ns": a[0], "n": a[1], "s": a[2]} for a in attrs], "c": list(kids)}


def T(s):
    return {"t": "T", "s": s}


class Doc:
    """bad: probability that a checked attribute is malformed; odd: that content is misplaced, unknown or repeated."""

    def __init__(self, rng, bad=0.0, odd=0.05, size=3, ext=0.5, clean=False):
        self.r, self.bad, self.odd, self.size, self.ext, self.clean = rng, bad, odd, size, ext, clean
        self.pool = rng.choice(POOLS)

    def ename(self):
        return self.r.choice(ENAMES if self.p(.7) else EODD)

    def aname(self):
        return self.r.choice(ANAMES if self.p(.7) else AODD)

    def p(self, x):
        return self.r.random() < x

    def n(self, k=None):
        return self.r.randint(0, self.size if k is None else k)

    # ------------------------------------------------------------ values
    def text(self):
        return self.r.choice(TEXTS)

    def name(self):
        return self.r.choice(["a", "Part 1", "B-7", "\u00fcber", "x & y", "<z>"])

    def u(self, allow_bad=True):
        if allow_bad and self.p(self.bad):
            return self.r.choice(["", "x", "-1", "1.5", " 1", "1 ", "+1", "0x1", "1e2", "1_0", "\u0661", "1,2"])
        return self.r.choice([str(self.r.randint(0, 9)), str(self.r.randint(0, 9)), "0", "0", "1", str(self.r.randint(10, 999)), "4294967295", "007", "4294967294"])

    def f(self, allow_bad=True):
        if allow_bad and self.p(self.bad):
            return self.r.choice(["", "x", "--1", "1,5", "1.2.3", "1e", " 1", "e5", "0x", ".", "+"])
        k = self.r.random()
        if k < .4:
            return str(self.r.randint(-99, 99))
        if k < .7:
            return "%.*f" % (self.r.randint(0, 6), self.r.uniform(-1000, 1000))
        return self.r.choice(["0", "-0", "1e3", "1.5E-3", ".5", "5.", "+2", "-0.0001", "123456.789", "16777217", "1e-7", "3.4e38", "1e-45", "00.10"])

    def color(self):
        if self.p(self.bad):
            return self.r.choice(["", "red", "#12345", "112233", "#", "#1122334", "#112233445", "#1234567890"])
        h = "%08x" % self.r.randrange(1 << 32)
        return self.r.choice(["#" + h, "#" + h[:6], "#" + h.upper(), "#" + h[:6] + "ff", "#" + h[:6].upper()])

    def matrix(self):
        if self.p(self.bad):
            v = [self.f(False) for _ in range(12)]
            k = self.r.randrange(4)
            if k == 0:
                v = v[:self.r.randint(0, 11)]
            elif k == 1:
                v += ["0"] * self.r.choice([1, 4])
            else:
                v[self.r.randrange(12)] = self.r.choice(["x", "1,5", "--1"])
            return " ".join(v)
        k = self.r.random()
        if k < .2:
            v = "1 0 0 0 1 0 0 0 1 0 0 0".split()
        elif k < .3:
            v = ["0"] * 12
        else:
            v = [self.f(False) for _ in range(12)]
        return self.r.choice([" ", "  ", "\t", " \n"]).join(v) + self.r.choice(["", " "])

    def many(self, f, bad):
        v = [f(False) for _ in range(self.n(4))]
        for i in range(len(v)):
            if self.p(self.bad):
                v[i] = self.r.choice(bad)
        return self.r.choice([" ", "  ", "\t"]).join(v)

    def enum(self, vals, bad=None):
        if self.p(self.bad if bad is None else bad):
            return self.r.choice(["", "bogus", vals[0].upper(), vals[0] + " ", "0"])
        return self.r.choice(vals)

    def uuid(self):
        h = "%032x" % self.r.randrange(1 << 128)
        u = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
        if self.p(self.bad):
            return self.r.choice(["", "x", u[:-1], u + "0", u.replace("-", ""[:0] + "_"), "{" + u, "g" + u[1:], "{" + h + "}"])
        return self.r.choice([u, u, u.upper(), "{" + u + "}", "urn:uuid:" + u, h])

    # ------------------------------------------------------------ attributes
    def attrs(self, *spec, foreign=None, loose=False):
        """spec: (name, value function, probability)."""
        out = [("", n, f()) for n, f, q in spec if self.p(q)]
        if foreign:
            out += self.foreign(foreign, loose)
        elif self.p(self.odd / 3):
            out += [(self.r.choice(self.pool), "w", self.text())]
        self.r.shuffle(out)
        return out

    def foreign(self, elem, loose):
        out = []
        if elem == "build" and self.p(self.ext * .5):
            out.append(("p", "UUID", self.uuid()))
        if elem == "object" and self.p(self.ext * .5):
            out.append(("p", "UUID", self.uuid()))
        if elem in ("item", "component") and self.p(self.ext * .5):
            if self.p(.8):
                out.append(("p", "UUID", self.uuid()))
            if self.p(.5):
                out.append(("p", "path", self.r.choice(["/3D/a.model", "/other.model", "rel.model", ""])))
        if elem == "object" and self.p(self.ext * .4):
            if self.p(.8):
                out.append(("s", "slicestackid", self.u()))
            if self.p(.5):
                out.append(("s", "meshresolution", self.enum(["fullres", "lowres"])))
        if self.p(self.odd):
            seen = set()
            same = self.text() if self.p(.3) else None
            for _ in range(self.r.randint(1, 4)):
                a = (self.r.choice(self.pool), self.aname(), self.text() if same is None else same)
                if a[:2] not in seen:
                    seen.add(a[:2])
                    out.append(a)
        if self.p(self.odd / 2):
            out.append((self.r.choice(["m", "b"] + (["s", "p"] if elem not in ("build", "item", "object", "component") else [])), "odd", self.text()))
        if loose and self.p(self.odd / 2):
            out.append(("", self.r.choice(["loose", "id", "name"]), self.text()))
        if self.p(self.odd / 6):
            out.append(("xml", "space", "preserve"))
        return out

    # ------------------------------------------------------------ unknown content
    def unknown(self, depth=3, ns=None, name=None):
        ns = ns or self.r.choice(self.pool)
        attrs = []
        if self.p(.5):
            attrs.append(("", "id", self.r.choice([self.u(), "9"])))
        if self.p(.3):
            attrs.append((self.r.choice(self.pool + ["core", "m", "p"]), "q", self.text()))
        if self.p(.3):
            attrs.append(("", "z", self.text()))
        if self.p(.2):
            attrs.append(("xmlns", "loc%d" % self.r.randrange(3), self.r.choice(["http://local.org", self.pool[0]])))
        kids = []
        if depth > 0:
            for _ in range(self.n(2)):
                k = self.r.random()
                if k < .35:
                    kids.append(T(self.r.choice(TEXTS[1:])))
                elif k < .6:
                    kids.append(self.unknown(depth - 1, ns if self.p(.6) else None))
                else:
                    kids.append(S("core", self.r.choice(["vertex", "object", "mesh", "item", "triangle", "resources", "metadata", "model"]),
                                  [("", "id", "77"), ("", "x", "1")] if self.p(.6) else [], [self.unknown(depth - 1)] if self.p(.4) else []))
        return S(ns, name or self.ename(), attrs, kids)

    def junk(self):
        """An element where it has no meaning."""
        k = self.r.random()
        if k < .3:
            return self.unknown(2)
        if k < .55:
            return self.r.choice([self.vertex, self.item, lambda: self.object(0), self.base, lambda: self.metadata(), self.components])()
        if k < .75:
            return S("core", self.r.choice(["bogus", "Vertex", "models"]), [("", "id", "x")], [self.vertex()] if self.p(.5) else [])
        if k < .9:
            return S(self.r.choice("msbp"), self.r.choice(["bogus", "color", "slice", "beam"]), [("", "id", "5")], [self.unknown(1)] if self.p(.3) else [])
        return T(self.r.choice(["text", "  ", "1 2 3"]))

    def mix(self, kids, where=None):
        """Sometimes puts content without meaning among the children."""
        kids = list(kids)
        while self.p(self.odd):
            j = self.junk()
            if where and not where(j):
                continue
            kids.insert(self.r.randint(0, len(kids)), j)
        return kids

    def split(self, ns, name, kids, attrs):
        """A container, sometimes in several pieces."""
        if self.p(self.odd) and not self.clean:
            k = self.r.randint(0, len(kids))
            return [S(ns, name, attrs(), kids[:k]), S(ns, name, attrs(), kids[k:])]
        return [S(ns, name, attrs(), kids)]

    # ------------------------------------------------------------ core
    def metadata(self):
        n = self.r.choice(["Title", "Designer", "x:Custom", "vend:Item", "un:known", "", "vend:a:b"])
        kids = [T(self.text())]
        if self.p(self.odd):
            kids += [self.unknown(1) if self.p(.5) else S("core", "b", [], [T("inner")]), T(self.text())]
        return S("core", "metadata", self.attrs(("name", lambda: n, .9), ("type", self.name, .3), ("preserve", lambda: self.r.choice(["1", "0", "true", "false"]), .3)), kids)

    def metagroup(self):
        if not self.p(.25):
            return []
        return self.split("core", "metadatagroup", self.mix([self.metadata() for _ in range(self.n(2))], lambda j: j.get("n") != "metadata"),
                          lambda: self.attrs(foreign="metadatagroup", loose=True))

    def vertex(self):
        return S("core", "vertex", self.attrs(("x", self.f, .95), ("y", self.f, .95), ("z", self.f, .95)), self.mix([]))

    def triangle(self):
        a = [("v1", self.u, .95), ("v2", self.u, .95), ("v3", self.u, .95)]
        k = self.r.random()
        if k < .5:
            a += [("pid", self.u, .6), ("p1", self.u, .6), ("p2", self.u, .5), ("p3", self.u, .5)]
        return S("core", "triangle", self.attrs(*a, foreign="triangle"), self.mix([]))

    def mesh(self):
        vs = self.mix([self.vertex() for _ in range(self.n(4))], lambda j: j.get("n") != "vertex" or j["ns"] != "core")
        ts = self.mix([self.triangle() for _ in range(self.n(4))], lambda j: j.get("n") != "triangle")
        kids = self.split("core", "vertices", vs, lambda: self.attrs(foreign="vertices", loose=True)) + \
            self.split("core", "triangles", ts, lambda: self.attrs(foreign="triangles", loose=True))
        for _ in range(3):
            if self.p(self.odd):
                kids.append(self.unknown())
        if self.p(self.ext * .5):
            kids.append(self.lattice())
        if self.p(self.odd / 2):
            kids.append(self.material() if self.p(.7) else self.stack())
        if self.p(self.odd):
            self.r.shuffle(kids)
        return S("core", "mesh", self.attrs(foreign="mesh", loose=True), self.mix(kids, lambda j: j.get("n") not in ("vertices", "triangles")))

    def component(self):
        return S("core", "component", self.attrs(("objectid", self.u, .95), ("transform", self.matrix, .5), foreign="component"), self.mix([]))

    def components(self):
        return S("core", "components", self.attrs(foreign="components", loose=True),
                 self.mix([self.component() for _ in range(self.n())], lambda j: j.get("n") != "component"))

    def object(self, kind=None):
        kids = self.metagroup()
        k = self.r.random() if kind is None else kind
        if k < .65:
            kids.append(self.mesh() if kind is None else S("core", "mesh"))
        elif k < .9:
            kids.append(self.components())
        if self.p(self.odd / 2) and not self.clean and kind is None:
            kids.append(self.mesh() if self.p(.5) else self.components())
        a = [("id", self.u, .95), ("type", lambda: self.enum(["model", "other", "support", "solidsupport", "surface"]), .5), ("name", self.name, .4),
             ("partnumber", self.name, .3), ("thumbnail", lambda: "/t.png", .1), ("pid", self.u, .4), ("pindex", self.u, .4)]
        return S("core", "object", self.attrs(*a, foreign="object"), self.mix(kids, lambda j: j.get("n") not in ("mesh", "components", "metadatagroup")))

    def base(self):
        bs = [S("core", "base", self.attrs(("name", self.name, .9), ("displaycolor", self.color, .95), foreign="base"), self.mix([])) for _ in range(self.n())]
        return S("core", "basematerials", self.attrs(("id", self.u, .95), foreign="basematerials"), self.mix(bs, lambda j: j.get("n") != "base"))

    def item(self):
        return S("core", "item", self.attrs(("objectid", self.u, .95), ("partnumber", self.name, .4), ("transform", self.matrix, .5), foreign="item"),
                 self.mix(self.metagroup()))

    # ------------------------------------------------------------ extensions
    def material(self):
        k = self.r.choice(MATS)
        notk = lambda names: (lambda j: j.get("n") not in names)
        if k == "colorgroup":
            return S("m", k, self.attrs(("id", self.u, .95)), self.mix([S("m", "color", self.attrs(("color", self.color, .95)), self.mix([])) for _ in range(self.n())], notk(["color"])))
        if k == "texture2d":
            t = ["wrap", "mirror", "clamp", "none"]
            # other enumerations take their default silently
            return S("m", k, self.attrs(("id", self.u, .95), ("path", lambda: self.r.choice(["/3D/t.png", "t&.png"]), .9),
                                        ("contenttype", lambda: self.enum(["image/png", "image/jpeg"], .1 if self.bad else 0), .9), ("tilestyleu", lambda: self.enum(t, .1 if self.bad else 0), .5),
                                        ("tilestylev", lambda: self.enum(t, .1 if self.bad else 0), .5), ("filter", lambda: self.enum(["auto", "linear", "nearest"], .1 if self.bad else 0), .5)), self.mix([]))
        if k == "texture2dgroup":
            return S("m", k, self.attrs(("id", self.u, .95), ("texid", self.u, .95)),
                     self.mix([S("m", "tex2coord", self.attrs(("u", self.f, .95), ("v", self.f, .95))) for _ in range(self.n())], notk(["tex2coord"])))
        if k == "compositematerials":
            return S("m", k, self.attrs(("id", self.u, .95), ("matid", self.u, .95), ("matindices", lambda: self.many(self.u, ["x", "-1", "1.5"]), .9)),
                     self.mix([S("m", "composite", self.attrs(("values", lambda: self.many(self.f, ["x", "1,5"]), .95))) for _ in range(self.n())], notk(["composite"])))
        return S("m", k, self.attrs(("id", self.u, .95), ("pids", lambda: self.many(self.u, ["x", "-1", "1.5"]), .9),
                                    ("blendmethods", lambda: " ".join(self.enum(["mix", "multiply"], 0) for _ in range(self.n())), .6)),
                 self.mix([S("m", "multi", self.attrs(("pindices", lambda: self.many(self.u, ["x", "-1"]), .95))) for _ in range(self.n())], notk(["multi"])))

    def stack(self):
        def segment():
            return S("s", "segment", self.attrs(("v2", self.u, .95), ("pid", self.u, .4), ("p1", self.u, .4), ("p2", self.u, .4)))

        def slice():
            vs = [S("s", "vertex", self.attrs(("x", self.f, .95), ("y", self.f, .95))) for _ in range(self.n())]
            ps = [S("s", "polygon", self.attrs(("startv", self.u, .95)), self.mix([segment() for _ in range(self.n())], lambda j: j.get("n") != "segment")) for _ in range(self.n(2))]
            kids = self.split("s", "vertices", vs, lambda: []) + ps
            if self.p(self.odd):
                self.r.shuffle(kids)
            return S("s", "slice", self.attrs(("ztop", self.f, .95)), self.mix(kids, lambda j: j.get("ns") != "s"))
        kids = [slice() for _ in range(self.n(2))] + [S("s", "sliceref", self.attrs(("slicestackid", self.u, .95), ("slicepath", lambda: "/3D/s.model", .9))) for _ in range(self.n(1))]
        self.r.shuffle(kids)
        return S("s", "slicestack", self.attrs(("id", self.u, .95), ("zbottom", self.f, .6)), self.mix(kids, lambda j: j.get("ns") != "s"))

    def lattice(self):
        caps = ["sphere", "hemisphere", "butt"]

        def pos():
            return self.r.choice(["1", "2.5", "0.125", "0", "1e-3"]) if not self.p(self.bad) else self.r.choice(["x", "", "1,5"])

        def beam():
            return S("b", "beam", self.attrs(("v1", self.u, .95), ("v2", self.u, .95), ("r1", pos, .5), ("r2", pos, .5),
                                             ("cap1", lambda: self.enum(caps, .1 if self.bad else 0), .4), ("cap2", lambda: self.enum(caps, .1 if self.bad else 0), .4)))
        kids = self.split("b", "beams", self.mix([beam() for _ in range(self.n())], lambda j: j.get("n") != "beam"), lambda: [])
        if self.p(.6):
            sets = [S("b", "beamset", self.attrs(("name", self.name, .6), ("identifier", self.name, .6)),
                      self.mix([S("b", "ref", self.attrs(("index", self.u, .95))) for _ in range(self.n())], lambda j: j.get("n") != "ref")) for _ in range(self.n(2))]
            kids += self.split("b", "beamsets", sets, lambda: [])
        return S("b", "beamlattice", self.attrs(("radius", pos, .9), (self.r.choice(["minlength", "precision"]), pos, .9),
                                                (self.r.choice(["clippingmode", "clipping"]), lambda: self.enum(["none", "inside", "outside"]), .5),
                                                ("clippingmesh", self.u, .4), ("representationmesh", self.u, .3), ("cap", lambda: self.enum(caps), .5)),
                 self.mix(kids, lambda j: j.get("ns") != "b"))

    # ------------------------------------------------------------ models
    def resources(self, name="resources"):
        kids = []
        for _ in range(self.n()):
            k = self.r.random()
            if k < .5 or self.ext == 0:
                kids.append(self.base())
            elif k < .8:
                kids.append(self.material())
            else:
                kids.append(self.stack())
        while self.p(self.odd * 1.5):
            kids.append(self.unknown())
        if self.p(.5):
            self.r.shuffle(kids)
        kids += [self.object() for _ in range(self.n())]
        if self.p(self.odd):
            self.r.shuffle(kids)
        return self.split("core", "resources", self.mix(kids, lambda j: j.get("t") == "S" and not (j["ns"] == "core" and j["n"] in ("object", "basematerials"))),
                          lambda: self.attrs(foreign="resources", loose=True))

    def decls(self):
        d = [("", "xmlns", "core"), ("xmlns", "m", "m"), ("xmlns", "s", "s"), ("xmlns", "b", "b"), ("xmlns", "p", "p")]
        d += [("xmlns", "x", self.pool[0]), ("xmlns", "vend", self.pool[1]), ("xmlns", "third", self.pool[2])]
        d.append(("xmlns", "c", "core"))
        url = {"core": "http://schemas.microsoft.com/3dmanufacturing/core/2015/02", "m": "http://schemas.microsoft.com/3dmanufacturing/material/2015/02",
               "s": "http://schemas.microsoft.com/3dmanufacturing/slice/2015/07", "b": "http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02",
               "p": "http://schemas.microsoft.com/3dmanufacturing/production/2015/06"}
        d = [(a, n, url.get(v, v)) for a, n, v in d]
        head, tail = d[:1], d[1:]
        self.r.shuffle(tail)
        return head + tail

    def model(self, root=True):
        d = self.decls()
        a = []
        if root:
            if self.p(.7):
                a.append(("", "unit", self.enum(["millimeter", "micron", "centimeter", "inch", "foot", "meter"])))
            if self.p(.5):
                a.append(("xml", "lang", self.r.choice(["en-US", "de", ""])))
            if self.p(.2):
                a.append(("", "thumbnail", "/thumb.png"))
            if self.p(.5):
                a.append(("", "requiredextensions", self.r.choice(["", "m", "m p", "b s  x", "nope m", "p", "m\np", " b\ts\r\n", "s\n\tm", "mp"])))
            if self.p(self.odd):
                a.append((self.r.choice(self.pool), "w", self.text()))
        self.r.shuffle(a)
        a = (d + a) if self.p(.7) else (a + d)
        kids = []
        if root or self.p(self.odd):
            kids += [self.metadata() for _ in range(self.n(2))]
        kids += self.resources()
        if root or self.p(.5):
            kids += self.split("core", "build", self.mix([self.item() for _ in range(self.n())], lambda j: j.get("n") != "item"), lambda: self.attrs(foreign="build", loose=True))
        for _ in range(2):
            if self.p(self.odd):
                kids.insert(self.r.randint(0, len(kids)), self.unknown())
        if self.p(self.odd / 2) and self.ext:
            kids.insert(self.r.randint(0, len(kids)), self.r.choice([self.material, self.stack, self.lattice])())
        if self.p(self.odd):
            self.r.shuffle(kids)
        kids = self.mix(kids, lambda j: j.get("n") not in ("resources", "build", "metadata"))
        return S("core", "model", a, kids)


def parts(rng, **kw):
    """A package: a root and sometimes child parts."""
    d = Doc(rng, **kw)
    r = [{"path": "/3D/3dmodel.model", "tree": d.model()}]
    if rng.random() < .3:
        for i in range(rng.randint(1, 2)):
            r.append({"path": "/3D/c%d.model" % i, "tree": d.model(False)})
    return r
