"""Random models that are nearly valid, with numbers as integers."""
import modelgen

URL = modelgen.URL
TICKET = "http://schemas.microsoft.com/3dmanufacturing/2013/01/printticket"
TICKETCT = "application/vnd.ms-printing.printticket+xml"
THUMB = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
MODEL = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"
DEFAULT = "/3D/3dmodel.model"
VENDOR = "http://vendor.example/v"
BIG = 2000000000


class Gen:
    """err: probability of leaving the rules at each place; focus: letters of c(ore) m s b p that are frequent."""

    def __init__(self, rng, err=.03, focus="cmsbp", size=3):
        self.r, self.err, self.focus, self.size = rng, err, focus, size

    def p(self, x):
        return self.r.random() < x

    def bad(self):
        return self.p(self.err)

    def has(self, k):
        return self.p(.7 if k in self.focus else .15)

    def pick(self, good, wrong):
        """One of good, or now and then one of wrong."""
        good = list(good)
        if not good or self.bad():
            return self.r.choice(list(wrong) or good)
        return self.r.choice(good)

    def below(self, n):
        """An index below n, often the last; now and then one outside."""
        if n <= 0 or self.bad():
            return self.r.choice([max(n, 0), max(n, 0), n + 1 if n >= 0 else 0, BIG, (1 << self.r.choice([8, 16, 24, 30])) + self.r.randint(0, 3)])
        return self.r.choice([0, n - 1, self.r.randrange(n)])

    def uuid(self):
        if self.bad():
            return self.r.choice(["", "", "zz", "123e4567-e89b-12d3-a456-42661417400", "123e4567e89b-12d3-a456-426614174000-"])
        h = "%032x" % self.r.randrange(1 << 128)
        u = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
        return self.r.choice([u, u, u.upper(), "urn:uuid:" + u, "{" + u + "}", h])

    def color(self):
        return "00000000" if self.bad() else self.r.choice(["000000ff", "01000000", "00000100", "0a0b0c0d", "ffffffff"])

    def matrix(self, planar):
        k = self.r.random()
        if k < .5:
            return []
        if k < .6:
            return [1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0]
        t = [self.r.randint(-2, 2), self.r.randint(-2, 2), 0, self.r.randint(-2, 2), self.r.randint(-2, 2), 0, 0, 0, 1, self.r.randint(-9, 9), self.r.randint(-9, 9), self.r.randint(-9, 9)]
        if not planar and self.p(.5):
            t[self.r.choice([2, 5, 6, 7, 8])] += self.r.choice([-1, 1])
        return t

    def unknown(self):
        return [{"k": "u", "ns": VENDOR, "a": [{"ns": VENDOR, "n": "w", "s": "1"}]}] if self.p(.05) else []

    # ------------------------------------------------------------ resources
    def newid(self):
        if self.bad():
            return self.r.choice([0, self.r.choice(self.used) if self.used else 1])
        i = self.r.choice([len(self.used) + 1, len(self.used) + 1, self.r.randint(1, 40), BIG])
        while i in self.used:
            i = self.r.randint(1, 60)
        self.used.append(i)
        return i

    def size_of(self, i):
        for a in self.assets:
            if a.get("id") == i:
                return {"base": lambda: len(a["mats"]), "color": lambda: len(a["cs"]), "texg": lambda: len(a["cs"]), "comp": lambda: len(a["vals"]),
                        "multi": lambda: len(a["ms"])}.get(a["k"], lambda: -1)()
        return -1

    def of(self, *ks):
        return [a["id"] for a in self.assets if a["k"] in ks]

    def anyid(self):
        return self.used + [0, 50, BIG] + [u + (1 << self.r.choice([8, 16, 24, 29])) for u in self.used[:1] if u < BIG]

    def n(self, lo, hi=None):
        if self.bad():
            return max(lo - 1, 0)
        return self.r.randint(lo, hi or lo + self.size)

    def asset(self):
        ks = ["base", "base"] + (["color", "tex", "texg", "comp", "multi"] * 2 if self.has("m") else []) + (["stack"] * 3 if self.has("s") else []) + (["unk"] if self.p(.1) else [])
        k = self.r.choice(ks)
        if not self.bad():
            if k == "texg" and not self.of("tex"):
                k = "tex"
            if k == "comp" and not self.of("base"):
                k = "base"
            if k == "multi" and not self.of("base", "comp", "texg", "color"):
                k = "color"
        if k == "unk":
            return {"k": "unk", "id": 0, "tree": {"t": "S", "ns": VENDOR, "n": self.r.choice(["thing", "basematerials"]), "a": [], "c": []}}
        i = self.newid()
        if k == "base":
            return {"k": k, "id": i, "mats": [{"name": "" if self.bad() else "n", "color": self.color(), "attrs": []} for _ in range(self.n(1))], "attrs": self.unknown()}
        if k == "color":
            return {"k": k, "id": i, "cs": [self.color() for _ in range(self.n(1))]}
        if k == "tex":
            return {"k": k, "id": i, "path": self.pick([self.r.choice([f, f.upper(), f.lower()]) for f in self.files], ["", "/none.png", "/other/T1.png", "/sub/t2.jpg", "t2.jpg", "/3D/T1.png2"]), "ct": self.pick(["image/png", "image/jpeg"], [""]),
                    "u": "wrap", "v": "mirror", "f": "auto"}
        if k == "texg":
            return {"k": k, "id": i, "tid": self.pick(self.of("tex"), self.anyid()), "cs": [[1, j] for j in range(self.n(1))]}
        if k == "comp":
            mid = self.pick(self.of("base"), self.anyid())
            idx = [self.below(self.size_of(mid)) for _ in range(self.n(1))]
            return {"k": k, "id": i, "mid": mid, "idx": idx, "vals": [[1] * self.r.choice([len(idx), len(idx), 0]) for _ in range(self.n(1))]}
        if k == "multi":
            first = self.of("base", "comp", "texg", "color")
            pids = [self.pick(first, self.anyid())] if first or self.bad() else []
            left = [a["id"] for a in self.assets if a["k"] == "texg"]
            if pids and self.of("color") and pids[0] not in self.of("color"):
                left = left + self.of("color")[:1]
            for _ in range(self.r.randint(0, 2)):
                if left or self.bad():
                    q = self.pick(left, self.anyid())
                    pids.append(q)
                    if q in self.of("color"):
                        left = [x for x in left if x not in self.of("color")]
            bl = max(len(pids) - 1, 0)
            blends = ["mix"] * (bl + 1 if self.bad() else self.r.randint(0, bl))
            return {"k": k, "id": i, "pids": pids, "blends": blends, "ms": [[self.below(self.size_of(q)) for q in pids][:self.r.choice([9, 9, 1])] for _ in range(self.n(1))]}
        return self.stack(i)

    def polygon(self, closed):
        sv = self.r.randint(0, 3)
        segs = [{"v2": self.r.randint(0, 3), "pid": 0, "p1": 0, "p2": 0} for _ in range(self.n(1))]
        if segs and (closed or not self.bad()):
            segs[-1]["v2"] = sv
        return {"sv": sv, "segs": segs}

    def stack(self, i):
        zb = self.r.choice([0, 0, 1, 2, 20])
        refs = []
        if self.stacks and self.p(.5 if self.rootpart else .05):
            k = self.r.randint(1, 3)
            own = sorted(self.r.sample(self.stacks, min(k, len(self.stacks))), key=lambda s: s[2])
            for path, sid, _, _ in own:
                refs.append({"id": self.pick([sid], [0, 1, 2, 3, 50]), "path": self.pick([path], ["", DEFAULT, "/none.model", self.path] + self.paths)})
        sl, z = [], max(zb, self.r.choice([1, 1, 5, 10, 15]))
        if not refs or self.bad():
            for _ in range(self.n(1)):
                zt = z if not self.bad() else self.r.choice([0, zb - 1, z - 1, z - 2])
                s = {"zt": zt, "vs": [], "ps": []}
                if self.p(.8):
                    s = {"zt": zt, "vs": [[j, j * j] for j in range(self.n(2))], "ps": [self.polygon(False) for _ in range(self.n(1))]}
                sl.append(s)
                z += self.r.randint(1, 2)
        return {"k": "stack", "id": i, "zb": zb, "slices": sl, "refs": refs}

    # ------------------------------------------------------------ objects
    def meta(self):
        out = []
        if self.p(.15):
            names = ["Title", "designer", "RATING", "Application", "copyright", "CreationDate", "Description", "LicenseTerms", "ModificationDate"]
            for nm in self.r.sample(names, self.r.randint(1, 3)):
                ns = self.pick([""] * 3 + self.declared, ["http://none"])
                out.append({"ns": ns, "n": "any" + nm if ns else self.pick([nm], ["", "Titles", "a", "zzz"]), "val": "v", "type": "", "pres": False})
            if self.bad():
                out.append(dict(self.r.choice(out)))
        return out

    def group(self):
        return {"md": self.meta(), "attrs": self.unknown()}

    def lattice(self, nv):
        rad = 0 if self.bad() else self.r.randint(1, 4)
        meshes = [o["id"] for o in self.objects if o["mesh"] and o["type"] == "model" and not any(a["k"] == "bl" for a in o["mesh"][0]["any"])]
        cm = self.pick(meshes + [0], self.anyid() + [o["id"] for o in self.objects])
        rm = self.pick(meshes + [0, 0], self.anyid() + [o["id"] for o in self.objects])
        clip = self.r.choice(["inside", "outside", "none"]) if cm else ("none" if not self.bad() else "inside")
        beams = []
        for _ in range(self.r.randint(0, 5)):
            a, b = self.below(nv), self.below(nv)
            if a == b and not self.bad():
                b = a - 1 if a else 1
            r1 = self.r.choice([rad, rad, 0, 5])
            r2 = self.r.choice([r1, r1, 7]) if r1 in (0, rad) or self.bad() else r1
            beams.append({"v": [a, b], "r": [r1, r2], "cap": ["sphere", "butt"]})
        sets = [{"name": "", "ident": "", "refs": [self.below(len(beams)) for _ in range(self.r.randint(0, 3))] if beams or self.bad() else []} for _ in range(self.r.randint(0, 2))]
        return {"k": "bl", "clip": clip, "cm": cm, "rm": rm, "minl": 0 if self.bad() else 1, "rad": rad, "cap": "sphere", "beams": beams, "sets": sets}

    def mesh(self, pid, pidx, solid, lat):
        nv = self.n(4, 8)
        groups = self.of("base", "color", "texg", "comp", "multi")
        ts = []
        for _ in range(self.r.choice([3, 4, 5]) if self.bad() or not solid else self.r.randint(4, 7)):
            v = self.r.sample(range(nv), 3) if nv > 2 and not self.bad() else [self.below(nv) for _ in range(3)]
            if self.bad():
                v[self.r.randrange(3)] = self.r.choice([nv, BIG, (1 << self.r.choice([8, 16, 24, 30])) + self.r.randint(0, 3)])
            q = self.pick([0] + groups + [pid], self.anyid())
            ps = [self.below(self.size_of(q)) if q else self.r.choice([0, 0, 7]) for _ in range(3)]
            if q == pid and self.p(.5):
                ps = [pidx] * 3
            ts.append({"v": v, "pid": q, "p": ps, "attrs": self.unknown()})
        any = []
        if lat:
            any.append(self.lattice(nv))
            if self.p(.5):
                ts = []
        if self.p(.15 if lat else .03):
            any.insert(self.r.randint(0, len(any)), {"k": "tok", "tree": {"t": "S", "ns": VENDOR, "n": "z", "a": [], "c": []}})
        if lat and self.p(.05):
            any.append(self.lattice(nv))
        return {"attrs": [], "vattrs": [], "tattrs": [], "vs": [[self.r.randint(-9, 9) for _ in range(3)] for _ in range(nv)], "ts": ts, "any": any}

    def object(self):
        i = self.newid()
        o = {"id": i, "name": "", "pn": "", "thumb": "", "pid": 0, "pidx": 0, "type": self.r.choice(["model"] * 4 + ["solidsupport", "support", "surface", "other"]), "meta": self.group(),
             "mesh": [], "comps": [], "attrs": self.unknown()}
        comps = bool(self.known) and self.p(.45)
        if not comps or self.bad():
            groups = self.of("base", "color", "texg", "comp", "multi")
            if groups and self.p(.5):
                o["pid"] = self.pick(groups, self.anyid())
                o["pidx"] = self.below(self.size_of(o["pid"]))
            elif self.bad():
                o["pidx"] = 1
            solid = o["type"] in ("model", "solidsupport")
            if not self.bad():
                o["mesh"] = [self.mesh(o["pid"], o["pidx"], solid, (solid or self.bad()) and "b" in self.focus and self.p(.4))]
        if comps or self.bad():
            l = []
            for _ in range(self.n(1)):
                pa, oid = self.r.choice(self.known) if self.known else ("", 1)
                if self.bad():
                    oid = self.r.choice([0, i, 50, 1, 2, 3])
                c = {"oid": oid, "tr": self.matrix(self.p(.8)), "attrs": self.unknown()}
                pa = pa if pa != self.path or self.p(.3) else ""
                if self.bad():
                    pa = self.r.choice(["", DEFAULT, self.path, "/none.model"] + self.paths)
                if pa and not self.rootpart and "p" in self.focus and not self.bad():
                    pa, c["oid"] = "", self.r.choice([k[1] for k in self.known if k[0] == self.path] or [1])
                if "p" in self.focus and not self.bad() or pa:
                    c["attrs"] = c["attrs"] + [{"k": "pcomp", "uuid": self.uuid() if "p" in self.focus else "", "path": pa}]
                l.append(c)
            o["comps"] = [{"attrs": [], "list": l}]
            if self.bad():
                o["pid"] = self.r.choice(self.anyid())
        if "p" in self.focus and not self.bad():
            o["attrs"] = o["attrs"] + [{"k": "pobj", "uuid": self.uuid()}]
        if "s" in self.focus and self.p(.5) and (self.of("stack") or self.bad()):
            o["attrs"] = o["attrs"] + [{"k": "sobj", "id": self.pick(self.of("stack"), self.anyid()), "res": "lowres" if self.sreq or self.bad() else "fullres"}]
        self.r.shuffle(o["attrs"])
        return o

    def part(self, path, root):
        self.path, self.rootpart, self.used, self.assets, self.objects = path, root, [], [], []
        for _ in range(self.r.randint(0, self.size + 2)):
            self.assets.append(self.asset())
        for _ in range(self.r.randint(1, self.size)):
            o = self.object()
            self.objects.append(o)
            self.known.append((path, o["id"]))
        if not root:
            for a in self.assets:
                if a["k"] == "stack" and a["slices"]:
                    self.stacks.append((path, a["id"], a["slices"][0]["zt"], a["slices"][-1]["zt"]))
        return {"attrs": [], "assets": self.assets, "objects": self.objects}

    def rels(self, all):
        out = []
        for _ in range(self.r.choice([0, 0, 1, 2])):
            t = self.r.choice([THUMB, MODEL, TICKET, "http://other"])
            if t == TICKET and any(r["type"] == TICKET for r in out) and not self.bad():
                continue
            pa = self.pick(["/P/ticket.xml"] if t == TICKET else all, ["", "x", "/a/.b", "/none", "/." + "x"] + all)
            if self.p(.2):
                pa = pa.upper() if pa in self.files else pa
            r = {"path": pa, "type": t, "id": ""}
            if any(x["path"] == pa and x["type"] == t for x in out) and not self.bad():
                continue
            out.append(r)
        return out

    def model(self):
        self.known, self.stacks = [], []
        self.files = ["/3D/T1.png", "/t2.jpg"]
        root = self.r.choice(["", "", DEFAULT, "/other/R.model"])
        self.paths = self.r.sample(["/3D/a.model", "/3D/b.model", "/other/c.model"], self.r.choice([0, 1, 1, 2]))
        exts = [{"ns": URL[k], "p": k, "req": self.p(.5)} for k in "msbp" if (k in self.focus and self.p(.95)) or (k not in self.focus and k != "p" and self.p(.3))]
        if self.p(.5):
            exts.append({"ns": VENDOR, "p": "v", "req": self.bad()})
        self.r.shuffle(exts)
        if exts and self.p(.1):
            exts.append(dict(self.r.choice(exts), p="again", req=False))
        self.sreq = any(e["ns"] == URL["s"] and e["req"] for e in exts[:5])
        self.declared = [e["ns"] for e in exts]
        childs = [{"path": p, "res": self.part(p, False), "any": [], "rels": []} for p in self.paths]
        rp = root or DEFAULT
        res = self.part(rp, True)
        if self.bad() and childs:
            childs[-1]["path"] = rp
        childs.sort(key=lambda c: c["path"])
        m = dict(modelgen.ZERO)
        atts = [{"path": f, "ct": "image/png", "data": "x"} for f in self.files] + [{"path": "/P/Ticket.xml" if self.p(.5) else "/P/ticket.xml", "ct": self.pick([TICKETCT], ["text/xml"]), "data": "t"}]
        if self.bad():
            atts.pop(0)
        all = [a["path"] for a in atts] + [rp] + self.paths
        for c in childs:
            c["rels"] = self.rels(all)
        items = []
        objs = self.known
        for _ in range(self.r.randint(0, 4)):
            pa, oid = self.r.choice(objs)
            if pa == rp and self.p(.8):
                pa = ""
            if self.bad():
                oid = self.r.choice([0, 1, 2, 50])
            if self.bad():
                pa = self.r.choice(["", DEFAULT, "/none.model"] + self.paths)
            it = {"oid": oid, "tr": self.matrix(self.p(.8)), "pn": "", "meta": self.group(), "attrs": self.unknown()}
            if ("p" in self.focus and not self.bad()) or pa:
                it["attrs"] = it["attrs"] + [{"k": "pitem", "uuid": self.uuid() if "p" in self.focus else "", "path": pa}]
            items.append(it)
        other = {(p, o["id"]) for p, r in [("", res), (rp, res)] + [(c["path"], c["res"]) for c in childs] for o in r["objects"] if o["type"] == "other"}
        items = [i for i in items if self.p(.1) or (([g["path"] for g in i["attrs"] if g["k"] == "pitem" and g["path"]] or [""])[0], i["oid"]) not in other]
        battrs = self.unknown() + ([{"k": "pbuild", "uuid": self.uuid()}] if "p" in self.focus and not self.bad() else [])
        m.update(path=root, exts=exts, meta=self.meta(), res=res, build={"attrs": battrs, "items": items}, childs=childs, rels=self.rels(all), rrels=self.rels(all), atts=atts)
        return m
