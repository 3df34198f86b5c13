"""C09: packages. Every small model is written and every small package is read, then random larger ones."""
import copy

TG = ["/3D/c.model", "c.model", "../c.model", "/3D/C.MODEL", "k%5Bk.png", "/3D/K%5bk.png", "./c.model", "a.png", "/a.png", "/A.PNG", "gone.png", "/3D/3dmodel.model", "3dmodel.model"]


CORE_REL = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties"
CORE_CT = "application/vnd.openxmlformats-package.core-properties+xml"
CORE = ('<?xml version="1.0"?><cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties" '
        'xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:title>t</dc:title></cp:coreProperties>')


def seq(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def view(d):
    """The decoded view in the form of the specification."""
    if d["err"]:
        return {"err": "error"}
    k = lambda xs: sorted(xs, key=str)
    return dict(d, childs=k(d["childs"]), atts=k(d["atts"]), natts=len(d["atts"]), nchilds=len(d["childs"]))


def norm(e):
    return dict(e, childs=sorted(e["childs"], key=str), atts=sorted(e["atts"], key=str)) if not e["err"] else e


def unpack(c, consts, n=None):
    lines, _, _ = c.tlc("MC_Unpack", consts=consts, timeout=600)
    beh = c.emitted(lines)
    if n and len(beh) > n:
        beh = c.rng.sample(beh, n)
    for i, b in enumerate(beh):
        b["case"] = {"pkg": b["in"], "store": i % 2 == 0, "strict": i % 3 > 0, "file": i % 5 == 0}
    c.replay(beh, "pkgdec", mk=lambda b: b["case"], compare=lambda b, r: view(r["dec"]) == norm(b["exp"]))
    c.sample(*beh[len(beh) // 2:len(beh) // 2 + 2])


def pack(c, consts, n=None):
    lines, _, _ = c.tlc("MC_Pack", consts=consts, timeout=600)
    beh = c.emitted(lines)
    if n and len(beh) > n:
        beh = c.rng.sample(beh, n)
    judge(c, [{"op": "pkgenc", "pm": b["in"], "file": i % 5 == 0} for i, b in enumerate(beh)])
    c.sample(beh[len(beh) // 2])
    c.cov["models"][-1]["emitted"] = len(beh)


def judge(c, cases):
    f = lambda cs: [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    c.judge("Tr_Pkg", f(cases), rerun=f)


SEGS = ["3D", "Other", "Metadata", "x", "a-b", "d.e", "3d"]
NAMES = ["a.png", "b.png", "A.png", "b.jpeg", "t.bin", "noext", "c.model", "d.model", "E.Model", "x.xml", "one.two.png", "a%20b.png", "%5Bx%5D.bin", "a+b.png", "x,y.png", "a.pngx", "b.png2", "xa.png", "t.bin.png"]
CTS = ["image/png", "image/jpeg", "text/plain", "application/octet-stream", "ticket", "application/vnd.x+xml"]


def path(r, ext=None):
    segs = [r.choice(SEGS) for _ in range(r.choice([0, 1, 1, 1, 2]))]
    n = r.choice([x for x in NAMES if ext is None or x.lower().endswith(ext)])
    return "/" + "/".join(segs + [n])


def spell(r, src, target):
    """Another way to refer to target in src."""
    k = r.randrange(6)
    folder = src.split("/")[1:-1]
    t = target.split("/")[1:]
    if k == 0:
        out = "../" * len(folder) + "/".join(t)
    elif k == 1 and t[:len(folder)] == folder:
        out = r.choice(["", "./"]) + "/".join(t[len(folder):])
    elif k == 2:
        out = "/" + "/".join(r.choice([[x], [".", x], [x]])[-1] if r.random() < .7 else "./" + x for x in t)
    elif k == 3:
        out = "".join(ch.upper() if r.random() < .5 and "%" not in target else ch for ch in target)
    elif k == 4:
        out = target.replace("%5B", "%5b").replace("+", "%2b")
    else:
        out = target
    return out


def random_model(r):
    atts, used = [], []
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        p = path(r)
        atts.append({"path": p if r.random() < .9 else p[1:], "ct": r.choice(CTS), "data": r.choice(["", "x", "data %d" % r.randrange(99), "\x00\x01\n" * r.randrange(5)])})
        used.append(p)
    root = r.choice(["", "/3D/3dmodel.model", "/top.model", "/Other/x/m.model", "3D/rel.model"])
    rootname = "/" + (root or "3D/3dmodel.model").lstrip("/")
    childs = []
    for i in range(r.choice([0, 0, 1, 2, 3])):
        p = path(r, ".model")
        if p not in [c["path"] for c in childs]:
            childs.append({"path": p, "tag": "child %d" % i, "rels": [], "imp": []})
            used.append(p)
    types = ["thumbnail", "printticket", "mustpreserve", "http://x.org/rel", "3dtexture", "http://x.org/a?b&c"]

    def rels(src, n):
        out = []
        for i in range(n):
            t = r.choice(used + [path(r), rootname]) if used else path(r)
            # target raw as listed
            out.append({"id": r.choice(["", "", "id%d" % i, "rId0", "rId%d" % i]), "type": r.choice(types), "path": spell(r, src, t) if r.random() < .4 else t})
        return out

    def imp(src, n):
        return [{"id": "", "type": r.choice(["3dtexture", "thumbnail"]), "path": r.choice(used) if used and r.random() < .8 else path(r)} for _ in range(n)]
    m = {"path": root, "tag": "the root", "thumb": r.choice(["", "", r.choice(used) if used else "/a.png"]), "rels": rels(rootname, r.choice([0, 0, 1, 2, 3])), "rrels": rels("/", r.choice([0, 0, 1, 2])), "imp": imp(rootname, r.choice([0, 0, 1, 2])),
         "childs": childs, "atts": atts}
    for c in childs:
        c["rels"], c["imp"] = rels(c["path"], r.choice([0, 0, 1, 2])), imp(c["path"], r.choice([0, 0, 1]))
    return m


def random_package(r):
    parts, names = [], []

    def add(p, ct):
        if any(q.lower() == p.lower() or q.lower().startswith(p.lower() + "/") or p.lower().startswith(q.lower() + "/") for q in names) or "%" in p and r.random() < .5:
            return None
        names.append(p)
        parts.append({"name": p, "ct": ct, "data": "tag %d" % len(parts)})
        return p
    root = add(r.choice(["/3D/3dmodel.model", "/top.model", "/Other/x/m.model"]), "model")
    childs = [x for x in (add(path(r, ".model"), "model") for _ in range(r.choice([0, 1, 2, 3]))) if x]
    atts = [x for x in (add(path(r), r.choice(CTS)) for _ in range(r.choice([0, 1, 2, 4]))) if x]
    kin = []
    if r.random() < .3:
        # one name the beginning or the end of another
        p = path(r)
        kin = [x for x in (add(q, r.choice(CTS)) for q in r.sample([p, p + "2", p + ".png", p[:p.rindex("/") + 1] + "x" + p[p.rindex("/") + 1:]], 2)) if x]
    rels = []
    rel = lambda s, t, g: rels.append({"src": s, "id": "i%d" % len(rels), "type": t, "target": spell(r, s, g) if r.random() < .6 else g})
    n = r.choice([1, 3, 6, 10])
    at = r.randrange(n)
    for i in range(n):
        if i == at and r.random() < .95:
            rel("/", "3dmodel", root if r.random() < .95 else "/3D/gone.model")
        if r.random() < .4 and childs:
            rel(r.choice([root, root, root, r.choice(childs)]), "3dmodel", r.choice(childs + [root]))
        else:
            rel(r.choice(["/", root, root] + childs + atts), r.choice(["thumbnail", "printticket", "http://x.org/rel", "3dtexture"]), r.choice(atts + atts + childs + [root, "/gone.bin"]))
    for x in kin:
        rel(r.choice(["/", root, root]), r.choice(["thumbnail", "http://x.org/rel"]), x)
    r.shuffle(parts)
    return {"parts": parts, "rels": rels}


def check(c):
    r = c.rng
    t = c.thorough
    srcs = ["/", "/3D/3dmodel.model", "/3D/c.model"]
    unpack(c, {"Targets": seq(TG), "Sources0": seq(srcs + ["/a.png"]), "Types": seq(["3dmodel", "thumbnail", "http://x.org/r"]), "MaxRels": "2", "Pool": '"plain"'}, None if t else 4000)
    unpack(c, {"Targets": seq(["/3D/c.model", "a.png", "/a.png", "/3D/3dmodel.model"] if not t else TG[:4] + TG[6:9]), "Sources0": seq(srcs), "Types": seq(["3dmodel", "thumbnail"]), "MaxRels": "3", "Pool": '"plain"'}, None if t else 4000)
    unpack(c, {"Targets": seq(TG), "Sources0": seq(srcs), "Types": seq(["3dmodel", "thumbnail"]), "MaxRels": "2", "Pool": '"mixed"'}, None if t else 3000)
    unpack(c, {"Targets": seq(TG[:3]), "Sources0": seq(srcs), "Types": seq(["3dmodel", "thumbnail"]), "MaxRels": "2", "Pool": '"norootpart"'}, 500)
    if t:
        unpack(c, {"Targets": seq(["/3D/c.model", "/c.model", "/a.png"]), "Sources0": seq(srcs), "Types": seq(["3dmodel", "thumbnail"]), "MaxRels": "4", "Pool": '"plain"'})
    full = {"Paths": seq(["", "/m.model", "3D/r.model"]), "ChildPaths": seq(["/3D/c.model", "c.model", "../d.model", "/m.model"]), "AttPaths": seq(["/3D/c.png", "/a.png", "/A.png", "b"]),
            "RelPaths": seq(["/3D/c.png", "c.png", "/a.png", "/b", "/gone.png", "/3D/c.model"]), "Types": seq(["thumbnail", "http://x.org/r"])}
    pack(c, dict(full, MaxSteps="2"), None if t else 3000)
    small = {"Paths": seq(["", "/m.model"]), "ChildPaths": seq(["/3D/c.model", "d.model"]), "AttPaths": seq(["/3D/c.png", "/b.xml"]), "RelPaths": seq(["/3D/c.png", "/b.xml"]), "Types": seq(["http://x.org/r"])}
    pack(c, dict(small, MaxSteps="4" if t else "3"), 60000 if t else 3000)
    judge(c, [{"op": "pkgenc", "pm": random_model(r), "file": r.random() < .2} for _ in range(20000 if t else 1200)])
    judge(c, [{"op": "pkgdec", "pkg": random_package(r), "store": r.random() < .5, "strict": r.random() < .7, "file": r.random() < .2} for _ in range(20000 if t else 1200)])
    # a part with the core properties of the package
    pkg = {"parts": [{"name": "/3D/3dmodel.model", "ct": "model", "data": "tag 0"}, {"name": "/docProps/core.xml", "ct": CORE_CT, "data": CORE}],
           "rels": [{"src": "/", "id": "i0", "type": "3dmodel", "target": "/3D/3dmodel.model"}, {"src": "/", "id": "i1", "type": CORE_REL, "target": "/docProps/core.xml"}]}
    case = {"op": "pkgdec", "pkg": pkg, "store": True, "strict": True}
    d = c.run([case])[0]["dec"]
    if d["err"] == "" and d["atts"] == [] and d["rrels"] == []:
        c.known_hit["core-properties"] = case
    elif d["err"] != "" or [a["path"] for a in d["atts"]] != ["/docProps/core.xml"] or [x["type"] for x in d["rrels"]] != [CORE_REL]:
        c.mismatch(case, "the part and its relationship", {"dec": d}, lambda k, r: False)
    c.cov["exhaustive"] = True
