"""What C10 and C11 share: models and packages to write and read under faults."""


def rel(t, p, id=""):
    return {"id": id, "type": t, "path": p}


def model(r, atts=2, childs=2):
    """A model with everything a package can have."""
    a = [{"path": "/3D/a%d.png" % i, "ct": ["image/png", "text/plain", "ticket"][i % 3], "data": "attachment %d" % i} for i in range(atts)]
    rels = lambda k: [rel("http://x.org/r%d" % i, x["path"]) for i, x in enumerate(a) if i % 3 == k]
    return {"path": r.choice(["", "/top.model"]), "tag": "the root", "thumb": "", "rels": rels(0), "rrels": rels(1), "imp": [],
            "childs": [{"path": "/3D/c%d.model" % i, "tag": "child %d" % i, "rels": rels(2) if i == 0 else [], "imp": []} for i in range(childs)] if childs else [],
            "atts": a if childs else [x for i, x in enumerate(a) if i % 3 < 2]}


def package(r):
    p = {"parts": [{"name": "/3D/3dmodel.model", "ct": "model", "data": "the root"}, {"name": "/3D/c.model", "ct": "model", "data": "a child"}, {"name": "/3D/d.model", "ct": "model", "data": "another child"},
                   {"name": "/a.png", "ct": "image/png", "data": "x" * r.randint(1, 40)}, {"name": "/b.bin", "ct": "text/plain", "data": "y" * r.randint(1, 40)}, {"name": "/unused.bin", "ct": "text/plain", "data": "nobody reads this"}],
         "rels": [{"src": "/", "id": "a", "type": "3dmodel", "target": "/3D/3dmodel.model"}, {"src": "/", "id": "b", "type": "thumbnail", "target": "/a.png"},
                  {"src": "/3D/3dmodel.model", "id": "a", "type": "3dmodel", "target": "/3D/c.model"}, {"src": "/3D/3dmodel.model", "id": "b", "type": "3dmodel", "target": "d.model"},
                  {"src": "/3D/c.model", "id": "a", "type": "http://x.org/r", "target": "/b.bin"}]}
    r.shuffle(p["parts"])
    return p


def judge(c, cases, timeout=120):
    f = lambda cs: [{"case": k, "out": o} for k, o in zip(cs, c.run(cs, timeout=timeout))]
    recs = f(cases)
    c.judge("Tr_Fault", recs, rerun=f)
    return recs
