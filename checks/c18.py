"""C18: all small component graphs (TLC) and larger random models (judged by TLC)."""
import os

TRS = ["<<>>", "<<1,0,0,0,1,0,0,0,1,0,0,0>>", "<<0,1,0,-1,0,0,0,0,1,3,4,5>>", "<<-1,0,0,0,2,0,0,1,1,10,-20,30>>", "<<0,0,2,1,0,3,0,-1,0,0,0,1>>"]


def rnd_tr(rng):
    k = rng.random()
    if k < .2:
        return []
    if k < .3:
        return [1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0]
    if k < .5:
        return [1, 0, 0, 0, 1, 0, 0, 0, 1] + [rng.randint(-30, 30) for _ in range(3)]
    return [rng.randint(-2, 2) for _ in range(9)] + [rng.randint(-30, 30) for _ in range(3)]


def model(rng):
    root = rng.choice(["", "/3D/3dmodel.model", "/x.model"])
    paths = [root] + ["/3D/c%d.model" % i for i in range(rng.choice([0, 1, 1, 2]))]
    names = [p for p in paths[1:]] + ["", "", root or "/3D/3dmodel.model", "/missing.model"]
    parts = []
    for p in paths:
        objs = []
        for j in range(rng.randint(0, 4)):
            o = {"id": rng.choice([j + 1, j + 1, j + 1, rng.randint(1, 4)]), "mesh": rng.random() < .45, "vs": [], "hascomps": False, "comps": []}
            if o["mesh"]:
                base = rng.choice([0, 0, 20, -20])
                o["vs"] = [[base + rng.randint(-9, 9) for _ in range(3)] for _ in range(rng.choice([0, 1, 3, 8]))]
            else:
                o["hascomps"] = rng.random() < .95
                if o["hascomps"]:
                    o["comps"] = [{"oid": rng.randint(1, 5), "path": rng.choice(names + [""] * 6), "tr": rnd_tr(rng)} for _ in range(rng.randint(0, 3))]
            objs.append(o)
        parts.append({"path": p, "objs": objs})
    items = [{"oid": rng.randint(1, 5), "path": rng.choice(names + [""] * 4), "tr": rnd_tr(rng)} for _ in range(rng.randint(0, 4))]
    return {"op": "bbox", "rootpath": root, "parts": parts, "items": items, "rep": 3, "decor": rng.choice([0, rng.randrange(1 << 30)]), "scale": rng.choice([0, 0, 0, 20, 25, 60, 90, -20, -60])}


def big(rng):
    """Many points, many components, many items, deep chains."""
    k = rng.choice(["points", "comps", "items", "chain"])
    far = lambda n: [[rng.randint(-9, 9) for _ in range(3)] for _ in range(n)]
    vs = far(3)
    objs = [{"id": 1, "mesh": True, "vs": vs, "hascomps": False, "comps": []}]
    items = [{"oid": 1, "path": "", "tr": rnd_tr(rng)}]
    if k == "points":
        vs += far(rng.choice([30, 260, 1030, rng.randint(50, 2500)]))
        for _ in range(rng.choice([1, 2, 6])):
            vs[rng.choice([0, -1, -1, -2, rng.randrange(len(vs))])][rng.randrange(3)] = rng.choice([-1, 1]) * rng.randint(10, 30)
    elif k == "chain":
        n = rng.choice([10, 33, 66])
        for i in range(2, n + 1):
            objs.append({"id": i, "mesh": False, "vs": [], "hascomps": True, "comps": [{"oid": i - 1, "path": "", "tr": rng.choice([[], [1, 0, 0, 0, 1, 0, 0, 0, 1, rng.randint(-9, 9), 1, 2], [0, 1, 0, -1, 0, 0, 0, 0, 1, 3, 4, 5]])}]})
        items[0]["oid"] = n
    else:
        refs = [{"oid": 1, "path": "", "tr": rnd_tr(rng)} for _ in range(rng.choice([30, 70, 270]))]
        if k == "comps":
            objs.append({"id": 2, "mesh": False, "vs": [], "hascomps": True, "comps": refs})
            items[0]["oid"] = 2
        else:
            items = refs
    rng.shuffle(objs)
    return {"op": "bbox", "rootpath": "", "parts": [{"path": "", "objs": objs}], "items": items, "rep": 3, "decor": 0, "scale": 0}


def check(c):
    trs = TRS if c.thorough else TRS[:1] + TRS[2:4]
    lines, _, _ = c.tlc("MC_BBox", consts={"Trs": "{" + ",".join(trs) + "}"})
    beh = c.emitted(lines)


    for i, b in enumerate(beh):
        b["in"]["decor"] = i if i % 4 == 1 else 0
        b["in"]["scale"] = [0, 40, -30][i % 3]

    def cmp(b, r):
        if "fail" in r:
            return False
        return dict(b["exp"], box=b["exp"]["box"] or r["box"]) == r
    c.replay(beh, "bbox", compare=cmp)
    c.sample(beh[0], beh[len(beh) // 2])
    cases = [model(c.rng) for _ in range(20000 if c.thorough else 2500)]
    cases += [big(c.rng) for _ in range(400 if c.thorough else 40)]
    for m in cases[:300]:
        m2 = dict(m, items=list(reversed(m["items"])))
        cases.append(m2)

    def rec(cs):
        return [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    recs = rec(cases)
    c.judge("Tr_Geo", recs, rerun=rec)
    c.cov["with_geometry"] = sum(r["out"].get("box") != [[0, 0, 0], [0, 0, 0]] for r in recs)
    c.sample(recs[0])
    c.assumptions.append("coordinates are small integers times a power of two from 2^-60 to 2^90, and transform entries small integers, for which float32 arithmetic is exact")
