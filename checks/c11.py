"""C11: reads that fail, end early or return changed data, at every position of a package."""
import c09
import faults


def check(c):
    r, t = c.rng, c.thorough
    shapes = [{"pkg": faults.package(r), "store": True}, {"pkg": faults.package(r), "store": False}, {"pm": faults.model(r), "sizes": [], "vertices": 0}]
    big = [{"pm": faults.model(r, 2, 2), "sizes": [9000, 5000], "vertices": 600}]
    if t:
        shapes += [{"pkg": faults.package(r), "store": r.random() < .5} for _ in range(4)] + [{"pm": faults.model(r, r.randint(0, 4), r.randint(0, 3)), "sizes": [], "vertices": 0} for _ in range(4)]
        big += [{"pm": faults.model(r, 3, 2), "sizes": [20000, 5000, 40000], "vertices": 2000}, {"pm": faults.model(r, 0, 3), "sizes": [], "vertices": 4000}]
    cases = []
    for s in shapes:
        for mode, bits, nth in [("fail", 1, 0), ("part", 1, 0), ("short", 1, 0), ("once", 1, 1), ("once", 1, 2), ("flip", 2 if t else 8, 0)]:
            cases += [dict(s, op="rfault", mode=mode, bits=bits, nth=nth, step=8, strict=i % 2 == 0, **{"from": i}) for i in range(8)]
    for s in big:
        for mode, nth in [("fail", 0), ("part", 0), ("short", 0), ("once", 1), ("once", 3), ("flip", 0)]:
            cases += [dict(s, op="rfault", mode=mode, bits=8, nth=nth, step=(101 if t else 900), strict=i % 2 == 0, **{"from": r.randrange(100)}) for i in range(4)]
    for i, x in enumerate(cases):
        x["kind"] = i // 3 % 16 if i % 3 else 0
    recs = faults.judge(c, cases, 600)
    g = {}
    for x in recs:
        for k in x["out"].get("groups", []):
            key = "%s %s %s" % (k["at"], k["mode"], k["err"] or ("same" if k["same"] else "other"))
            g[key] = g.get(key, 0) + k["n"]
    c.cov["read_faults"] = g
    c.sample(cases[0])
    # The root model is missing, or is not related: small packages from the specification of packages.
    srcs = ["/", "/3D/3dmodel.model", "/3D/c.model"]
    c09.unpack(c, {"Targets": c09.seq(c09.TG[:3]), "Sources0": c09.seq(srcs), "Types": c09.seq(["3dmodel", "thumbnail"]), "MaxRels": "2", "Pool": '"norootpart"'})
    c09.unpack(c, {"Targets": c09.seq(["/3D/c.model"]), "Sources0": c09.seq(srcs), "Types": c09.seq(["3dmodel"]), "MaxRels": "1", "Pool": '"plain"'})
    c.cov["exhaustive"] = True
