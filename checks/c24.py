"""C24: every short history of operations on two models, one after another and at the same time."""
import modelgen

OPS = ["validate", "coherency", "bbox", "boxes", "encode", "marshal", "unmarshal", "look", "decode", "decode2", "decodebad", "stl"]


def acyclic(m):
    """Components refer to objects with smaller ids of their own part, so that everything has an answer."""
    for res in [m["res"]] + [ch["res"] for ch in m["childs"]]:
        for i, o in enumerate(res["objects"]):
            for cs in o["comps"]:
                for x in cs["list"]:
                    x["attrs"] = [a for a in x["attrs"] if a["k"] != "pcomp"]
                    x["oid"] = str(min(int(x["oid"]), i))
            o["id"] = str(i + 1)
    return m


def models(c, n, atts):
    r = c.rng
    out = []
    for i in range(n):
        m = modelgen.Gen(r, ext=r.choice([0, .5, 1]), unk=r.choice([0, .3]), size=r.choice([2, 3, 4]), undeclared=r.choice([0, .3])).model()
        m = acyclic(m) if r.random() < .7 else m
        if atts and r.random() < .6:
            m["atts"] = [{"path": "/3D/t.png", "ct": "image/png", "data": "texture"}]
            m["rels"] = [{"id": "", "type": "http://x.org/r", "path": "/3D/t.png"}]
        out.append(m)
    return out


def seq(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def check(c):
    r, t = c.rng, c.thorough
    nm = 24 if t else 8
    pool = {True: models(c, nm, True), False: models(c, nm, False)}
    # What each operation answers for each value of each model, in a process of its own.
    asks, where = [], []
    for atts in (True, False):
        for i, m in enumerate(pool[atts]):
            for v in range(3):
                for op in OPS:
                    asks.append({"op": "pure", "models": [m], "steps": [[{"op": "touch", "m": 1}]] * v + [[{"op": op, "m": 1}]]})
                    where.append((atts, i, v, op))
    ref = {}
    for (atts, i, v, op), o in zip(where, c.run(asks, timeout=60, fresh=True)):
        if "fail" in o:
            c.mismatch(asks[where.index((atts, i, v, op))], "an answer", o, same=lambda k, x: "fail" not in x)
            return
        s = o["steps"][-1]
        ref.setdefault((atts, i, v), {})[op] = s["answers"][0]
        ref[atts, i, v].setdefault("state", s["states"][0])

    def emitted(ops, steps, par, touch, n, simulate=None):
        lines, _, _ = c.tlc("MC_Pure", consts={"Ops": seq(ops), "Models": "2", "MaxSteps": str(steps), "MaxPar": str(par), "MaxTouch": str(touch)},
                            **({"simulate": simulate, "depth": steps + 2} if simulate else {}))
        h = list({str(x): x for x in c.emitted(lines)}.values())
        return h if len(h) <= n else r.sample(h, n)

    def cases(hs, atts):
        out = []
        for h in hs:
            ms = r.sample(range(nm), 2)
            out.append({"op": "pure", "models": [pool[atts][i] for i in ms], "steps": h, "ref": [[ref[atts, i, v] for v in range(3)] for i in ms]})
        return out
    one = cases(emitted(OPS, 2, 1, 1, 20000 if t else 700) + emitted(["validate", "bbox", "encode", "decode", "coherency"], 3, 1, 1, 20000 if t else 700) + emitted(OPS, 7, 1, 2, 3000 if t else 300, 6000 if t else 400), True)
    many = cases(emitted(OPS, 1, 2, 0, 600 if t else 300) + sum((emitted(r.sample(OPS, 4), 4, 3, 1, 300 if t else 60, 400 if t else 80) for _ in range(10 if t else 3)), []), False)
    project = lambda x: {"case": {"steps": x["case"]["steps"], "ref": x["case"]["ref"]}, "out": x["out"]}
    f = lambda cs: [{"case": k, "out": o} for k, o in zip(cs, c.run(cs, timeout=60))]
    c.judge("Tr_Pure", f(one), rerun=f, project=project)
    exe = c.build(race=True)
    g = lambda cs: [{"case": k, "out": o} for k, o in zip(cs, c.run(cs, exe=exe, timeout=120, env={"GORACE": "halt_on_error=1 exitcode=66"}))]
    c.judge("Tr_Pure", g(many), rerun=g, project=project)
    c.cov["histories"] = {"sequential": len(one), "concurrent, under the race detector": len(many)}
    c.sample(one[0]["steps"], many[-1]["steps"])
    c.cov["exhaustive"] = True
