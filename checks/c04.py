"""C04: what a document denotes. The decoder as a machine is compared by TLC with the denotation of every small document,
each of which is then decoded by the real code; large random documents are decoded and judged by TLC."""
import docgen

ROOTDECL = [("", "xmlns", "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"), ("xmlns", "m", "http://schemas.microsoft.com/3dmanufacturing/material/2015/02"),
            ("xmlns", "x", "http://x.org/one")]


def nesting(c):
    """Every nesting of a few elements, from the specification."""
    lines, _, _ = c.tlc("MC_Decoder", consts={"Free": 3, "Small": "TRUE"} if c.thorough else {"Free": 2, "Small": "FALSE"}, timeout=300)
    beh = c.emitted(lines)
    for b in beh:
        b["tree"]["a"] = [{"ns": a[0], "n": a[1], "s": a[2]} for a in ROOTDECL]
        if b["tree"]["n"] == "model":
            b["exp"]["exts"] = [{"ns": a[2], "p": a[1], "req": False} for a in ROOTDECL[1:]]

    def mk(b):
        return {"strict": False, "seeds": [], "parts": [{"path": "/3D/3dmodel.model", "tree": b["tree"]}]}

    def same(b, r):
        o = r["outs"][0]
        m = {k: o["model"].get(k) for k in b["exp"]}
        return len(r["outs"]) == 1 and m == b["exp"] and o["errs"] == [] and o["um"] == [b["exp"], []]
    c.replay(beh, "dec", mk=mk, compare=same)
    c.sample(beh[0], beh[-1])
    c.cov["nestings"] = len(beh)


def everywhere(c):
    """Every element inside every other with any attribute, from the specification."""
    lines, _, _ = c.tlc("MC_Odd", consts={"Deep": "FALSE"}, timeout=300)
    beh = c.emitted(lines)
    if c.thorough:
        lines, _, _ = c.tlc("MC_Odd", consts={"Deep": "TRUE"}, timeout=300)
        beh += c.emitted(lines)
    else:
        tw = [b for b in beh if b.get("tw")]
        beh = tw + c.rng.sample([b for b in beh if not b.get("tw")], 8000)

    def mk(b):
        return {"strict": False, "seeds": [], "parts": [{"path": "/3D/3dmodel.model", "tree": b["tree"]}]}

    def same(b, r):
        o = r["outs"][0]
        v, errs = b["exp"]["val"], b["exp"]["errs"]
        return len(r["outs"]) == 1 and {k: o["model"].get(k) for k in v} == v and o["errs"] == errs and o["um"] == [v, errs]
    c.replay(beh, "dec", mk=mk, compare=same)


KINDS = ["triangle", "corner", "vertex", "object", "names", "component", "item", "metadata", "base", "color", "texture", "coord", "composite", "multi", "stack",
         "sliceref", "segment", "beam", "ends", "lattice", "set", "unknown", "model"]


def attributes(c, wide, sample=None):
    """Every combination of absent, explicit and malformed attributes of every element, from the specification."""
    small = [k for k in KINDS if k not in ("triangle", "object", "lattice", "item", "beam", "component", "corner")]
    lines, _, _ = c.tlc("MC_Attr", consts={"Kinds": "{%s}" % ", ".join('"%s"' % k for k in KINDS), "Wide": "FALSE"}, timeout=400)
    if wide:
        more, _, _ = c.tlc("MC_Attr", consts={"Kinds": "{%s}" % ", ".join('"%s"' % k for k in small), "Wide": "TRUE"}, timeout=400)
        lines += more
    beh = c.emitted(lines)
    c.cov["attribute combinations"] = len(beh)
    if sample:
        beh = c.rng.sample(beh, min(sample, len(beh)))
    for i, b in enumerate(beh):
        b["strict"] = i % 4 == 0

    def mk(b):
        return {"strict": b["strict"], "seeds": [], "parts": [{"path": "/3D/3dmodel.model", "tree": b["tree"]}]}

    def same(b, r):
        o = r["outs"][0]
        v, errs = b["exp"]["val"], b["exp"]["errs"]
        if len(r["outs"]) != 1 or (not b["strict"] and o["um"] != [v, errs]):
            return False
        if b["strict"] and errs:
            return o["errs"] == errs[:1]
        return {k: o["model"].get(k) for k in v} == v and o["errs"] == errs
    c.replay(beh, "dec", mk=mk, compare=same)
    c.sample(beh[len(beh) // 2])


def rec(c, timeout=20):
    def f(cs):
        return [{"case": k, "out": o} for k, o in zip(cs, c.run(cs, timeout=timeout))]
    return f


def repeated(c, bad):
    """Large documents: the first element of every list of some kind comes many times more."""
    rng, cases = c.rng, []
    for kind, tag in REP.items():
        for n in (300, 1100, 70000) if kind not in ("object", "item", "slice", "polygon", "set", "component", "group") else (300, 3000):
            for _ in range(12 if c.thorough and n < 5000 else 2 if n < 5000 else 1):
                def some(t):
                    return t["t"] == "S" and (t["n"] == tag or any(some(x) for x in t["c"]))
                for _ in range(60):
                    ps = docgen.parts(rng, bad=bad, odd=rng.choice([0, .05]), size=2 if n > 5000 else rng.choice([2, 3]), ext=rng.choice([.5, 1]))
                    if any(some(p["tree"]) for p in ps):
                        break
                cases.append({"op": "dec", "strict": rng.random() < (.2 if bad else .5), "seeds": [] if n > 5000 else [rng.randrange(1, 1 << 30)], "parts": ps, "rep": {"kind": kind, "n": n}})
    c.cov["large documents"] = len(cases)
    return cases


# kinds of lists and their elements
REP = {"vertex": "vertex", "triangle": "triangle", "base": "base", "component": "component", "item": "item", "object": "object", "metadata": "metadata", "group": "metadatagroup",
       "color": "color", "coord": "tex2coord", "composite": "composite", "multi": "multi", "slice": "slice", "sliceref": "sliceref", "point": "slice", "polygon": "polygon",
       "segment": "segment", "beam": "beam", "set": "beamset", "ref": "ref"}


def check(c):
    nesting(c)
    everywhere(c)
    attributes(c, c.thorough, None if c.thorough else 16000)
    rng = c.rng
    cases = []
    for i in range(6000 if c.thorough else 500):
        cases.append({"op": "dec", "strict": rng.random() < .5, "seeds": [rng.randrange(1, 1 << 30) for _ in range(4)],
                      "parts": docgen.parts(rng, odd=rng.choice([0, .05, .15]), size=rng.choice([1, 2, 3]), ext=rng.choice([0, .5, 1]))})
    c.judge("Tr_Dec", rec(c)(cases), rerun=rec(c))
    large = rec(c, 120)
    c.judge("Tr_Dec", large(repeated(c, 0)), rerun=large)
    c.sample(cases[0])
    c.cov["exhaustive"] = True
