"""C01, C02: models are encoded; the documents written are read by the specification and compared with the model."""
import modelgen


def small(c, kinds):
    """Every small combination of defaulted values, from the specification."""
    for k in kinds:
        lines, _, _ = c.tlc("MC_Enc", consts={"Kind": '"%s"' % k, "Wide": "TRUE" if c.thorough or k == "tri" else "FALSE"})
        beh = c.emitted(lines)
        c.sample(beh[len(beh) // 2])
        mk = lambda b: {"model": dict(modelgen.ZERO, **b["in"]), "prec": 4, "marshal": True}
        c.replay(beh, "enc", mk=mk, compare=lambda b, r: r["err"] == "" and r["bad"] == [] and r["errs"] == [] and {f: r["dec"].get(f) for f in b["exp"]} == b["exp"])
        c.cov["small " + k] = len(beh)
        some = beh if c.thorough else c.rng.sample(beh, min(len(beh), 600))
        judge(c, [dict(mk(b), op="enc") for b in some])


KINDS = [["vertex", "triangle", "base", "component", "item", "object", "metadata", "group"],
         ["color", "coord", "composite", "multi", "slice", "sliceref", "point", "polygon", "segment", "beam", "set", "ref"]]


def repeated(c, ext):
    """Large models: the first element of every list of some kind comes many times more."""
    rng, cases = c.rng, []
    for kind in KINDS[ext]:
        for n in (300, 1100, 70000) if kind not in ("object", "item", "slice", "polygon", "set", "component", "group") else (300, 3000):
            for _ in range(6 if c.thorough and n < 5000 else 1):
                g = modelgen.Gen(rng, ext=1 if ext else 0, unk=0, size=3 if n < 5000 else 2, undeclared=0)
                for _ in range(60):
                    m = g.model()
                    if some(m, kind):
                        break
                cases.append({"op": "enc", "model": m, "prec": rng.choice([0, 3, 4, 4, 6]), "marshal": True, "file": rng.random() < .3, "rep": {"kind": kind, "n": n}})
    c.cov["large models"] = len(cases)
    judge(c, cases, 120)


FIELD = {"vertex": "vs", "triangle": "ts", "base": "mats", "component": "list", "item": "items", "object": "objects", "metadata": "meta", "group": "md", "color": "cs", "coord": "cs",
         "composite": "vals", "multi": "ms", "slice": "slices", "sliceref": "refs", "point": "vs", "polygon": "ps", "segment": "segs", "beam": "beams", "set": "sets", "ref": "refs"}
OWNER = {"color": "color", "coord": "texg", "sliceref": "stack"}


def some(v, kind):
    """Whether there is a list of the kind."""
    if isinstance(v, list):
        return any(some(x, kind) for x in v)
    if isinstance(v, dict):
        here = v.get(FIELD[kind]) and (kind not in OWNER or v.get("k") == OWNER[kind]) and (kind != "vertex" or "ts" in v) and (kind != "point" or "zt" in v) and (kind != "ref" or "ident" in v)
        return bool(here) or any(some(x, kind) for x in v.values())
    return False


def judge(c, cases, timeout=20):
    f = lambda cs: [{"case": k, "out": o} for k, o in zip(cs, c.run(cs, timeout=timeout))]
    c.judge("Tr_Enc", f(cases), rerun=f)


def check(c, ext=0):
    small(c, ["beam", "seg", "obj"] if ext else ["tri"])
    c.cov["exhaustive"] = True
    rng = c.rng
    cases = []
    for i in range(6000 if c.thorough else 500):
        g = modelgen.Gen(rng, ext=rng.choice([.3, .6, 1]) if ext else 0, unk=0, size=rng.choice([1, 2, 3, 3]), undeclared=rng.choice([0, .3]))
        cases.append({"op": "enc", "model": g.model(), "prec": rng.choice([-1, 0, 1, 3, 4, 4, 4, 6, 9]), "marshal": True, "file": rng.random() < .3})
    judge(c, cases)
    repeated(c, ext)
    c.sample(cases[0])
    c.assumptions.append("models are canonical: prefixes of metadata are declared, radii are not negative, paths are valid part names")
