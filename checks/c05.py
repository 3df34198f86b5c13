"""C05: every checked attribute malformed, alone and in pairs (enumerated by TLC), and random documents with many
malformed attributes; the errors and the values of the decoder are judged by TLC against the specification."""
import docgen
import c04
from c04 import attributes
from docgen import S, T

BAD = {"u": ["", "x", "-1", "1.5", " 1", "1 ", "+1", "0x1", "1e2", "1_0", "\u0661", "1,2"],
       "f": ["", "x", "--1", "1,5", "1.2.3", "1e", " 1", "e5", "0x", ".", "+"],
       "m": ["", "1 0 0 0 1 0 0 0 1 0 0", "1 0 0 0 1 0 0 0 1 0 0 0 0", "1 0 0 0 1 0 0 0 1 0 0 x", "x", "1,0,0,0,1,0,0,0,1,0,0,0", "1 0 0 0 1 0 0 0 1 0 0 --1",
             "1 0 0 0 0 1 0 0 0 0 1 0 0 0 0 1"],
       "us": ["x", "1 x 2", "x y", "1,2", "-1 -2 -3", "1.5"], "fs": ["x", "1 x 2", "x y", "1,2"],
       "color": ["", "red", "#12345", "112233", "#", "#1122334", "#112233445"],
       "uuid": ["", "x", "01234567-89ab-cdef-0123-456789abcde", "01234567-89ab-cdef-0123-456789abcdef0", "{01234567-89ab-cdef-0123-456789abcdef", "g1234567-89ab-cdef-0123-456789abcdef",
                "01234567_89ab-cdef-0123-456789abcdef"],
       "unit": ["", "mm", "Inch", "inch "], "type": ["", "Model", "solid", "other "], "clip": ["", "None", "in"], "cap": ["", "round", "Butt"], "res": ["", "low", "FullRes"]}
# No default is defined for these: only that they are reported.
REPORTED = {"u": ["4294967296", "99999999999999999999"], "f": ["1e400", "4e38", "-1e39"], "m": ["1 0 0 0 1 0 0 0 1 1e400 0 0"], "us": ["1 4294967296"], "fs": ["1e39 1"],
            "color": ["#12345g", "#1122334g", "#gggggg"]}
GOOD = {"u": "7", "f": "1.5", "m": "2 0 0 0 2 0 0 0 2 1 2 3", "us": "1 2", "fs": "1 0.5", "color": "#10203040", "uuid": "01234567-89ab-cdef-0123-456789abcdef",
        "unit": "inch", "type": "support", "clip": "inside", "cap": "butt", "res": "lowres"}
# (kind of the parent, siblings before)
PARENT = {"core:resources": "core:model", "core:build": "core:model", "core:item": "core:build", "core:basematerials": "core:resources", "core:base": "core:basematerials",
          "core:object": "core:resources", "core:mesh": "core:object", "core:vertices": "core:mesh", "core:vertex": "core:vertices", "core:triangles": "core:mesh",
          "core:triangle": "core:triangles", "core:components": "core:object", "core:component": "core:components", "unknown": "core:resources",
          "m:colorgroup": "core:resources", "m:color": "m:colorgroup", "m:texture2d": "core:resources", "m:texture2dgroup": "core:resources", "m:tex2coord": "m:texture2dgroup",
          "m:compositematerials": "core:resources", "m:composite": "m:compositematerials", "m:multiproperties": "core:resources", "m:multi": "m:multiproperties",
          "s:slicestack": "core:resources", "s:sliceref": "s:slicestack", "s:slice": "s:slicestack", "s:vertices": "s:slice", "s:vertex": "s:vertices", "s:polygon": "s:slice",
          "s:segment": "s:polygon", "b:beamlattice": "core:mesh", "b:beams": "b:beamlattice", "b:beam": "b:beams", "b:beamsets": "b:beamlattice", "b:beamset": "b:beamsets", "b:ref": "b:beamset"}
ONLY = {"core:mesh", "core:vertices", "core:triangles", "core:components", "core:build", "core:resources", "core:model", "s:vertices", "b:beamlattice", "b:beams", "b:beamsets"}


def chain(rng, rule, rules, value):
    """The element of the rule, with good values elsewhere and the given one there, in its ancestors up to those of the model."""
    kind, ns, name = rule[0], rule[1], rule[2]

    def attrs(k, target):
        a = [(r[1], r[2], value if target and (r[1], r[2]) == (ns, name) else GOOD[r[3]]) for r in rules if r[0] == k]
        if k == "b:beamlattice":  # spellings of the same attribute
            drop = {"clippingmode": "clipping", "clipping": "clippingmode", "minlength": "precision", "precision": "minlength"}
            gone = drop.get(name) if target else None
            a = [x for x in a if x[1] not in ({gone, } | ({"clipping"} if gone not in ("clipping", "clippingmode") else set()) | ({"precision"} if gone not in ("precision", "minlength") else set()))]
        rng.shuffle(a)
        return a

    def elem(k, target, kids=()):
        p, _, n = k.rpartition(":")
        return S(p or "http://x.org/one", n if p else "thing", attrs(k, target), kids)
    if kind == "core:model":
        return None, attrs(kind, True)
    e, k = elem(kind, True), kind
    while True:
        sib = [] if k in ONLY else [elem(k, False) for _ in range(rng.choice([0, 0, 1, 2]))]
        after = [] if k in ONLY else [elem(k, False) for _ in range(rng.choice([0, 0, 1]))]
        k = PARENT[k]
        if k == "core:model":
            return e, []
        e = elem(k, False, sib + [e] + after)


def document(rng, picks, rules, root):
    d = docgen.Doc(rng)
    d.pool = docgen.UNKNOWN
    kids, attrs = [], []
    for r, v in picks:
        e, a = chain(rng, r, rules, v)
        attrs += [x for x in a if x[1] not in [y[1] for y in attrs]]
        if e:
            kids.append(e)
    decls = d.decls()
    return S("core", "model", decls + attrs if rng.random() < .5 else attrs + decls, kids)


def rec(c):
    def f(cs):
        return [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    return f


def check(c):
    rng = c.rng
    attributes(c, c.thorough, None if c.thorough else 8000)
    lines, _, _ = c.tlc("MC_Rules", consts={"Pairs": "TRUE"})
    choices = c.emitted(lines)
    singles = [x for x in choices if len(x["rules"]) == 1]
    rules = [x["rules"][0] for x in singles if not x["child"]]
    pairs = [x for x in choices if len(x["rules"]) == 2]
    rng.shuffle(pairs)
    todo = []
    for x in singles:
        r = x["rules"][0]
        todo += [(x, [(r, v)]) for v in BAD[r[3]]]
        todo += [(x, [(r, v)], True) for v in REPORTED.get(r[3], [])]
    npairs = len(pairs) if c.thorough else 900
    for x in pairs[:npairs]:
        todo.append((x, [(r, rng.choice(BAD[r[3]])) for r in x["rules"]]))
    cases = []
    empty = S("core", "model", docgen.Doc(rng).decls(), [S("core", "resources"), S("core", "build")])
    for x, picks, *only in todo:
        t = document(rng, picks, rules, not x["child"])
        parts = [{"path": "/3D/3dmodel.model", "tree": empty}, {"path": "/3D/c.model", "tree": t}] if x["child"] else [{"path": "/3D/3dmodel.model", "tree": t}]
        for strict in ((True,) if only else (False, True)):
            cases.append({"op": "dec", "strict": strict, "seeds": [rng.randrange(1, 1 << 30)], "parts": parts})
    c.cov["rules"] = len(rules)
    c.cov["single faults"] = sum(len(BAD[x["rules"][0][3]]) for x in singles)
    c.cov["pairs of faults"] = npairs
    for i in range(4000 if c.thorough else 300):
        cases.append({"op": "dec", "strict": rng.random() < .4, "seeds": [rng.randrange(1, 1 << 30)],
                      "parts": docgen.parts(rng, bad=rng.choice([.05, .2, .5]), odd=rng.choice([0, .05, .15]), size=rng.choice([1, 2, 3]), ext=rng.choice([0, .5, 1]))})
    c.sample(cases[0])
    c.judge("Tr_Dec", rec(c)(cases), rerun=rec(c))
    large = c04.rec(c, 120)
    c.judge("Tr_Dec", large(c04.repeated(c, rng.choice([.05, .2]))), rerun=large)
    c.assumptions.append("numbers out of range and colours with wrong digits are judged for being reported, not for the value left behind")
