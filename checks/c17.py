"""C17: every small graph of components (TLC), and large ones of many shapes (judged by TLC)."""
import validgen
import valid


def shapes(rng, n):
    """Graphs over objects 1..n: lists of successors."""
    k = rng.choice(["chain", "cycle", "ladder", "full", "random", "random", "star", "rho"])
    if k == "chain":
        return [[i + 2] if i < n - 1 else [] for i in range(n)]
    if k == "cycle":
        return [[i + 2] if i < n - 1 else [1] for i in range(n)]
    if k == "rho":
        return [[i + 2] if i < n - 1 else [rng.randint(1, n)] for i in range(n)]
    if k == "ladder":
        return [[i + 2, i + 2, min(i + 3, n)] if i < n - 1 else [] for i in range(n)]
    if k == "full":
        m = min(n, 9)
        return [[j + 1 for j in range(m) if j != i] for i in range(m)] + [[] for _ in range(n - m)]
    if k == "star":
        return [[1] for _ in range(n)]
    return [[rng.randint(1, n + 1) for _ in range(rng.randint(0, 3))] for _ in range(n)]


def graph(rng, n, deep):
    paths = rng.choice([[""], [""], ["", "/3D/a.model"], ["", "/3D/a.model", "/3D/b.model"]])
    root = rng.choice(["", "/x.model"])
    g = validgen.Gen(rng, 0, "c", 1)
    m = dict(g.model(), path=root, childs=[], exts=[{"ns": validgen.URL["s"], "p": "s", "req": False}] if not deep and rng.random() < .5 else [], rels=[], rrels=[], meta=[])
    where = [rng.randrange(len(paths)) for _ in range(n)]
    # ids: their positions, sometimes from zero, or any numbers
    ids = list(range(1, n + 2)) if rng.random() < .6 else list(range(n + 1)) if rng.random() < .5 else rng.sample([x for x in range(3 * n + 2) if x != 500], n) + [999999999]
    sh = shapes(rng, n)
    parts = [{"attrs": [], "assets": [], "objects": []} for _ in paths]
    for i in range(n):
        o = {"id": ids[i], "name": "", "pn": "", "thumb": "", "pid": 0, "pidx": 0, "type": "model", "meta": {"md": [], "attrs": []}, "mesh": [], "comps": [], "attrs": []}
        if rng.random() < .2 and m["exts"]:
            o["attrs"] = [{"k": "sobj", "id": 500, "res": "fullres"}]
        if not sh[i]:
            o["mesh"] = [g_mesh()]
        else:
            l = []
            for t in sh[i]:
                w = where[t - 1] if t <= n else 0
                pa = "" if w == where[i] and rng.random() < .9 else paths[w] or root or validgen.DEFAULT
                if rng.random() < .02:
                    pa = "/none.model"
                l.append({"oid": ids[t - 1] if rng.random() > .01 else ids[i], "tr": rng.choice([[], [], [1, 0, 0, 0, 1, 0, 0, 0, 1, 1, 1, 1]]), "attrs": [{"k": "pcomp", "uuid": "", "path": pa}] if pa else []})
            o["comps"] = [{"attrs": [], "list": l}]
        parts[where[i]]["objects"].append(o)
    for p in parts:
        p["assets"] = [{"k": "stack", "id": 500, "zb": 0, "slices": [{"zt": 1, "vs": [], "ps": []}], "refs": []}]
    m["res"] = parts[0]
    m["childs"] = [{"path": p, "res": r, "any": [], "rels": []} for p, r in zip(paths[1:], parts[1:])]
    m["build"] = {"attrs": [], "items": [{"oid": ids[t - 1], "tr": [], "pn": "", "meta": {"md": [], "attrs": []}, "attrs": [{"k": "pitem", "uuid": "", "path": paths[where[t - 1]]}] if where[t - 1] else []} for t in (1, rng.randint(1, n))]}
    return m


def g_mesh():
    t = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]
    return {"attrs": [], "vattrs": [], "tattrs": [], "vs": [[0, 0, 0], [9, 0, 0], [0, 9, 0], [0, 0, 9]], "ts": [{"v": v, "pid": 0, "p": [0, 0, 0], "attrs": []} for v in t], "any": []}


def check(c):
    lines, _, _ = c.tlc("MC_Graph", consts={"Wide": "2", "Two": "2" if c.thorough else "1"}, timeout=880)
    beh = c.emitted(lines)
    del lines
    valid.replay(c, beh, "C17", box=True)
    rng = c.rng
    cases = [{"op": "validate", "m": graph(rng, rng.choice([2, 3, 5, 8, 12]), False), "area": "C17", "box": True} for _ in range(6000 if c.thorough else 700)]
    cases += [{"op": "validate", "m": graph(rng, rng.choice([40, 80, 150]), True), "area": "C17", "box": True} for _ in range(200 if c.thorough else 30)]
    valid.judge(c, cases)
    valid.random(c, "C17", "p", 3000 if c.thorough else 300, box=True)
    valid.large(c, "C17", "p", {"items", "list", "objects"})
    c.cov["exhaustive"] = True
