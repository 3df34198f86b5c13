"""C19: every multiset of oriented triangles over few vertices (TLC), damaged surfaces and models (judged by TLC)."""


def sphere(rng, n):
    """A closed surface: a bipyramid or a torus, with relabelled vertices and rotated, shuffled triangles."""
    kind = rng.choice(["bi", "torus", "two"])
    ts = []
    if kind in ("bi", "two"):
        for base in ([0] if kind == "bi" else [0, n + 2]):
            for i in range(n):
                a, b = base + i, base + (i + 1) % n
                ts += [[a, b, base + n], [b, a, base + n + 1]]
        nv = (n + 2) * (1 if kind == "bi" else 2)
    else:
        m = n
        for i in range(m):
            for j in range(m):
                v = lambda x, y: (x % m) * m + y % m
                ts += [[v(i, j), v(i + 1, j), v(i + 1, j + 1)], [v(i, j), v(i + 1, j + 1), v(i, j + 1)]]
        nv = m * m
    extra = rng.choice([0, 0, 2])
    perm = list(range(nv + extra))
    rng.shuffle(perm)
    ts = [[perm[x] for x in t] for t in ts]
    return nv + extra, ts


def damage(rng, nv, ts):
    ts = [list(t) for t in ts]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.choice(["flip", "drop", "dup", "dupflip", "swap", "move", "isolate"])
        i = rng.randrange(len(ts))
        if k == "flip":
            ts[i].reverse()
        if k == "drop":
            ts.pop(i)
        if k == "dup":
            ts.append(list(ts[i]))
        if k == "dupflip":
            ts += [list(ts[i]), ts[i][::-1]]
        if k == "swap":
            j = rng.randrange(len(ts))
            a, b = ts[i][0], ts[j][0]
            if a not in ts[j] and b not in ts[i]:
                ts[i][0], ts[j][0] = b, a
        if k == "move":
            free = [v for v in range(nv) if v not in ts[i]]
            if free:
                ts[i][rng.randrange(3)] = rng.choice(free)
        if not ts:
            break
    ts = [t[k:] + t[:k] for t in ts for k in [rng.randrange(3)]]
    rng.shuffle(ts)
    return ts


def mesh(rng):
    if rng.random() < .15:
        return rng.choice([(0, []), (2, []), (3, [[0, 1, 2]]), (4, [[0, 1, 2], [0, 2, 1]]), (4, [[0, 1, 2], [1, 0, 3], [2, 1, 3]]),
                           (2, [[0, 1, 5], [1, 0, 6], [0, 1, 7], [1, 0, 8]]), (4, [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]])])
    nv, ts = sphere(rng, rng.choice([3, 3, 4, 5]))
    return nv, damage(rng, nv, ts)


def names(rng, n=64):
    """Other numbers for the vertices, or none."""
    k = rng.choice(["", "", "near", "wide", "top", "bits"])
    if k == "":
        return []
    if k == "near":  # alike in their low, or in their high half
        x = {rng.choice([0, 1, 2, 3, 0xffff]) + 65536 * rng.choice([0, 1, 2, 0x7fff, 0x8000, 0xffff]) for _ in range(9 * n)}
        x |= set(range(60000, 60000 + n))
    elif k == "wide":
        x = {rng.randrange(1 << 32) for _ in range(2 * n)}
    elif k == "top":
        x = set(range((1 << 32) - n, 1 << 32)) if rng.random() < .5 else set(range((1 << 31) - n // 2, (1 << 31) + n))
    else:
        x = {1 << i for i in range(32)} | {(1 << i) - 1 for i in range(32)} | {rng.randrange(1 << 32) for _ in range(n)}
    x = sorted(x)
    rng.shuffle(x)
    return [str(v) for v in x[:n]]


def large(rng, m):
    """A torus of m times m vertices, or a bipyramid, damaged at one place or not at all."""
    if rng.random() < .3:
        nv = m * m + 2
        ts = [t for i in range(m * m) for t in ([i, (i + 1) % (m * m), nv - 2], [(i + 1) % (m * m), i, nv - 1])]
    else:
        nv = m * m
        v = lambda x, y: (x % m) * m + y % m
        ts = [t for i in range(m) for j in range(m) for t in ([v(i, j), v(i + 1, j), v(i + 1, j + 1)], [v(i, j), v(i + 1, j + 1), v(i, j + 1)])]
    k = rng.choice(["no", "no", "flip", "drop", "dup", "move", "alike"])
    i = rng.choice([0, len(ts) - 1, rng.randrange(len(ts))])
    if k == "flip":
        ts[i].reverse()
    elif k == "drop":
        ts.pop(i)
    elif k == "dup":
        ts += [list(ts[i]), ts[i][::-1]]
    elif k == "move":
        ts[i][1] = next(x for x in range(nv) if x not in ts[i])
    elif k == "alike":  # a vertex whose number has the same low half
        x = next((x for x in range(65536, nv) if x - 65536 not in (y for t in ts[:9] for y in t)), None)
        if x is not None:
            t = next(t for t in ts if x in t)
            t[t.index(x)] = x - 65536
    return nv, [t[j:] + t[:j] for t in ts for j in [rng.randrange(3)]]


def check(c):
    beh = []
    for nv, mx in ([(4, 8), (5, 5)] if c.thorough else [(4, 6)]):
        lines, _, _ = c.tlc("MC_Coh", consts={"NV": str(nv), "Max": str(mx)})
        beh += c.emitted(lines)
    groups = [beh[i:i + 200] for i in range(0, len(beh), 200)]
    c.replay([{"in": {"meshes": [b["in"] for b in g], "names": names(c.rng), "decor": c.rng.choice([0, c.rng.randrange(1 << 30)])}, "exp": {"rs": [b["exp"] for b in g]}} for g in groups], "coh")
    c.cov["traces_validated_against_impl"] += len(beh) - len(groups)
    c.cov["accepted"] = sum(b["exp"] == "ok" for b in beh)
    c.sample(beh[5], next(b for b in beh if b["exp"] == "ok"))
    rng = c.rng
    cases = []
    for _ in range(3000 if c.thorough else 300):
        ms = [mesh(rng) for _ in range(5)]
        cases.append({"op": "coh", "meshes": [{"nv": nv, "ts": ts} for nv, ts in ms], "names": names(rng), "decor": rng.choice([0, rng.randrange(1 << 30)])})
    for _ in range(8000 if c.thorough else 800):
        parts = []
        root = rng.choice(["", "/3D/3dmodel.model"])
        for p in [root] + ["/3D/p%d.model" % i for i in range(rng.randint(0, 2))]:
            objs = []
            for _ in range(rng.randint(0, 4)):
                nv, ts = mesh(rng)
                objs.append({"type": rng.choice(["model", "model", "solidsupport", "other", "support", "surface"]), "mesh": rng.random() < .85, "nv": nv, "ts": ts})
            parts.append({"path": p, "objs": objs})
        cases.append({"op": "coh", "rootpath": root, "parts": parts, "names": names(rng), "decor": rng.choice([0, rng.randrange(1 << 30)])})

    for m in (10, 16, 40, 40, 80, 258) if not c.thorough else (10, 16, 16, 40, 40, 40, 80, 80, 80, 258, 258):
        ms = [large(rng, m) for _ in range(5 if m < 50 else 1)]
        cases.append({"op": "coh", "meshes": [{"nv": nv, "ts": ts} for nv, ts in ms], "names": [], "decor": 0})

    def rec(cs):
        return [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    recs = rec(cases)
    c.judge("Tr_Coh", recs, rerun=rec)
    c.cov["clean_models"] = sum(1 for r in recs if r["out"].get("nil"))
    c.sample(recs[-1])
    c.cov["exhaustive"] = True
    c.assumptions.append("triangles have three different vertices (a repeated vertex is reported by validation, C12)")
