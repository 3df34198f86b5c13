"""C22: all small assignments of ids (TLC) and larger random ones, judged by TLC."""


def check(c):
    lines, _, _ = c.tlc("MC_Lookup", consts={"MaxId": "3", "Max": "5" if c.thorough else "3"})
    cases = [dict(x, op="look", kind=i % 17 - 1, decor=i if i % 4 == 1 else 0) for i, x in enumerate( c.emitted(lines))]
    n = len(cases)
    rng = c.rng
    for _ in range(20000 if c.thorough else 3000):
        root = rng.choice(["", "/3D/3dmodel.model", "/a.model", "/z/z.model"])
        names = rng.sample(["/3D/b.model", "/3D/B.model", "/3D/a10.model", "/3D/a9.model", "/m.model", "/3D/\u00e9.model", "/3D/a.model"], rng.randint(0, 4))
        parts = []
        big = rng.random() < .01
        for p in [root] + names:
            hi = rng.choice([3, 5, 12, 2000000000])
            a = [rng.choice([rng.randint(0, hi), rng.randint(1, 4)]) for _ in range(rng.randint(0, 6))]
            o = [rng.choice([rng.randint(0, hi), rng.randint(1, 4)]) for _ in range(rng.randint(0, 6))]
            if big:
                ids = list(range(1, rng.choice([70, 130, 270]) + 1))
                if rng.random() < .5:
                    ids.remove(rng.choice(ids))
                rng.shuffle(ids)
                k = rng.randrange(len(ids) + 1)
                a, o = ids[:k], ids[k:]
            elif rng.random() < .3:
                ids = list(range(1, len(a) + len(o) + 1))
                rng.shuffle(ids)
                a, o = ids[:len(a)], ids[len(a):]
            parts.append({"path": p, "assets": a, "objects": o})
        order = sorted(range(1, len(parts)), key=lambda i: parts[i]["path"].encode())
        find = [{"path": rng.choice([p["path"] for p in parts] + ["", "/3D/3dmodel.model", "/none"]), "id": rng.choice([0, 1, 2, 3, 4, 5, 6, 1999999999] + ([64, 65, 127, 128, 129, 255, 256, 269, 270] if big else []))}
                for _ in range(12)]
        cases.append({"op": "look", "rootpath": root, "parts": parts, "order": [i + 1 for i in order] + [1],
                      "find": find, "stops": [0, rng.randint(1, 4), rng.randint(1, 12)], "kind": rng.randint(-1, 15), "decor": rng.choice([0, rng.randrange(1 << 30)])})

    def rec(cs):
        return [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    recs = rec(cases)
    c.judge("Tr_Lookup", recs, rerun=rec)
    c.sample(recs[3], recs[-1])
    c.cov["exhaustive"] = True
    c.cov["enumerated"] = n
