"""C20: all short sequences of additions (TLC) and long ones over positions of every magnitude, judged by TLC."""
import struct


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def nxt(x, n=1):
    b = struct.unpack("<i", struct.pack("<f", x))[0]
    if b < 0:
        return x
    return struct.unpack("<f", struct.pack("<i", b + n))[0]


NEAR = 4e-6


def rel(ps):
    def r(a, b):
        d = max(abs(x - y) for x, y in zip(a, b))
        return "eq" if d == 0 else "near" if d <= NEAR else "far"
    return [[r(a, b) for b in ps] for a in ps]


def text(ps):
    return [["%r" % x if x == x else "0" for x in p] for p in ps]


def positions(rng):
    ps = []
    for _ in range(rng.randint(1, 4)):
        m = rng.choice([0.0, 1e-7, 1e-6, 0.5, 1.0, 2.3, 7.99, 100.0, 1234.5, 2147.4836, 2147.4837, 2147.49, 65536.0, 4.3e6, 1e9, 1e12, 3e15, 1e30, 3e38])
        base = [f32(rng.choice([1, -1, 1, 0]) * m * rng.choice([1, 1, .5, .999])) for _ in range(3)]
        ps.append(tuple(base))
        for _ in range(rng.randint(0, 4)):
            q = list(base)
            for k in ([rng.randrange(3)] if rng.random() < .7 else range(3)):
                d = rng.choice([1e-7, 3e-7, 9e-7, 2e-6, 2e-5, 1e-4, 1e-3, "ulp", "ulp", "ulp8", 4294.967296, 4294.967297, 1.0, "neg"])
                if d == "ulp":
                    q[k] = nxt(q[k])
                elif d == "ulp8":
                    q[k] = nxt(q[k], 8)
                elif d == "neg":
                    q[k] = -q[k]
                else:
                    q[k] = f32(q[k] + rng.choice([1, -1]) * d)
            ps.append(tuple(q))
        if rng.random() < .4:  # the same numbers in another order
            ps.append((base[1], base[2], base[0]))
            ps.append((base[1], base[0], base[2]))
    if rng.random() < .3:
        ps += [(0.0, 0.0, 0.0), (-0.0, 0.0, 0.0)]
    return [p for p in ps if all(abs(x) < 3.4e38 for x in p)]


def check(c):
    lines, _, _ = c.tlc("MC_Builder", consts={"Depth": "4" if c.thorough else "3", "NP": "5"})
    hist, seen = [], set()
    for h in c.emitted(lines):
        k = str(h)
        if k not in seen:
            seen.add(k)
            hist.append(h)
    rng = c.rng
    cases = []
    for h in hist:
        a = f32(rng.choice([0.5, 1.0, 33.25, -2.0]))
        p1 = (a, f32(1.5), f32(-2))
        near = (f32(a + 2e-6 if abs(a) < 8 else a), f32(1.5), f32(-2 + 1e-6))
        ps = [p1, p1, near, (9.0, 9.0, 9.0), (f32(a + 4294.967296), f32(1.5), f32(-2))]
        cases.append({"op": "mb", "pos": text(ps), "rel": rel(ps), "conn": h["conn"], "pre": [3],
                      "adds": [{"p": x["p"] - 1, "conn": x["conn"]} for x in h["adds"]]})
    n = len(cases)
    for _ in range(40000 if c.thorough else 4000):
        ps = positions(rng)
        conn = rng.random() < .85
        cur, adds, state = [], [], conn
        for _ in range(rng.randint(1, 25)):
            a = {"p": rng.randrange(len(ps))}
            if rng.random() < .05:
                a["conn"] = state = not state
            cur.append(state)
            adds.append(a)
        cases.append({"op": "mb", "pos": text(ps), "rel": rel(ps), "conn": conn, "cur": cur,
                      "pre": [rng.randrange(len(ps)) for _ in range(rng.choice([0, 0, 1, 3]))], "adds": adds})

    def rec(cs):
        return [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    for n in [60, 300, 2600] + ([66000, 66000] if not c.thorough else [33000, 66000, 66000, 66000, 140000]):
        ps = [{"down": rng.random() < .4, "conn": rng.random() < .8} for _ in range(2 if n > 5000 else 4)]
        if n > 5000:
            ps[0]["conn"] = True
            ps[1]["conn"] = rng.random() < .9
        cases.append({"op": "mbbig", "n": n, "step": rng.choice(["0.5", "0.001", "1", "3", "70", "100000"]), "passes": ps})
    recs = rec(cases)
    c.judge("Tr_Builder", recs, rerun=rec)
    c.sample(recs[0], recs[-1])
    c.cov["enumerated_histories"] = n
    c.assumptions.append("positions are finite; 'a few millionths' is taken as 4e-6 units in each coordinate")
