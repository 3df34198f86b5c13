"""C25: all pairs of near-elementary matrices (TLC), random matrices and text forms (judged by TLC)."""


def num(n):
    return "%.6f" % (n / 64.0)


def check(c):
    lines, _, _ = c.tlc("MC_Mat", consts={"Values": "{-3, 2, 5}" if c.thorough else "{-3}"})
    beh = c.emitted(lines)

    for i, b in enumerate(beh):
        b["in"].update(ea=[0, 25, -40][i % 3], eb=[0, 0, 60, -9][i % 4])

    def cmp(b, r):
        if "fail" in r:
            return False
        e = dict(b["exp"])
        r = dict(r)
        if e["box"] == []:
            e.pop("box"), r.pop("box")
        return e == r
    c.replay(beh, "mat", compare=cmp)
    c.sample(beh[7], beh[len(beh) // 2])
    rng = c.rng
    cases = []
    for _ in range(20000 if c.thorough else 1500):
        def m12():
            k = rng.choice([1, 2, 9])
            return [rng.randint(-k, k) for _ in range(9)] + [rng.randint(-100, 100) for _ in range(3)]

        def m16():
            return [rng.randint(-5, 5) for _ in range(15)] + [1]
        lo = [rng.randint(-50, 50) for _ in range(3)]
        cases.append({"op": "mat", "a": m12(), "b": rng.choice([m12, m16])(), "p": [rng.randint(-90, 90) for _ in range(3)],
                      "box": lo + [x + rng.randint(0, 60) for x in lo], "ea": rng.choice([0, 0, 20, 40, -20, -40]), "eb": rng.choice([0, 0, 20, 40, -20, -40])})
    for _ in range(20000 if c.thorough else 1500):
        k = rng.choice([1, 64, 1000, 100000])
        m = [rng.randint(-k, k) for _ in range(12)]
        if rng.random() < .5:
            cases.append({"op": "parsemat", "m": m})
            continue
        m = [64 * (x % 2000 - 1000) if rng.random() < .7 else 8 * x for x in m]
        words = [("%.12g" % (x / 64.0)) if rng.random() < .7 else "%+.12e" % (x / 64.0) for x in m]
        kind = rng.choice(["ok", "ok", "few", "many", "bad", "none", "comma"])
        good = kind == "ok"
        if kind == "few":
            words = words[:rng.randint(1, 11)]
        if kind == "many":
            words += ["0"] * rng.choice([1, 4, 12])
        if kind == "bad":
            words[rng.randrange(12)] = rng.choice(["x", "1,5", "--1", "0x", "1e", ".", "+", "#", "1 .0"[0:1] + "_", "1e99"])
        if kind == "none":
            words = []
        sep = "," if kind == "comma" else None
        text = rng.choice(["", " ", "\n"]) + "".join(w + (sep or rng.choice([" ", "  ", "\t", "\n "])) for w in words)
        cases.append({"op": "parsemat", "text": text, "good": good, "vals": m})

    def rec(cs):
        return [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    c.judge("Tr_Geo", rec(cases), rerun=rec)
    c.sample(cases[0], cases[-1])
    c.assumptions.append("entries are integers times a power of two, or dyadic fractions that float32 represents exactly, so that exact equality is the right comparison")
