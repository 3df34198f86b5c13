"""C26: all short programs of error operations (TLC) and long random ones (judged by TLC)."""


def gen(rng, n):
    prog, st, leaf = [], 0, 0
    known = ["unexpected EOF", "short write", "file already closed", "zip: not a valid zip file", "context canceled", "context deadline exceeded", "try again",
             "required field 'id' is not set", "error parsing required attribute 'x1'", "error parsing optional attribute 'p:b'", "resource ID MUST be greater than zero", "MUST NOT contain recursive references"]
    rng.shuffle(known)
    nils = rng.choice([1, 1, 4])
    for _ in range(n):
        k = rng.choice(["leaf"] * 4 + ["app1"] + ["nil"] * nils + ["app2"] * 3 + ["app3"] * 3 + ["appn"] * 2 + ["wrap", "wrapi", "wrapi", "wrapp", "turn", "say"])
        if k == "appn":
            o_n = rng.randint(1, 7)
        need = {"appn": o_n if k == "appn" else 0, "leaf": 0, "nil": 0, "app2": 2, "app3": 3}.get(k, 1)
        if st < need or (need == 0 and st > 6):
            continue
        o = {"o": k}
        if k == "appn":
            o["n"] = need
        if k == "leaf":
            leaf += 1
            o["n"] = "e%d." % leaf if rng.random() < .7 or not known else known.pop()
        if k.startswith("wrap"):
            o["n"] = rng.choice(["model", "object", "x", "build", "a/b", "", "item[2]", "x:y", "Path: "])
        if k == "wrapi":
            o["i"] = rng.choice([0, 1, 7, 10, 123456, 1 << 20, 2147483646])
        if k == "wrapp":
            o["p"] = rng.choice(["/3D/a.model", "", "/b.model"])
        st += 1 - need
        prog.append(o)
    return prog


def many(rng):
    """Large collections, built at once or one by one, and kept through everything."""
    n = rng.choice([20, 63, 64, 65, 100, 257])
    prog = []
    if rng.random() < .5:
        for i in range(n):
            prog.append({"o": "leaf", "n": "e%d." % i})
        prog.append({"o": "appn", "n": n})
    else:
        prog.append({"o": "leaf", "n": "e0."})
        for i in range(1, n):
            prog += [{"o": "leaf", "n": "e%d." % i}, {"o": "app2"}]
            if rng.random() < .02:
                prog.append({"o": "wrapi", "n": "object", "i": i})
    more = [{"o": "say"}, {"o": "wrapi", "n": "x", "i": 9999999}, {"o": "turn"}, {"o": "say"}, {"o": "wrapp", "n": "model", "p": "/a.model"}, {"o": "app1"}]
    return prog + rng.sample(more, rng.randint(1, len(more)))


def check(c):
    lines, _, _ = c.tlc("MC_Errs", consts={"Depth": 7 if c.thorough else 5, "Width": 4})
    beh = c.emitted(lines)
    c.replay(beh, "errs")
    c.sample(beh[0], beh[len(beh) // 2])
    n = 20000 if c.thorough else 1500
    cases = [{"op": "errs", "prog": gen(c.rng, c.rng.randint(6, 30))} for _ in range(n)]

    cases += [{"op": "errs", "prog": many(c.rng)} for _ in range(300 if c.thorough else 30)]

    def rec(cs):
        return [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    recs = rec(cases)
    c.judge("Tr_Errs", recs, rerun=rec)
    c.sample(recs[0])
    c.cov["exhaustive"] = True
