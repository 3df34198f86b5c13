"""C23: every string within one or two edits of the accepted forms (TLC), random strings and random bytes (judged by TLC)."""


def check(c):
    if c.thorough:
        sets = [("1", '{"0", "f", "F", "g", "G", "/", ":", "@", "`", "-", "{", "}", " ", "u", "K", "\\t", "é"}'), ("2", '{"0", "g", "-"}')]
    else:
        sets = [("1", '{"0", "f", "F", "g", "G", "/", ":", "@", "`", "-", "{", "}", " ", "u", "é"}')]
    for depth, chars in sets:
        lines, _, _ = c.tlc("MC_Uuid", consts={"Depth": depth, "Chars": chars})
        beh = c.emitted(lines)
        c.cov["accepted"] = c.cov.get("accepted", 0) + sum(b["ok"] for b in beh)
        groups = [beh[i:i + 100] for i in range(0, len(beh), 100)]

        def v(b):
            return "accept" if b["ok"] else "reject"
        c.replay([{"in": {"ss": [b["s"] for b in g]}, "exp": {"rs": [{"ok": b["ok"], "dec": v(b), "val": v(b)} for b in g]}}
                  for g in groups], "uuid")
        c.sample(beh[0], beh[len(beh) // 3])
    rng = c.rng
    cases = []
    hexd = "0123456789abcdefABCDEF"

    def hx(n):
        return "".join(rng.choice(hexd) for _ in range(n))

    def canon():
        return "-".join(hx(n) for n in (8, 4, 4, 4, 12))
    for _ in range(400 if c.thorough else 60):
        ss = []
        for _ in range(40):
            s = rng.choice([canon(), "urn:uuid:" + canon(), "uRn:uUiD:" + canon(), "{" + canon() + "}", hx(32), hx(rng.randint(0, 50)),
                            "".join(rng.choice(hexd + "-{}:urn gz") for _ in range(rng.choice([32, 36, 38, 45])))])
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
                if s:
                    i = rng.randrange(len(s))
                    s = s[:i] + rng.choice(["", "-", "x", "0", "\u00e9", "{", s[i] * 2, "_", "\u212a"]) + s[i + 1:]
            ss.append(s)
        cases.append({"op": "uuid", "ss": ss})
    # generation: every value of every byte, then random bytes, with readers that return little at a time
    every = []
    for pos in range(16):
        for v in range(256):
            b = [(37 * i + 11 * v) % 256 for i in range(16)]
            b[pos] = v
            every += b
    for i in range(0, len(every), 16 * 128):
        cases.append({"op": "uuidnew", "bytes": every[i:i + 16 * 128], "chunk": rng.choice([0, 1, 3, 7, 15])})
    for _ in range(200 if c.thorough else 20):
        cases.append({"op": "uuidnew", "bytes": [rng.randrange(256) for _ in range(16 * 20)], "chunk": rng.choice([0, 1, 5, 16])})

    def rec(cs):
        return [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    c.judge("Tr_Uuid", rec(cases), rerun=rec)
    c.cov["exhaustive"] = True
