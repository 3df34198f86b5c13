"""C08: the context ends at every point of a decode or an import."""

# what the parts consist of, see harness/load.go
STYLES = ["", "object", "ignored", "unknown", "comp", "tri", "deep", "deeper", "comment", "pi", "base", "color"]


def check(c):
    r, t = c.rng, c.thorough
    places = []
    for sizes, period in [("<<5>>", "2"), ("<<3, 4>>", "2"), ("<<3, 2, 3>>", "2"), ("<<2, 5>>", "3")] + ([("<<3, 3, 3, 3>>", "2"), ("<<7, 7, 7>>", "3")] if t else []):
        lines, _, _ = c.tlc("MC_Cancel", consts={"Sizes": sizes, "Period": period})
        n = [int(x) for x in sizes[2:-2].split(",")]
        # who had come how far when the context ended
        for e in c.emitted(lines):
            for k, a in enumerate(e["at"]):
                p = (len(n), k + 1, round(1000 * a / n[k]) if a < n[k] else 999)
                if p not in places:
                    places.append(p)
    cases = []
    for n, who, off in places:
        for _ in range(3 if t else 1):
            size = [r.choice([30000, 45000]) if r.random() < .8 or k == who - 1 else r.choice([10, 1000]) for k in range(n)]
            parts = [{"n": s, "fault": "ok", "at": s // 2} for s in size]
            cases.append({"op": "cancel", "parts": parts, "att": 0, "strict": r.random() < .5, "who": who, "off": min(999, max(0, off + r.randint(-9, 9))), "deadline": r.random() < .5})
    # before the start, and while what is not a model part is read
    for n in (1, 2, 3):
        for size in (1, 600, 30000):
            for strict in (True, False):
                for dl in (True, False):
                    parts = [{"n": size, "fault": "ok", "at": 1} for k in range(n)]
                    cases.append({"op": "cancel", "parts": parts, "att": 0, "strict": strict, "who": -1, "off": 0, "deadline": dl})
        for off in ([999, 998, 990, 900, 500, 100, 10, 1, 0] if not t else range(0, 1000, 7)):
            parts = [{"n": r.choice([400, 30000]), "fault": "ok", "at": 1} for k in range(n)]
            cases.append({"op": "cancel", "parts": parts, "att": r.choice([0, 3000000]), "strict": r.random() < .5, "who": 0, "off": off, "deadline": r.random() < .5})
    # the whole length of one part
    for st in STYLES:
        for n in (1, 2):
            for k in range(6):
                parts = [{"n": 40000, "fault": "ok", "at": 1, "style": st} for i in range(n)]
                cases.append({"op": "cancel", "parts": parts, "att": 0, "strict": k % 2 == 0, "who": n, "off": r.randrange(100, 900), "deadline": r.random() < .5})
    for k in range(400 if t else 60):
        n = r.choice([1, 2, 3])
        who = r.randint(1, n)
        parts = [{"n": 40000 if i == who - 1 else r.choice([10, 2000]), "fault": "ok", "at": 1} for i in range(n)]
        cases.append({"op": "cancel", "parts": parts, "att": 0, "strict": r.random() < .5, "who": who, "off": r.randrange(1000), "deadline": r.random() < .5})
    for k in cases:
        for p in k["parts"]:
            p.setdefault("style", r.choice(STYLES))
    for text in (True, False):
        for n in (1, 500, 2500, 30000, 60000):
            for at in sorted({-1, 0, 1, n // 3, n // 2, n - 999 if n > 999 else 0, n - 1}) + [r.randrange(n) for _ in range(60 if t else 8)]:
                cases.append({"op": "stlcancel", "text": text, "n": n, "at": at, "chunk": r.choice([0, 0, 77, 1000]), "deadline": r.random() < .5})
    f = lambda cs: [{"case": k, "out": o} for k, o in zip(cs, c.run(cs, timeout=60))]
    recs = f(cases)
    c.judge("Tr_Cancel", recs, rerun=f)
    k = {}
    for x in recs:
        s = "%s %s" % (x["case"]["op"], x["out"].get("result"))
        k[s] = k.get(s, 0) + 1
    c.cov["results"] = k
    c.cov["most_after_the_end"] = max([max(x["out"].get("after", [0])) for x in recs if x["out"].get("ended")])
    c.sample(*recs[:3])
    c.cov["exhaustive"] = True
