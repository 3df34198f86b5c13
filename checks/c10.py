"""C10: every way in which the destination, or the data of an attachment, can fail while a model is written."""
import faults


def check(c):
    r, t = c.rng, c.thorough
    shapes = [({"pm": faults.model(r), "sizes": [], "vertices": 0}), ({"pm": faults.model(r, 3, 2), "sizes": [9000, 100, 5000], "vertices": 400}),
              ({"pm": faults.model(r, 1, 0), "sizes": [30000], "vertices": 0}), ({"pm": faults.model(r, 0, 1), "sizes": [], "vertices": 1500}), ({"pm": faults.model(r, 0, 0), "sizes": [], "vertices": 0})]
    if t:
        shapes += [({"pm": faults.model(r, r.randint(0, 5), r.randint(0, 4)), "sizes": [r.choice([0, 1, 100, 4096, 8192, 40000]) for _ in range(5)], "vertices": r.choice([0, 10, 300, 3000])}) for _ in range(40)]
    cases, plans = [], {}
    for s in shapes:
        # As many calls as the destination really gets.
        w = c.run([dict(s, op="writes")])[0]["sizes"]
        n = len(w)
        for mf in ([1, 2] if n <= 8 or t and n <= 12 else [1]):
            if (n, mf) not in plans:
                lines, _, _ = c.tlc("MC_Pipe", consts={"Total": str(2 * n), "Chunk": "2", "MaxFaults": str(mf), "Modes": '{"none", "part", "all"}', "SourceFaults": "FALSE"})
                plans[n, mf] = c.emitted(lines)
            for p in plans[n, mf]:
                cases.append(dict(s, op="wfault", plan=p["plan"], sticky=r.random() < .5, att=[]))
        # and one call more than the model of the buffer knows about
        cases.append(dict(s, op="wfault", plan=["ok"] * n + ["none"], sticky=True, att=[]))
        cases.append(dict(s, op="wfault", plan=[], sticky=False, att=[]))
        for i in range(len(s["pm"]["atts"])):
            size = s["sizes"][i] if i < len(s["sizes"]) else 12
            for k in sorted({0, 1, size // 2, max(0, size - 1), size} | ({r.randrange(size + 1) for _ in range(20)} if t else set())):
                cases += [dict(s, op="wfault", plan=[], sticky=False, att=[i, k, wi]) for wi in (True, False) for _ in range(2)]
    # The specification on its own: other chunks, and failing sources.
    for total, chunk, mf in [(9, 4, 2), (10, 3, 3), (7, 7, 1), (5, 1, 4)]:
        c.tlc("MC_Pipe", consts={"Total": str(total), "Chunk": str(chunk), "MaxFaults": str(mf), "Modes": '{"none", "part", "all"}', "SourceFaults": "TRUE"})
    # What a stream fails with means nothing; only the destination can fail with io.EOF (-1).
    for i, x in enumerate(cases):
        x["kind"] = r.choice([-1 if not x["att"] else 0, 0, 1, r.randrange(16)]) if i % 2 else i // 2 % 16
    recs = faults.judge(c, cases)
    c.cov["write_faults"] = {"runs": len(cases), "failed": sum(1 for x in recs if x["out"].get("failed")), "calls": max(x["out"].get("calls", 0) for x in recs)}
    c.sample(cases[3])
    pre = []
    for s in shapes:
        total = c.run([dict(s, op="writes")])[0]["total"]
        step = 1 if t or total < 12000 else total // 6000
        # several cases share the lengths
        k = 8 if total > 2000 else 1
        pre += [dict(s, op="prefixes", step=step * k, **{"from": f * step}) for f in range(k)]
    recs = faults.judge(c, pre, 600)
    c.cov["prefixes"] = sum(x["out"].get("tried", 0) for x in recs)
    c.cov["exhaustive"] = True
