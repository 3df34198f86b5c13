"""C16: identifiers within edits of a valid model, every assignment of present, empty, invalid and absent ones filled in (TLC), random models (judged by TLC)."""
import valid
import validgen


def check(c):
    valid.near(c, "C16", "prod", 2)
    valid.random(c, "C16", "p", 15000 if c.thorough else 1000)
    lines, _, _ = c.tlc("MC_Fill")
    ms = c.emitted(lines)
    cases = [{"op": "fillids", "m": m, "times": 1 + i % 3} for i, m in enumerate(ms if c.thorough else ms[::4] + ms[1::16])]
    for _ in range(8000 if c.thorough else 800):
        g = validgen.Gen(c.rng, c.rng.choice([0, .05, .3, .6]), c.rng.choice(["p", "ps", "c", "cmsbp"]), c.rng.choice([2, 4]))
        cases.append({"op": "fillids", "m": g.model(), "times": c.rng.randint(1, 3)})
    big = validgen.Gen(c.rng, 0, "c", 1).model()
    o = {"id": 1, "name": "", "pn": "", "thumb": "", "pid": 0, "pidx": 0, "type": "model", "meta": {"md": [], "attrs": []}, "mesh": [], "comps": [], "attrs": []}
    big["res"]["objects"] = [dict(o, id=i + 1, comps=[{"attrs": [], "list": [{"oid": 1, "tr": [], "attrs": []}] * 3}]) for i in range(300)]
    cases.append({"op": "fillids", "m": big, "times": 2})
    valid.judge(c, cases)
    valid.large(c, "C16", "p", {"items", "list", "objects"})
    c.cov["filled"] = len(cases)
    c.cov["exhaustive"] = True
