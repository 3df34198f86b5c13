"""C07: the loader of parts under every schedule, and parts with any content at the same time."""
import docgen


def sched(c, n, ends, rootends, levels, cancels="FALSE", simulate=None):
    lines, _, _ = c.tlc("MC_Loader", cfg="MC_Loader_emit.cfg", consts={"N": str(n), "Ends": ends, "RootEnds": rootends, "Stricts": "BOOLEAN", "Cancels": cancels, "Emits": "TRUE", "Levels": levels},
                        **({"simulate": simulate, "depth": 60} if simulate else {}))
    return c.emitted(lines)


def case(r, b):
    n = len(b["ends"])
    parts = []
    for e in b["ends"]:
        size = r.choice([600, 1000, 1500])
        # the place of the fault also gives the levels of a part without one
        parts.append({"n": size, "fault": r.choice(["syntax", "read"]) if e == "hard" else e, "at": r.choice([size // 2, size // 3, size - 300])})
    return {"op": "load", "parts": parts, "strict": b["strict"], "sched": b["sched"]}


def together(c, exe):
    """Documents with any content in many parts, several at the same time, under the race detector: what is decoded is
    what the specification says of each."""
    r = c.rng
    groups = []
    for _ in range(300 if c.thorough else 50):
        ks = []
        for _ in range(r.choice([1, 2, 3])):
            bad = r.choice([0, 0, .1])
            ps = docgen.parts(r, bad=bad, odd=.05, size=r.choice([1, 2]), ext=r.choice([.5, 1]))
            while len(ps) < 2 or r.random() < .4:
                ps = docgen.parts(r, bad=bad, odd=.05, size=r.choice([1, 2]), ext=r.choice([.5, 1]))
            ks.append({"op": "dec", "strict": bad == 0 and r.random() < .5, "seeds": [r.randrange(1, 1 << 30) for _ in range(2)], "parts": ps})
        groups.append(ks)
    of = {}
    for g in groups:
        for k in g:
            of[id(k)] = g

    def f(gs):
        return c.run([{"op": "par", "cases": g, "times": 2} for g in gs], exe=exe, timeout=120, env={"GORACE": "halt_on_error=1 exitcode=66"})

    def spread(g, o):
        return [{"case": k, "out": o["outs"][2 * i + j] if "outs" in o else o} for i, k in enumerate(g) for j in range(2)]

    def again(cs):
        out = []
        for k in cs:
            best = None
            for _ in range(6):  # whichever of the runs differs
                got = [x["out"] for x in spread(of[id(k)], f([of[id(k)]])[0]) if x["case"] is k]
                best = got[0] if best is None else best
                odd = [x for x in got if x != first[id(k)]]
                if odd or "fail" in best:
                    best = odd[0] if odd else best
                    break
            out.append({"case": k, "out": best})
        return out
    recs = [x for g, o in zip(groups, f(groups)) for x in spread(g, o)]
    # The same alone is what it is compared with when a difference is looked for again.
    alone = c.run([x["case"] for x in recs])
    first = {id(x["case"]): a for x, a in zip(recs, alone)}
    c.judge("Tr_Dec", recs, rerun=again)
    c.cov["decoded together"] = len(recs)


def check(c):
    r, t = c.rng, c.thorough
    every = '{"ok", "content", "hard"}'
    # The specification: every interleaving, with the invariants and termination.
    for n, cancels in [(1, "TRUE"), (2, "TRUE")] + ([(3, "FALSE"), (3, "TRUE")] if t else [(3, "FALSE")]):
        c.tlc("MC_Loader", cfg="MC_Loader_all.cfg", consts={"N": str(n), "Ends": every, "RootEnds": every if n < 3 else '{"ok", "hard"}', "Stricts": "BOOLEAN", "Cancels": cancels, "Emits": "FALSE", "Levels": "1..3" if n < 3 else "2..3"})
    beh = sched(c, 1, every, every, "1..3", "TRUE")
    two = sched(c, 2, every, '{"ok", "content"}', "{1, 3}" if not t else "1..3")
    three = sched(c, 3, every, '{"ok"}', "{2, 3}", simulate=4000 if t else 800)
    more = sched(c, 3, every, every, "1..3", "TRUE", simulate=4000 if t else 600)
    many = sched(c, 6, '{"ok", "ok", "hard"}', '{"ok"}', "{1, 3}", simulate=1500 if t else 200)
    pick = lambda xs, k: xs if len(xs) <= k else r.sample(xs, k)
    uniq = lambda xs: list({str(x): x for x in xs}.values())
    beh = pick(beh, 600) + pick(two, 6000 if t else 800) + pick(uniq(three), 6000 if t else 700) + pick(uniq(more), 6000 if t else 900) + pick(uniq(many), 2000 if t else 200)
    cases = [case(r, b) for b in beh]
    f = lambda cs: [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    recs = f(cases)
    kinds = {}
    for x in recs:
        k = x["out"].get("result", {}).get("kind", "none")
        kinds[k] = kinds.get(k, 0) + 1
    c.cov["results"] = kinds
    c.judge("Tr_Loader", recs, rerun=f)
    c.sample(cases[0], recs[0]["out"])
    # The same under the race detector, with a few schedules and without any.
    exe = c.build(race=True)
    sub = pick(cases, 200 if t else 48) + [dict(k, sched=[]) for k in pick(cases, 200 if t else 48)]
    g = lambda cs: [{"case": k, "out": o} for k, o in zip(cs, c.run(cs, exe=exe, timeout=60, env={"GORACE": "halt_on_error=1 exitcode=66"}))]
    c.judge("Tr_Loader", g(sub), rerun=g)
    c.cov["under_race_detector"] = len(sub)
    together(c, exe)
    c.cov["exhaustive"] = True
