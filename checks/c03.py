"""C03: documents rich in unknown, nested and misplaced content are decoded and encoded again."""
import docgen
import modelgen


def check(c):
    rng = c.rng
    f = lambda cs: [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    cases = []
    for i in range(1800 if c.thorough else 400):
        cases.append({"op": "rt", "prec": rng.choice([-1, -1, 4]), "seed": rng.choice([0, rng.randrange(1, 1 << 30)]),
                      "parts": docgen.parts(rng, odd=rng.choice([.1, .2, .35]), size=rng.choice([1, 2, 3]), ext=rng.choice([0, .5]), clean=True)})
    c.judge("Tr_RT", f(cases), rerun=f)
    c.sample(cases[0])
    more = []
    for i in range(1800 if c.thorough else 300):
        g = modelgen.Gen(rng, ext=rng.choice([0, .5]), unk=rng.choice([.4, 1]), size=rng.choice([1, 2, 3]), undeclared=rng.choice([0, .5, 1]))
        more.append({"op": "enc", "model": g.model(), "prec": 4, "marshal": True})
    c.judge("Tr_Enc", f(more), rerun=f)
