"""C12 to C17: validation against the specification."""
from collections import Counter
import validgen


def bag(l):
    return Counter((e["x"], e["p"], e["c"]) for e in l)


def enumerate(c, area, tlc_area, depth):
    """Every model within depth edits of a valid one; all of what is reported is compared."""
    lines, _, _ = c.tlc("MC_Valid", consts={"Area": '"%s"' % tlc_area, "Depth": str(depth)})
    seen, beh = set(), []
    import json
    for b in c.emitted(lines):
        k = json.dumps(b["m"], sort_keys=True)
        if k not in seen:
            seen.add(k)
            beh.append(b)
    del lines
    return beh


def replay(c, beh, area, box=False):
    """Validates the models of the behaviours; those that differ anywhere are judged for what area is about."""
    mk = lambda b: {"op": "validate", "m": b["m"], "area": area, "box": box}
    res = c.run([mk(b) for b in beh])
    odd = []
    for b, r in zip(beh, res):
        if "fail" in r or bag(r["errs"]) != bag(b["exp"]) or r["nil"] != (not b["exp"]):
            if b.get("pin") and "fail" not in r and bag(r["errs"]) == bag(b["alt"]) and r["nil"] == (not b["alt"]):
                c.known_hit.setdefault("clipping-rule", mk(b))
            else:
                odd.append(mk(b))
    c.cov["traces_validated_against_impl"] += len(beh) - len(odd)
    c.sample(beh[0]["m"], beh[len(beh) // 2])
    judge(c, odd[:300])
    if len(odd) > 300:
        judge(c, c.rng.sample(odd, 300))


def near(c, area, tlc_area, depth):
    beh = enumerate(c, area, tlc_area, depth)
    c.cov["clean_" + tlc_area] = sum(not b["exp"] for b in beh)
    replay(c, beh, area)


def judge(c, cases):
    def rec(cs):
        return [{"case": k, "out": o} for k, o in zip(cs, c.run(cs))]
    if cases:
        recs = rec(cases)
        c.judge("Tr_Valid", recs, rerun=rec)
        return recs
    return []


def random(c, area, focus, n, box=False):
    cases = []
    for _ in range(n):
        g = validgen.Gen(c.rng, c.rng.choice([0, 0, .01, .03, .03, .1]), c.rng.choice([focus, focus, focus + "c", "cmsbp"]), c.rng.choice([2, 3, 4]))
        cases.append({"op": "validate", "m": g.model(), "area": area, "box": box})
    recs = judge(c, cases)
    c.cov["random_clean"] = c.cov.get("random_clean", 0) + sum(r["out"].get("nil") is True for r in recs)
    c.cov.setdefault("codes", {})
    for k, v in Counter(e["c"] for r in recs for e in r["out"].get("errs", [])).items():
        c.cov["codes"][k] = c.cov["codes"].get(k, 0) + v
    if recs:
        c.sample(recs[0])
    return recs


# ------------------------------------------------------------ large models
def lists(v, want, parent=None):
    """The lists of the kinds in a model: (kind, list, what has it)."""
    if isinstance(v, list):
        for x in v:
            yield from lists(x, want)
    elif isinstance(v, dict):
        for k, x in v.items():
            if k in want and isinstance(x, list) and x:
                yield k, x, v
            if isinstance(x, (list, dict)):
                yield from lists(x, want)


def grow(rng, m, want, n):
    """Repeats an element of some list of the kinds n more times; at its ends indices may be just outside."""
    found = list(lists(m, want))
    if not found:
        return False
    k, l, o = rng.choice(found)
    i = rng.choice([0, 0, rng.randrange(len(l))])
    l[i:i] = [l[i]] * n
    if isinstance(l[-1], int) and rng.random() < .5:  # an index or a number of a resource
        l[-1] = rng.choice([l[-1] + 1, 1000, 2000000000, (1 << rng.choice([8, 16, 24, 30])) + l[-1] % (1 << 24)])
    if k == "vs" and "ts" in o:
        for t in o["ts"][-2:]:
            if rng.random() < .4:
                t["v"] = [0, rng.choice([1, n, 65536 % len(l)]), rng.choice([len(l), len(l) - 1, len(l) - 1])]
        for b in [b for a in o["any"] if a["k"] == "bl" for b in a["beams"][-2:]]:
            if rng.random() < .4:
                b["v"] = [rng.choice([0, 65535 % len(l)]), rng.choice([len(l), len(l) - 1, 65536 % len(l)])]
    if k == "beams":
        for s in o["sets"]:
            if s["refs"] and rng.random() < .7:
                s["refs"][-1] = rng.choice([len(l), len(l) - 1, len(l) - 1])
    if k in ("mats", "cs", "vals", "ms"):  # the triangles, objects and composites that use the group
        for _, _, u in lists(m, {"p", "idx"}):
            for f in ("p", "idx"):
                if f in u and u[f] and (u.get("pid") or u.get("mid")) == o["id"] and rng.random() < .5:
                    u[f] = [rng.choice([len(l), len(l) - 1, len(l) - 1]) for _ in u[f]]
        for _, l2, u in lists(m, {"objects"}):
            for ob in l2:
                if ob["pid"] == o["id"] and rng.random() < .5:
                    ob["pidx"] = rng.choice([len(l), len(l) - 1])
    if k in ("ts", "segs", "vs", "beams") and n < 5000 and rng.random() < .3:  # one that breaks a rule, at the end
        l[-1] = dict(l[-1], v=rng.choice([[1, 1, 1], [1, 0, 2000000000]])[:len(l[-1]["v"])]) if k in ("ts", "beams") else l[-1]
    return True


SIZES = {"objects": 300, "items": 300, "list": 300, "meta": 300, "md": 300, "assets": 150, "rels": 200, "atts": 200, "slices": 400, "refs": 300, "ps": 600, "pids": 300}


def large(c, area, focus, want, sizes={}):
    """Models with long lists, of 300 to 70000 elements."""
    cases = []
    for k in sorted(want):
        for n in [sizes.get(k, SIZES.get(k, 700))] * (8 if c.thorough else 3) + ([] if k in SIZES else [66000]):
            for _ in range(40):
                m = validgen.Gen(c.rng, 0 if n > 5000 else c.rng.choice([0, 0, .02]), focus, 3).model()
                if grow(c.rng, m, {k}, n):
                    cases.append({"op": "validate", "m": m, "area": area, "box": False})
                    break
    recs = judge(c, cases)
    c.cov["large models"] = len(recs)
    c.cov["large and clean"] = sum(r["out"].get("nil") is True for r in recs)
