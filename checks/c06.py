"""C06: what is not a well-formed document is rejected, and everything comes to an end."""
import docgen


def replay_wf(c, consts):
    lines, _, _ = c.tlc("MC_Wf", consts=consts, timeout=500)
    beh = c.emitted(lines)
    for i, b in enumerate(beh):
        b["strict"], b["child"] = i % 3 == 0, i % 4 == 1

    def mk(b):
        return {"doc": b["doc"], "strict": b["strict"], "child": b["child"]}

    def same(b, r):
        if b["exp"] == "any":
            return True
        if b["exp"] == "ok":
            return r["err"] != "other" and r["um"] != "other"
        return (r["err"] != "" if b["strict"] else r["err"] == "other") and (b["child"] or r["um"] == "other")
    c.replay(beh, "raw", mk=mk, compare=same)
    c.sample(*beh[1000:1003])


def replay_odd(c, deep):
    """Everything inside everything: no crash, no hang and no error about the form."""
    lines, _, _ = c.tlc("MC_Odd", consts={"Deep": "TRUE" if deep else "FALSE"}, timeout=500)
    beh = c.emitted(lines)
    if not c.thorough:
        tw = [b for b in beh if b.get("tw")]
        beh = tw + c.rng.sample([b for b in beh if not b.get("tw")], 8000)
    for i, b in enumerate(beh):
        b["strict"], b["child"] = i % 3 == 0, i % 4 == 1

    def mk(b):
        t = {"path": "/3D/c.model", "tree": b["tree"]}
        root = {"path": "/3D/3dmodel.model", "tree": docgen.S("core", "model", docgen.Doc(c.rng).decls())}
        return {"strict": b["strict"], "seeds": [], "parts": [root, t] if b["child"] else [t]}

    def same(b, r):
        return len(r["outs"]) == 1 and all(e["x"] for e in r["outs"][0]["errs"])
    c.replay(beh, "dec", mk=mk, compare=same)


def damage(rng, s):
    """A document with a few pieces removed, repeated, exchanged or inserted."""
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        i = rng.randrange(len(s) + 1)
        j = min(len(s), i + rng.choice([1, 1, 2, 5, 20, 200]))
        k = rng.randrange(6)
        if k == 0:
            s = s[:i] + s[j:]
        elif k == 1:
            s = s[:i] + s[i:j] + s[i:]
        elif k == 2:
            s = s[:i]
        elif k == 3:
            s = s[:i] + rng.choice(["<", ">", "&", "\"", "'", "/", "<a>", "</a>", "<b/>", "<!--", "-->", "<![CDATA[", "]]>", "<?p ?>", "&amp;", "&x;", "&#65;", "&#x;", " ", "=", "k='v'", "<!-- c -->", "</model>"]) + s[i:]
        elif k == 4:
            q = s.find("</", i)
            if q >= 0:
                e = s.find(">", q)
                s = s[:q] + rng.choice(["", "</other>", s[q:e + 1] * 2, "</zz:" + s[q + 2:e + 1].rpartition(":")[2], "</" + s[q + 2:e + 1].upper()]) + s[e + 1:]
        else:
            a, b = sorted((rng.randrange(len(s) + 1), rng.randrange(len(s) + 1)))
            t = rng.choice(["<", ">", "/>", "\"", "</"])
            p, q = s.find(t, a), s.find(">", b)
            if 0 <= p and 0 <= q:
                s = s[:p] + s[p + len(t):]
        if not s:
            break
    return s


def check(c):
    rng = c.rng
    replay_wf(c, {"N": 2, "Full": "TRUE"})
    replay_wf(c, {"N": 3, "Full": "TRUE" if c.thorough else "FALSE"})
    replay_odd(c, False)
    if c.thorough:
        replay_odd(c, True)

    rec = lambda cs: [{"case": k, "out": o} for k, o in zip(cs, c.run(cs, timeout=60))]
    # Random documents, whole and damaged, and all their prefixes.
    n = 3000 if c.thorough else 400
    sers = [{"op": "ser", "seed": rng.choice([0, rng.randrange(1, 1 << 30)]), "tree": docgen.parts(rng, odd=rng.choice([.05, .3]), size=rng.choice([1, 1, 2]), ext=rng.choice([0, .5]))[0]["tree"]}
            for _ in range(n)]
    docs = [o["doc"] for o in c.run(sers)]
    cases = []
    for i, d in enumerate(docs):
        if i % 3 == 0 and d.isascii() and len(d) < 3000:
            cases.append({"op": "raw", "doc": d, "strict": False, "child": False, "prefixes": True})
        else:
            cases.append({"op": "raw", "doc": damage(rng, d), "strict": rng.random() < .3, "child": rng.random() < .3})
    # Deep and long documents.
    big = 200000 if c.thorough else 30000
    core = "<model xmlns=\"http://schemas.microsoft.com/3dmanufacturing/core/2015/02\">"
    for open_, close in [("<a>", "</a>"), ("<thing xmlns=\"http://x.org/one\">", "</thing>"), ("<resources>", "</resources>"), ("<model>", "</model>"), ("<build>", "</build>")]:
        for missing in (0, 1):
            cases.append({"op": "raw", "rep": [[core, 1], [open_, big], [close, big - missing], ["</model>", 1]], "strict": False, "child": missing == 1})
    for mid in [[["<object id=\"1\"/>", big // 10]], [["<object id=\"1\"><mesh><vertices>", 1], ["<vertex x='1' y='2' z='3'/>", big // 10], ["</vertices></mesh></object>", 1]],
                [["<a", 1], [" k='v'", 1], [">", 1], ["t", big // 10], ["<!-- c -->", big // 10], ["</a>", 1]],
                [["<object id=\"1\"><components>", 300], ["</components></object>", 300]], [["<object id=\"1\"><mesh>", 300], ["</mesh></object>", 299]]]:
        cases.append({"op": "raw", "rep": [[core, 1], ["<resources>", 1]] + mid + [["</resources>", 1], ["</model>", 1]], "strict": rng.random() < .5, "child": False})
    c.judge("Tr_Wf", rec(cases), rerun=rec)
    c.sample(cases[1])

    # Damaged packages only have to come to an end.
    sc = [{"op": "scramble", "docs": [rng.choice(docs) for _ in range(rng.choice([1, 1, 2, 3]))], "seed": rng.randrange(1 << 30), "n": 20, "store": rng.random() < .4}
          for _ in range(2000 if c.thorough else 150)]
    res = c.run(sc, timeout=60)
    for k, o in zip(sc, res):
        if o.get("fail") not in (None, "skipped"):
            c.mismatch(k, {"n": k["n"]}, o, same=lambda k, r: "fail" not in r)
    c.cov["damaged_packages"] = {"tried": sum(o.get("n", 0) for o in res), "accepted": sum(o.get("accepted", 0) for o in res)}
    c.cov["exhaustive"] = True
