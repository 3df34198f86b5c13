"""C12: every model within edits of a valid one (TLC) and random ones (judged by TLC)."""
import valid

DOC = ('<model xmlns="http://schemas.microsoft.com/3dmanufacturing/core/2015/02" xmlns:v="http://vendor.example/v" unit="millimeter">'
       '<metadata name="v:Foo">x</metadata><resources/><build/></model>')


def check(c):
    d = 2
    valid.near(c, "C12", "core", d)
    valid.near(c, "C12", "pack", d)
    valid.random(c, "C12", "c", 20000 if c.thorough else 1500)
    valid.random(c, "C12", "cmsbp", 8000 if c.thorough else 400)
    valid.large(c, "C12", "c", {"vs", "ts", "mats", "list", "objects", "items", "meta", "md", "assets", "rels", "atts"})
    # a decoded prefixed name, whose prefix is declared
    r = c.run([{"op": "decval", "doc": DOC}])[0]
    if any(e["c"] == "MetadataNamespace" for e in r["errs"]):
        c.known_hit["decoded-metadata-prefix"] = {"op": "decval", "doc": DOC}
    elif r["errs"]:
        c.mismatch({"op": "decval", "doc": DOC}, {"errs": []}, r)
    c.cov["exhaustive"] = True
