"""C14: every set of stacks, objects and references within edits of a valid one (TLC) and random ones (judged by TLC)."""
import valid


def check(c):
    valid.near(c, "C14", "slice", 2)
    valid.random(c, "C14", "s", 20000 if c.thorough else 1500)
    valid.random(c, "C14", "sp", 10000 if c.thorough else 700)
    valid.large(c, "C14", "s", {"slices", "refs", "ps", "segs", "vs", "list", "items"})
    c.cov["exhaustive"] = True
