"""C15: every lattice within edits of a valid one (TLC) and random ones (judged by TLC)."""
import valid


def check(c):
    valid.near(c, "C15", "lat", 2)
    valid.random(c, "C15", "b", 20000 if c.thorough else 1500)
    valid.random(c, "C15", "cmsbp", 5000 if c.thorough else 300)
    valid.large(c, "C15", "b", {"beams", "sets", "refs", "vs"})
    c.cov["exhaustive"] = True
