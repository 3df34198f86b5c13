"""C13: every set of material resources within edits of a valid one (TLC) and random ones (judged by TLC)."""
import valid


def check(c):
    valid.near(c, "C13", "mat", 2)
    valid.random(c, "C13", "m", 20000 if c.thorough else 1500)
    valid.random(c, "C13", "cmsbp", 5000 if c.thorough else 300)
    valid.large(c, "C13", "m", {"cs", "vals", "ms", "mats", "idx", "pids", "ts"})
    c.cov["exhaustive"] = True
