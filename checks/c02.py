import c01


def check(c):
    c01.check(c, ext=1)
