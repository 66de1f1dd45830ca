"""What the engine makes of values set on some paths only; run by tools/models/joins.py, part of no check."""


class P:
    def __init__(self):
        self.n = 0


def a1():
    p = P()
    b = BOOLSYM("b")
    if b:
        p.x = 5
    CHECK_EQ("hasattr", hasattr(p, "x"), b)
    CHECK_EQ("getattr", getattr(p, "x", 7), 5 if b else 7)
    r = 0
    try:
        r = p.x
    except AttributeError:
        r = 9
    CHECK_EQ("try", r, 5 if b else 9)


def a2():
    p = P()
    b = BOOLSYM("b")
    if b:
        pass
    else:
        p.x = 5
    CHECK_EQ("hasattr", hasattr(p, "x"), not b)
    CHECK_EQ("getattr", getattr(p, "x", 7), 7 if b else 5)
    r = 0
    try:
        r = p.x
    except AttributeError:
        r = 9
    CHECK_EQ("try", r, 9 if b else 5)


def a3():
    b = BOOLSYM("b")
    if b:
        x = 5
    r = 0
    try:
        r = x
    except NameError:
        r = 9
    CHECK_EQ("name", r, 5 if b else 9)


def a4():
    b = BOOLSYM("b")
    c = BOOLSYM("c")

    def g():
        if b:
            yield 1
        if c:
            yield 2
    CHECK_EQ("sum", sum(g()), (1 if b else 0) + (2 if c else 0))

    def h():
        if not b:
            return
        yield 3
        yield from [4, 5] if c else [6]
    CHECK_EQ("sum2", sum(h()), (3 + (9 if c else 6)) if b else 0)


def a5():
    b = BOOLSYM("b")
    p = P()
    q = P()
    if b:
        q = P()
        q.n = 4
        q.x = 3
        p.x = 1
    else:
        del_me = P()
        del_me.x = 2
    CHECK_EQ("n", q.n, 4 if b else 0)
    CHECK_EQ("x", getattr(q, "x", -1), 3 if b else -1)
    CHECK_EQ("px", getattr(p, "x", -1), 1 if b else -1)


def a6():
    b = BOOLSYM("b")
    p = P()
    p.x = 1
    if b:
        del p.x
    CHECK_EQ("has", hasattr(p, "x"), not b)
    d = {}
    if b:
        d["k"] = 1
    CHECK_EQ("d", "k" in d, b)
    CHECK_EQ("d2", d.get("k", 2), 1 if b else 2)
    CHECK_EQ("d3", len(d), 1 if b else 0)


def a7():
    b = BOOLSYM("b")
    for i in range(3):
        if b:
            y = i
    r = 0
    try:
        r = y
    except UnboundLocalError:
        r = 9
    CHECK_EQ("name", r, 2 if b else 9)


class S:
    __slots__ = ("v",)


def a8():
    b = BOOLSYM("b")
    s = S()
    if b:
        s.v = 3
    CHECK_EQ("slot", getattr(s, "v", 1), 3 if b else 1)
    if not hasattr(s, "v"):
        s.v = 8
    CHECK_EQ("slot2", s.v, 3 if b else 8)
