"""What the harnesses over symbolic strings share."""
ASCII = ((1, 126),)
PRINT = ((32, 126),)


def same(ctx, a, b):
    """Formula: the strings are equal."""
    return ctx.eq(str(a), str(b))


def is_(ctx, a, b):
    """Whether the strings are equal (decides, by forking)."""
    return ctx.is_true(same(ctx, a, b))


def isin(ctx, c, cs):
    return ctx.is_true(ctx.any([same(ctx, c, x) for x in cs]))


def within(ctx, c, lo, hi):
    """Formula: lo <= c <= hi, for characters."""
    if not ctx.symbolic:
        return lo <= c <= hi
    from symx import symstr
    t = symstr.chars()
    e, lo, hi = (ctx.values._z3(t.expr(x)) for x in (c, lo, hi))
    return ctx.values.SymBool(ctx.z3.And(lo <= e, e <= hi))


def load(ctx, *names, **kw):
    from symx import fresh
    fresh.forget()
    if not ctx.symbolic:
        return fresh.load(*names)
    from symx import symstr
    return symstr.load(ctx, *names, **kw)
