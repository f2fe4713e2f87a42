"""ConfigSpace.functional"""
from __future__ import annotations

from contracts import theorem

MOD = "ConfigSpace.functional."


@theorem("C19", "C04", functions=[MOD + "split_arange"])
def split_arange(V):
    from ConfigSpace.functional import split_arange as fn

    frm, to, pivot = V.int("frm", draw=(-50, 50)), V.int("to", draw=(-50, 120)), V.int("pivot", draw=(-50, 120))
    V.assume(V.and_(frm <= pivot, pivot < to))
    out = fn(frm, to, pivot=pivot)
    V.check(V.len(out) == to - frm - 1, "everything but the pivot, once")
    V.check_forall(
        V.len(out),
        lambda k: V.eq(V.at(out, k), V.ite(k < pivot - frm, frm + k, frm + k + 1)),
        "the integers from frm to to without the pivot, in order",
    )


@theorem("C19", functions=[MOD + "center_range"])
def center_range(V):
    from ConfigSpace.functional import center_range as fn

    low, high, center = V.int("low", draw=(-50, 10)), V.int("high", draw=(-20, 90)), V.int("center", draw=(-30, 60))
    step = V.int("step", 1, draw=(1, 7))
    V.assume(V.and_(low <= center, center <= high))
    out = V.list(fn(center, low, high, step))
    below, above = (center - low) // step, (high - center) // step
    V.check(V.len(out) == below + above, "one element per step on either side")

    def item(k):
        x = V.cases(V.at(out, k))
        V.check(V.and_(low <= x, x <= high), "within [low, high]")
        V.check(V.not_(V.eq(x, center)), "never the center")
        return V.eq((x - center) % step, 0)

    V.check_forall(V.len(out), item, "a whole number of steps from the center")
    i, j = V.int("i", 0, draw=(0, 20)), V.int("j", 0, draw=(0, 20))
    V.assume(V.and_(i < j, j < V.len(out)))
    V.check(V.not_(V.eq(V.at(out, i), V.at(out, j))), "no element twice")


@theorem("C19", functions=[MOD + "arange_chunked"])
def arange_chunked(V):
    from ConfigSpace.functional import arange_chunked as fn

    start, stop = V.int("start", draw=(-50, 50)), V.int("stop", draw=(-40, 300))
    step, size = V.int("step", 1, draw=(1, 9)), V.int("chunk_size", 1, draw=(1, 9))
    V.assume(start < stop)
    out = V.list(fn(start, stop, step, chunk_size=size))
    total = V.ghost_int("total", lambda t: V.and_((t - 1) * step < stop - start, stop - start <= t * step), lambda: -(-(stop - start) // step))
    chunks = V.ghost_int("chunks", lambda c: V.and_((c - 1) * size < total, total <= c * size), lambda: -(-total // size))
    V.check(V.eq(V.len(out), chunks), "as many chunks as needed")

    def chunk(c):
        a = V.at(out, c)
        V.check(V.eq(V.len(a), V.ite(c + 1 < chunks, size, total - (chunks - 1) * size)), "full chunks, the last one has the rest")
        V.check_forall(V.len(a), lambda k: V.eq(V.at(a, k), start + (c * size + k) * step), "the elements of the range in order")

    V.check_forall(V.len(out), chunk, "the elements of the range in order")


@theorem("C19", "C01", functions=[MOD + "scale", MOD + "normalize", MOD + "rescale"])
def affine(V):
    from ConfigSpace.functional import normalize, rescale, scale

    n = V.length("n")
    x = V.array("x", n)
    a, b, c, d = V.real("a"), V.real("b"), V.real("c"), V.real("d")
    V.assume(V.and_(a + 0.001 < b, c + 0.001 < d))
    s = scale(x, to=(a, b))
    r = normalize(x, bounds=(a, b))
    q = rescale(x, frm=(a, b), to=(c, d))
    back = rescale(q, frm=(c, d), to=(a, b))
    V.check_forall(n, lambda k: V.eq(V.at(s, k), x[k] * (b - a) + a), "scale is affine")
    V.check_forall(n, lambda k: V.eq(V.at(r, k) * (b - a), x[k] - a), "normalize is affine")
    V.check_forall(n, lambda k: V.eq((V.at(q, k) - c) * (b - a), (x[k] - a) * (d - c)), "rescale is affine")
    V.check_forall(n, lambda k: V.eq(V.at(back, k), x[k]), "rescale is invertible")


@theorem("C19", "C03", functions=[MOD + "quantize"])
def quantize(V):
    from ConfigSpace.functional import quantize as fn

    n = V.length("n")
    lo = V.real("lo", draw=(-5, 5))
    hi = V.real("hi", draw=(-5, 15))
    V.assume(lo + 0.01 < hi)
    unit = V.choice("unit", [False, True])
    if unit:
        lo, hi = V.np.float64(0), V.np.float64(1)
    bins = V.int("bins", 2, draw=(2, 1000))
    x = V.array("x", n)
    V.assume(V.forall(n, lambda k: V.and_(lo <= x[k], x[k] <= hi)))
    q = fn(x, bounds=(lo, hi), bins=bins)

    def item(k):
        y = V.at(q, k)
        t = (y - lo) / (hi - lo) * (bins - 1)  # index of the bin
        V.check(V.near_int(t), "one of the bins")
        V.check(V.and_(V.le(lo, y), V.le(y, hi)), "within the bounds")
        u = (x[k] - lo) / (hi - lo) * bins
        return V.and_(V.le(t, u), V.or_(V.le(u, t + 1), V.eq(t, bins - 1)))

    V.check_forall(n, item, "the bin that contains the value")


@theorem("C19", "C03", "C04", functions=[MOD + "quantize"])
def quantize_keeps_bins(V):
    from ConfigSpace.functional import quantize as fn

    bins = V.int("bins", 2, draw=(2, 5000))
    q = V.int("bin", 0, bins - 1)
    x = V.np.float64(q) / (bins - 1)
    V.check(V.eq(fn(x, bounds=(V.np.float64(0), V.np.float64(1)), bins=bins) * (bins - 1), q), "a bin is left alone")


@theorem("C19", "C02", functions=[MOD + "is_close_to_integer", MOD + "is_close_to_integer_single"])
def close_to_integer(V):
    from ConfigSpace.functional import is_close_to_integer as many
    from ConfigSpace.functional import is_close_to_integer_single as one

    n = V.length("n")
    x = V.array("x", n)
    m = many(x, atol=1e-13)
    V.check_forall(n, lambda k: V.iff(V.at(m, k), one(x[k], atol=1e-13)), "both versions agree")
    V.check_forall(n, lambda k: V.implies(V.is_int(x[k]), V.at(m, k)), "integers are accepted")

    def far(k):
        y = x[k]
        r = V.rint(y)
        d = V.ite(y >= r, y - r, r - y)
        mag = V.ite(r >= 0, r, -r)
        return V.implies(V.at(m, k), V.le(d, 1e-13 + 1e-5 * mag))

    V.check_forall(n, far, "what is accepted is within the tolerance of an integer")


@theorem("C19", functions=[MOD + "linspace_chunked", MOD + "arange_chunked"])
def linspace_chunked(V):
    from ConfigSpace.functional import linspace_chunked as fn

    a, b = V.real("a", draw=(-5, 5)), V.real("b", draw=(-5, 9))
    V.assume(a + 0.01 < b)
    num, size = V.int("num", 1, draw=(1, 40)), V.int("chunk_size", 1, draw=(1, 9))
    endpoint = V.choice("endpoint", [False, True])
    V.assume(V.or_(num > 1, not endpoint))
    out = V.list(fn(a, b, num, chunk_size=size, endpoint=endpoint))
    div = num - 1 if endpoint else num
    chunks = (num + size - 1) // size
    V.check(V.eq(V.len(out), chunks), "as many chunks as needed")

    def chunk(c):
        p = V.at(out, c)
        V.check(V.eq(V.len(p), V.ite(c + 1 < chunks, size, num - (chunks - 1) * size)), "full chunks, the last one has the rest")
        V.check_forall(V.len(p), lambda k: V.eq((V.at(p, k) - a) * div, (c * size + k) * (b - a)), "the points of the linspace in order")

    V.check_forall(V.len(out), chunk, "the points of the linspace in order")
