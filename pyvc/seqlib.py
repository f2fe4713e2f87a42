"""more_itertools on symbolic sequences (assumed contracts of the dependency)."""
from __future__ import annotations

import types

from engine import E, Unsupported, ite, num
from seq import SSeq, TList, s_iter, symseq


def more_itertools_module(real):
    m = types.ModuleType("more_itertools")

    def roundrobin(*its):
        ss = [symseq(x) for x in its]
        if all(s is None or isinstance(s.n, int) for s in ss):
            return real.roundrobin(*[list(s_iter(x)) for x in its])
        if len(its) != 2 or any(s is None for s in ss):
            raise Unsupported("roundrobin")
        a, b = ss
        E.trust("more_itertools.roundrobin: alternates, then the rest of the longer one")
        na, nb = num(a.n), num(b.n)

        def at(i):
            i = num(i)
            # the first 2*min(na, nb) alternate
            if i < 2 * na:
                if i < 2 * nb:
                    half = i // 2
                    return a.at(half) if i - 2 * half == 0 else b.at(half)
                return a.at(i - nb)  # b is used up
            if i < 2 * nb:
                return b.at(i - na)
            return ite(na >= nb, a.at(i - nb), b.at(i - na))

        return SSeq(na + nb, at)

    def unique_everseen(x, key=None):
        if symseq(x) is not None and not isinstance(symseq(x).n, int):
            raise Unsupported("unique_everseen of a symbolic sequence")
        out = TList()
        seen = []
        for v in s_iter(x):
            k = v if key is None else key(v)
            if not any(k is s or k == s for s in seen):
                seen.append(k)
                out.append(v)
        return iter(out)

    def all_equal(x, key=None):
        xs = [v if key is None else key(v) for v in s_iter(x)]
        return all(v == xs[0] for v in xs[1:]) if xs else True

    m.roundrobin, m.unique_everseen, m.all_equal = roundrobin, unique_everseen, all_equal
    return m
