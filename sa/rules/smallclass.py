"""Size classes: the two maps are inverse and monotone."""
from . import prop
from .. import irgen
from ..contract import *

_wit = {}


def setup(ck, g, n, branchless=False):
    if branchless and 'm' not in _wit:
        _wit['m'] = irgen.build('plain', only=[], extra_tu={'branchless': '#define SMALL_CLASS_BRANCHLESS 1\n#include <stddef.h>\n#include <limits.h>\n#include "small_class.h"\n'})
    I = ck.interp('plain', unit='branchless' if branchless else 'headers', mods=_wit.get('m') if branchless else None)
    sc = arg('class', 'small_class')
    off = I.offsetof
    shift = S(mksym('size_shift', 'arg', (), 0, 1 << 20, False, key='size_shift'))

    def put(st, f, v):
        o, sz = off('small_class', f)
        b, oo = I.split(sc + o)
        v = v if isinstance(v, Lin) else C(v)
        st.mem.setdefault(b, {})[oo] = (sz, v)
        st.sub[next(iter(I.entry(sc + o, sz).syms()))] = v

    def pre(I, st):
        put(st, 'granularity', 1 << g)
        put(st, 'ignore_bits_count', g)
        put(st, 'effective_bits', n)
        put(st, 'effective_size', 1 << n)
        put(st, 'effective_mask', (1 << n) - 1)
        put(st, 'size_shift', shift)
        put(st, 'size_shift_plus_1', shift + 1)
    return I, sc, shift, pre


def params(tier):
    if tier == 'thorough':
        return [(g, n) for g in range(0, 13) for n in range(0, 11)]
    return [(g, n) for g in (0, 3, 4, 6) for n in (0, 1, 2, 3, 5)]


def follow(ck, r, p, fn, args):
    """the function run after path p"""
    st = p.st.copy()
    r2 = ck.run(r.I, fn, args, st=st)
    return r2.rets


def rule_roundtrip(ck):
    for variant in (False, True):
        roundtrip(ck, variant)


def roundtrip(ck, branchless):
    """both ways to find the class: with a branch and without"""
    for g, n in params(ck.tier):
        # pieces on which the maps are affine: below the shift, the linear steps
        # and every doubling, each apart from its last step
        parts = [('below', None, -(1 << 32), -1)]
        bounds = [('linear', None, 0, 1 << (n + g), 1 << g)]
        bounds += [('log', k, 1 << (k + n + g), 1 << (k + n + g + 1), 1 << (k + g)) for k in range(0, 30 - n - g)]
        for kind, k, lo, hi, step in bounds:
            parts.append((kind, k, lo, hi - step - 1))
            parts.append((kind, k, hi - step, hi - 1))
        for kind, k, lo, hi in parts:
            if lo > hi:
                continue
            I, sc, shift, pre0 = setup(ck, g, n, branchless)
            size = S(mksym('size', 'arg', (), 1, (1 << 31) - 1, False, key='cls.size'))
            x = size - shift - 1

            def pre(I, st):
                pre0(I, st)
                f = st.facts
                f.add_ge(x - lo)
                f.add_ge(C(hi) - x)
            r = ck.run(I, 'small_class_calc_offset_by_size', [sc, size], pre=pre)
            for p in r.rets:
                c = I.u(p.st, p.ret, 32)
                for q in follow(ck, r, p, 'small_class_calc_size_by_offset', [sc, c]):
                    s = I.u(q.st, q.ret, 32)
                    q.need_ge(s, size, 'the class of a size holds objects of that size', 'g=%d n=%d %s %s' % (g, n, kind, k))
                    d = I.urem(q.st, q.n(s - shift), C(1 << g), 32)
                    q.need_eq(d, ZERO, 'class sizes are multiples of the granularity', 'g=%d n=%d' % (g, n))
                for s1 in I.assume(p.st.copy(), Cond('ge', c - 1)):
                    p1 = iteration(r, s1, [])
                    for q in follow(ck, r, p1, 'small_class_calc_size_by_offset', [sc, c - 1]):
                        s = I.u(q.st, q.ret, 32)
                        q.need_ge(size - 1, s, 'no smaller class would do', 'g=%d n=%d %s %s' % (g, n, kind, k))


def rule_monotone(ck):
    for g, n in params(ck.tier):
        for j, lo, hi in [(j, a, b) for j in range(0, 26 - n - g) for a, b in
                          ((max(j << n, 1), ((j + 1) << n) - 2), (((j + 1) << n) - 1,) * 2) if a <= b and b]:
            I, sc, shift, pre0 = setup(ck, g, n)
            c = S(mksym('cls', 'arg', (), 0, (1 << 31) - 1, False, key='cls.idx'))

            def pre(I, st):
                pre0(I, st)
                st.facts.add_ge(c + 1 - lo)
                st.facts.add_ge(C(hi) - c - 1)
            r = ck.run(I, 'small_class_calc_size_by_offset', [sc, c], pre=pre)
            for p in r.rets:
                a = I.u(p.st, p.ret, 32)
                for q in follow(ck, r, p, 'small_class_calc_size_by_offset', [sc, c + 1]):
                    q.need_ge(I.u(q.st, q.ret, 32), a + (1 << g), 'class sizes grow', 'g=%d n=%d j=%d' % (g, n, j))


def rule_create(ck):
    for g in range(17):
        create(ck, C(1 << g))


def create(ck, gran):
    I = ck.interp('plain', unit='small_class')
    sc = arg('class', 'small_class')
    mn = arg('min_alloc', lo=1, hi=1 << 20, bits=32)
    out = arg('actual', ptr=True)

    def pre(I, st):
        st.facts.add_ge(mn - gran)
    r = ck.run(I, 'small_class_create', [sc, gran, S(fresh('factor')), mn, out], pre=pre)
    for p in r.rets:
        g = lambda f: p.n(p.f(sc, 'small_class', f))
        p.need_eq(g('granularity'), gran, 'the class sizes are as configured', 'granularity', 32)
        p.need_eq(g('size_shift'), mn - gran, 'the smallest class is the smallest allocation', 'size_shift', 32)
        p.need_eq(g('size_shift_plus_1'), mn - gran + 1, 'the smallest class is the smallest allocation', 'size_shift_plus_1', 32)
        es = g('effective_size')
        p.need_eq(es, pow2(I.u(p.st, g('effective_bits'), 32)), 'steps per doubling are a power of two', 'effective_size', 32)
        p.need_eq(g('effective_mask'), es - 1, 'steps per doubling are a power of two', 'effective_mask', 32)
        p.need_eq(pow2(I.u(p.st, g('ignore_bits_count'), 32)), gran, 'sizes are rounded to the granularity', 'ignore_bits_count')


prop('S03', 'other', 'size->class and class->size composed symbolically on every affine piece', [rule_roundtrip, rule_monotone, rule_create], min_obligations=100)
