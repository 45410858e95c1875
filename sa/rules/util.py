"""rounding helpers and feature tests"""
from . import prop
from ..contract import *
from .. import models


def bad_shifts(p, I):
    for e in p.evs('badshift'):
        p.need(False, 'a shift stays inside the word', lambda: '%r' % (e.a,), e)
    p.need(True, 'a shift stays inside the word', '')


def mult(I, p, f, a):
    """f is a multiple of 2^k"""
    return p.is0(I.urem(p.st, p.n(f), C(a), 64, lowmask=True))


def rule_round(ck):
    size = arg('size')
    for k in range(0, 64):
        a = 1 << k
        I = ck.interp('plain', unit='headers')
        I.check_shifts = True
        s = arg('size', hi=U64 - 1 - a)
        for fn in ('small_align', 'small_align_down'):
            x = s if fn == 'small_align' else size
            I = ck.interp('plain', unit='headers')
            r = ck.run(I, fn, [x, C(a)])
            for p in r.rets:
                f = I.u(p.st, p.n(p.ret), 64)
                lo, hi = (x, x + a - 1) if fn == 'small_align' else (x - a + 1, x)
                p.need_ge(f, lo, 'rounding moves by less than the alignment', '2^%d' % k)
                p.need_ge(hi, f, 'rounding moves by less than the alignment', '2^%d' % k)
                p.need(mult(I, p, f, a), 'rounded sizes are multiples of the alignment', lambda: '2^%d: %r' % (k, f))
    # every power of two and the sizes between two of them
    for k in range(0, 64):
        cases = [(C(1 << k), k, k)]
        if k:
            m = arg('size', lo=(1 << (k - 1)) + 1, hi=(1 << k) - 1) if k > 1 else None
            if m is not None:
                cases.append((m, k, k - 1))
        for x, up, down in cases:
            I = ck.interp('plain', unit='headers')
            I.check_shifts, I.unroll_max = True, 70
            r = ck.run(I, 'small_round', [x])
            for p in r.rets:
                p.need_eq(p.ret, C(1 << up), 'rounded up to the nearest power of two', 'small_round', 64)
                bad_shifts(p, I)
            I = ck.interp('plain', unit='headers')
            I.check_shifts, I.unroll_max = True, 70
            r = ck.run(I, 'small_lb', [x])
            for p in r.rets:
                p.need_eq(p.ret, C(down), 'the logarithm is that of the highest bit', 'small_lb', 64)
                bad_shifts(p, I)
    r = ck.run(ck.interp('plain', unit='headers'), 'small_round', [ZERO])
    for p in r.rets:
        p.need(p.is0(p.ret), 'rounded up to the nearest power of two', '0')
    I = ck.interp('plain', unit='headers')
    I.models.pop('small_getpagesize')
    v = S(mksym('sysconf', 'arg', (), -1, (1 << 40), False, key='sysconf'))
    I.models['sysconf'] = lambda I, st, a, ins: [(st, v)]
    r = ck.run(I, 'small_getpagesize', [])
    kinds = set()
    for p in r.rets:
        known = p.ge(v, 1)
        kinds.add(known)
        p.need(p.same(p.ret, v) if known else p.same(p.ret, C(4096)) and p.ge(ZERO, v), 'the page size is that of the system, or 4096', lambda: '%r' % p.ret)
    if kinds != {True, False}:
        ck.gone('small_getpagesize: %r' % kinds)


def rule_feature(ck):
    """a feature is reported only if it is compiled in and works"""
    feature = arg('feature', hi=(1 << 32) - 1, bits=32)
    seen = set()
    for cfg in ('plain',):
        I = ck.interp(cfg, unit='small_features')
        I.check_shifts = True

        def madvise(I, st, v, ins):
            s2 = st.copy()
            st.event('sys', ('madvise', 0) + tuple(st.n(x) for x in v), I.loc(ins))
            s2.event('sys', ('madvise', -1) + tuple(s2.n(x) for x in v), I.loc(ins))
            return [(st, ZERO), (s2, C(-1))]

        def munmap(I, st, v, ins):
            s2 = st.copy()
            st.event('munmap', (st.n(v[0]), st.n(v[1])), I.loc(ins))
            s2.event('munmap', (s2.n(v[0]), s2.n(v[1])), I.loc(ins))
            return [(st, ZERO), (s2, C(-1))]
        I.models['madvise'] = madvise
        I.models['munmap'] = munmap
        r = ck.run(I, 'small_test_feature', [feature])
        for p in r.rets:
            bad_shifts(p, I)
            maps = p.evs('alloc')
            um = p.evs('munmap')
            p.need(len(maps) <= 1 and len(um) == len(maps) and all(p.same(a.a[1], b.a[0]) and p.same(a.a[2], b.a[1]) for a, b in zip(maps, um)),
                   'a feature test leaves no mapping behind', lambda: '%r %r' % (maps, um))
            adv = [e for e in p.evs('sys') if e.a[0] == 'madvise']
            good = [e for e in adv if e.a[1] == 0 and maps and p.same(e.a[2], maps[0].a[1]) and p.same(e.a[3], maps[0].a[2]) and p.same(e.a[4], C(16))]
            p.no_effects('a feature test changes nothing')
            ret = p.n(p.ret)
            yes = I.decide(p.st, ret) if isinstance(ret, Cond) else False if p.is0(ret) else True if p.differ(ret, ZERO) else None
            p.need(yes is not None, 'a feature is reported only after it worked', lambda: 'result %r' % ret)
            if yes is False:
                seen.add('no')
                p.need(p.ge(feature, 1) or not good, 'a working feature is reported', lambda: '%r' % p.ev)
            elif yes:
                seen.add('yes')
                p.need(p.is0(feature), 'an unknown feature is not reported', lambda: '%r' % feature)
                p.need(len(good) == 1, 'a feature is reported only after it worked', lambda: '%r' % p.ev)
    if seen != {'yes', 'no'}:
        ck.gone('small_test_feature: %r' % seen)


prop('U01', 'other', 'rounding helpers for every alignment and every power-of-two interval of sizes; feature test: every path of the probe', [rule_round, rule_feature], min_obligations=300)
