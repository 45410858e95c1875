from . import prop
from ..contract import *
from .. import models

BIG = models.BIG


def ledger(p, src, rule):
    """bytes taken from the source minus bytes given back on this path"""
    tot = ZERO
    for e in p.evs('quota_use'):
        p.need_eq(e.a[0], src, rule + ': charged to the lessor\'s own source', 'quota', ev=e)
        tot = tot + e.a[2]
    for e in p.evs('quota_release'):
        p.need_eq(e.a[0], src, rule + ': returned to the lessor\'s own source', 'quota', ev=e)
        tot = tot - e.a[2]
    return p.n(tot)


def carried(r, src, fits):
    """loop variables that hold what the last attempt took from the source: below
    zero as long as nothing was taken, and then the loop has to end.
    fits(p, v): what an attempt of v bytes has to satisfy"""
    out = {}
    neg = lambda p, v: isinstance(v, Lin) and (p.is0(v + 1) or p.ge(-v - 1))
    for i in r.I.loop_seen:
        its = list(iterations(r, i))
        for k in {k for p, pairs in its for k in pairs}:
            e = i.vars[k][0]
            if not (isinstance(e, Lin) and e.is_const() and (e.c < 0 or e.c >= 1 << 63)):
                continue
            good = True
            for p, pairs in its:
                h, b = pairs.get(k, (None, None))
                use = p.evs('quota_use')
                if h is None or not neg(p, h) or len(use) > 1 or p.evs('quota_release'):
                    good = False
                elif use:
                    good = p.same(use[0].a[0], src) and p.same(b, use[0].a[2]) and p.ge(b) and fits(p, b)
                else:
                    good = neg(p, b)
                if not good:
                    break
            if good and its:
                out[id(i)] = k
    return out


def check_lessor(ck):
    L = arg('lessor', 'quota_lessor')
    n = arg('size', hi=BIG)
    for cfg in ('plain', 'asan'):
        I = ck.interp(cfg, models.QUOTA, unit='headers')
        src = lambda: I.entry(L + I.offsetof('quota_lessor', 'source')[0], 8)
        used0 = lambda: I.entry(L + I.offsetof('quota_lessor', 'used')[0], 8)
        leased0 = lambda: I.entry(L + I.offsetof('quota_lessor', 'leased')[0], 8)

        def pre(I, st):
            st.facts.add_ge(used0() - leased0())
            st.facts.add_ge(C(BIG) - used0())

        r = ck.run(I, 'quota_lease', [L, n], pre=pre)
        ok = 0
        last = carried(r, src(), lambda p, v: p.ge(used0() + v, leased0() + n))
        for p in r.rets:
            led = ledger(p, src(), 'lease')
            for e in p.evs('loop'):
                v = e.x[1].get(last.get(id(e.x[0])))
                if isinstance(v, Lin) and p.ge(v):
                    # what the last attempt took
                    led = p.n(led + v)
                    p.st.facts.add_ge(p.n(used0() + v - leased0() - n))
            u, l = p.f(L, 'quota_lessor', 'used'), p.f(L, 'quota_lessor', 'leased')
            p.need_eq(u - used0(), led, 'taken bytes match what the source was charged', 'used')
            if p.is0(p.ret + 1):
                p.need_eq(l, leased0(), 'a refused lease changes nothing', 'leased')
                p.need_eq(u, used0(), 'a refused lease changes nothing', 'used')
                p.need(p.evs('quota_use_fail') or p.evs('loop'), 'refused only after the source refused', '')
                p.need_ge(leased0() + n, used0() + 1, 'refused only when spare bytes do not suffice', 'lease')
                continue
            ok += 1
            p.need_eq(l, leased0() + n, 'a lease is counted exactly', 'leased')
            p.need_ge(u, l, 'never leases more than was taken from the source', 'used >= leased')
            p.need_eq(p.ret, n, 'returns the leased size', 'result')
            p.unchanged(L, 'quota_lessor', 'source', 'the source is fixed')
        r.count('lease', ok, 2)
        for i in I.loop_seen:
            if id(i) in last:
                ck.ok('a failed attempt takes nothing from the source')
                continue
            for b, evs, pv in i.backs:
                bad = [e for e in evs if e.kind in ('quota_use', 'quota_release')]
                if bad:
                    led = ZERO
                    for e in bad:
                        led = led + (e.a[2] if e.kind == 'quota_use' else -e.a[2])
                    if not b.facts.zero(b.n(led)):
                        ck.fail('a failed attempt takes nothing from the source', cfg, 'quota_lease',
                                '%s:%d' % bad[0].loc, 'quota taken in an iteration that goes on')
                else:
                    ck.ok('a failed attempt takes nothing from the source')

        def pre2(I, st):
            pre(I, st)
            st.facts.add_ge(leased0() - n)
        r = ck.run(I, 'quota_end_lease', [L, n], pre=pre2)
        for p in r.rets:
            led = ledger(p, src(), 'end of lease')
            u, l = p.f(L, 'quota_lessor', 'used'), p.f(L, 'quota_lessor', 'leased')
            p.need_eq(l, leased0() - n, 'the end of a lease is counted exactly', 'leased')
            p.need_eq(u - used0(), led, 'taken bytes match what the source was charged', 'used')
            p.need_ge(u, l, 'never leases more than was taken from the source', 'used >= leased')
            p.need_eq(p.ret, n, 'returns the size', 'result')
        r.count('end of lease', len(r.rets), 2)
        r = ck.run(I, 'quota_lessor_destroy', [L], pre=pre)
        for p in r.rets:
            led = ledger(p, src(), 'destroy')
            if led.is_const() and led.c == 0 and not p.evs('quota_release'):
                p.need_eq(used0(), ZERO, 'destroy returns everything taken', 'used')
            else:
                # all of used is given back, in one or more parts
                tot = ZERO
                for e in p.evs('quota_release'):
                    tot = tot + e.a[1]
                p.need_eq(tot, used0(), 'destroy returns everything taken', 'released')
            p.need_eq(p.f(L, 'quota_lessor', 'used'), ZERO, 'nothing is held after destroy', 'used')
        r = ck.run(I, 'quota_lessor_create', [L, arg('source', 'quota')])
        for p in r.rets:
            p.need_eq(p.f(L, 'quota_lessor', 'used'), ZERO, 'a new lessor holds nothing', 'used')
            p.need_eq(p.f(L, 'quota_lessor', 'leased'), ZERO, 'a new lessor holds nothing', 'leased')
            p.need_eq(p.f(L, 'quota_lessor', 'source'), arg('source', 'quota'), 'the source is fixed', 'source')
            p.need(not p.evs('quota_use', 'quota_release'), 'a new lessor holds nothing', 'source charged')
        for fn, want in (('quota_leased', leased0), ('quota_available', lambda: used0() - leased0())):
            r = ck.run(I, fn, [L], pre=pre)
            for p in r.rets:
                p.need_eq(p.ret, want(), 'getters report the ledger', 'result')
                p.no_effects('getters change nothing')


prop('Q02', 'other', 'ledger equation of the quota lessor decided on every path of its API, quota calls replaced '
     'by their own contract (decided under Q01)', [check_lessor], min_obligations=40)
