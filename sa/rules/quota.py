from . import prop
from ..contract import *
from ..models import bundle

UNIT = 1024
M32 = 1 << 32


def parts(I, st, v):
    """(total units, used units) encoded in a quota word"""
    return (I.u(st, I.udiv(st, I.u(st, v, 64), C(M32), 64), 64),
            I.urem(st, I.u(st, v, 64), C(M32), 64))


def units(I, st, n):
    return I.udiv(st, n + (UNIT - 1), C(UNIT), 64)


def setup(ck, cfg, q):
    I = ck.interp(cfg, unit='headers', drop=())
    for k in ('quota_use', 'quota_release'):
        I.models.pop(k, None)
    I.volatile_addr = lambda st, a: (st.n(a) - q).is_const() and 0 <= (st.n(a) - q).c < 8

    def shared(I, st, addr, size):
        if size != 8:
            return None
        T = S(fresh('total', 0, M32 - 1))
        U = S(fresh('used', 0, M32 - 1))
        # what other threads leave behind satisfies the invariant
        st.facts.add_ge(T - U)
        return T.scale(M32) + U
    I.shared_hook = shared
    return I


def transitions(I, p):
    """(event, old, new) of every atomic update on the path"""
    out = []
    for e in p.ev:
        if e.kind == 'cas':
            out.append((e, p.n(e.a[1]), p.n(e.a[2])))
        elif e.kind == 'rmw':
            out.append((e, p.n(e.a[3]), p.n(e.a[4])))
    return out


def is_observed(v):
    """value read from the shared word: total*2^32 + used of one observation"""
    if v.c or len(v.t) not in (1, 2):
        return False
    names = sorted(SYMS[m[0]].name.split('#')[0] for m, k in v.t if len(m) == 1)
    ids = sorted(m[0] for m, k in v.t)
    return (names == ['total', 'used'] and ids[1] == ids[0] + 1) or v.is_const()


def check_quota(ck):
    q = arg('quota', 'quota')
    for cfg in ('plain',):
        n = arg('size')
        I = setup(ck, cfg, q)
        qmax = C(UNIT * (M32 - 1))
        # ---- use
        r = ck.run(I, 'quota_use', [q, n], pre=lambda I, st: st.facts.add_ge(n - 1))
        grants = 0
        for p in r.rets:
            tr = transitions(I, p)
            p.need(not p.evs('astore'), 'the shared word is only updated atomically', 'plain store')
            if p.is0(p.ret + 1):
                p.need(not tr, 'a refused request leaves the quota untouched', 'quota updated, then -1 returned')
                # refused only if it does not fit
                if not p.ge(n, qmax + 1):
                    ob = [e for e in p.ev if e.kind in ('aload', 'casfail')]
                    okr = False
                    for s in observed(p):
                        T, U = parts(I, p.st, s)
                        if p.ge(U + units(I, p.st, p.n(n)), T + 1):
                            okr = True
                    p.need(okr, 'refuses only what would exceed the limit', 'the refusal does not follow from the observed usage')
                continue
            grants += 1
            if not p.need(len(tr) == 1, 'exactly one atomic update per grant', lambda: '%d updates' % len(tr)):
                continue
            e, old, new = tr[0]
            u = units(I, p.st, p.n(n))
            T, U = parts(I, p.st, old)
            T2, U2 = parts(I, p.st, new)
            p.need_eq(T2, T, 'a grant keeps the limit', 'limit', ev=e)
            p.need_eq(U2, U + u, 'a grant charges exactly the rounded size', 'usage', ev=e)
            p.need_ge(T2, U2, 'usage never exceeds the limit', 'limit', ev=e)
            p.need_eq(p.ret, u.scale(UNIT), 'returns the charged amount', 'result')
        r.count('grant', grants)
        # ---- set
        I = setup(ck, cfg, q)
        r = ck.run(I, 'quota_set', [q, n], pre=lambda I, st: st.facts.add_ge(qmax - n))
        sets = 0
        for p in r.rets:
            tr = transitions(I, p)
            p.need(not p.evs('astore'), 'the shared word is only updated atomically', 'plain store')
            u = units(I, p.st, p.n(n))
            if p.is0(p.ret + 1):
                p.need(not tr, 'a refused request leaves the quota untouched', 'quota updated, then -1 returned')
                okr = any(p.ge(parts(I, p.st, s)[1], u + 1) for s in observed(p))
                p.need(okr, 'a new limit is refused only below the usage', 'the refusal does not follow from the observed usage')
                continue
            sets += 1
            if not p.need(len(tr) == 1, 'exactly one atomic update per change', lambda: '%d updates' % len(tr)):
                continue
            e, old, new = tr[0]
            T, U = parts(I, p.st, old)
            T2, U2 = parts(I, p.st, new)
            p.need_eq(U2, U, 'changing the limit keeps the usage', 'usage', ev=e)
            p.need_eq(T2, u, 'the limit becomes the rounded value', 'limit', ev=e)
            p.need_ge(T2, U2, 'usage never exceeds the limit', 'limit', ev=e)
            p.need_eq(p.ret, u.scale(UNIT), 'returns the new limit', 'result')
        r.count('set', sets)
        # ---- release
        I = setup(ck, cfg, q)
        base_shared = I.shared_hook

        def shared_rel(I, st, addr, size):
            v = base_shared(I, st, addr, size)
            if v is not None:
                # the caller holds what it releases
                T, U = parts(I, st, v)
                st.facts.add_ge(U - units(I, st, n))
            return v
        I.shared_hook = shared_rel
        r = ck.run(I, 'quota_release', [q, n],
                   pre=lambda I, st: (st.facts.add_ge(qmax - n), st.facts.add_ge(n - 1)))
        for p in r.rets:
            tr = transitions(I, p)
            p.need(not p.evs('astore'), 'the shared word is only updated atomically', 'plain store')
            u = units(I, p.st, p.n(n))
            if not p.need(len(tr) == 1, 'exactly one atomic update per release', lambda: '%d updates' % len(tr)):
                continue
            e, old, new = tr[0]
            T, U = parts(I, p.st, old)
            T2, U2 = parts(I, p.st, new)
            p.need_eq(T2, T, 'a release keeps the limit', 'limit', ev=e)
            p.need_eq(U2, U - u, 'a release returns exactly the rounded size', 'usage', ev=e)
            p.need_eq(p.ret, u.scale(UNIT), 'returns the released amount', 'result')
        # ---- readers
        I = setup(ck, cfg, q)
        for fn in ('quota_total', 'quota_used'):
            r = ck.run(I, fn, [q])
            for p in r.rets:
                okr = False
                for s in observed(p):
                    T, U = parts(I, p.st, s)
                    if p.same(p.ret, (T if fn == 'quota_total' else U).scale(UNIT)):
                        okr = True
                p.need(okr, 'readers decode one observation of the word', lambda: 'result %r' % (p.ret,))
        tp, up = arg('totalp', ptr=True), arg('usedp', ptr=True)
        r = ck.run(I, 'quota_get_total_and_used', [q, tp, up])
        for p in r.rets:
            t, u = I.rd(p.st, tp, 8), I.rd(p.st, up, 8)
            okr = any(p.same(t, parts(I, p.st, s)[0].scale(UNIT)) and p.same(u, parts(I, p.st, s)[1].scale(UNIT))
                      for s in observed(p))
            p.need(okr, 'limit and usage are read as one consistent pair', lambda: 'total %r used %r' % (t, u))
        I = ck.interp(cfg, unit='headers')
        r = ck.run(I, 'quota_init', [q, n], pre=lambda I, st: st.facts.add_ge(qmax - n))
        for p in r.rets:
            T, U = parts(I, p.st, I.rd(p.st, q, 8))
            p.need_eq(U, ZERO, 'starts unused', 'usage')
            p.need_eq(T, units(I, p.st, p.n(n)), 'starts with the rounded limit', 'limit')
        who_writes(ck, cfg)


def observed(p):
    """values of the shared word seen during the call"""
    return [p.n(k[1]) for k in p.st.ghost if isinstance(k, tuple) and k[0] == 'shv']


def who_writes(ck, cfg):
    """nobody outside quota.h touches the word"""
    off = {}
    n = 0
    for unit, m in mods(cfg).items():
        for fn in m.fns.values():
            for b in fn.blocks.values():
                for i in b:
                    if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                        p = i.a[2] if i.op != 'cmpxchg' else i.a[1]
                        g = defgep(fn, p)
                        if g and g[0] == '%struct.quota':
                            n += 1
                            f, l = m.loc(i.dbg)
                            f = f.replace('/repo/', '')
                            if not f.endswith('include/small/quota.h'):
                                ck.fail('only the quota module updates the quota word', cfg, fn.name,
                                        '%s:%d' % (f, l), 'store into struct quota')
                            else:
                                ck.ok('only the quota module updates the quota word')
    if n < 4:
        ck.gone('who-writes: only %d quota updates found' % n)


def defgep(fn, v):
    if v[0] != 'loc':
        return None
    for b in fn.blocks.values():
        for i in b:
            if i.res == v[1] and i.op == 'getelementptr':
                t = i.a[0]
                return (t.name and '%' + t.name.lstrip('%') if t.k == 'named' else None, i)
    return None


prop('Q01', 'other', 'abstract interpretation of the quota word transitions under interference: '
     'every read of the shared word yields an arbitrary value satisfying the invariant, '
     'every successful update is checked as a transition of the value it was compared with',
     [check_quota], min_obligations=20)
