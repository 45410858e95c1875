"""The memory-checking build: single checked allocations and the allocators on
top of them."""
from . import prop, PROPS
from ..contract import *
from .. import models
from . import region

BIG = models.BIG
LIM = (1 << 47) - (1 << 20)     # addresses of the process


POISON = models.POISON


class Asserts:
    """a failed run-time assertion ends the path; which ones can fail is kept"""

    def __init__(self, I):
        self.seen = []
        self.cbs = []           # (pointer, model) of user callbacks
        I.ptr_models = self.call

    def call(self, I, st, target, v, ins):
        for t, f in self.cbs:
            if st.n(target) == st.n(t):
                return f(I, st, target, v, ins)
        self.seen.append((st, I.loc(ins)))
        st.event('assert', tuple(v), I.loc(ins))
        return []


def no_asserts(ck, I, A, fn, rule='legal use is not reported as misuse'):
    for st, loc in A.seen:
        ck.fail(rule, I.cfg, fn, '%s:%d' % loc, 'an assertion may fail')
    if not A.seen:
        ck.ok(rule)


def big_malloc(I, st, v, ins):
    """a block obtained lies in the address space"""
    out = []
    for s, o in models.m_malloc(I, st, v, ins):
        if o is not ZERO:
            s.facts.add_ge(C(LIM) - o - I.u(s, v[0], 64))
            s.ghost[('align', next(iter(o.syms())))] = C(16)
        out.append((s, o))
    return out


def memcmp(I, st, v, ins):
    s2 = st.copy()
    a = tuple(st.n(x) for x in v)
    st.event('memcmp', a + (True,), I.loc(ins))
    s2.event('memcmp', a + (False,), I.loc(ins))
    return [(st, ZERO), (s2, ONE)]


def odd(q, x, al):
    """x is a multiple of al but not of 2 al"""
    I, a2 = q.I, al.scale(2)
    if not I.aligned_to(q.st, x, al):
        return False
    if any(I.aligned_to(q.st, y, a2) or q.is0(I.urem(q.st, q.n(y), a2, 64)) for y in (x - al, x + al)):
        return True
    return q.st.facts.nonzero(q.n(I.urem(q.st, x, a2, 64)))


def follow(ck, I, p, fn, args):
    return ck.run(I, fn, args, st=p.st.copy()).rets


def rule_alloc(ck):
    n = arg('payload_size', lo=0, hi=U64 - 1)
    al = S(mksym('alignment', 'arg', (), 1, 4096, False, key='asan.align'))
    hd = arg('header_size', lo=0, hi=512)
    I = ck.interp('asan', POISON, unit='util')
    I.models['malloc'] = big_malloc
    I.models['memcmp'] = memcmp
    I.models['small_xmalloc_fail'] = lambda I, st, v, ins: []
    A = Asserts(I)

    def pre(I, st):
        st.ghost[('pow2', next(iter(al.syms())))] = True
    fn = 'small_asan_alloc'
    r = ck.run(I, fn, [n, al, hd], pre=pre)
    no_asserts(ck, I, A, fn)
    for p in r.rets:
        al_ = p.evs('alloc')
        if not p.need(len(al_) == 1 and not p.evs('release'), 'one block per allocation', lambda: '%r' % (p.ev,)):
            continue
        o, Z = al_[0].a[1], I.u(p.st, al_[0].a[2], 64)
        end, h = o + Z, p.n(p.ret)
        p.need(I.aligned_to(p.st, h, C(8)), 'the header is aligned for its fields', lambda: '%r' % (h,))
        p.need_ge(h, o, 'the header is inside the block', 'header')
        pays = follow(ck, I, p, 'small_asan_payload_from_header', [h])
        for q in pays:
            x = q.n(q.ret)
            q.need_ge(x, h + hd, 'the payload is behind the header', 'payload')
            q.need_ge(end, x + n, 'the payload is inside the block', 'end of the payload')
            q.need(I.aligned_to(q.st, x, al), 'the payload is aligned as requested', lambda: '%r' % (x,))
            q.need(odd(q, x, al), 'the payload is not aligned better than requested', lambda: '%r' % (x,))
            for k in follow(ck, I, q, 'small_asan_header_from_payload', [x]):
                k.need_eq(k.ret, h, 'payload and header lead to each other', 'header')
            for a, sz, v in p.changed():
                q.need(q.ge(a, o) and q.ge(end, a + sz), 'bookkeeping stays inside the block', lambda: 'writes %r' % (q.n(a),))
                q.need(q.ge(h, a + sz) or q.ge(a, h + hd), 'bookkeeping does not overlap the header', lambda: 'writes %r' % (q.n(a),))
                q.need(q.ge(x, a + sz) or q.ge(a, x + n), 'bookkeeping does not overlap the payload', lambda: 'writes %r' % (q.n(a),))
            ps = [(e.a[0], q.n(e.a[0] + e.a[1]), e) for e in p.evs('poison')]
            for a, b, e in ps:
                q.need(q.ge(x, b) or q.ge(a, x + n), 'the payload is accessible', lambda: '%r' % (e,), e)
            q.need(not p.evs('unpoison'), 'what surrounds the payload is inaccessible', 'unpoisoned')
            q.need(any(q.same(a, x + n) and q.ge(b, end) for a, b, e in ps), 'what surrounds the payload is inaccessible', lambda: 'behind the payload: %r' % (ps,))
            gap = [b for a, b, e in ps if q.ge(o, a) and q.ge(b, h + hd) and q.ge(b, x - 7) and q.ge(x, b)]
            if not q.need(gap, 'what surrounds the payload is inaccessible', lambda: 'in front of the payload: %r' % (ps,)):
                continue
            # the few bytes that cannot be made inaccessible carry a mark
            cp = [e for e in p.evs('memcpy') if q.same(e.a[0], gap[0]) and q.same(e.a[2], x - gap[0])]
            if not q.need(len(cp) == 1, 'the bytes in front of the payload are marked', lambda: '%r' % (p.evs('memcpy'),)):
                continue
            mark = q.n(I.rd(p.st, cp[0].a[1], 8))
            A.seen = []
            n0 = len(q.ev)
            good = 0
            for k in follow(ck, I, q, 'small_asan_free', [h]):
                m = [e for e in k.ev[n0:] if e.kind == 'memcmp']
                k.need(any(k.same(e.a[0], gap[0]) and k.same(e.a[2], x - gap[0]) and e.a[3] and k.same(I.rd(k.st, e.a[1], 8), mark) for e in m),
                       'a damaged mark is reported when the memory is freed', lambda: '%r' % (m,))
                rel = [e for e in k.ev[n0:] if e.kind == 'release']
                k.need(len(rel) == 1 and k.same(rel[0].a[1], o), 'exactly the block allocated is freed', lambda: '%r' % (rel,))
                good += 1
            q.need(good == 1, 'legal use is not reported as misuse', '%d ways to free' % good)
            q.need(A.seen, 'a damaged mark is reported when the memory is freed', 'no report')
            for st, loc in A.seen:
                m = [e for e in st.evlist()[n0:] if e.kind == 'memcmp']
                q.need(any(not e.a[3] for e in m), 'legal use is not reported as misuse', '%s:%d' % loc)


    I = ck.interp('asan', unit='util')
    A = Asserts(I)
    for x in ('exit', 'abort', '_exit', 'quick_exit'):
        I.models[x] = lambda I, st, v, ins: []
    for fn, args in (('small_xmalloc_fail', [n, arg('file', ptr=True), arg('line', bits=32)]),
                     ('small_on_assert_failure_default', [arg('file', ptr=True), arg('line', bits=32), arg('func', ptr=True), arg('expr', ptr=True)])):
        r = ck.run(I, fn, args, expect_abort=True)
        for p in r.rets:
            p.need(False, 'a failure that was reported ends the process', '%s returns' % fn)
        ck.ok('a failure that was reported ends the process')
    I = ck.interp('asan', unit='util')
    for p in ck.run(I, 'small_asan_reserve_id', []).rets:
        e = p.evs('rmw')
        rule = 'allocators can be told apart, also those created at the same time'
        if not p.need(len(e) == 1 and e[0].a[0] in ('add', 'sub'), rule, lambda: '%r' % (p.ev,)):
            continue
        d = p.n(e[0].a[2])
        p.need(d.is_const() and d.c % 2 == 1, rule, lambda: 'advances by %r' % (d,), e[0])
        x = p.n(p.ret - e[0].a[3])
        p.need(x.is_const(), rule, lambda: 'returns %r' % (p.ret,), e[0])


# ---- the allocators on top: a checked allocation is a header and a payload
def c_alloc(I, st, v, ins):
    n, al, hd = (I.u(st, x, 64) for x in v)
    h = models.newobj(I, st, 'checked', I.asan_tag)
    st.facts.add_ge(C(LIM) - h)
    st.facts.add_ge(C(LIM) - n)
    st.event('alloc', ('small_asan_alloc', h, n, al, hd), I.loc(ins))
    return [(st, h)]


def c_payload(I, st, v, ins):
    return [(st, payload(st.n(v[0])))]


def payload(h):
    if len(h.t) == 1 and h.c == 0 and h.t[0][1] == 1 and len(h.t[0][0]) == 1:
        q = SYMS[h.t[0][0][0]]
        if q.kind == 'header_of':
            return q.args[0]
    return S(opaque('payload_of', (h,), 4096, PTR_MAX - 1 - BIG, True))


def c_header(I, st, v, ins):
    return [(st, header(st.n(v[0])))]


def header(x):
    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and len(x.t[0][0]) == 1:
        q = SYMS[x.t[0][0][0]]
        if q.kind == 'payload_of':
            return q.args[0]
    return S(opaque('header_of', (x,), 4096, PTR_MAX - 1 - BIG, True))


def c_free(I, st, v, ins):
    models.released(I, st, st.n(v[0]), ins, 'small_asan_free')
    return [(st, None)]


CHK = dict(POISON, small_asan_alloc=c_alloc, small_asan_payload_from_header=c_payload,
           small_asan_header_from_payload=c_header, small_asan_free=c_free,
           small_asan_reserve_id=lambda I, st, v, ins: reserve_id(I, st, ins))


def reserve_id(I, st, ins):
    x = S(fresh('id', 0, (1 << 32) - 1))
    st.event('new_id', (x,), I.loc(ins))
    return [(st, x)]


def own_id(p, base, struct, rule='allocators can be told apart'):
    e = p.evs('new_id')
    p.need(len(e) == 1 and p.same(p.f(base, struct, 'id'), e[0].a[0], 32), rule, lambda: 'id: %r' % p.n(p.f(base, struct, 'id')))


def initialized(ck, cfg, fn, struct, create, args, **kw):
    """fn(x) holds after create and not for a zeroed x"""
    X = arg('object', struct)
    unit, new = create
    I = ck.interp(cfg, *([CHK] if cfg == 'asan' else [models.CACHE]), unit=unit)
    if cfg == 'asan':
        Asserts(I)
    yes = 0
    for p in ck.run(I, new, [X] + args, **kw).rets:
        for q in ck.run(I, fn, [X], st=p.st.copy(), unit='headers').rets:
            yes += 1
            q.need(I.decide(q.st, q.n(q.ret)) is True if isinstance(q.n(q.ret), Cond) else q.differ(q.ret, ZERO), 'a created object is known to be one', lambda: '%r' % (q.ret,))
    if not yes:
        ck.gone(fn)
    I = ck.interp(cfg, unit='headers')

    def zero(I, st):
        for f in ('cache', 'slabc', 'objsize'):
            try:
                o, z = I.offsetof(struct, f)
            except Exception:
                continue
            I.learn_eq(st, I.entry(X + o, z))
    for q in ck.run(I, fn, [X], pre=zero).rets:
        q.need(I.decide(q.st, q.n(q.ret)) is False if isinstance(q.n(q.ret), Cond) else q.is0(q.ret), 'a zeroed object is known not to be one', lambda: '%r' % (q.ret,))


def use(ck, unit, *layers, **kw):
    I = ck.interp('asan', CHK, *layers, unit=unit, **kw)
    return I, Asserts(I)


def judge_new(p, n, rule='an allocation is one checked allocation of its size'):
    """-> (event, header) of the one allocation of a path"""
    al = p.evs('alloc')
    if not p.need(len(al) == 1 and al[0].a[0] == 'small_asan_alloc' and not p.evs('release'), rule, lambda: '%r' % (p.ev,)):
        return None, None
    e = al[0]
    p.need_eq(e.a[2], n, rule, 'size', ev=e)
    h = e.a[1]
    al = p.n(e.a[3])
    p.need(not al.is_const() or al.c > 0 and al.c & (al.c - 1) == 0, 'the alignment asked for is a power of two', lambda: '%r' % al, e)
    for a, sz, v in p.changed():
        d = p.n(a) - h
        if d.is_const():
            p.need(d.c >= 0 and p.ge(e.a[4], C(d.c + sz)), 'the header has room for what is stored in it', lambda: 'writes %d bytes at %d' % (sz, d.c), e)
    return e, h


def hfield(p, h, struct, f):
    return p.n(p.f(h, struct, f))


def rule_mempool(ck):
    P = arg('pool', 'mempool')
    fld = lambda I, f: I.entry(P + I.offsetof('mempool', f)[0], I.offsetof('mempool', f)[1])
    for k in range(32):
        I, A = use(ck, 'mempool_asan')
        size = arg('odd', lo=0, hi=(1 << (31 - k)) - 1).scale(2 << k) + (1 << k)
        r = ck.run(I, 'mempool_create', [P, arg('cache', 'slab_cache'), size], pre=lambda I, st: st.facts.add_ge(C((1 << 32) - 1) - size))
        no_asserts(ck, I, A, 'mempool_create')
        for p in r.rets:
            p.need_field(P, 'mempool', 'objsize', size, 'objects have the size of the pool')
            p.need_field(P, 'mempool', 'objcount', ZERO, 'a new pool is empty')
            own_id(p, P, 'mempool')
            p.need_field(P, 'mempool', 'alignment', C(1 << min(k, 12)), 'objects are aligned as their size allows')
    I, A = use(ck, 'mempool_asan')
    r = ck.run(I, 'mempool_alloc', [P])
    no_asserts(ck, I, A, 'mempool_alloc')
    for p in r.rets:
        e, h = judge_new(p, fld(I, 'objsize'))
        if e is None:
            continue
        p.need_eq(e.a[3], fld(I, 'alignment'), 'objects are aligned as their size allows', 'alignment')
        p.need_eq(p.ret, payload(h), 'the object is the payload of its allocation', 'result')
        p.need_eq(hfield(p, h, 'mempool_object', 'pool_id'), fld(I, 'id'), 'an object knows its pool', 'pool_id', 32)
        p.need_field(P, 'mempool', 'objcount', fld(I, 'objcount') + 1, 'objects are counted')
        p.frame(field_pred(I, P, 'mempool', 'objcount'), 'only the count changes')
    I, A = use(ck, 'mempool_asan')
    obj = arg('object', ptr=True)
    pid = I.entry(header(obj) + I.offsetof('mempool_object', 'pool_id')[0], 4)
    free_rule(ck, I, A, 'mempool_free', [P, obj], obj, [(pid, fld(I, 'id'))],
              lambda p: (p.need_field(P, 'mempool', 'objcount', fld(I, 'objcount') - 1, 'objects are counted'),
                         p.frame(field_pred(I, P, 'mempool', 'objcount'), 'only the count changes')))
    I, A = use(ck, 'headers')
    out = arg('stats', 'mempool_stats')
    for fn, args in (('mempool_used', [P]), ('mempool_count', [P]), ('mempool_stats', [P, out])):
        used = mul(fld(I, 'objcount'), fld(I, 'objsize'))

        def pre(I, st):
            st.facts.add_ge(C(1 << 60) - used)
        r = ck.run(I, fn, args, pre=pre)
        for p in r.rets:
            if fn == 'mempool_stats':
                for f in ('slabsize', 'slabcount'):
                    p.need(p.n(p.f(out, 'mempool_stats', f)).is_const(), 'all statistics are filled in', f)
                for f, w in (('objsize', fld(I, 'objsize')), ('objcount', fld(I, 'objcount')), ('totals.used', used), ('totals.total', used)):
                    p.need_field(out, 'mempool_stats', f, w, 'statistics count the objects held', 32 if f[0] == 'o' else 64)
            else:
                p.need_eq(p.ret, used if fn == 'mempool_used' else fld(I, 'objcount'), 'statistics count the objects held', 'result')


def free_rule(ck, I, A, fn, args, obj, match, cb, misuse='misuse is reported', pre=None):
    """legal: all pairs of match are equal -> the allocation is freed, no report.
    illegal: any of them differs -> no path returns"""
    def p1(I, st):
        if pre:
            pre(I, st)
        for a, b in match:
            st.facts.add_ge(a - b)
            st.facts.add_ge(b - a)
    r = ck.run(I, fn, args, pre=p1)
    no_asserts(ck, I, A, fn)
    for p in r.rets:
        rel = p.evs('release')
        p.need(len(rel) == 1 and p.same(rel[0].a[1], header(obj)) and not p.evs('alloc'), 'exactly the allocation of the object is freed', lambda: '%r' % (rel,))
        cb(p)
    for a, b in match:
        for d in (a - b - 1, b - a - 1):
            A.seen = []

            def p2(I, st):
                if pre:
                    pre(I, st)
                st.facts.add_ge(d)
            r = ck.run(I, fn, args, pre=p2, expect_abort=True)
            for p in r.rets:
                p.need(False, misuse, 'no report when %r and %r differ' % (a, b))
            if not r.rets:
                ck.ok(misuse)
            if not A.seen:
                ck.fail(misuse, 'asan', fn, r.where, 'no report when %r and %r differ' % (a, b))


def rule_small(ck):
    AL = arg('alloc', 'small_alloc')
    cnt = lambda I, f: I.entry(AL + I.offsetof('small_alloc', f)[0], I.offsetof('small_alloc', f)[1])

    def lease(I, st, v, ins):
        s2 = st.copy()
        s2.event('quota_lease_fail', tuple(st.n(x) for x in v), I.loc(ins))
        st.event('quota_lease', tuple(st.n(x) for x in v), I.loc(ins))
        st.facts.add_ge(C(LIM) - st.n(v[1]))
        return [(s2, C(-1)), (st, st.n(v[1]))]

    def unlease(I, st, v, ins):
        st.event('quota_end_lease', tuple(st.n(x) for x in v), I.loc(ins))
        return [(st, st.n(v[1]))]
    Q = {'quota_lease': lease, 'quota_end_lease': unlease}
    n = arg('size', lo=0, hi=U64 - 1)
    I, A = use(ck, 'small_asan', Q)
    small = lambda I, st: (st.facts.add_ge(C(LIM) - cnt(I, 'used')), st.facts.add_ge(C(LIM) - cnt(I, 'objcount')))
    r = ck.run(I, 'smalloc', [AL, n], pre=small)
    no_asserts(ck, I, A, 'smalloc')
    got = [0, 0]
    for p in r.rets:
        fails = p.evs('quota_lease_fail')
        if p.is0(p.ret):
            got[0] += 1
            p.need(fails and not p.evs('quota_lease', 'alloc', 'release'), 'fails only when the quota is exhausted', '')
            p.no_effects('a failed allocation changes nothing')
            continue
        got[1] += 1
        q = p.evs('quota_lease')
        e, h = judge_new(p, n)
        if e is None:
            continue
        p.need(len(q) == 1 and p.same(q[0].a[0], cnt(I, 'quota')) and p.same(q[0].a[1], n), 'an object is charged with its size', lambda: '%r' % (q,))
        p.need_eq(p.ret, payload(h), 'the object is the payload of its allocation', 'result')
        p.need(e.a[3].is_const() and e.a[3].c >= 4 and e.a[3].c & (e.a[3].c - 1) == 0, 'objects are aligned', lambda: '%r' % e.a[3], e)
        p.need_eq(hfield(p, h, 'small_object', 'size'), n, 'an object knows its size', 'size')
        p.need_eq(hfield(p, h, 'small_object', 'allocator_id'), cnt(I, 'id'), 'an object knows its allocator', 'id', 32)
        p.need_field(AL, 'small_alloc', 'objcount', cnt(I, 'objcount') + 1, 'objects are counted')
        p.need_field(AL, 'small_alloc', 'used', cnt(I, 'used') + n, 'used bytes are counted')
        p.frame(field_pred(I, AL, 'small_alloc', 'objcount', 'used'), 'only the counters change')
    if not all(got):
        ck.gone('smalloc: paths %r' % got)
    I, A = use(ck, 'small_asan', Q)
    obj = arg('object', ptr=True)
    H = header(obj)
    sz = I.entry(H + I.offsetof('small_object', 'size')[0], 8)
    oid = I.entry(H + I.offsetof('small_object', 'allocator_id')[0], 4)

    def done(p):
        q = p.evs('quota_end_lease')
        p.need(len(q) == 1 and p.same(q[0].a[0], cnt(I, 'quota')) and p.same(q[0].a[1], n), 'the charge of an object is returned once', lambda: '%r' % (q,))
        p.need_field(AL, 'small_alloc', 'objcount', cnt(I, 'objcount') - 1, 'objects are counted')
        p.need_field(AL, 'small_alloc', 'used', cnt(I, 'used') - n, 'used bytes are counted')
        p.frame(field_pred(I, AL, 'small_alloc', 'objcount', 'used'), 'only the counters change')
    info = arg('info', 'small_alloc_info')
    for p in ck.run(ck.interp('asan', unit='headers'), 'small_alloc_info', [AL, obj, n, info]).rets:
        p.need_ge(p.n(p.f(info, 'small_alloc_info', 'real_size')), n, 'an object is reported to be as large as it is', 'real_size')
    free_rule(ck, I, A, 'smfree', [AL, obj, n], obj, [(oid, cnt(I, 'id')), (sz, n)], done)


def rule_small_stats(ck):
    AL = arg('alloc', 'small_alloc')
    I, A = use(ck, 'small_asan')
    tot, cbf, ctx = arg('totals', 'small_stats'), arg('cb', ptr=True), arg('ctx')
    seen = []

    def call(I, st, target, v, ins):
        seen.append((target, v))
        o, z = I.offsetof('mempool_stats', 'objcount')
        st.event('visit', (st.n(target), st.n(I.rd(st, v[0] + o, z)), st.n(v[1])), I.loc(ins))
        return [(st, ZERO)]
    I.ptr_models = call
    e = lambda f: I.entry(AL + I.offsetof('small_alloc', f)[0], 8)
    r = ck.run(I, 'small_stats', [AL, tot, cbf, ctx])
    for p in r.rets:
        p.need_field(tot, 'small_stats', 'used', e('used'), 'statistics count what is allocated')
        p.need_field(tot, 'small_stats', 'total', e('used'), 'statistics count what is allocated')
        v = p.evs('visit')
        p.need(len(v) == 1 and p.same(v[0].a[0], cbf) and p.same(v[0].a[1], e('objcount'), 32) and p.same(v[0].a[2], ctx),
               'objects are reported to the visitor', lambda: '%r' % (v,))
    I, A = use(ck, 'small_asan')
    cache, q, factor = arg('cache', 'slab_cache'), arg('factor_out', ptr=True), S(fresh('factor'))
    r = ck.run(I, 'small_alloc_create', [AL, cache, arg('min', bits=32), arg('gran', bits=32), factor, q])
    for p in r.rets:
        p.need_field(AL, 'small_alloc', 'used', ZERO, 'a new allocator is empty')
        p.need_field(AL, 'small_alloc', 'objcount', ZERO, 'a new allocator is empty')
        own_id(p, AL, 'small_alloc')
        p.need_eq(I.rd(p.st, q, 4), factor, 'the factor in use is reported', 'factor', 32)
        p.need_field(AL, 'small_alloc', 'quota', cache + I.offsetof('slab_cache', 'quota')[0], 'objects are charged to the quota of the cache')


def rule_cache(ck):
    CA = arg('cache', 'slab_cache')
    n = arg('size', lo=0, hi=U64 - 1)
    I, A = use(ck, 'slab_cache_asan')
    I.models['pthread_equal'] = lambda I, st, v, ins: [(st, ONE)]
    e = lambda f: I.entry(CA + I.offsetof('slab_cache', f)[0], I.offsetof('slab_cache', f)[1])
    meta = 8
    small = lambda I, st: st.facts.add_ge(C(LIM) - e('used'))
    r = ck.run(I, 'slab_get', [CA, n], pre=small)
    no_asserts(ck, I, A, 'slab_get')
    ok = 0
    for p in r.rets:
        if p.is0(p.ret):
            p.need(p.ge(n, LIM), 'a request that is not absurd is served', '')
            p.no_effects('a refused request changes nothing')
            p.need(not p.evs('alloc', 'release'), 'a refused request changes nothing', '')
            continue
        ok += 1
        ev, h = None, None
        al = p.evs('alloc')
        if not p.need(len(al) == 1, 'a slab is one checked allocation', lambda: '%r' % (al,)):
            continue
        ev, h = judge_new(p, al[0].a[2], 'a slab is one checked allocation')
        z = ev.a[2]
        p.need_ge(z, n + meta, 'a slab holds the request and its header', 'size')
        p.need_ge(n + meta + 4095 + (1 << 20), z, 'a slab is not larger than needed', 'size')
        p.need(ev.a[3].is_const() and ev.a[3].c % 8 == 0, 'slabs are aligned for any header', lambda: '%r' % ev.a[3])
        p.need_eq(p.ret, payload(h), 'a slab is the payload of its allocation', 'result')
        p.need_eq(p.n(p.f(p.ret, 'slab', 'size')), z, 'a slab knows its size', 'size')
        p.need_eq(hfield(p, h, 'slab_cache_object', 'cache_id'), e('id'), 'a slab knows its cache', 'id', 32)
        p.need_field(CA, 'slab_cache', 'used', e('used') + z, 'used counts the slabs held')
        p.frame(lambda a: field_pred(I, CA, 'slab_cache', 'used')(a) or p.same(a, p.ret), 'only the count changes')
        for q in ck.run(I, 'slab_real_size', [CA, n], st=p.st.copy(), unit='headers').rets:
            q.need_eq(q.ret, z, 'the size announced is the size delivered', 'slab_real_size')
    r.count('granted', ok)
    I, A = use(ck, 'slab_cache_asan')
    I.models['pthread_equal'] = lambda I, st, v, ins: [(st, ONE)]
    sl = arg('slab', 'slab')
    cid = I.entry(header(sl) + I.offsetof('slab_cache_object', 'cache_id')[0], 4)
    z = I.entry(sl + I.offsetof('slab', 'size')[0], 8)
    free_rule(ck, I, A, 'slab_put', [CA, sl], sl, [(cid, e('id'))],
              lambda p: (p.need_field(CA, 'slab_cache', 'used', e('used') - z, 'used counts the slabs held'),
                         p.frame(field_pred(I, CA, 'slab_cache', 'used'), 'only the count changes')))
    I, A = use(ck, 'slab_cache_asan', models.QUOTA)
    ar = arg('arena', 'slab_arena')
    r = ck.run(I, 'slab_cache_create', [CA, ar])
    for p in r.rets:
        p.need_field(CA, 'slab_cache', 'used', ZERO, 'a new cache holds nothing')
        own_id(p, CA, 'slab_cache')
        p.need_field(CA, 'slab_cache', 'quota.source', I.entry(ar + I.offsetof('slab_arena', 'quota')[0], 8), 'leases are charged to the quota of the arena')
    I, A = use(ck, 'headers', models.QUOTA)
    q = lambda f: I.entry(CA + I.offsetof('slab_cache', 'quota')[0] + I.offsetof('quota_lessor', f)[0], 8)
    r = ck.run(I, 'slab_cache_destroy', [CA], pre=lambda I, st: st.facts.add_ge(C(LIM) - q('used')))
    for p in r.rets:
        qs = p.evs('quota_release')
        if p.is0(q('used')):
            p.need(not qs, 'a destroyed cache returns its leases once', lambda: '%r' % (qs,))
        else:
            p.need(len(qs) == 1 and p.same(qs[0].a[0], q('source')) and p.same(qs[0].a[1], q('used')), 'a destroyed cache returns its leases once', lambda: '%r' % (qs,))
    I, A = use(ck, 'headers')
    r = ck.run(I, 'slab_cache_used', [CA])
    for p in r.rets:
        p.need_eq(p.ret, e('used'), 'used counts the slabs held', 'result')


def rule_arena(ck):
    AR = arg('arena', 'slab_arena')
    I, A = use(ck, 'slab_arena_asan')
    e = lambda f: I.entry(AR + I.offsetof('slab_arena', f)[0], I.offsetof('slab_arena', f)[1])
    r = ck.run(I, 'slab_map', [AR])
    no_asserts(ck, I, A, 'slab_map')
    for p in r.rets:
        ev, h = judge_new(p, e('slab_size'), 'a slab is one checked allocation')
        if ev is None:
            continue
        p.need_eq(p.ret, payload(h), 'a slab is the payload of its allocation', 'result')
        p.need(ev.a[3].is_const() and ev.a[3].c % 8 == 0 and ev.a[3].c & (ev.a[3].c - 1) == 0, 'slabs are aligned for any header', lambda: '%r' % ev.a[3])
        p.need_eq(hfield(p, h, 'slab_arena_object', 'arena_id'), e('id'), 'a slab knows its arena', 'id', 32)
        p.frame(lambda a: False, 'mapping a slab changes nothing else')
    I, A = use(ck, 'slab_arena_asan')
    sl = arg('slab', ptr=True)
    aid = I.entry(header(sl) + I.offsetof('slab_arena_object', 'arena_id')[0], 4)
    free_rule(ck, I, A, 'slab_unmap', [AR, sl], sl, [(aid, e('id'))], lambda p: p.frame(lambda a: False, 'unmapping a slab changes nothing else'),
              pre=lambda I, st: st.facts.add_ge(sl - 4096))
    I, A = use(ck, 'slab_arena_asan')
    r = ck.run(I, 'slab_unmap', [AR, ZERO])
    for p in r.rets:
        p.need(not p.evs('release'), 'unmapping nothing does nothing', '')
    I, A = use(ck, 'slab_arena_asan')
    q, pre_, sz, fl = arg('quota'), arg('prealloc', hi=LIM), arg('slab_size', lo=0, hi=1 << 31), arg('flags', bits=32)
    r = ck.run(I, 'slab_arena_create', [AR, q, pre_, sz, fl])
    for p in r.rets:
        z = p.n(p.f(AR, 'slab_arena', 'slab_size'))
        p.need_ge(z, sz, 'slabs are not smaller than requested', 'slab_size')
        p.need(I.is_pow2(p.st, z), 'the slab size is a power of two', lambda: '%r' % z)
        p.need_field(AR, 'slab_arena', 'quota', q, 'the arena knows its quota')
        p.need_field(AR, 'slab_arena', 'used', ZERO, 'a new arena is empty')
        own_id(p, AR, 'slab_arena')
        p.need_eq(p.ret, ZERO, 'creation succeeds', 'result', 32)


def rule_mempool_known(ck):
    sz = arg('objsize', lo=1, hi=1 << 20, bits=32)
    cache = arg('cache', 'slab_cache')
    I, A = use(ck, 'mempool_asan')
    P = arg('pool', 'mempool')
    r = ck.run(I, 'mempool_destroy', [P])
    no_asserts(ck, I, A, 'mempool_destroy')
    for p in r.rets:
        p.need_field(P, 'mempool', 'objsize', ZERO, 'a destroyed pool is recognisable')
    initialized(ck, 'asan', 'mempool_is_initialized', 'mempool', ('mempool_asan', 'mempool_create'), [cache, sz])


def rule_obuf_known(ck):
    for cfg, unit in (('asan', 'obuf_asan'), ('plain', 'obuf')):
        initialized(ck, cfg, 'obuf_is_initialized', 'obuf', (unit, 'obuf_create'), [arg('cache', 'slab_cache'), arg('start', lo=1, hi=1 << 30)])


# ---- region
class Region:
    S, E = 'region', 'region_allocation'

    def __init__(self, ck, unit='region_asan'):
        self.ck = ck
        self.I, self.A = use(ck, unit)
        I = self.I
        I.asan_tag = self.E
        self.R = arg('region', 'region')
        self.head = self.R + I.offsetof('region', 'allocations')[0]
        self.link = I.offsetof(self.E, 'link')[0]
        for f in ('used', 'reserved', 'on_alloc_cb', 'on_truncate_cb', 'cb_arg'):
            setattr(self, f, I.entry(self.R + I.offsetof('region', f)[0], 8, f.endswith('cb')))
        I.elem_hook = self.elem
        self.A.cbs = [(self.on_alloc_cb, self.cb), (self.on_truncate_cb, self.cb)]

    def cb(self, I, st, target, v, ins):
        now = I.rd(st, self.R + I.offsetof('region', 'used')[0], 8)
        st.event('callback', (st.n(target), tuple(st.n(x) for x in v), st.n(now)), I.loc(ins))
        return [(st, ZERO)]

    def e0(self, h, f):
        o, n = self.I.offsetof(self.E, f)
        return self.I.entry(h + o, n)

    def elem(self, I, st, h, link):
        if h == self.head:
            st.facts.add_ge(self.used - self.e0(link - self.link, 'used'))

    def pre(self, I, st):
        st.facts.add_ge(C(LIM) - self.used)
        st.facts.add_ge(C(LIM) - self.reserved)

    def none(self, I, st):
        self.pre(I, st)
        st.facts.add_ge(-self.reserved)

    def some(self, I, st):
        """the newest allocation is a reservation"""
        self.pre(I, st)
        st.facts.add_ge(self.reserved - 1)
        (s, e), = [x for x in models.need_end(I, self.nonempty(I, st), self.head, 'first') if x[0] is st]
        h = self.newest = e - self.link
        st.facts.add_ge(-self.e0(h, 'used'))

    def nonempty(self, I, st):
        l = models.lget(I, st, self.head)
        st.lists[self.head] = LS((), (l.rest[0], True), ())
        return st

    def first(self, p):
        l = p.st.lists.get(p.n(self.head))
        return p.n(l.pre[0]) - self.link if l is not None and l.pre else None

    def cbs(self, p, which, size, when, rule):
        cbs = p.evs('callback')
        if p.is0(which):
            p.need(not cbs, rule, 'a missing callback is called')
            return
        if not p.need(len(cbs) == 1 and p.same(cbs[0].a[0], which) and p.st.facts.nonzero(p.n(which)), rule, lambda: '%d calls, maybe of a missing callback' % len(cbs)):
            return
        e = cbs[0]
        p.need(p.same(e.a[1][0], self.R) and p.same(e.a[1][1], size) and p.same(e.a[1][2], self.cb_arg), rule, lambda: '%r, expected size %r' % (e.a[1], size), e)
        p.need_eq(e.a[2], when, 'callbacks see the usage they are promised', 'region_used', ev=e)


def rule_region(ck):
    n = arg('size', lo=1, hi=U64 - 1)
    al = S(mksym('alignment', 'arg', (), 1, 4096, False, key='asan.align'))
    out = arg('size_out', ptr=True)
    for fn, unit, args in (('region_aligned_reserve', 'region_asan', lambda cx: [cx.R, n, al]), ('region_reserve', 'headers', lambda cx: [cx.R, n]),
                           ('region_reserve_cb', 'headers', lambda cx: [cx.R, out])):
        cx = Region(ck, unit)
        I = cx.I
        want = I.entry(out, 8) if fn.endswith('cb') else n
        r = ck.run(I, fn, args(cx), pre=lambda I, st: (cx.none(I, st), st.facts.add_ge(want - 1)))
        no_asserts(ck, I, cx.A, fn)
        for p in r.rets:
            al_ = p.evs('alloc')
            if not p.need(len(al_) == 1, 'a reservation is one checked allocation', lambda: '%r' % al_):
                continue
            e, h = judge_new(p, al_[0].a[2], 'a reservation is one checked allocation')
            res = p.n(p.f(cx.R, 'region', 'reserved'))
            p.need_ge(e.a[2], res, 'a reservation is not larger than its allocation', 'reserved')
            p.need_ge(res, want, 'at least the requested size is available', 'reserved')
            p.need_ge(res, ONE, 'a reservation is remembered', 'reserved')
            p.need_eq(p.ret, payload(h), 'memory comes from the newest allocation', 'result')
            p.need(cx.first(p) is not None and p.same(cx.first(p), h) and len(p.evs('list_add', 'list_add_tail')) == 1, 'memory comes from the newest allocation', 'not in front')
            p.need_eq(hfield(p, h, cx.E, 'used'), ZERO, 'a reservation is not yet an allocation', 'used')
            p.need_field(cx.R, 'region', 'used', cx.used, 'a reservation is not yet an allocation')
            p.need(not p.evs('callback'), 'a reservation is not yet an allocation', 'callback')
            p.need(I.aligned_to(p.st, e.a[3], al if 'aligned' in fn else ONE), 'the requested alignment is honoured', lambda: '%r' % e.a[3])
            p.need_eq(hfield(p, h, cx.E, 'alignment'), e.a[3], 'an allocation knows its alignment', 'alignment')
            if fn.endswith('cb'):
                p.need_eq(I.rd(p.st, out, 8), res, 'at least the requested size is available', 'size')
            p.frame(lambda a: p.same(a, out) or field_pred(I, cx.R, 'region', 'reserved', 'allocations')(a), 'only the newest allocation and the totals change')
    for fn, unit, args in (('region_aligned_alloc', 'region_asan', lambda cx: [cx.R, n, al]), ('region_alloc', 'headers', lambda cx: [cx.R, n]),
                           ('region_alloc_cb', 'headers', lambda cx: [cx.R, n])):
        a = al if 'aligned' in fn else ONE
        cx = Region(ck, unit)
        I = cx.I
        r = ck.run(I, fn, args(cx), pre=cx.none)
        no_asserts(ck, I, cx.A, fn)
        for p in r.rets:
            e, h = judge_new(p, n, 'an allocation is one checked allocation of its size')
            if e is None:
                continue
            p.need_eq(p.ret, payload(h), 'memory comes from the newest allocation', 'result')
            p.need(cx.first(p) is not None and p.same(cx.first(p), h) and len(p.evs('list_add', 'list_add_tail')) == 1, 'memory comes from the newest allocation', 'not in front')
            p.need_eq(hfield(p, h, cx.E, 'used'), n, 'an allocation knows its size', 'used')
            p.need_eq(e.a[3], a, 'the requested alignment is honoured', 'alignment')
            p.need_field(cx.R, 'region', 'used', cx.used + n, 'usage counts every allocated byte')
            p.need_field(cx.R, 'region', 'reserved', ZERO, 'nothing is reserved after an allocation')
            cx.cbs(p, cx.on_alloc_cb, n, cx.used, 'each allocation is announced once with its size')
            p.frame(field_pred(I, cx.R, 'region', 'used', 'allocations'), 'only the newest allocation and the totals change')
        for legal in (True, False):
            cx = Region(ck, unit)
            I = cx.I

            def pre(I, st):
                cx.some(I, st)
                x = cx.e0(cx.newest, 'alignment')
                st.facts.add_ge(x - a)
                st.facts.add_ge(a - x)
                st.facts.add_ge(cx.reserved - n if legal else n - cx.reserved - 1)
            r = ck.run(I, fn, args(cx), pre=pre, expect_abort=not legal)
            if not legal:
                for p in r.rets:
                    p.need(False, 'using more than was reserved is reported', 'no report')
                if not cx.A.seen:
                    ck.fail('using more than was reserved is reported', 'asan', fn, r.where, 'no report')
                continue
            no_asserts(ck, I, cx.A, fn)
            for p in r.rets:
                h = cx.newest
                p.need(not p.evs('alloc', 'release', 'list_add', 'list_add_tail', 'list_del'), 'an allocation uses the reservation', lambda: '%r' % (p.ev,))
                p.need_eq(p.ret, payload(h), 'an allocation uses the reservation', 'result')
                p.need_eq(hfield(p, h, cx.E, 'used'), n, 'an allocation knows its size', 'used')
                p.need_field(cx.R, 'region', 'used', cx.used + n, 'usage counts every allocated byte')
                p.need_field(cx.R, 'region', 'reserved', ZERO, 'nothing is reserved after an allocation')
                cx.cbs(p, cx.on_alloc_cb, n, cx.used, 'each allocation is announced once with its size')
                ps = p.evs('poison')
                p.need(all(p.ge(e.a[0], payload(h) + n) or p.ge(payload(h), e.a[0] + e.a[1]) for e in ps), 'allocated bytes are accessible', lambda: '%r' % (ps,))
                p.need(all(p.ge(payload(h) + cx.reserved, e.a[0] + e.a[1]) and p.ge(e.a[0], payload(h)) for e in ps), 'only memory of the allocation is made inaccessible', lambda: '%r' % (ps,))
                p.need(hides(p, payload(h) + n, payload(h) + cx.reserved), 'what was reserved but not allocated is inaccessible', lambda: '%r' % (ps,))
                u = h + I.offsetof(cx.E, 'used')[0]
                p.frame(lambda x: p.same(x, u) or field_pred(I, cx.R, 'region', 'used', 'reserved')(x), 'only the newest allocation and the totals change')


def rule_region_callbacks(ck):
    cx = Region(ck, 'headers')
    a, t, x = arg('a', ptr=True), arg('t', ptr=True), arg('x', ptr=True)
    for p in ck.run(cx.I, 'region_set_callbacks', [cx.R, a, t, x]).rets:
        for f, v in (('on_alloc_cb', a), ('on_truncate_cb', t), ('cb_arg', x)):
            p.need_field(cx.R, 'region', f, v, 'callbacks are installed as given')
        p.frame(field_pred(cx.I, cx.R, 'region', 'on_alloc_cb', 'on_truncate_cb', 'cb_arg'), 'only the callbacks change')


def truncated(ck, r, cx, used, cut, reserved):
    """the walk of region_truncate: newest allocations are freed as long as
    bytes above the mark remain"""
    I = cx.I
    n = 0
    curs = {}
    for i in I.loop_seen:
        its = list(iterations(r, i))
        both = list(zip(elements(r, i, cx.head, cx.link), its))
        # the head itself comes up only when the list is empty: last
        both.sort(key=lambda t: any(t[0][0].same(e.a[0], cx.head) for e in t[0][0].evs('list_del')))
        for (p, s, key, off, nx, ih), (q, pairs) in both:
            rel = p.evs('release')
            dels = p.evs('list_del')
            if dels and p.same(dels[0].a[0], cx.head) and any(
                    p.ge(cut + (pairs[k][0] - i.vars[k][0]).scale(sg), 1) for k, sg in getattr(i, 'left', ()) if k in pairs):
                # the allocations on the list hold all the bytes above the
                # mark that remain, so the list is not empty here
                continue
            if not p.need(s is not None and len(dels) == 1 and p.same(dels[0].a[0], s + cx.link), 'allocations are removed one by one', lambda: '%r' % dels):
                continue
            n += 1
            p.need(len(rel) == 1 and p.same(rel[0].a[1], s) and p.ev.index(dels[0]) < p.ev.index(rel[0]), 'every allocation removed is freed once', lambda: '%r' % rel)
            if key is not None:
                back = p.pv.get(key[1])
                p.need(isinstance(back, Lin) and p.same(back, nx.a[2] - (cx.link if off is not ZERO else 0)) and p.ev.index(nx) < p.ev.index(rel[0]),
                       'allocations are removed one by one', lambda: 'cursor moves to %r' % (back,), nx)
                curs.setdefault(id(i), set()).add((key, off))
            U = p.n(fstart(p, s, cx.E, 'used'))
            good = False
            for k, sg, e, h, b in counters(p, i, pairs, -U):
                left = cut + (h - e).scale(sg)
                if p.ge(left, U) and p.ge(left, 1):
                    good = True
                    i.left = getattr(i, 'left', set()) | {(k, sg)}
            p.need(good, 'allocations removed hold only data above the mark', lambda: 'allocation of %r bytes' % (U,), dels[0])
    r.count('allocations removed', n)
    legal_reports(ck, r, cx, cut)
    for p in r.rets:
        p.need_field(cx.R, 'region', 'used', used, 'the region holds exactly what was kept')
        p.need_field(cx.R, 'region', 'reserved', ZERO, 'a truncated region has no reservation')
        cx.cbs(p, cx.on_truncate_cb, used, used, 'each truncation is announced once')
        empty = list_known_empty(p.st, cx.head)
        zero = p.is0(cut)
        for e in p.evs('loop'):
            i, vals = e.x
            for key, off in curs.get(id(i), ()):
                if isinstance(vals.get(key), Lin) and p.same(vals[key] + off, cx.head):
                    empty = True
            for k, sg in getattr(i, 'left', ()):
                en = i.vars[k][0]
                if isinstance(vals.get(k), Lin) and isinstance(en, Lin) and p.is0(p.n(cut + (vals[k] - en).scale(sg))):
                    zero = True
        p.need(empty or zero, 'truncation stops only at the mark', '')
        own = [e for e in p.evs('release')]
        if reserved:
            p.need(len(own) == 1 and p.same(own[0].a[1], cx.newest) and any(p.same(e.a[0], cx.newest + cx.link) for e in p.evs('list_del')),
                   'a pending reservation is freed once', lambda: '%r' % own)
        else:
            p.need(not own, 'every allocation removed is freed once', lambda: '%r' % own)
        p.frame(field_pred(I, cx.R, 'region', 'used', 'reserved', 'allocations'), 'only the totals change')


def legal_reports(ck, r, cx, cut):
    """a report is right when fewer bytes are above the mark than the newest
    allocation holds"""
    rule = 'legal use is not reported as misuse'
    for st, loc in cx.A.seen:
        st = st.copy()
        l = st.lists.get(cx.head)
        els = [x - cx.link for x in l.pre] if l is not None else []
        els += [st.n(e.a[0]) - cx.link for e in st.evlist() if e.kind == 'lnext']
        lefts = [cut]
        for e in st.evlist():
            if e.kind == 'loop':
                i, vals = e.x
                lefts += [cut + (vals[k] - i.vars[k][0]).scale(sg) for j in r.I.loop_seen for k, sg in getattr(j, 'left', ())
                          if k in i.vars and isinstance(vals.get(k), Lin) and isinstance(i.vars[k][0], Lin)]
        if any((e.x[0] not in r.I.loop_seen or e.x[1] not in e.x[0].finals) and e.x[1] != getattr(e.x[0], 'skipped', None) for e in st.evlist() if e.kind == 'loop'):
            continue        # from a pass that was superseded
        if list_known_empty(st, cx.head) and any(st.facts.ge0(st.n(x) - 1) for x in lefts):
            # bytes above the mark are left, so the list is not empty
            ck.ok(rule)
            continue
        if any(st.facts.ge0(st.n(cx.I.rd(st, h + cx.I.offsetof(cx.E, 'used')[0], 8) - x - 1)) for h in els for x in lefts):
            ck.ok(rule)
        else:
            ck.fail(rule, 'asan', r.name, '%s:%d' % loc, 'an assertion may fail')


def rule_region_truncate(ck):
    mark = arg('used', lo=0, hi=U64 - 1)
    for fn, unit in (('region_truncate', 'region_asan'), ('region_free', 'headers'), ('region_destroy', 'headers'), ('region_reset', 'headers')):
        for reserved in (False, True):
            whole = fn != 'region_truncate'
            to = ZERO if whole else mark
            cx = Region(ck, unit)
            I = cx.I

            def pre(I, st):
                (cx.some if reserved else cx.none)(I, st)
                st.facts.add_ge(cx.used - to)
            r = ck.run(I, fn, [cx.R] if whole else [cx.R, mark], pre=pre)
            truncated(ck, r, cx, to, cx.used - to, reserved)
    # a mark above what is used
    cx = Region(ck)
    r = ck.run(cx.I, 'region_truncate', [cx.R, mark], pre=lambda I, st: (cx.none(I, st), st.facts.add_ge(mark - cx.used - 1)), expect_abort=True)
    for p in r.rets:
        p.need(False, 'a mark above the used bytes is reported', '')
    cx = Region(ck, 'headers')
    r = ck.run(cx.I, 'region_create', [cx.R, arg('cache')])
    for p in r.rets:
        for f in ('used', 'reserved', 'on_alloc_cb', 'on_truncate_cb'):
            p.need_field(cx.R, 'region', f, ZERO, 'a new region is empty')
        p.need(list_known_empty(p.st, cx.head), 'a new region is empty', 'allocations')
    for fn in ('region_used', 'region_total'):
        cx = Region(ck, 'headers')
        r = ck.run(cx.I, fn, [cx.R])
        for p in r.rets:
            p.need_eq(p.ret, cx.used, 'the region reports what it holds', 'result')


def rule_region_join(ck):
    size = arg('size', lo=1, hi=U64 - 1)
    cx = Region(ck)
    I = cx.I

    def pre(I, st):
        cx.none(I, st)
        st.facts.add_ge(cx.used - size)
        cx.nonempty(I, st)
    r = ck.run(I, 'region_join', [cx.R, size], pre=pre)
    no_asserts(ck, I, cx.A, 'region_join')
    n = 0
    for i in I.loop_seen:
        for p, pairs in iterations(r, i):
            cps = p.evs('memcpy', 'memmove')
            if not p.need(len(cps) == 1, 'every allocation is copied once', lambda: '%d copies' % len(cps)):
                continue
            n += 1
            e = cps[0]
            dst, src, cnt = (p.n(x) for x in e.a)
            cur = None
            for k, (h, b) in pairs.items():
                if k[0] == 'phi' and any(SYMS[x].ptr for x in h.syms()) and not p.same(h, b):
                    for o in (ZERO, C(cx.link)):
                        if p.same(src, payload(p.n(h - o))) or src == payload(h - o):
                            cur = (k, h - o, b - o, p.n(p.f(h - o, cx.E, 'used')))
            if not p.need(cur is not None, 'an allocation is copied from its start', lambda: '%r' % (src,), e):
                continue
            k, h, b, U = cur
            whole = p.same(cnt, U)
            if not whole:
                p.need_ge(U, cnt, 'an allocation is copied within its data', 'length', ev=e)
            nx = [x for x in p.evs('lnext') if p.same(x.a[0], h + cx.link)]
            p.need(len(nx) == 1 and p.same(b, p.n(nx[0].a[2]) - cx.link), 'allocations are copied newest first', '', e)
            region.tile_iter(p, cx, i, pairs, dst, cnt, size, e, whole)
    r.count('allocations copied', n)
    for p in r.rets:
        al = p.evs('alloc')
        if not p.need(len(al) == 1, 'the joined chunk is allocated in the region', lambda: '%r' % al):
            continue
        p.need(p.same(al[0].a[2], size) and p.same(p.ret, payload(al[0].a[1])), 'the joined chunk is allocated in the region', lambda: '%r' % al)
        p.need_field(cx.R, 'region', 'used', cx.used + size, 'usage counts every allocated byte')
        cx.cbs(p, cx.on_alloc_cb, size, cx.used, 'each allocation is announced once with its size')
        region.tile_end(p, cx, size, r)
        # the walk starts at the allocation that was newest before
        for e in p.evs('loop'):
            i, vals = e.x
            st0 = [i.vars[k][0] for k in vals if k[0] == 'phi' and isinstance(i.vars.get(k, (None,))[0], Lin)]
            l = p.st.lists.get(p.n(cx.head))
            second = p.n(l.pre[1]) - cx.link if l is not None and len(l.pre) > 1 else None
            p.need(second is not None and any(p.same(x, second) or p.same(x, second + cx.link) for x in st0), 'allocations are copied newest first', 'start of the walk')


# ---- log region
class LsRegion(Region):
    S, E = 'lsregion', 'lsregion_allocation'

    def __init__(self, ck, unit='lsregion_asan'):
        self.ck = ck
        self.I, self.A = use(ck, unit)
        I = self.I
        I.asan_tag = self.E
        self.R = arg('lsregion', 'lsregion')
        self.head = self.R + I.offsetof('lsregion', 'allocations')[0]
        self.link = I.offsetof(self.E, 'link')[0]
        self.used = I.entry(self.R + I.offsetof('lsregion', 'used')[0], 8)
        try:
            self.seq = I.entry(self.R + I.offsetof('lsregion', 'slab_id')[0], 8)
        except Exception:
            self.seq = None

    def pre(self, I, st):
        st.facts.add_ge(C(LIM) - self.used)
        if self.seq is not None:
            st.facts.add_ge(self.seq)
            st.facts.add_ge(C(BIG) - self.seq)

    def ends(self, I, st, idle):
        """the last allocation is one / is a reservation"""
        self.nonempty(I, st)
        (s, e), = [x for x in models.need_end(I, st, self.head, 'last') if x[0] is st]
        h = self.newest = e - self.link
        x = self.e0(h, 'id')
        st.facts.add_ge(-x - 1 if idle else x)
        st.facts.add_ge(x + 1)
        if idle:
            st.facts.add_ge(-self.e0(h, 'used'))

    def empty(self, I, st):
        st.lists[self.head] = LS((), None, ())

    def last(self, p):
        l = p.st.lists.get(p.n(self.head))
        return p.n((l.suf or l.pre)[-1]) - self.link if l is not None and (l.suf or (l.pre and l.rest is None)) else None


def rule_lsregion(ck):
    n = arg('size', lo=1, hi=U64 - 1)
    al = S(mksym('alignment', 'arg', (), 1, 4096, False, key='asan.align'))
    ident = arg('id', lo=0, hi=(1 << 63) - 1)
    for fn, unit, args in (('lsregion_aligned_reserve', 'lsregion_asan', lambda cx: [cx.R, n, al]), ('lsregion_reserve', 'headers', lambda cx: [cx.R, n]),
                           ('lsregion_aligned_alloc', 'lsregion_asan', lambda cx: [cx.R, n, al, ident]), ('lsregion_alloc', 'headers', lambda cx: [cx.R, n, ident])):
        alloc = 'alloc' in fn
        a = al if 'aligned' in fn else ONE
        for kind in ('empty', 'used'):
            cx = LsRegion(ck, unit)
            I = cx.I

            def pre(I, st):
                cx.pre(I, st)
                if kind == 'empty':
                    cx.empty(I, st)
                else:
                    cx.ends(I, st, False)
            r = ck.run(I, fn, args(cx), pre=pre)
            no_asserts(ck, I, cx.A, fn)
            for p in r.rets:
                e, h = judge_new(p, n, 'each request is one checked allocation of its size')
                if e is None:
                    continue
                p.need_eq(p.ret, payload(h), 'memory comes from the newest allocation', 'result')
                p.need(len(p.evs('list_add', 'list_add_tail')) == 1 and cx.last(p) is not None and p.same(cx.last(p), h), 'memory comes from the newest allocation', lambda: 'last: %r' % (cx.last(p),))
                p.need_eq(e.a[3], a, 'the requested alignment is honoured', 'alignment')
                p.need_eq(hfield(p, h, cx.E, 'used'), n if alloc else ZERO, 'an allocation knows its size', 'used')
                p.need_eq(hfield(p, h, cx.E, 'id'), ident if alloc else C(-1), 'an allocation knows its id', 'id')
                p.need_field(cx.R, 'lsregion', 'used', cx.used + (n if alloc else 0), 'usage counts every allocated byte')
                if cx.seq is not None:
                    x = hfield(p, h, cx.E, 'slab_id')
                    p.need_ge(x, cx.seq, 'numbers grow along the list', 'slab_id')
                    p.need_ge(x, ZERO, 'numbers grow along the list', 'slab_id')
                    p.need_ge(p.n(p.f(cx.R, 'lsregion', 'slab_id')), x + 1, 'numbers grow along the list', 'slab_id')
                if not alloc:
                    p.need_eq(hfield(p, h, cx.E, 'size'), n, 'a reservation knows its size', 'size')
                    p.need_eq(hfield(p, h, cx.E, 'alignment'), a, 'a reservation knows its size', 'alignment')
                p.frame(field_pred(I, cx.R, 'lsregion', 'used', 'allocations', 'slab_id'), 'only the newest allocation and the totals change')
        for legal in (True, False) if alloc else (False,):
            cx = LsRegion(ck, unit)
            I = cx.I

            def pre(I, st):
                cx.pre(I, st)
                cx.ends(I, st, True)
                if alloc:
                    x, z = cx.e0(cx.newest, 'alignment'), cx.e0(cx.newest, 'size')
                    st.facts.add_ge(x - a)
                    st.facts.add_ge(a - x)
                    st.facts.add_ge(z - n if legal else n - z - 1)
            r = ck.run(I, fn, args(cx), pre=pre, expect_abort=not legal)
            if not legal:
                for p in r.rets:
                    p.need(False, 'misuse of a reservation is reported', 'no report')
                if not cx.A.seen:
                    ck.fail('misuse of a reservation is reported', 'asan', fn, r.where, 'no report')
                continue
            no_asserts(ck, I, cx.A, fn)
            for p in r.rets:
                h = cx.newest
                z = cx.e0(h, 'size')
                p.need(not p.evs('alloc', 'release', 'list_add', 'list_add_tail', 'list_del'), 'an allocation uses the reservation', lambda: '%r' % (p.ev,))
                p.need_eq(p.ret, payload(h), 'an allocation uses the reservation', 'result')
                p.need_eq(hfield(p, h, cx.E, 'used'), n, 'an allocation knows its size', 'used')
                p.need_eq(hfield(p, h, cx.E, 'id'), ident, 'an allocation knows its id', 'id')
                p.need_field(cx.R, 'lsregion', 'used', cx.used + n, 'usage counts every allocated byte')
                ps = p.evs('poison')
                p.need(all(p.ge(e.a[0], payload(h) + n) or p.ge(payload(h), e.a[0] + e.a[1]) for e in ps), 'allocated bytes are accessible', lambda: '%r' % (ps,))
                p.need(all(p.ge(payload(h) + z, e.a[0] + e.a[1]) and p.ge(e.a[0], payload(h)) for e in ps), 'only memory of the allocation is made inaccessible', lambda: '%r' % (ps,))
                p.need(hides(p, payload(h) + n, payload(h) + z), 'what was reserved but not allocated is inaccessible', lambda: '%r' % (ps,))
                us = [h + I.offsetof(cx.E, f)[0] for f in ('used', 'id')]
                p.frame(lambda x: any(p.same(x, u) for u in us) or field_pred(I, cx.R, 'lsregion', 'used')(x), 'only the newest allocation and the totals change')


def fexit(p, s, struct, path):
    """value of a field of the cursor s when the walk ended"""
    off, size = p.I.offsetof(struct, path)
    for e in p.evs('loop'):
        for k, v in e.x[1].items():
            c = e.x[1].get(('phi', k[1]))
            if k[0] == 'pfld' and isinstance(v, Lin) and k[3] == size and isinstance(c, Lin) and p.same(c + k[2], s + off):
                return p.n(v)
    return p.n(p.I.rd(p.st, s + off, size))


def rule_lsregion_gc(ck):
    mn = S(mksym('min_id', 'arg', (), -1, (1 << 63) - 1, False, key='gcmin'))
    for fn, unit in (('lsregion_gc', 'lsregion_asan'), ('lsregion_destroy', 'headers')):
        dest = fn == 'lsregion_destroy'
        cx = LsRegion(ck, unit)
        I = cx.I
        r = ck.run(I, fn, [cx.R] + ([] if dest else [mn]), pre=cx.pre)

        def one(p, s, evs):
            dels = [e for e in evs if e.kind == 'list_del']
            if not p.need(len(dels) == 1 and p.same(dels[0].a[0], s + cx.link), 'a collected allocation is unlinked once', lambda: '%r' % dels):
                return
            if not dest:
                p.need_ge(mn, fstart(p, s, cx.E, 'id'), 'only data at or below the given id is freed', 'id', ev=dels[0])
            rel = [e for e in p.ev if e.kind == 'release']
            p.need(len(rel) == 1 and p.same(rel[0].a[1], s) and evs.index(dels[0]) < evs.index(rel[0]), 'a collected allocation is freed once', lambda: '%r' % rel)

        def used_of(p):
            d = [e for e in p.ev if e.kind == 'list_del']
            return -fstart(p, p.n(d[0].a[0]) - cx.link, cx.E, 'used') if d else ZERO
        drain(r, cx.head, cx.link, one, 'all data at or below the given id is freed, oldest first',
              stop=None if dest else lambda p, s: p.ge(fexit(p, s, cx.E, 'id'), mn + 1))
        ledger(r, cx.R + I.offsetof('lsregion', 'used')[0], 8, used_of, 'usage counts every allocated byte', 'used')
        for st, loc in cx.A.seen:
            # a report is right when less is in use than one allocation holds
            st = st.copy()
            now = I.rd(st, cx.R + I.offsetof('lsregion', 'used')[0], 8)
            l = st.lists.get(cx.head)
            els = [x - cx.link for x in l.pre] if l is not None else []
            els += [st.n(e.a[0]) - cx.link for e in st.evlist() if e.kind == 'lnext']
            if any(st.facts.ge0(st.n(I.rd(st, h + I.offsetof(cx.E, 'used')[0], 8) - now - 1)) for h in els):
                ck.ok('legal use is not reported as misuse')
            else:
                ck.fail('legal use is not reported as misuse', 'asan', fn, '%s:%d' % loc, 'an assertion may fail')
    cx = LsRegion(ck, 'headers')
    r = ck.run(cx.I, 'lsregion_create', [cx.R, arg('arena')])
    for p in r.rets:
        p.need_field(cx.R, 'lsregion', 'used', ZERO, 'a new region holds nothing')
        p.need(list_known_empty(p.st, cx.head), 'a new region holds nothing', 'allocations')
        p.need_ge(p.n(p.f(cx.R, 'lsregion', 'slab_id')), ZERO, 'the first export starts with the oldest allocation', 'slab_id')
    for fn in ('lsregion_used', 'lsregion_total'):
        cx = LsRegion(ck, 'headers')
        r = ck.run(cx.I, fn, [cx.R])
        for p in r.rets:
            p.need_eq(p.ret, cx.used, 'the region reports what it holds', 'result')


def rule_lsregion_iovec(ck):
    cx = LsRegion(ck)
    I = cx.I
    iov, cp, svp = arg('iov', 'iovec'), arg('iovcnt', ptr=True), arg('svp', 'lsregion_svp')
    mx = I.entry(cp, 4)
    sid = svp + I.offsetof('lsregion_svp', 'slab_id')[0]
    spos = svp + I.offsetof('lsregion_svp', 'pos')[0]
    P_ = I.entry(sid, 8)

    def pre(I, st):
        cx.pre(I, st)
        st.facts.add_ge(mx)
        st.facts.add_ge(C(1 << 20) - mx)
        st.facts.add_ge(P_ + 1)
        st.facts.add_ge(cx.seq - P_)

    def elem(I, st, h, link):
        if h == cx.head:
            x = cx.e0(link - cx.link, 'slab_id')
            st.facts.add_ge(x)
            st.facts.add_ge(cx.seq - x - 1)
            st.facts.add_ge(cx.e0(link - cx.link, 'id') + 1)
    I.elem_hook = elem
    r = ck.run(I, 'lsregion_to_iovec', [cx.R, iov, cp, svp], pre=pre)
    no_asserts(ck, I, cx.A, 'lsregion_to_iovec')
    n = dict(out=0, skip=0)
    ob, ol = I.offsetof('iovec', 'iov_base')[0], I.offsetof('iovec', 'iov_len')[0]
    counts = {}

    def written(p):
        return [(a, v) for a, z, v in p.changed() if not p.same(a, sid) and not p.same(a, spos)]

    def one(p, s, evs):
        i, hv = p.loop
        g = lambda f: p.n(p.f(s, cx.E, f))
        cells = written(p)
        if not cells:
            n['skip'] += 1
            p.need(p.same(g('id'), C(-1)) or p.ge(P_, g('slab_id')), 'only allocations seen before are skipped', lambda: 'number %r, id %r, seen up to %r' % (g('slab_id'), g('id'), P_))
            return
        n['out'] += 1
        if not p.need(len(cells) == 2, 'an allocation is exported as one block', lambda: '%r' % [a for a, v in cells]):
            return
        a0, a1 = p.n(cells[0][0]), p.n(cells[1][0])
        if not p.same(a1 - a0, C(ol - ob)):
            a0, a1, cells = a1, a0, cells[::-1]
        if not p.need(p.same(a1 - a0, C(ol - ob)), 'an allocation is exported as one block', lambda: '%r %r' % (a0, a1)):
            return
        p.need_ge(g('slab_id'), P_ + 1, 'data seen before is not exported again', 'slab_id')
        p.need(p.differ(g('id'), C(-1)), 'a reservation is not exported', '')
        p.need_eq(cells[0][1], payload(s), 'an allocation is exported as one block', 'iov_base')
        p.need_eq(cells[1][1], g('used'), 'an allocation is exported as one block', 'iov_len')
        p.need_eq(p.f(svp, 'lsregion_svp', 'slab_id'), g('slab_id'), 'the savepoint tells what was exported', 'slab_id')
        for k, v in hv.items():
            if not isinstance(v, Lin):
                continue
            if p.same(a0 - ob - iov, v.scale(16)) and p.is0(i.vars[k][0]):
                counts.setdefault(id(i), set()).add((k, 1))
            elif p.same(a0 - ob, v) and p.same(i.vars[k][0], iov):
                counts.setdefault(id(i), set()).add((k, 16))
        p.need(counts.get(id(i)), 'blocks are exported in order without gaps', lambda: '%r' % (a0,))
        p.need_ge(mx.scale(16), a0 - ob - iov + 16, 'no more blocks are written than there is room for', '')

    def stop(p, s):
        return any(p.ge(vals[k] - i.vars[k][0], mx.scale(m)) for e in p.evs('loop') for i, vals in [e.x] for k, m in counts.get(id(i), ()))
    drain(r, cx.head, cx.link, one, 'the allocations are walked up to the end or until no block is left', stop=stop)
    for k in n:
        if not n[k]:
            ck.gone('no iteration of lsregion_to_iovec is of the kind %s' % k)
    tops = {}
    for i in I.loop_seen:
        for p, pairs in iterations(r, i):
            cells = written(p)
            for k, m in counts.get(id(i), ()):
                h, b = pairs.get(k, (ZERO, ZERO))
                p.need_eq(b, h + (m if cells else 0), 'blocks are exported in order without gaps', 'position in the vector')
            cur = p.evs('lnext')
            cand = {k for k, (h, b) in pairs.items() if (p.same(h, b) if not cells else
                    cur and p.same(b, p.n(p.f(p.n(cur[0].a[0]) - cx.link, cx.E, 'id'))))}
            tops[id(i)] = cand if id(i) not in tops else tops[id(i)] & cand
    for p in r.rets:
        lp = p.evs('loop')
        c = I.rd(p.st, cp, 4)
        ok = not lp and p.same(p.ret, C(-1)) or any(p.same(p.ret, e.x[1][k]) and p.same(e.x[0].vars[k][0], C(-1)) for e in lp for k in tops.get(id(e.x[0]), ()))
        cnt = not lp and p.same(c, ZERO, 32) or any(p.same(c.scale(m), e.x[1][k] - e.x[0].vars[k][0], 32) for e in lp for k, m in counts.get(id(e.x[0]), ()))
        p.need(ok, 'the last id exported is returned', lambda: '%r' % (p.ret,))
        p.need(cnt, 'the number of blocks is reported', lambda: '%r' % (c,))


prop('K01', 'other', 'layout of a checked allocation for every size, alignment and header', [rule_alloc], min_obligations=30)


for pid, rules in (('M01', [rule_mempool, rule_mempool_known]), ('S01', [rule_small]), ('S02', [rule_small_stats]), ('C02', [rule_cache]),
                   ('A01', [rule_arena]), ('R01', [rule_region, rule_region_callbacks]), ('R02', [rule_region_truncate]), ('R03', [rule_region_join]),
                   ('G01', [rule_lsregion]), ('G02', [rule_lsregion_gc]), ('G03', [rule_lsregion_iovec])):
    PROPS[pid]['rules'] = PROPS[pid]['rules'] + rules
