"""Output buffer: bytes appended are kept in order in the vectors, counted, and
survive growth; rollback returns exactly to the savepoint."""
from . import prop
from ..contract import *
from .. import models

BIG = models.BIG


class Ctx:
    """pos: index of the current vector; ahead: allocated vectors from pos on
    (0: the current vector is not allocated yet), None: any number >= 2"""

    def __init__(self, ck, pos, ahead, unit='headers'):
        self.ck, self.pos, self.ahead = ck, pos, ahead
        self.B = arg('obuf', 'obuf')
        self.I = I = ck.interp('plain', models.CACHE, unit=unit)
        I.unroll_open = True
        I.unroll_max = 6
        off = I.offsetof
        self.iov, n = off('obuf', 'iov')
        self.slots = n // 16
        self.max = self.slots - 1
        self.cap, n = off('obuf', 'capacity')
        if n // 8 != self.slots:
            raise Broken('anchor changed: capacity and iov of struct obuf differ in length')
        self.ob, self.ol = off('iovec', 'iov_base')[0], off('iovec', 'iov_len')[0]
        e = lambda f, ptr=False: I.entry(self.B + off('obuf', f)[0], off('obuf', f)[1], ptr)
        self.cache, self.start = e('slabc', True), e('start_capacity')
        self.used0, self.niov0, self.pos0 = e('used'), e('n_iov'), e('pos')
        self.hdr = models.slabsizeof(I)

    def a(self, what, i):
        return self.B + (self.cap + 8 * i if what == 'cap' else self.iov + 16 * i + (self.ob if what == 'base' else self.ol))

    def e0(self, what, i):
        return self.I.entry(self.a(what, i), 8, what == 'base')

    def now(self, p, what, i):
        return p.n(self.I.rd(p.st, self.a(what, i), 8))

    def iget(self, p, f):
        return p.n(p.f(self.B, 'obuf', f))

    def pre(self, I, st):
        st.facts.add_ge(self.start - 1)
        st.facts.add_ge(C(1 << 30) - self.start)
        I.learn_eq(st, self.pos0 - self.pos)
        st.facts.add_ge(C(1 << 60) - self.used0)
        n = self.pos + (self.ahead if self.ahead is not None else 2)
        if self.ahead is None:
            st.facts.add_ge(self.niov0 - n)
            st.facts.add_ge(C(self.max) - self.niov0)
        else:
            I.learn_eq(st, self.niov0 - n)
        for i in range(self.slots):
            c, l, b = (self.e0(x, i) for x in ('cap', 'len', 'base'))
            if i < n:
                st.facts.add_ge(c - 1)
                st.facts.add_ge(C(BIG) - c)
                st.facts.add_ge(b - 4096)
                if i < self.pos:
                    st.facts.add_ge(l - 1)
                    st.facts.add_ge(c - l)
                elif i == self.pos:
                    st.facts.add_ge(l)
                    st.facts.add_ge(c - l)
                else:
                    I.learn_eq(st, l)
                st.facts.add_ge(self.used0 - st.n(l))
            elif i == n and self.ahead is not None:
                for x in (c, l, b):
                    I.learn_eq(st, x)
        assert not st.dead

    def frame(self, p, *more):
        p.frame(field_pred(p.I, self.B, 'obuf', 'pos', 'n_iov', 'used', 'capacity', 'iov', *more), 'only the vectors and totals change')

    def ipos(self, p):
        v = self.iget(p, 'pos')
        if not p.need(v.is_const() and 0 <= v.c < self.max, 'the position stays inside the vector', '%r' % (v,)):
            return None
        return v.c


def wellformed(p, cx, k):
    """shape after the call; k: current position"""
    n = cx.iget(p, 'n_iov')
    p.need_ge(n, k, 'allocated vectors are in front', 'n_iov')
    p.need_ge(C(cx.max), n, 'allocated vectors are in front', 'n_iov')
    if n.is_const():
        for x in ('cap', 'len', 'base'):
            p.need_eq(cx.now(p, x, n.c), ZERO, 'an empty vector follows the allocated ones', '%s[%d]' % (x, n.c))
        hi = n.c
    else:
        hi = cx.pos + 2
    for i in range(0, hi):
        p.need_ge(cx.now(p, 'cap', i), ONE, 'allocated vectors have memory', 'capacity[%d]' % i)
        if i > k:
            p.need_eq(cx.now(p, 'len', i), ZERO, 'vectors behind the position are empty', 'iov_len[%d]' % i)
        else:
            p.need_ge(cx.now(p, 'cap', i), cx.now(p, 'len', i), 'data fits its vector', 'iov_len[%d]' % i)
        if i < k:
            p.need_ge(cx.now(p, 'len', i), ONE, 'no empty vector in between', 'iov_len[%d]' % i)
    # memory: each vector is as allocated, or holds a slab of its own
    new = list(p.evs('alloc'))
    rel = p.evs('release')
    for i in range(0, hi):
        b = cx.now(p, 'base', i)
        if p.same(b, cx.e0('base', i)):
            p.need_eq(cx.now(p, 'cap', i), cx.e0('cap', i), 'memory of a vector stays', 'capacity[%d]' % i)
            continue
        mine = [e for e in new if p.same(b, e.a[1] + cx.hdr)]
        if not p.need(len(mine) == 1 and p.same(mine[0].a[2], cx.cache), 'each vector has a slab of its own', lambda: 'iov[%d]: %r, slabs %r' % (i, b, new)):
            continue
        new.remove(mine[0])
        s = mine[0].a[1]
        p.need_eq(cx.now(p, 'cap', i), p.n(p.f(s, 'slab', 'size')) - cx.hdr, 'the capacity is the room of the slab', 'capacity[%d]' % i)
        if not p.is0(cx.e0('cap', i)):
            old = [e for e in rel if p.same(e.a[1], cx.e0('base', i) - cx.hdr)]
            p.need(len(old) == 1 and old[0].a[0] == 'slab_put', 'a replaced slab is returned once', lambda: '%r' % rel)
            rel = [e for e in rel if e not in old]
            p.need(p.is0(cx.e0('len', i)), 'memory in use is not released', 'iov[%d]' % i)
    p.need(not new, 'each vector has a slab of its own', lambda: 'lost %r' % new)
    p.need(not rel, 'memory in use is not released', lambda: '%r' % rel)
    d = len([i for i in range(hi) if p.is0(cx.e0('cap', i))])
    p.need_eq(n, cx.niov0 + d, 'allocated vectors are counted', 'n_iov')


def cases(ck, top):
    ps = list(range(top)) if ck.tier == 'thorough' else [0, 1, 2, top - 2, top - 1]
    for k in ps:
        for ahead in (0, 1, 2, None):
            if ahead is not None and k + ahead > top or ahead is None and k + 2 > top:
                continue
            yield k, ahead


def rule_grow(ck):
    size = arg('size', lo=0, hi=U64 - 1)
    top = Ctx(ck, 0, 0).max
    for fn in ('obuf_reserve', 'obuf_alloc', 'obuf_reserve_cb', 'obuf_alloc_cb'):
        seen = set()
        for k, ahead in cases(ck, top):
            cx = Ctx(ck, k, ahead)
            I = cx.I
            I.unroll_open = False
            sp = arg('size_ptr', ptr=True)
            cb = fn == 'obuf_reserve_cb'
            req = I.entry(sp, 8) if cb else size
            r = ck.run(I, fn, [cx.B, sp if cb else size], pre=cx.pre)
            ends(r)
            for p in r.rets:
                q = cx.ipos(p)
                if q is None:
                    continue
                p.need(k <= q <= k + 1, 'data stays where it is', 'position %d after %d' % (q, k))
                if cb:
                    p.need_eq(I.rd(p.st, sp, 8), cx.now(p, 'cap', q) - cx.now(p, 'len', q), 'the room reported is the room there is', 'size')
                    p.st.dirty = {x: y for x, y in p.st.dirty.items() if x[0] + x[1] != sp}
                alloc = 'alloc' in fn
                null = p.is0(p.ret) and not (p.is0(cx.now(p, 'base', q)) and p.is0(req))
                ln = cx.now(p, 'len', q)
                if null:
                    seen.add('null')
                    lim = k + 1 >= top and p.ge(cx.e0('len', k), ONE)
                    p.need(p.evs('allocfail') or lim or p.ge(req, 1 << 47), 'refused only when memory or vectors run out', '')
                    p.need_eq(cx.iget(p, 'used'), cx.used0, 'a refused request keeps the data as it was', 'used')
                    p.need(not p.evs('alloc', 'release'), 'a refused request keeps the data as it was', '')
                    before = ln
                else:
                    seen.add('new' if p.evs('alloc') else 'next' if q > k else 'room')
                    if p.evs('release'):
                        seen.add('replace')
                    before = ln - req if alloc else ln
                    p.need_eq(p.ret, cx.now(p, 'base', q) + before, 'granted memory follows the data', 'result')
                    p.need_ge(cx.now(p, 'cap', q), before + req, 'the bytes granted fit into the vector', 'capacity')
                    p.need_eq(cx.iget(p, 'used'), cx.used0 + (req if alloc else ZERO), 'the size is what was appended', 'used')
                for i in range(k + 1):
                    p.need_eq(before if i == q else cx.now(p, 'len', i), cx.e0('len', i), 'data stays where it is', 'iov_len[%d]' % i)
                if q > k:
                    p.need_eq(before, ZERO, 'data stays where it is', 'iov_len[%d]' % q)
                if alloc and not null:
                    I.store(p.st, cx.a('len', q), 8, before)
                wellformed(p, cx, q)
                cx.frame(p)
        for x in ('null', 'new', 'next', 'room', 'replace'):
            if x not in seen:
                ck.gone('%s: no path of the kind %s' % (fn, x))


def ends(r):
    for i in r.I.loop_seen:
        for p, pairs in iterations(r, i):
            p.need(any(p.ge(b, h + 1) and p.ge(C(U64 - 1), b) for h, b in pairs.values()), 'the search for a capacity ends', lambda: '%r' % (pairs,))


def rule_dup(ck):
    size = arg('size', lo=0, hi=BIG)
    data = arg('data', ptr=True)
    top = Ctx(ck, 0, 0).max
    seen = set()
    for k in range(top) if ck.tier == 'thorough' else (0, 1, top - 3, top - 2, top - 1):
        for ahead in range(0, 4):
            if k + ahead > top:
                continue
            cx = Ctx(ck, k, ahead, 'obuf')
            I = cx.I
            r = ck.run(I, 'obuf_dup', [cx.B, data, size], pre=cx.pre)
            for p in r.rets:
                q = cx.ipos(p)
                if q is None:
                    continue
                cps = [e for e in p.evs('memcpy', 'memmove') if not p.is0(e.a[2]) and not I.split(p.n(e.a[0]))[0] == cx.B]
                done = ZERO
                slot = k
                for e in cps:
                    dst, src, n = (p.n(x) for x in e.a)
                    p.need_eq(src, data + done, 'bytes are appended in order without gaps', 'source', ev=e)
                    while slot <= q and not p.same(dst, cx.now(p, 'base', slot) + cx.e0('len', slot)):
                        slot += 1
                    if not p.need(slot <= q, 'bytes are appended in order without gaps', lambda: 'to %r' % (dst,), e):
                        break
                    p.need_eq(cx.now(p, 'len', slot), cx.e0('len', slot) + n, 'each vector counts the bytes copied to it', 'iov_len[%d]' % slot, ev=e)
                    done = done + n
                    slot += 1
                for i in range(k):
                    p.need_eq(cx.now(p, 'len', i), cx.e0('len', i), 'data stays where it is', 'iov_len[%d]' % i)
                tot = ZERO
                for i in range(k, q + 1):
                    tot = tot + cx.now(p, 'len', i) - cx.e0('len', i)
                p.need_eq(tot, done, 'each vector counts the bytes copied to it', 'sum')
                p.need_eq(cx.iget(p, 'used'), cx.used0 + done, 'the size is what was appended', 'used')
                p.need_eq(p.ret, done, 'the number of bytes appended is returned', 'result')
                if p.same(done, size):
                    seen.add('new' if p.evs('alloc') else 'room')
                    if len(cps) > 1:
                        seen.add('split')
                else:
                    seen.add('short')
                    p.need(p.evs('allocfail') or q == top - 1, 'all bytes are appended unless memory or vectors run out', lambda: '%r of %r' % (done, size))
                wellformed(p, cx, q)
                cx.frame(p)
    for x in ('new', 'room', 'split', 'short'):
        if x not in seen:
            ck.gone('obuf_dup: no path of the kind %s' % x)


def rule_svp(ck):
    top = Ctx(ck, 0, 0).max
    pos = range(top) if ck.tier == 'thorough' else (0, 1, 2, 5, top - 1)
    for fn in ('obuf_rollback_to_svp', 'obuf_reset'):
        for k in pos:
            for s in range(k + 1) if ck.tier == 'thorough' else sorted({0, 1, k - 1, k}):
                if not 0 <= s <= k or fn == 'obuf_reset' and s:
                    continue
                for ahead in (0, 1, 2):
                    if k + ahead > top:
                        continue
                    cx = Ctx(ck, k, ahead, 'obuf')
                    I = cx.I
                    I.unroll_max = 40
                    svp = arg('svp', 'obuf_svp')
                    f0 = lambda f: I.entry(svp + I.offsetof('obuf_svp', f)[0], 8)

                    def pre(I, st):
                        cx.pre(I, st)
                        I.learn_eq(st, f0('pos') - s)
                        st.facts.add_ge(st.n(cx.e0('len', s)) - f0('iov_len'))
                        if s < k:
                            # a savepoint in the middle of a full buffer holds data
                            pass
                    r = ck.run(I, fn, [cx.B] + ([svp] if fn != 'obuf_reset' else []), pre=pre)
                    zero = fn == 'obuf_reset'
                    for p in r.rets:
                        rule = 'only the data up to the savepoint remains'
                        p.need_eq(cx.iget(p, 'pos'), C(s), rule, 'pos')
                        p.need_eq(cx.iget(p, 'used'), ZERO if zero else f0('used'), rule, 'used')
                        for i in range(k + 2):
                            want = cx.e0('len', i) if i < s else ZERO if zero or i > s else f0('iov_len')
                            if i <= k:
                                p.need_eq(cx.now(p, 'len', i), want, rule, 'iov_len[%d]' % i)
                        for i in range(k + ahead):
                            p.need_eq(cx.now(p, 'cap', i), cx.e0('cap', i), 'memory is kept for reuse', 'capacity[%d]' % i)
                            p.need_eq(cx.now(p, 'base', i), cx.e0('base', i), 'memory is kept for reuse', 'iov_base[%d]' % i)
                        p.need_eq(cx.iget(p, 'n_iov'), cx.niov0, 'memory is kept for reuse', 'n_iov')
                        p.need(not p.evs('release', 'alloc'), 'memory is kept for reuse', '')
                        cx.frame(p)
    for k in pos:
        for ahead in (0, 1, 2):
            if k + ahead > top:
                continue
            # taking a savepoint
            cx = Ctx(ck, k, ahead)
            I = cx.I
            out = arg('out', 'obuf_svp')
            r = ck.run(I, 'obuf_create_svp', [out, cx.B], pre=cx.pre)
            for p in r.rets:
                for f, want in (('pos', C(k)), ('iov_len', cx.e0('len', k)), ('used', cx.used0)):
                    p.need_field(out, 'obuf_svp', f, want, 'a savepoint records the end of the data')
            cx = Ctx(ck, k, ahead)
            r = ck.run(cx.I, 'obuf_iovcnt', [cx.B], pre=cx.pre)
            for p in r.rets:
                want = C(k) if p.is0(cx.e0('len', k)) else C(k + 1) if p.ge(cx.e0('len', k), 1) else None
                p.need_eq(p.ret, want, 'exactly the vectors with data are exported', 'result')
            cx = Ctx(ck, k, ahead)
            r = ck.run(cx.I, 'obuf_size', [cx.B], pre=cx.pre)
            for p in r.rets:
                p.need_eq(p.ret, cx.used0, 'the size is what was appended', 'result')
            cx = Ctx(ck, k, ahead)
            svp = arg('svp', 'obuf_svp')

            def pre2(I, st):
                cx.pre(I, st)
                I.learn_eq(st, I.entry(svp, 8) - k)
            if cx.I.offsetof('obuf_svp', 'pos')[0] == 0:
                r = ck.run(cx.I, 'obuf_svp_to_ptr', [cx.B, svp], pre=pre2)
                for p in r.rets:
                    p.need_eq(p.ret, cx.e0('base', k) + cx.I.entry(svp + cx.I.offsetof('obuf_svp', 'iov_len')[0], 8), 'a savepoint names a place in the data', 'result')
            # teardown
            cx = Ctx(ck, k, ahead, 'obuf')
            cx.I.unroll_max = 40
            r = ck.run(cx.I, 'obuf_destroy', [cx.B], pre=cx.pre)
            for p in r.rets:
                rel = p.evs('release')
                puts = p.evs('slab_put')
                n = k + ahead
                p.need(len(rel) == n and len(puts) == n, 'every vector returns its slab once', lambda: '%d of %d' % (len(rel), n))
                for i in range(n):
                    m = [e for e in puts if p.same(e.a[2], cx.e0('base', i) - cx.hdr)]
                    p.need(len(m) == 1 and m[0].a[0] == 'slab_put' and p.same(m[0].a[1], cx.cache), 'every vector returns its slab once', 'iov[%d]' % i)
                p.need_field(cx.B, 'obuf', 'slabc', ZERO, 'a destroyed buffer is recognisable')
    cx = Ctx(ck, 0, 0, 'obuf')
    cache, cap = arg('cache', 'slab_cache'), arg('start', lo=1, hi=1 << 30)
    r = ck.run(cx.I, 'obuf_create', [cx.B, cache, cap])
    for p in r.rets:
        for f, v in (('slabc', cache), ('start_capacity', cap), ('pos', ZERO), ('n_iov', ZERO), ('used', ZERO)):
            p.need_field(cx.B, 'obuf', f, v, 'a new buffer holds nothing')
        for x in ('cap', 'len', 'base'):
            p.need_eq(cx.now(p, x, 0), ZERO, 'a new buffer holds nothing', x)


prop('O01', 'other', 'every path of reserve/alloc from every shape of the vector (position x allocated vectors): containment, shape, slab ownership, size', [rule_grow], min_obligations=500)
prop('O02', 'other', 'copies of obuf_dup tile the source, path by path through the vectors', [rule_dup], min_obligations=500)
prop('O03', 'other', 'rollback, reset, savepoint, export count and teardown for every pair of positions', [rule_svp], min_obligations=500)
