"""Small allocator: pools, groups and waste accounting, over group shapes."""
from . import prop
from ..contract import *
from .. import models

BIG = models.BIG


def m_pool_alloc(I, st, v, ins):
    p = st.n(v[0])
    s2 = st.copy()
    models.note(s2, I, ins, 'pool out of memory')
    s2.event('allocfail', ('mempool_alloc', p), I.loc(ins))
    o = models.newobj(I, st, 'object')
    st.event('alloc', ('mempool_alloc', o, p), I.loc(ins))
    used = p + I.offsetof('mempool', 'slabs.stats.used')[0]
    n = I.rd(st, p + I.offsetof('mempool', 'objsize')[0], 4)
    I.store(st, used, 8, st.n(I.rd(st, used, 8) + n))
    I.store(st, p + I.offsetof('mempool', 'spare')[0], 8, ZERO)
    return [(s2, ZERO), (st, o)]


def m_pool_free(slab):
    def f(I, st, v, ins):
        st.event('pool_free', (st.n(v[0]), st.n(v[2 if slab else 1])), I.loc(ins))
        return [(st, None)]
    return f


def m_free_spare(I, st, v, ins):
    p = st.n(v[0])
    st.event('free_spare', (p,), I.loc(ins))
    I.store(st, p + I.offsetof('mempool', 'spare')[0], 8, ZERO)
    return [(st, None)]


def m_pool_destroy(I, st, v, ins):
    st.event('pool_destroy', (st.n(v[0]),), I.loc(ins))
    return [(st, None)]


MEMPOOL = {'mempool_alloc': m_pool_alloc, 'mempool_free': m_pool_free(False), 'mempool_free_slab': m_pool_free(True),
           'mempool_free_spare_slab': m_free_spare, 'mempool_destroy': m_pool_destroy}


class Alloc:
    """a small_alloc whose pools form the given groups (list of group sizes)
    with the given active pools (mask per group)"""

    def __init__(self, ck, groups, masks, cls=None):
        self.I = I = ck.interp('plain', models.CACHE, MEMPOOL, unit='small')
        I.unroll_open = True
        self.A = A = arg('alloc', 'small_alloc')
        self.groups, self.masks = groups, masks
        off, esz = I.offsetof, I.structsize
        self.n = sum(groups)
        self.pool = [A + off('small_alloc', 'small_mempool_cache')[0] + k * esz('small_mempool') for k in range(self.n)]
        self.grp = [A + off('small_alloc', 'small_mempool_groups')[0] + k * esz('small_mempool_group') for k in range(len(groups))]
        self.first, self.gof = [], []
        k = 0
        for g, s in enumerate(groups):
            self.first.append(k)
            self.gof += [g] * s
            k += s
        self.cache = I.entry(A + off('small_alloc', 'cache')[0], 8, True)
        SYMS[next(iter(self.cache.syms()))].tag = 'slab_cache'
        self.max = I.entry(A + off('small_alloc', 'objsize_max')[0], 4)
        self.osz = [S(mksym('objsize%d' % k, 'arg', (), 1, (1 << 31) - 1, False, key=('osz', k))) for k in range(self.n)]
        self.waste = [S(mksym('waste%d' % k, 'arg', (), 0, 1 << 40, False, key=('waste', k))) for k in range(self.n)]
        self.used = [S(mksym('bytes_used%d' % k, 'arg', (), 0, 1 << 40, False, key=('busd', k))) for k in range(self.n)]
        self.wmax = [S(mksym('waste_max%d' % k, 'arg', (), 1024, 1 << 30, False, key=('wmax', k))) for k in range(len(groups))]
        self.cls = cls
        if cls is not None:
            def m_cls(I, st, v, ins):
                st.event('class', (st.n(v[0]), st.n(v[1])), I.loc(ins))
                return [(st, C(cls))]
            I.models['small_class_calc_offset_by_size'] = m_cls

    def lowest(self, k, mask):
        """index of the lowest active pool of k's group not below k"""
        g = self.gof[k]
        for j in range(k, self.first[g] + self.groups[g]):
            if mask[g] >> (j - self.first[g]) & 1:
                return j
        return None

    def set(self, st, a, n, v):
        b, o = self.I.split(a)
        st.mem.setdefault(b, {})[o] = (n, v)
        e = self.I.entry(a, n)
        if e.t and SYMS[e.t[0][0][0]].kind != 'arg':
            st.sub[e.t[0][0][0]] = v

    def setf(self, st, p, struct, f, v):
        o, n = self.I.offsetof(struct, f)
        self.set(st, p + o, n, v if isinstance(v, Lin) else C(v))

    def pre(self, I, st):
        f = st.facts
        A = self.A
        self.setf(st, A, 'small_alloc', 'small_mempool_cache_size', self.n)
        self.setf(st, A, 'small_alloc', 'small_mempool_groups_size', len(self.groups))
        for k, p in enumerate(self.pool):
            g = self.gof[k]
            self.setf(st, p, 'small_mempool', 'pool.objsize', self.osz[k])
            self.setf(st, p, 'small_mempool', 'pool.small_mempool', p)
            self.setf(st, p, 'small_mempool', 'pool.cache', self.cache)
            self.setf(st, p, 'small_mempool', 'pool.slabs.stats.used', self.used[k])
            self.setf(st, p, 'small_mempool', 'waste', self.waste[k])
            self.setf(st, p, 'small_mempool', 'group', self.grp[g])
            self.setf(st, p, 'small_mempool', 'used_pool', self.pool[self.lowest(k, self.masks)])
            idx = k - self.first[g]
            self.setf(st, p, 'small_mempool', 'appropriate_pool_mask', (0xffffffff << idx) & 0xffffffff)
            if k:
                f.add_ge(self.osz[k] - self.osz[k - 1] - 1)
                self.setf(st, p, 'small_mempool', 'objsize_min', self.osz[k - 1] + 1)
            # an active pool's users do not waste
            if self.lowest(k, self.masks) != k:
                f.add_ge(self.wmax[g] - self.waste[k] - 1)
        for g, p in enumerate(self.grp):
            self.setf(st, p, 'small_mempool_group', 'first', self.pool[self.first[g]])
            self.setf(st, p, 'small_mempool_group', 'last', self.pool[self.first[g] + self.groups[g] - 1])
            self.setf(st, p, 'small_mempool_group', 'active_pool_mask', self.masks[g])
            self.setf(st, p, 'small_mempool_group', 'waste_max', self.wmax[g])
        f.add_ge(C((1 << 31) - 1) - self.max)
        f.add_ge(self.osz[-1] - self.max)
        f.add_ge(self.max - self.osz[-1])

    def mask_after(self, p):
        out = []
        for g, a in enumerate(self.grp):
            v = p.n(p.f(a, 'small_mempool_group', 'active_pool_mask'))
            if not p.need(v.is_const(), 'which pools are active is determined', lambda: '%r' % (v,)):
                return None
            out.append(v.c & 0xffffffff)
        return out

    def consistent(self, p, mask):
        for g in range(len(self.groups)):
            n = self.groups[g]
            p.need(mask[g] >> (n - 1) & 1, 'the last pool of a group is always available', 'mask %x' % mask[g])
            p.need(mask[g] >> n == 0, 'only pools of the group are available', 'mask %x' % mask[g])
        for k, a in enumerate(self.pool):
            j = self.lowest(k, mask)
            if j is None:
                continue
            p.need_eq(p.f(a, 'small_mempool', 'used_pool'), self.pool[j],
                      'every class allocates from the smallest available pool that fits', 'used_pool of class %d' % k)

    def of(self, p, a):
        """index of the pool at address a"""
        for k, x in enumerate(self.pool):
            if p.same(a, x):
                return k
        return None

    def waste_now(self, p, k):
        return p.n(p.f(self.pool[k], 'small_mempool', 'waste'))


def shapes(tier):
    yield [1]
    yield [2]
    yield [3]
    yield [1, 2]
    yield [2, 1]
    if tier == 'thorough':
        yield [4]
        yield [2, 2]
        yield [3, 1]
        yield [1, 3]


def masks_of(groups):
    out = [()]
    for n in groups:
        out = [m + ((1 << (n - 1)) | x,) for m in out for x in range(1 << (n - 1))]
    return out


def rule_smalloc(ck):
    size = arg('size', hi=U64 - 1)
    seen = {}
    for groups in shapes(ck.tier):
        for masks in masks_of(groups):
            for k in range(sum(groups)):
                cx = Alloc(ck, groups, list(masks), k)
                I = cx.I

                def pre(I, st):
                    cx.pre(I, st)
                    # a request within the range of classes belongs to class k
                r = ck.run(I, 'smalloc', [cx.A, size], pre=pre)
                for p in r.rets:
                    judge_alloc(p, cx, k, size, seen)
    for w in ('large', 'own', 'other', 'null', 'activated', 'deactivated'):
        if not seen.get(w):
            ck.gone('no path of smalloc is of the kind: %s' % w)


def judge_alloc(p, cx, k, size, seen):
    I = p.I
    ret = p.n(p.ret)
    null = p.is0(ret)
    big = p.evs('class') == []
    al = [e for e in p.evs('alloc', 'allocfail')]
    larges = [e for e in al if e.a[0] != 'mempool_alloc']
    if big:
        p.need_ge(size, cx.max + 1, 'a size within the classes is served from a pool', 'size')
        if not p.need(len(al) == 1 and larges and al[0].a[0] == 'slab_get_large', 'a large size is served by one dedicated slab', lambda: '%r' % (al,)):
            return
        e = al[0]
        i = 2 if e.kind == 'alloc' else 1
        p.need_eq(e.a[i], cx.cache, 'large objects come from the slab cache of the allocator', 'cache', ev=e)
        p.need_ge(e.a[i + 1], size, 'the slab holds the requested size', 'size', ev=e)
        if e.kind == 'alloc':
            p.need_eq(ret, e.a[1] + models.slabsizeof(I), 'the caller gets the data area of the slab', 'result')
            seen['large'] = 1
        else:
            p.need(null, 'out of memory is reported', '')
        mask = cx.mask_after(p)
        if mask is not None:
            p.need(mask == cx.masks, 'large objects do not touch the pools', '')
        for j in range(cx.n):
            p.need_eq(cx.waste_now(p, j), cx.waste[j], 'large objects do not touch the pools', 'waste')
        return
    p.need_ge(cx.max, size, 'a size above all classes is served by a dedicated slab', 'size')
    e = p.evs('class')[0]
    p.need(p.same(e.a[0], cx.A + I.offsetof('small_alloc', 'small_class')[0]) and p.same(e.a[1], size, 32),
           'the class is that of the requested size', lambda: '%r' % (e,), e)
    p.need(not larges, 'a size within the classes is served from a pool', '')
    good = [e for e in al if e.kind == 'alloc' and e.a[0] == 'mempool_alloc']
    mask = cx.mask_after(p)
    if mask is None:
        return
    cx.consistent(p, mask)
    # which pool served it, which are active now and before
    g = cx.gof[k]
    if good:
        if not p.need(len(good) == 1 and p.same(ret, good[0].a[1]), 'one object is taken and returned', ''):
            return
        j = cx.of(p, good[0].a[2])
        if not p.need(j is not None and cx.gof[j] == g and j >= k, 'the object comes from a pool of the class\'s group that is large enough', lambda: 'pool %r' % (good[0].a[2],)):
            return
        p.need(mask[g] >> (j - cx.first[g]) & 1, 'objects are taken from available pools only', 'pool %d, available %x' % (j, mask[g]))
        d = cx.osz[j] - cx.osz[k]
        p.need_eq(cx.waste_now(p, k), cx.waste[k] + d, 'waste grows by the excess size of the object', 'waste')
        seen['own' if j == k else 'other'] = 1
        if p.ge(cx.waste_now(p, k), cx.wmax[g]):
            p.need(mask[g] >> (k - cx.first[g]) & 1, 'a class that wastes too much gets its own pool', '')
        else:
            was = cx.masks[g] >> (k - cx.first[g]) & 1
            if not was:
                p.need(not (mask[g] >> (k - cx.first[g]) & 1) and p.ge(cx.wmax[g], cx.waste_now(p, k) + 1),
                       'a class gets its own pool only when it wastes too much', '')
    else:
        seen['null'] = 1
        p.need(null, 'out of memory is reported', '')
        fails = [e for e in al if e.kind == 'allocfail']
        j = cx.of(p, fails[-1].a[1]) if fails else None
        p.need(j is not None and j == cx.lowest(k, mask), 'out of memory is reported after the available pool refused', lambda: '%r' % (fails,))
        p.need_eq(cx.waste_now(p, k), cx.waste[k], 'a failed allocation wastes nothing', 'waste')
        for j in range(cx.n):
            gg = cx.gof[j]
            idx = j - cx.first[gg]
            if mask[gg] >> idx & 1 and idx != cx.groups[gg] - 1:
                p.need(p.ge(p.n(cx.used[j]), 1) or p.ge(p.n(cx.waste[j]), p.n(I.udiv(p.st, cx.wmax[gg], C(4), 64))) or used_nonzero(p, cx, j),
                       'memory of unused pools is released before giving up', 'pool %d' % j)
    for j in range(cx.n):
        gg = cx.gof[j]
        idx = j - cx.first[gg]
        if j != k:
            p.need_eq(cx.waste_now(p, j), cx.waste[j], 'the waste of other classes is unaffected', 'waste of class %d' % j)
        now, was = mask[gg] >> idx & 1, cx.masks[gg] >> idx & 1
        if was and not now:
            seen['deactivated'] = 1
            p.need(p.evs('allocfail'), 'pools are closed only when memory is short', '')
            p.need(count0(p, cx, j), 'only an empty pool is closed', 'pool %d' % j)
            p.need_ge(cx.wmax[gg], cx.waste[j].scale(4) + 1, 'only a class with little waste loses its pool', 'pool %d' % j)
            sp = p.n(p.f(cx.pool[j], 'small_mempool', 'pool.spare'))
            p.need(p.is0(sp), 'a closed pool keeps no memory', lambda: 'spare %r' % (sp,))
        if now and not was:
            seen['activated'] = 1
            p.need(j == k, 'only the class concerned gets its own pool', 'pool %d' % j)
    for e in p.evs('free_spare'):
        j = cx.of(p, e.a[0])
        p.need(j is not None and count0(p, cx, j) and p.evs('allocfail'), 'spare slabs are released from empty pools when memory is short', lambda: '%r' % (e,), e)


def cnt(p, cx, j):
    return p.n(p.I.udiv(p.st, p.n(cx.used[j]), p.n(cx.osz[j]), 64))


def count0(p, cx, j):
    return p.is0(cnt(p, cx, j)) or p.ge(cx.osz[j], p.n(cx.used[j]) + 1)


def used_nonzero(p, cx, j):
    return p.st.facts.nonzero(cnt(p, cx, j))


def rule_smfree(ck):
    size = arg('size', hi=U64 - 1)
    hit = {'large': 0, 'small': 0}
    for groups in shapes(ck.tier):
        masks = masks_of(groups)[-1]
        for k in range(sum(groups)):
            g = None
            cx0 = Alloc(ck, groups, list(masks), k)
            g = cx0.gof[k]
            for j in range(k, cx0.first[g] + groups[g]):
                cx = Alloc(ck, groups, list(masks), k)
                I = cx.I
                SS = pow2(S(mksym('slab_order', 'arg', (), 12, 30, False, key='smfree.order')))
                slab = arg('mslab', 'mslab')
                o = arg('offset', hi=(1 << 31) - 1)
                ptr = slab + o

                def pre(I, st):
                    cx.pre(I, st)
                    I.pow2facts(st, SS, S(dom.INTERN['smfree.order']), 64)
                    st.ghost[('align', next(iter(slab.syms())))] = SS
                    st.facts.add_ge(SS - o - 1)
                    st.facts.add_ge(o - models.slabsizeof(I))
                    for x in range(cx.first[g], cx.first[g] + groups[g]):
                        q, n = I.offsetof('small_mempool', 'pool.slab_ptr_mask')
                        b, oo = I.split(cx.pool[x] + q)
                        st.mem.setdefault(b, {})[oo] = (n, C(1 << 64) - SS)
                    cx.setf(st, slab, 'mslab', 'mempool', cx.pool[j])
                    st.facts.add_ge(cx.waste[k] - cx.osz[j] + cx.osz[k])
                r = ck.run(I, 'smfree', [cx.A, ptr, size], pre=pre)
                for p in r.rets:
                    if not p.evs('class'):
                        hit['large'] += 1
                        p.need_ge(size, cx.max + 1, 'a size within the classes is returned to its pool', 'size')
                        pu = p.evs('slab_put')
                        p.need(len(pu) == 1 and pu[0].a[0] in ('slab_put_large', 'slab_put') and p.same(pu[0].a[1], cx.cache) and
                               p.same(pu[0].a[2], ptr - models.slabsizeof(I)), 'a large object returns the slab it lives in', lambda: '%r' % (pu,))
                        p.need(not p.evs('pool_free'), 'a large object returns the slab it lives in', '')
                        p.no_effects('freeing a large object touches nothing else')
                        continue
                    hit['small'] += 1
                    e = p.evs('class')[0]
                    p.need(p.same(e.a[1], size, 32), 'the class is that of the given size', lambda: '%r' % (e,), e)
                    p.need_ge(cx.max, size, 'a large object returns the slab it lives in', 'size')
                    fr = p.evs('pool_free')
                    p.need(len(fr) == 1 and p.same(fr[0].a[0], cx.pool[j]) and p.same(fr[0].a[1], ptr) and not p.evs('slab_put', 'release'),
                           'an object returns to the pool it was taken from', lambda: '%r' % (fr,))
                    p.need_eq(cx.waste_now(p, k), cx.waste[k] - cx.osz[j] + cx.osz[k], 'waste shrinks by the excess size of the object', 'waste')
                    wo = I.offsetof('small_mempool', 'waste')[0]
                    p.frame(lambda a: p.same(a, cx.pool[k] + wo), 'freeing changes only the waste of its class')
    for w in hit:
        if not hit[w]:
            ck.gone('no path of smfree is of the kind: %s' % w)


def rule_info(ck):
    size = arg('size', hi=U64 - 1)
    info = arg('info', 'small_alloc_info')
    for groups in shapes(ck.tier):
        for masks in masks_of(groups):
            for k in range(sum(groups)):
                cx = Alloc(ck, groups, list(masks), k)
                I = cx.I
                r = ck.run(I, 'small_alloc_info', [cx.A, arg('ptr', ptr=True), size, info], pre=cx.pre)
                for p in r.rets:
                    big = not p.evs('class')
                    v = p.n(p.f(info, 'small_alloc_info', 'is_large'))
                    if big:
                        p.need_ge(size, cx.max + 1, 'only sizes above all classes are large', 'size')
                    else:
                        p.need_ge(cx.max, size, 'sizes above all classes are large', 'size')
                    p.need_field(info, 'small_alloc_info', 'is_large', C(1 if big else 0), 'the report matches where the object would live')
                    p.need_field(info, 'small_alloc_info', 'real_size', size if big else cx.osz[cx.lowest(k, cx.masks)],
                                 'the reported size is the size delivered')
                    p.frame(lambda a: p.n(a - info).is_const(), 'asking changes nothing')


# ------------------------------------------------------------------ creation
def patterns(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(1, top + 1):
        for m in range(1 << (n - 1)):
            o, out = 0, [0]
            for i in range(n - 1):
                o += m >> i & 1
                out.append(o)
            yield out
    yield [0] * 34
    yield [0] * 32 + [1]
    yield [0] * 33 + [1] * 2


def rule_create(ck):
    for pat in patterns(ck.tier):
        create(ck, pat)


def create(ck, pat):
    n = len(pat)
    I = ck.interp('plain', models.CACHE, MEMPOOL, unit='small')
    I.unroll_open = True
    A, cache = arg('alloc', 'small_alloc'), arg('cache', 'slab_cache')
    sz = [S(mksym('class_size%d' % k, 'arg', (), 1, (1 << 31) - 1, False, key=('clsz', k))) for k in range(n)]
    off, esz = I.offsetof, I.structsize
    pools = [A + off('small_alloc', 'small_mempool_cache')[0] + k * esz('small_mempool') for k in range(n)]
    lb = I.entry(cache + off('slab_cache', 'order0_size_lb')[0], 1)
    om = I.entry(cache + off('slab_cache', 'order_max')[0], 1)
    mx = S(mksym('objsize_max', 'arg', (), 1, (1 << 31) - 1, False, key='crmax'))
    gran = arg('granularity', lo=1, hi=1 << 16, bits=32)
    mino = arg('objsize_min', lo=1, hi=1 << 16, bits=32)
    outp = arg('actual', ptr=True)
    last = {}

    def pre(I, st):
        f = st.facts
        f.add_ge(lb - 8)
        f.add_ge(C(31) - lb - om)
        f.add_ge(C(15) - om)
        for k in range(1, n):
            f.add_ge(sz[k] - sz[k - 1] - 1)
        st.ghost[('pow2', next(iter(gran.syms())))] = True
        # the classes end where the largest object size is reached
        f.add_ge(sz[n - 1] - mx)
        for k in range(n - 1):
            f.add_ge(mx - sz[k] - 1)

    def m_size(I, st, v, ins):
        c = st.n(v[1])
        st.event('class_size', (st.n(v[0]), c), I.loc(ins))
        if not c.is_const() or c.c >= n:
            st.event('class_beyond', (c,), I.loc(ins))
            return [(st, mx)]
        return [(st, sz[c.c])]

    def m_create(I, st, v, ins):
        p = st.n(v[0])
        st.event('pool_create', (p, st.n(v[1]), st.n(v[2])), I.loc(ins))
        for k, x in enumerate(pools):
            if x == p:
                I.store(st, p + off('mempool', 'slab_order')[0], 1, C(pat[k]))
                I.store(st, p + off('mempool', 'objsize')[0], 4, I.u(st, st.n(v[2]), 32))
                I.store(st, p + off('mempool', 'cache')[0], 8, st.n(v[1]))
        return [(st, None)]

    def m_clcreate(I, st, v, ins):
        st.event('class_create', tuple(v), I.loc(ins))
        return [(st, None)]

    def m_max(I, st, v, ins):
        # some size; rounded up by the caller
        st.event('objsize_max', (st.n(v[0]),), I.loc(ins))
        return [(st, mx)]
    I.models.update({'small_class_calc_size_by_offset': m_size, 'mempool_create': m_create,
                     'small_class_create': m_clcreate, 'mempool_objsize_max': m_max,
                     'small_align': lambda I, st, v, ins: [(st, st.n(v[0]))]})
    r = ck.run(I, 'small_alloc_create', [A, cache, mino, gran, S(fresh('factor')), outp], pre=pre)
    groups = []
    for k in range(n):
        if k and pat[k] == pat[k - 1] and groups[-1][1] - groups[-1][0] < 31:
            groups[-1][1] = k
        else:
            groups.append([k, k])
    gof = {}
    for g, (a, b) in enumerate(groups):
        for k in range(a, b + 1):
            gof[k] = g
    for p in r.rets:
        cr = p.evs('pool_create')
        p.need(not p.evs('class_beyond'), 'there is one pool per class and no more', '')
        if not p.need(len(cr) == n and all(p.same(e.a[0], pools[k]) for k, e in enumerate(cr)), 'there is one pool per class and no more',
                      lambda: '%d pools' % len(cr)):
            continue
        p.need_field(A, 'small_alloc', 'small_mempool_cache_size', C(n), 'there is one pool per class and no more')
        p.need_field(A, 'small_alloc', 'cache', cache, 'the allocator draws on the given cache')
        last = sz[n - 1] if p.same(sz[n - 1], mx) else mx
        p.need_field(A, 'small_alloc', 'objsize_max', cr[-1].a[2], 'the largest class holds the largest pooled size', bits=32)
        g0 = A + off('small_alloc', 'small_mempool_groups')[0]
        p.need_field(A, 'small_alloc', 'small_mempool_groups_size', C(len(groups)), 'pools with equal slabs form groups of at most 32')
        for g, (a, b) in enumerate(groups):
            G = g0 + g * esz('small_mempool_group')
            p.need_field(G, 'small_mempool_group', 'first', pools[a], 'pools with equal slabs form groups of at most 32')
            p.need_field(G, 'small_mempool_group', 'last', pools[b], 'pools with equal slabs form groups of at most 32')
            p.need_field(G, 'small_mempool_group', 'active_pool_mask', C(1 << (b - a)), 'at first only the largest pool of a group is available', 32)
            w = p.n(p.f(G, 'small_mempool_group', 'waste_max'))
            ss = models.order_size(I, p.st, cache, C(pat[a]))
            p.need(p.ge(ss.scale(1), w.scale(4)) and p.ge(w.scale(4) + 3, ss), 'a class may waste a quarter of a slab', lambda: '%r' % (w,))
        for k in range(n):
            e = cr[k]
            p.need_eq(e.a[1], cache, 'pools draw on the given cache', 'cache', ev=e)
            if k < n - 1:
                p.need_eq(e.a[2], sz[k], 'the pool of a class holds objects of its size', 'objsize', ev=e)
            else:
                p.need_eq(e.a[2], mx, 'the pool of a class holds objects of its size', 'objsize', ev=e)
            P_ = pools[k]
            p.need_field(P_, 'small_mempool', 'objsize_min', (sz[k - 1] if k else ZERO) + 1, 'a pool starts where the previous ends')
            p.need_field(P_, 'small_mempool', 'waste', ZERO, 'a new class has wasted nothing')
            p.need_field(P_, 'small_mempool', 'group', g0 + gof[k] * esz('small_mempool_group'), 'a pool knows its group')
            p.need_field(P_, 'small_mempool', 'used_pool', pools[groups[gof[k]][1]], 'at first only the largest pool of a group is available')
            p.need_field(P_, 'small_mempool', 'pool.small_mempool', P_, 'a pool knows its class')
            idx = k - groups[gof[k]][0]
            p.need_field(P_, 'small_mempool', 'appropriate_pool_mask', C((0xffffffff << idx) & 0xffffffff), 'only pools at least as large are suitable', 32)


def rule_destroy(ck):
    for groups in shapes(ck.tier):
        cx = Alloc(ck, groups, list(masks_of(groups)[0]))
        r = ck.run(cx.I, 'small_alloc_destroy', [cx.A], pre=cx.pre)
        for p in r.rets:
            d = p.evs('pool_destroy')
            p.need(len(d) == cx.n and all(sum(p.same(e.a[0], x) for e in d) == 1 for x in cx.pool), 'every pool is destroyed once', lambda: '%r' % (d,))
    # statistics add up
    out = arg('totals', 'small_stats')
    for groups in shapes(ck.tier):
        cx = Alloc(ck, groups, list(masks_of(groups)[0]))
        I = cx.I
        tot = [S(mksym('bytes_total%d' % k, 'arg', (), 0, 1 << 40, False, key=('btot', k))) for k in range(cx.n)]

        def m_stats(I, st, v, ins):
            p_, o = st.n(v[0]), st.n(v[1])
            for k, x in enumerate(cx.pool):
                if x == p_:
                    I.store(st, o + I.offsetof('mempool_stats', 'totals.used')[0], 8, cx.used[k])
                    I.store(st, o + I.offsetof('mempool_stats', 'totals.total')[0], 8, tot[k])
            st.event('stats', (p_,), I.loc(ins))
            return [(st, None)]
        I.models['mempool_stats'] = m_stats

        def m_cb(I, st, target, v, ins):
            s2 = st.copy()
            s2.event('cb', (ONE,), I.loc(ins))
            st.event('cb', (ZERO,), I.loc(ins))
            return [(s2, ONE), (st, ZERO)]
        I.ptr_models = m_cb
        r = ck.run(I, 'small_stats', [cx.A, out, arg('cb', ptr=True), arg('ctx', ptr=True)], pre=cx.pre)
        for p in r.rets:
            ev = p.evs('stats')
            cb = p.evs('cb')
            n = len(ev)
            p.need(all(p.same(e.a[0], cx.pool[k]) for k, e in enumerate(ev)) and len(cb) == n, 'statistics visit every pool once', lambda: '%r' % (ev,))
            p.need(n == cx.n or cb[-1].a[0].c == 1, 'statistics visit every pool once', '')
            p.need_field(out, 'small_stats', 'used', sum(cx.used[:n], ZERO), 'totals are the sum over the pools')
            p.need_field(out, 'small_stats', 'total', sum(tot[:n], ZERO), 'totals are the sum over the pools')


prop('S01', 'other', 'every path of smalloc/smfree/small_alloc_info for each pattern of available pools in a group: pool served, waste ledger, (de)activation conditions', [rule_smalloc, rule_smfree, rule_info], min_obligations=300)
prop('S02', 'other', 'construction of pools and groups followed loop by loop for patterns of slab orders; destruction and statistics visit each pool once', [rule_create, rule_destroy], min_obligations=30)
