from . import prop
from ..contract import *
from .. import models

BIG = models.BIG
MAP_PRIVATE, MAP_SHARED, MAP_ANON = 2, 1, 0x20


def setup(ck, A):
    I = ck.interp('plain', models.QUOTA, models.LIFO, unit='slab_arena')
    uo = I.offsetof('slab_arena', 'used')[0]
    I.volatile_addr = lambda st, a: (st.n(a) - A - uo).is_const() and (st.n(a) - A - uo).c == 0

    def shared(I, st, addr, size):
        s = S(fresh('arena.used', 0, BIG))
        # slabs are handed out whole and the preallocation is whole slabs
        return s
    I.shared_hook = shared
    return I


def fields(I, A):
    g = lambda f: I.entry(A + I.offsetof('slab_arena', f)[0], I.offsetof('slab_arena', f)[1])
    return g('slab_size'), g('prealloc'), g('arena'), g('quota'), g('flags')


def pre_arena(A):
    def pre(I, st):
        ss, pr, ar, q, fl = fields(I, A)
        sid = next(iter(ss.syms()))
        st.ghost[('pow2', sid)] = True
        st.facts.add_ge(ss - 65536)
        st.facts.add_ge(C(1 << 31) - ss)
        st.facts.add_ge(C(BIG) - pr)
    return pre


def tiles(p, start, length, pieces):
    """pieces (addr, len) exactly tile [start, start+length)"""
    cur, left = start, list(pieces)
    while left:
        for x in left:
            if p.same(x[0], cur):
                cur = p.n(cur + x[1])
                left.remove(x)
                break
        else:
            return False
    return p.same(cur, start + length)


def mappings(p, kept, rule='each mapping is kept or unmapped, byte for byte'):
    """every mapping made on the path is kept or unmapped exactly once, entirely;
    kept: list of (address, length)"""
    maps = [e for e in p.evs('alloc') if e.a[0] == 'mmap']
    un = [(p.n(e.a[0]), p.n(e.a[1]), e) for e in p.evs('munmap')]
    used, found = [], []
    for m in maps:
        base, ln = p.n(m.a[1]), p.n(m.a[2])
        root = p.I.roots(base)
        pieces = [(a, l) for a, l, e in un if p.I.roots(a) == root]
        used += [e for a, l, e in un if p.I.roots(a) == root]
        keep = [k for k in kept if p.I.roots(p.n(k[0])) == root]
        if keep:
            found.append(m)
        p.need(tiles(p, base, ln, pieces + keep), rule,
               lambda: 'mapped %r+%r, unmapped %r, kept %r' % (base, ln, pieces, keep), m)
        for a, l in pieces:
            p.need_ge(l, 1, 'no empty unmap', 'length')
    for a, l, e in un:
        p.need(e in used, 'unmaps only what it mapped', lambda: 'munmap(%r)' % (a,), e)
    return found


def check_kind(ck):
    """private and shared arenas are mapped as such"""
    for fl, want in ((0x80000001, MAP_PRIVATE), (0x80000002, MAP_SHARED), (MAP_PRIVATE, MAP_PRIVATE), (MAP_SHARED, MAP_SHARED)):
        A, q = arg('arena', 'slab_arena'), arg('quota', 'quota')
        I = ck.interp('plain', models.QUOTA, models.LIFO, unit='slab_arena')
        word = I.entry(q, 8)
        r = ck.run(I, 'slab_arena_create', [A, q, C(1 << 24), C(1 << 22), C(fl)],
                   pre=lambda I, st: st.facts.add_ge(C((1 << 64) - 1) - word))
        n = 0
        for p in r.rets:
            for e in p.evs('alloc'):
                n += 1
                v = e.a[3]
                p.need(v.is_const() and v.c == (want | MAP_ANON),
                       'private and shared arenas are mapped as such', lambda: 'flags %r' % (v,), e)
            stored = p.f(A, 'slab_arena', 'flags')
            # and later slabs the same way
            I2 = setup(ck, A)
            ss, pr, ar, q2, fl2 = fields(I2, A)
            p0 = pre_arena(A)
            if not stored.is_const() or n == 0:
                continue
            r2 = ck.run(I2, 'slab_map', [A], pre=lambda I, st: (p0(I, st), I.store(st, A + I.offsetof('slab_arena', 'flags')[0], 4, stored))[0])
            for p2 in r2.rets:
                for e in p2.evs('alloc'):
                    v = e.a[3]
                    p2.need(v.is_const() and v.c == (want | MAP_ANON),
                            'later slabs are mapped like the preallocation', lambda: 'flags %r' % (v,), e)
            n = -100
        r.count('mapped', abs(n))


def check_map(ck):
    A = arg('arena', 'slab_arena')
    I = setup(ck, A)
    pre = pre_arena(A)
    ss, pr, ar, q, fl = fields(I, A)
    r = ck.run(I, 'slab_map', [A], pre=pre)
    kinds = {'cache': 0, 'prealloc': 0, 'mmap': 0, 'null': 0}
    for p in r.rets:
        quota = ZERO
        for e in p.evs('quota_use'):
            p.need_eq(e.a[0], q, 'slabs are charged to the arena\'s quota', 'quota', ev=e)
            quota = quota + e.a[1]
        for e in p.evs('quota_release'):
            p.need_eq(e.a[0], q, 'slabs are charged to the arena\'s quota', 'quota', ev=e)
            quota = quota - e.a[1]
        quota = p.n(quota)
        used = ZERO
        for e in p.evs('rmw'):
            k = e.a[0]
            used = used + (e.a[2] if k == 'add' else -e.a[2])
        for e in p.evs('cas'):
            used = used + e.a[2] - e.a[1]
        used = p.n(used)
        p.need(not p.evs('astore'), 'the high-water mark is only updated atomically', 'plain store')
        pops = p.evs('lifo_pop')
        for e in pops:
            p.need_eq(e.a[0], A + I.offsetof('slab_arena', 'cache')[0], 'recycles from its own cache', 'list', ev=e)
        p.frame(field_pred(I, A, 'slab_arena', 'used'), 'only the high-water mark changes')
        if p.is0(p.ret):
            kinds['null'] += 1
            p.need_eq(quota, ZERO, 'a failed map leaves the quota as it was', 'charged')
            p.need_eq(used, ZERO, 'a failed map leaves the high-water mark as it was', 'used')
            mappings(p, [], 'a failed map leaves no mapping')
            p.need(not pops, 'a cached slab is not lost', 'popped slab dropped')
            p.need(p.evs('allocfail', 'quota_use_fail'), 'NULL only when memory is refused', '')
            continue
        if pops:
            kinds['cache'] += 1
            p.need(len(pops) == 1, 'a cached slab is not lost', 'several slabs popped')
            p.need_eq(p.ret, pops[0].a[1], 'returns the recycled slab', 'result')
            p.need_eq(quota, ZERO, 'a recycled slab is already charged', 'charged')
            p.need_eq(used, ZERO, 'a recycled slab is already counted', 'used')
            p.need(not p.evs('alloc'), 'a recycled slab is already mapped', 'mapped again')
            continue
        p.need(p.evs('lifo_empty'), 'cached slabs are reused before taking more memory', 'cache not consulted')
        p.need_eq(quota, ss, 'a new slab is charged exactly once', 'charged')
        p.need_eq(used, ss, 'a new slab is counted exactly once', 'used')
        kept = mappings(p, [(p.ret, ss)])
        if kept:
            kinds['mmap'] += 1
            p.need(len(kept) == 1, 'one mapping per slab', '')
            p.need(I.aligned_to(p.st, p.n(p.ret), ss), 'a mapped slab is aligned by the slab size', lambda: 'result %r' % (p.ret,))
        else:
            kinds['prealloc'] += 1
            up = [e for e in p.evs('rmw', 'cas')]
            if p.need(len(up) == 1, 'one reservation per slab', lambda: '%d updates' % len(up)):
                old = up[0].a[3] if up[0].kind == 'rmw' else up[0].a[1]
                p.need_eq(p.ret, ar + old, 'a preallocated slab is the one just reserved', 'result')
                p.need_ge(pr, old + ss, 'a preallocated slab lies inside the preallocation', 'end')
    for k, v in kinds.items():
        r.count(k, v)
    # ---- unmap
    I = setup(ck, A)
    ptr = arg('ptr', ptr=True)
    r = ck.run(I, 'slab_unmap', [A, ptr], pre=pre)
    for p in r.rets:
        ps = p.evs('lifo_push')
        p.need(len(ps) == 1, 'a returned slab goes to the cache exactly once', lambda: '%d pushes' % len(ps))
        for e in ps:
            p.need_eq(e.a[0], A + I.offsetof('slab_arena', 'cache')[0], 'a returned slab goes to its own arena', 'list', ev=e)
            p.need_eq(e.a[1], ptr, 'a returned slab goes to the cache exactly once', 'element', ev=e)
        p.need(not p.evs('quota_release', 'quota_use', 'munmap', 'rmw', 'astore', 'cas'), 'a cached slab stays charged and mapped', '')
    r = ck.run(I, 'slab_unmap', [A, ZERO], pre=pre)
    for p in r.rets:
        p.need(not p.evs('lifo_push', 'quota_release', 'munmap'), 'returning NULL does nothing', '')
        p.no_effects('returning NULL does nothing')


def check_destroy(ck):
    A = arg('arena', 'slab_arena')
    I = setup(ck, A)
    I.volatile_addr = None
    ss, pr, ar, q, fl = fields(I, A)
    r = ck.run(I, 'slab_arena_destroy', [A], pre=pre_arena(A))
    n = 0

    def judge(st, evs, what):
        p = P(r, type('X', (), dict(st=st, kind='ret', ret=None))())
        p._ev = evs
        return p

    def piece(p, pops, un):
        for e in pops:
            x = p.n(e.a[1])
            mine = [u for u in un if p.same(u.a[0], x)]
            inside = p.differ(ar, ZERO) and p.ge(x, ar) and p.ge(ar + pr - 1, x)
            outside = p.is0(ar) or p.ge(ar - 1, x) or p.ge(x, ar + pr)
            if outside:
                p.need(len(mine) == 1, 'every cached slab outside the preallocation is unmapped once',
                       lambda: '%d unmaps' % len(mine), e)
                for u in mine:
                    p.need_eq(u.a[1], ss, 'whole slabs are unmapped', 'length', ev=u)
            elif inside:
                p.need(not mine, 'preallocated slabs are unmapped with the preallocation only', 'unmapped twice', e)
            else:
                p.need(False, 'slabs of the preallocation are told apart exactly', 'membership of %r not decided' % (x,), e)
        return [u for u in un if not any(p.same(u.a[0], p.n(e.a[1])) for e in pops)]
    for i in I.loop_seen:
        for b, evs, pv in i.backs:
            p = judge(b, evs, 'loop')
            rest = piece(p, p.evs('lifo_pop'), p.evs('munmap'))
            n += len(p.evs('lifo_pop'))
            p.need(not rest, 'the preallocation is unmapped once', 'unmapped inside the loop')
    r.count('popped slabs', n, 2)
    for p in r.rets:
        p.need(p.evs('lifo_empty'), 'the cache is drained', 'destroy ends with slabs cached')
        un = p.evs('munmap')
        if p.is0(ar):
            p.need(not un, 'nothing else is unmapped', '')
        else:
            if p.need(len(un) == 1, 'the preallocation is unmapped once', lambda: '%d unmaps' % len(un)):
                p.need_eq(un[0].a[0], ar, 'the preallocation is unmapped once', 'address')
                p.need_eq(un[0].a[1], pr, 'the preallocation is unmapped whole', 'length')


def check_create(ck):
    A, q = arg('arena', 'slab_arena'), arg('quota', 'quota')
    pre_, size = arg('prealloc'), arg('slab_size', hi=1 << 31, bits=32)
    flags = C(0x80000001)
    I = ck.interp('plain', models.QUOTA, models.LIFO, unit='slab_arena')
    word = I.entry(q, 8)
    r = ck.run(I, 'slab_arena_create', [A, q, pre_, size, flags],
               pre=lambda I, st: st.facts.add_ge(C((1 << 64) - 1) - word))
    ok = 0
    for p in r.rets:
        ss = p.f(A, 'slab_arena', 'slab_size')
        pr = p.f(A, 'slab_arena', 'prealloc')
        ar = p.f(A, 'slab_arena', 'arena')
        p.need(I.is_pow2(p.st, p.n(ss)), 'the slab size is a power of two', lambda: 'slab_size %r' % (ss,))
        p.need_ge(ss, 65536, 'the slab size leaves room for the reuse counter', 'slab_size')
        p.need_ge(ss, size, 'the slab size is not below the request', 'slab_size')
        p.need(I.aligned_to(p.st, p.n(pr), p.n(ss)), 'the preallocation is whole slabs', lambda: 'prealloc %r' % (pr,))
        qt = I.udiv(p.st, p.n(word), C(1 << 32), 64).scale(1024)
        # covers the request up to the limit
        p.need(p.ge(pr, pre_) or p.ge(pr, qt) or p.ge(pr, C((1 << 64) - 1) - ss - ss), 'the preallocation covers the request up to the quota',
               lambda: 'prealloc %r' % (pr,))
        p.need_ge(qt + ss, pr + 1 if False else pr, 'the preallocation does not exceed the quota by a slab', 'prealloc')
        p.need_eq(p.f(A, 'slab_arena', 'quota'), q, 'the arena draws on the given quota', 'quota')
        p.need_eq(p.f(A, 'slab_arena', 'used'), ZERO, 'a new arena has handed out nothing', 'used')
        p.need(p.evs('lifo_init') and p.same(p.evs('lifo_init')[0].a[0], A + I.offsetof('slab_arena', 'cache')[0]),
               'a new arena caches nothing', '')
        p.need(not p.evs('quota_use'), 'preallocation is charged when handed out', 'charged at creation')
        if p.is0(p.ret):
            if p.is0(pr):
                p.need_eq(ar, ZERO, 'no preallocation, no mapping', 'arena')
                mappings(p, [])
            else:
                ok += 1
                kept = mappings(p, [(ar, pr)])
                p.need(len(kept) == 1, 'the preallocation is mapped once, whole', '')
                p.need(I.aligned_to(p.st, p.n(ar), p.n(ss)), 'the preallocation is aligned by the slab size', lambda: 'arena %r' % (ar,))
        else:
            p.need_eq(p.ret, C(-1), 'failure is -1', 'result', bits=32)
            p.need(p.evs('allocfail'), 'fails only when memory is refused', '')
            p.need_eq(ar, ZERO, 'no mapping after a failure', 'arena')
            mappings(p, [])
    r.count('created', ok)


prop('A01', 'other', 'pairing analysis of slab_map/slab_unmap/slab_arena_destroy: on every path the quota charge, the '
     'high-water mark and the backing memory are acquired and given back together',
     [check_map, check_destroy], min_obligations=60)
prop('A02', 'other', 'region tiling: on every path of the mapping helper the mapped ranges are exactly the returned '
     'range plus the unmapped ranges; alignment and sizes derived symbolically',
     [check_create, check_kind], min_obligations=40)
