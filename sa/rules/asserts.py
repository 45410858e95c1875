"""The build with assertions on (the default build): every rule again, plus what
that build alone does: the fill patterns and the flag of a pending reservation."""
from ..contract import *
from .. import models

# properties whose code differs in that build by more than the assertions
PIDS = ('R01', 'R02', 'R03', 'O01', 'O02', 'O03', 'M01', 'M02', 'C01', 'C02', 'C03', 'S01', 'S02', 'S03', 'B01', 'L01', 'G01', 'G02')
FILL = 'the fill pattern covers released memory only'
FLAG = 'a reservation is pending until it is used or dropped'


def paths(r):
    for p in r.all:
        yield p
    for i in r.I.loop_seen:
        for p, pairs in iterations(r, i):
            yield p


def inside(p, e, lo, hi):
    d, n = p.n(e.a[0]), p.n(e.a[2])
    if p.is0(n):
        return
    p.need_ge(d, lo, FILL, 'start', ev=e)
    p.need_ge(hi, d + n, FILL, 'end', ev=e)


def judge(ck, I, fn, r):
    if I.cfg != 'plain':
        return
    a = r.args
    if fn in ('mempool_free', 'mempool_free_slab', 'smfree') and 'mempool' in str(SYMS[next(iter(a[0].syms()))].tag):
        ptr = a[-1]
        size = I.entry(a[0] + I.offsetof('mempool', 'objsize')[0], I.offsetof('mempool', 'objsize')[1])
        for p in paths(r):
            for e in p.evs('memset'):
                inside(p, e, ptr, ptr + size)
    elif fn == 'region_truncate':
        hdr = (I.structsize('rslab') + 7) // 8 * 8
        uo, un = I.offsetof('rslab', 'used')
        n = 0
        for p in paths(r):
            for e in p.evs('memset'):
                l = p.st.lists.get(p.n(a[0] + I.offsetof('region', 'slabs.slabs')[0]))
                s = p.n(l.pre[0]) - I.offsetof('rslab', 'slab.next_in_list')[0] if l is not None and l.pre else None
                if not p.need(s is not None, FILL, 'no block is left', e):
                    continue
                n += 1
                inside(p, e, s + hdr + p.f(s, 'rslab', 'used'), s + hdr + p.f0(s, 'rslab', 'used'))
        ck.ok(FILL, n)
    elif I.unit == 'slab_cache':
        hdr = models.slabsizeof(I)
        nil, nic = (I.offsetof('slab', x)[0] for x in ('next_in_list', 'next_in_cache'))
        for p in paths(r):
            for e in p.evs('memset'):
                d = p.n(e.a[0]) - hdr
                cand = [p.n(x.a[1]) - o for x in p.evs('list_add', 'list_add_tail') for o in (nil, nic)]
                cand += [p.n(x) for x in a[1:] if isinstance(x, Lin)]
                cand += [p.n(x.a[0]) - o for x in p.evs('list_del') for o in (nil, nic)]
                cand = [c for c in cand if p.same(c, d)]
                if not p.need(cand, FILL, lambda: '%r: %r' % (d, [(x.kind, x.a) for x in p.ev if x.kind not in ('access',)]), e):
                    continue
                inside(p, e, cand[0] + hdr, cand[0] + e.x)      # its size at that time
    flags(ck, I, fn, r)


ENDS = dict(region_alloc=0, region_alloc_cb=0, region_aligned_alloc=0, region_reserve=1, region_reserve_cb=1, region_aligned_reserve=1,
            region_truncate=None, region_free=None, region_free_after='', region_reset=None, region_create=None, region_join=0,
            obuf_reserve=1, obuf_reserve_cb=1, obuf_alloc=0, obuf_alloc_cb=0, obuf_reset=None, obuf_create=None, obuf_rollback_to_svp=None)


def flags(ck, I, fn, r):
    w = ENDS.get(fn, '')
    if w == '':
        return
    st = 'region' if fn.startswith('region') else 'obuf'
    try:
        o, n = I.offsetof(st, 'reserved')
    except Exception:
        return
    a = r.args[0] + o
    for p in r.rets:
        v = p.n(I.rd(p.st, a, n))
        if w is None:
            p.need_eq(v, ZERO, FLAG, 'flag after %s' % fn)
        elif p.is0(p.ret):
            p.need(p.is0(v) or p.same(v, I.entry(a, n)), FLAG, lambda: 'flag after a refused %s is %r' % (fn, v))
        elif w:
            p.need(p.ge(v, 1), FLAG, lambda: 'flag after %s is %r' % (fn, v))
        else:
            p.need_eq(v, ZERO, FLAG, 'flag after %s' % fn)
