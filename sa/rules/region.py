"""Region: allocation, truncation and joining over any list of blocks."""
from . import prop
from ..contract import *
from .. import models, irgen

BIG = models.BIG


class Ctx:
    def __init__(self, ck, unit='headers', mods=None):
        self.ck = ck
        self.R = R = arg('region', 'region')
        self.I = I = ck.interp('plain', models.CACHE, unit=unit, mods=mods)
        I.slab_tag = 'rslab'
        off = I.offsetof
        self.slabs = R + off('region', 'slabs.slabs')[0]
        self.link = off('rslab', 'slab.next_in_list')[0]
        self.cache = I.entry(R + off('region', 'cache')[0], 8, True)
        self.used0 = I.entry(R + off('region', 'slabs.stats.used')[0], 8)
        self.total0 = I.entry(R + off('region', 'slabs.stats.total')[0], 8)
        self.arg = I.entry(R + off('region', 'cb_arg')[0], 8)
        self.acb = I.entry(R + off('region', 'on_alloc_cb')[0], 8, True)
        self.tcb = I.entry(R + off('region', 'on_truncate_cb')[0], 8, True)
        self.hdr = (I.structsize('rslab') + 7) // 8 * 8
        self.usz = off('rslab', 'used')[1]
        I.elem_hook = self.elem
        I.ptr_models = self.call
        self.seen = []

    def elem(self, I, st, h, link):
        if h != self.slabs:
            return
        s = link - self.link
        o = I.offsetof('rslab', 'slab.size')
        Z = I.entry(s + o[0], o[1])
        U = I.entry(s + I.offsetof('rslab', 'used')[0], self.usz)
        st.facts.add_ge(C(BIG) - Z)
        st.facts.add_ge(Z - self.hdr - U)
        st.facts.add_ge(self.used0 - U)
        st.facts.add_ge(self.total0 - Z)

    def pre(self, I, st):
        f = st.facts
        f.add_ge(C(1 << 60) - self.used0)
        f.add_ge(C(1 << 60) - self.total0)
        f.add_ge(self.total0 - self.used0)

    def call(self, I, st, target, v, ins):
        """a user callback: may look at the region, does not change it"""
        now = I.rd(st, self.R + I.offsetof('region', 'slabs.stats.used')[0], 8)
        st.event('callback', (st.n(target), tuple(st.n(x) for x in v), st.n(now)), I.loc(ins))
        return [(st, ZERO)]

    def used(self, p):
        return p.n(p.f(self.R, 'region', 'slabs.stats.used'))

    def total(self, p):
        return p.n(p.f(self.R, 'region', 'slabs.stats.total'))

    def first(self, p):
        l = p.st.lists.get(p.n(self.slabs))
        return p.n(l.pre[0]) - self.link if l is not None and l.pre else None

    def data(self, s):
        return s + self.hdr


def sused(p, s):
    return p.n(p.f(s, 'rslab', 'used'))


def ssize(p, s):
    return p.n(p.f(s, 'rslab', 'slab.size'))


def sused0(p, cx, s):
    """used bytes of the block before the call"""
    if any(SYMS[x].kind == 'obj' for x in s.syms()):
        return ZERO
    return p.n(p.f0(s, 'rslab', 'used'))


def callbacks(p, cx, which, size, when, rule):
    cbs = p.evs('callback')
    t = p.n(which)
    if p.is0(t):
        p.need(not cbs, rule, 'a missing callback is called')
        return
    if not p.need(len(cbs) == 1 and p.same(cbs[0].a[0], t), rule, lambda: '%d calls' % len(cbs)):
        return
    e = cbs[0]
    p.need(p.same(e.a[1][0], cx.R) and p.same(e.a[1][1], size) and p.same(e.a[1][2], cx.arg), rule, lambda: '%r, expected size %r' % (e.a[1], size), e)
    p.need_eq(e.a[2], when, 'callbacks see the usage they are promised', 'region_used', ev=e)


def judge_reserve(p, cx, size, ptr, fresh_ok=True):
    """-> block serving the reservation, or None when it failed"""
    I = p.I
    new = p.evs('alloc')
    if p.is0(ptr):
        p.need(not new and not p.evs('list_add', 'list_add_tail', 'list_del', 'release', 'callback'), 'a failed request changes nothing', '')
        p.no_effects('a failed request changes nothing')
        return None
    s = cx.first(p)
    if not p.need(s is not None, 'memory comes from the newest block of the region', ''):
        return None
    if new:
        p.need(len(new) == 1 and new[0].a[0] == 'slab_get' and p.same(new[0].a[1], s), 'memory comes from the newest block of the region', lambda: '%r' % (new,))
        p.need_eq(new[0].a[2], cx.cache, 'blocks come from the region\'s cache', 'cache')
        p.need_eq(cx.total(p), cx.total0 + ssize(p, s), 'total counts the blocks held', 'total')
        adds = p.evs('list_add', 'list_add_tail')
        p.need(len(adds) == 1 and not p.evs('list_del'), 'a block is registered once', '')
    else:
        p.need_eq(cx.total(p), cx.total0, 'total counts the blocks held', 'total')
        p.need(not p.evs('list_add', 'list_add_tail', 'list_del'), 'the blocks stay as they are', '')
    p.need(not p.evs('release'), 'a reservation releases nothing', '')
    u0 = sused0(p, cx, s)
    p.need_ge(ptr, cx.data(s) + u0, 'a reservation does not overlap live data', 'start')
    p.need_ge(s + ssize(p, s), ptr + size, 'a reservation stays inside its block', 'end')
    return s


def frame(p, cx, s, *more):
    I = p.I
    u, n = I.offsetof('rslab', 'used')

    def ok(a):
        if s is not None and p.same(a, s + u):
            return True
        return base(a)
    base = field_pred(I, cx.R, 'region', 'slabs', *more)
    p.frame(ok, 'only the newest block and the totals change')


def rule_reserve(ck):
    size = arg('size', hi=U64 - 1)
    got = dict(null=0, room=0, new=0)
    cx = Ctx(ck)
    r = ck.run(cx.I, 'region_reserve', [cx.R, size], pre=cx.pre)
    for p in r.rets:
        s = judge_reserve(p, cx, size, p.ret)
        if s is None:
            got['null'] += 1
            continue
        got['new' if p.evs('alloc') else 'room'] += 1
        p.need_eq(sused(p, s), sused0(p, cx, s), 'a reservation is not yet an allocation', 'used')
        p.need_eq(cx.used(p), cx.used0, 'a reservation is not yet an allocation', 'used')
        p.need_eq(p.ret, cx.data(s) + sused(p, s), 'an allocation follows the previous one', 'result')
        p.need(not p.evs('callback'), 'a reservation is not yet an allocation', 'callback')
        frame(p, cx, s)
    for k in got:
        if not got[k]:
            ck.gone('no path of region_reserve is of the kind %s' % k)
    # through the callback interface
    cx = Ctx(ck)
    I = cx.I
    szp = arg('psize', ptr=True)
    want = I.entry(szp, 8)
    r = ck.run(I, 'region_reserve_cb', [cx.R, szp], pre=cx.pre)
    ok = 0
    for p in r.rets:
        if p.is0(p.ret):
            p.need(not p.evs('alloc', 'list_add', 'list_add_tail'), 'a failed request changes nothing', '')
            bad = [a for a, n, v in p.changed() if not p.same(a, szp)]
            p.need(not bad, 'a failed request changes nothing', lambda: '%r' % (bad,))
            heads = [e for e in p.evs('access') if 0]
            v = I.rd(p.st, szp, 8)
            p.need(p.same(v, want) or p.is0(v), 'a failed request reports no bogus size', lambda: '%r' % (p.n(v),))
            continue
        ok += 1
        s = judge_reserve(p, cx, want, p.ret)
        if s is None:
            continue
        n = p.n(I.rd(p.st, szp, 8))
        p.need_ge(n, want, 'at least the requested size is available', 'size')
        p.need_ge(s + ssize(p, s), p.ret + n, 'the announced size stays inside the block', 'size')
        p.need_eq(sused(p, s), sused0(p, cx, s), 'a reservation is not yet an allocation', 'used')
    r.count('granted', ok)


def rule_alloc(ck):
    size = arg('size', lo=1, hi=U64 - 1)
    for fn in ('region_alloc', 'region_alloc_cb'):
        cx = Ctx(ck)
        r = ck.run(cx.I, fn, [cx.R, size], pre=cx.pre)
        n = 0
        for p in r.rets:
            s = judge_reserve(p, cx, size, p.ret)
            if s is None:
                p.need(p.evs('allocfail') or p.ge(size, 1 << 60), 'fails only when memory is refused', '')
                continue
            n += 1
            judge_taken(p, cx, s, p.ret, size)
            p.need_eq(p.ret, cx.data(s) + sused0(p, cx, s), 'an allocation follows the previous one', 'result')
        r.count('granted', n, 2)
    # aligned
    align = S(mksym('alignment', 'arg', (), 1, 1 << 30, False, key='ralign'))
    for fn in ('region_aligned_reserve', 'region_aligned_alloc'):
        cx = Ctx(ck)
        I = cx.I

        def pre(I, st):
            cx.pre(I, st)
            st.ghost[('pow2', next(iter(align.syms())))] = True
        r = ck.run(I, fn, [cx.R, size, align], pre=pre)
        n = 0
        for p in r.rets:
            s = judge_reserve(p, cx, size, p.ret)
            if s is None:
                p.need(p.evs('allocfail') or p.ge(size, 1 << 60), 'fails only when memory is refused', '')
                continue
            n += 1
            p.need(I.aligned_to(p.st, p.n(p.ret), p.n(align)), 'the requested alignment is honoured', lambda: '%r' % (p.n(p.ret),))
            p.need_ge(cx.data(s) + sused0(p, cx, s) + align - 1, p.ret, 'no more than the alignment gap is skipped', 'result')
            if fn == 'region_aligned_alloc':
                judge_taken(p, cx, s, p.ret, size)
            else:
                p.need_eq(sused(p, s), sused0(p, cx, s), 'a reservation is not yet an allocation', 'used')
                p.need_eq(cx.used(p), cx.used0, 'a reservation is not yet an allocation', 'used')
                frame(p, cx, s)
        r.count('granted', n, 2)


WIT = '''
#include <stddef.h>
#include <stdint.h>
#include <stdalign.h>
#include "region.h"
struct wit { int64_t a; char b[15]; };
struct __attribute__((aligned(64))) wit_wide { char c[320]; };
struct wit *wit_object(struct region *r, size_t *size) { return region_alloc_object(r, struct wit, size); }
struct wit_wide *wit_wide_object(struct region *r, size_t *size) { return region_alloc_object(r, struct wit_wide, size); }
struct wit *wit_array(struct region *r, size_t n, size_t *size) { return region_alloc_array(r, struct wit, n, size); }
int *wit_ints(struct region *r, uint32_t n, size_t *size) { return region_alloc_array(r, int, n, size); }
short *wit_shorts(struct region *r, size_t n, size_t *size) { return region_alloc_array(r, short, n, size); }
struct wit_wide *wit_wide_array(struct region *r, size_t n, size_t *size) { return region_alloc_array(r, struct wit_wide, n, size); }
'''
WITS = (('wit_object', 24, 8, None), ('wit_wide_object', 320, 64, None), ('wit_array', 24, 8, 64), ('wit_ints', 4, 4, 32),
        ('wit_shorts', 2, 2, 64), ('wit_wide_array', 320, 64, 64))
_wit = {}


def rule_typed(ck):
    """objects and arrays by type: any number of elements"""
    if 'm' not in _wit:
        _wit['m'] = irgen.build('plain', only=['region'], extra_tu={'witness': WIT})
    for fn, sz, al, bits in WITS:
        cx = Ctx(ck, 'witness', _wit['m'])
        I = cx.I
        out = arg('size_out', ptr=True)
        args = [cx.R, out]
        n = ONE
        if bits:
            n = arg('count', lo=1, hi=(1 << bits) - 1)
            args.insert(1, n)
        want = n.scale(sz)
        r = ck.run(I, fn, args, pre=cx.pre)
        ok = 0
        for p in r.rets:
            if p.is0(p.ret):
                p.need(p.evs('allocfail') or p.ge(want, 1 << 60), 'fails only when memory is refused', lambda: '%r elements of %d bytes' % (p.n(n), sz))
                p.need(not p.evs('alloc', 'list_add', 'list_add_tail', 'callback'), 'a failed request changes nothing', '')
                p.frame(lambda a: p.same(a, out), 'a failed request changes nothing')
                continue
            ok += 1
            e = p.n(p.n(p.ret) + want)
            s = cx.first(p)
            if not p.need(s is not None, 'memory comes from the newest block of the region', ''):
                continue
            p.need_eq(I.rd(p.st, out, 8), want, 'the size of all the elements is reported', 'size')
            p.need_ge(p.ret, cx.data(s) + sused0(p, cx, s), 'an allocation does not overlap live data', 'start')
            p.need_ge(s + ssize(p, s), e, 'all the elements are inside the block', 'end')
            p.need_ge(cx.data(s) + sused(p, s), e, 'all the elements are taken from the block', 'used')
            p.need(I.aligned_to(p.st, p.n(p.ret), C(al)), 'elements are aligned for their type', lambda: '%r' % (p.n(p.ret),))
            p.need_eq(cx.used(p) - cx.used0, p.n(sused(p, s) - sused0(p, cx, s)), 'usage counts every allocated byte and gap', 'region_used')
        r.count('granted', ok, 2)


def judge_taken(p, cx, s, ptr, size):
    """the bytes up to ptr+size are taken from block s"""
    u0 = sused0(p, cx, s)
    d = p.n(ptr) + size - cx.data(s) - u0
    p.need_eq(sused(p, s), u0 + d, 'an allocation uses the block up to its end', 'used of the block')
    p.need_eq(cx.used(p), cx.used0 + d, 'usage counts every allocated byte and gap', 'region_used')
    callbacks(p, cx, cx.acb, d, cx.used0, 'each allocation is announced once with its size')
    frame(p, cx, s)


def rule_truncate(ck):
    for fn, unit in (('region_truncate', 'region'),):
        cx = Ctx(ck, unit)
        I = cx.I
        used = arg('used', hi=U64 - 1)

        def pre(I, st):
            cx.pre(I, st)
            st.facts.add_ge(cx.used0 - used)
        r = ck.run(I, fn, [cx.R, used], pre=pre)
        n = 0
        curs = {}
        for i in I.loop_seen:
            its = list(iterations(r, i))
            for (p, s, key, off, nx, ih), (q, pairs) in zip(elements(r, i, cx.slabs, cx.link), its):
                dels = p.evs('list_del')
                if not dels:
                    p.need(not p.evs('slab_put'), 'a block is unregistered before it is returned', '')
                    p.need(key is None, 'blocks are removed one by one', 'a block is passed over')
                    continue
                n += 1
                if not p.need(len(dels) == 1 and s is not None and p.same(dels[0].a[0], s + cx.link), 'blocks are removed one by one', ''):
                    continue
                if key is not None:
                    back = p.pv.get(key[1])
                    p.need(isinstance(back, Lin) and p.same(back, nx.a[2] - (cx.link if off is not ZERO else 0)), 'blocks are removed one by one', lambda: 'cursor moves to %r' % (back,), nx)
                    p.need(p.ev.index(nx) < p.ev.index(dels[0]), 'blocks are removed one by one', 'successor of a removed block', nx)
                    curs.setdefault(id(i), set()).add((key, off))
                U = p.n(fstart(p, s, 'rslab', 'used'))
                removed(p, cx, s, dels[0])
                # what remains to be cut shrinks by the data removed, and never
                # below zero: no byte below the mark is released
                cs = counters(p, i, pairs, -U)
                good = False
                for k, sg, e, h, b in cs:
                    left = cx.used0 - used + (h - e).scale(sg)
                    if p.ge(left, U):
                        good = True
                p.need(good, 'blocks removed hold only data above the mark', lambda: 'block of %r used bytes' % (U,), dels[0])
                t = I.rd(p.st, cx.R + I.offsetof('region', 'slabs.stats.total')[0], 8)
                tk = [(h, b) for k, (h, b) in pairs.items() if p.same(b, t)]
                Z = fstart(p, s, 'rslab', 'slab.size')
                p.need(any(p.same(h - b, Z) for h, b in tk), 'total counts the blocks held', lambda: 'total becomes %r' % (p.n(t),))
        r.count('blocks removed', n)
        for p in r.rets:
            p.need_eq(cx.used(p), used, 'the region holds exactly what was kept', 'region_used')
            callbacks(p, cx, cx.tcb, used, used, 'each truncation is announced once')
            s, empty = cx.first(p), list_known_empty(p.st, cx.slabs)
            for e in p.ev:
                # a walk over the list stands in front of the block it stopped at
                for key, off in curs.get(id(e.x[0]), ()) if e.kind == 'loop' else ():
                    v = e.x[1].get(key)
                    if isinstance(v, Lin):
                        empty = p.same(v + off, cx.slabs)
                        s = None if empty else p.n(v + off) - cx.link
            if s is not None:
                U = p.n(last0(p, cx, s))
                left = U - sused(p, s)
                p.need_ge(left, 0, 'truncation never grows a block', '')
                trim(p, cx, s, left, used)
            else:
                p.need(empty, 'truncation stops only at the mark', '')
            u = I.offsetof('rslab', 'used')[0]
            p.frame(lambda a: (s is not None and p.same(a, s + u)) or field_pred(I, cx.R, 'region', 'slabs')(a), 'only the newest block and the totals change')


def ssize0(p, s):
    return p.n(p.f0(s, 'rslab', 'slab.size'))


def last0(p, cx, s):
    """used bytes of block s before it was trimmed"""
    for e in p.ev:
        if e.kind == 'loop':
            i, vals = e.x
            for k, v in vals.items():
                if k[0] == 'pfld' and isinstance(v, Lin) and isinstance(vals.get(('phi', k[1])), Lin) and k[3] == cx.usz and \
                   p.same(vals[('phi', k[1])] + k[2], s + p.I.offsetof('rslab', 'used')[0]):
                    return v
    return p.f0(s, 'rslab', 'used')


def trim(p, cx, s, left, used):
    """the last block loses exactly what remained to be cut: some loop variable
    tells how much was cut before"""
    for e in p.ev:
        if e.kind != 'loop':
            continue
        i, vals = e.x
        for k, v in vals.items():
            en = i.vars.get(k, (None,))[0]
            if not isinstance(v, Lin) or not isinstance(en, Lin):
                continue
            for sg in (1, -1):
                if p.same(cx.used0 - used + (v - en).scale(sg), left) and not p.same(v, en):
                    p.need(True, 'the last block loses exactly what remained to be cut')
                    p.need(p.ge(p.n(last0(p, cx, s)), left), 'the last block loses exactly what remained to be cut', 'more than it holds')
                    return
    p.need(p.same(left, cx.used0 - used), 'the last block loses exactly what remained to be cut', lambda: 'loses %r' % (left,))


def removed(p, cx, s, de):
    puts = p.evs('slab_put')
    if p.need(len(puts) == 1 and p.same(puts[0].a[2], s), 'every block removed is returned once', lambda: '%r for %r' % (puts, s), de):
        p.need_eq(puts[0].a[1], cx.cache, 'blocks return to the region\'s cache', 'cache', ev=puts[0])
        p.need(p.ev.index(de) < p.ev.index(puts[0]), 'a block is unregistered before it is returned', '', puts[0])
        p.need(puts[0].a[0] == 'slab_put', 'blocks return to the region\'s cache', puts[0].a[0], puts[0])


def rule_free(ck):
    for fn, unit in (('region_free', 'region'), ('region_destroy', 'headers')):
        cx = Ctx(ck, unit)
        I = cx.I
        r = ck.run(I, fn, [cx.R], pre=cx.pre)

        def one(p, s, evs):
            pu = [e for e in evs if e.kind == 'slab_put']
            p.need(len(pu) == 1 and p.same(pu[0].a[2], s) and p.same(pu[0].a[1], cx.cache), 'every block removed is returned once', lambda: '%r' % (pu,))
        drain(r, cx.slabs, cx.link, one, 'every block of the region is returned')
        for p in r.rets:
            p.need_eq(cx.used(p), ZERO, 'a freed region holds nothing', 'used')
            p.need_eq(cx.total(p), ZERO, 'a freed region holds nothing', 'total')
            p.need(list_known_empty(p.st, cx.slabs), 'a freed region holds nothing', 'blocks')
            callbacks(p, cx, cx.tcb, ZERO, ZERO, 'each truncation is announced once')
    # conditional
    cx = Ctx(ck)
    I = cx.I
    after = arg('after', hi=U64 - 1)

    def m_free(I, st, v, ins):
        st.event('freed', (st.n(v[0]),), I.loc(ins))
        return [(st, None)]
    I.models['region_free'] = I.models['region_destroy'] = m_free
    r = ck.run(I, 'region_free_after', [cx.R, after], pre=cx.pre)
    for p in r.rets:
        if p.evs('freed'):
            p.need_ge(cx.used0, after + 1, 'freed only above the mark', '')
        else:
            p.need_ge(after, cx.used0, 'freed above the mark', '')
    # reset: empty, blocks kept
    cx = Ctx(ck)
    I = cx.I
    r = ck.run(I, 'region_reset', [cx.R], pre=cx.pre)

    def one(p, s, evs):
        p.need_eq(sused(p, s), ZERO, 'a reset empties every block', 'used')
        p.need(not [e for e in evs if e.kind in ('release', 'list_del', 'list_add')], 'a reset keeps the blocks', '')
    drain(r, cx.slabs, cx.link, one, 'a reset empties every block')
    for p in r.rets:
        p.need_eq(cx.used(p), ZERO, 'a reset region holds nothing', 'used')
        p.need_eq(cx.total(p), cx.total0, 'a reset keeps the blocks', 'total')
    cx = Ctx(ck)
    I = cx.I
    cache = arg('cache', 'slab_cache')
    r = ck.run(I, 'region_create', [cx.R, cache])
    for p in r.rets:
        p.need_eq(cx.used(p), ZERO, 'a new region holds nothing', 'used')
        p.need_eq(cx.total(p), ZERO, 'a new region holds nothing', 'total')
        p.need(list_known_empty(p.st, cx.slabs), 'a new region holds nothing', 'blocks')
        p.need_field(cx.R, 'region', 'cache', cache, 'a region draws on the given cache')
        for f in ('on_alloc_cb', 'on_truncate_cb', 'cb_arg'):
            p.need_field(cx.R, 'region', f, ZERO, 'a new region has no callbacks')
    cx = Ctx(ck)
    a, t, x = arg('a', ptr=True), arg('t', ptr=True), arg('x', ptr=True)
    r = ck.run(cx.I, 'region_set_callbacks', [cx.R, a, t, x])
    for p in r.rets:
        for f, v in (('on_alloc_cb', a), ('on_truncate_cb', t), ('cb_arg', x)):
            p.need_field(cx.R, 'region', f, v, 'callbacks are installed as given')


def rule_join(ck):
    cx = Ctx(ck, 'region')
    I = cx.I
    size = arg('size', lo=1, hi=U64 - 1)

    def pre(I, st):
        cx.pre(I, st)
        st.facts.add_ge(cx.used0 - size)
        # there is something to join: the region has a block
        l = models.lget(I, st, cx.slabs)
        st.lists[cx.slabs] = LS((), (l.rest[0], True), ())
    r = ck.run(I, 'region_join', [cx.R, size], pre=pre)
    kinds = {}
    for p in r.rets:
        new = p.evs('alloc')
        if p.is0(p.ret):
            p.no_effects('a failed join changes nothing')
            p.need(p.evs('allocfail'), 'fails only when memory is refused', '')
            kinds['null'] = 1
            continue
        old = new_first(p, cx)
        cps = p.evs('memcpy', 'memmove')
        if not cps and not [e for e in p.ev if e.kind == 'loop']:
            kinds['same'] = 1
            s = cx.first(p)
            p.need_eq(p.ret, cx.data(s) + sused0(p, cx, s) - size, 'data already contiguous is returned in place', 'result')
            p.need_ge(sused0(p, cx, s), size, 'data already contiguous is returned in place', '')
            p.no_effects('data already contiguous is returned in place')
            continue
        kinds['copy'] = 1
        s = cx.first(p)
        judge_taken(p, cx, s, p.ret, size)
        p.need_eq(p.ret, cx.data(s) + sused0(p, cx, s), 'the joined chunk is allocated in the region', 'result')
        p.need_ge(s + ssize(p, s), p.n(p.ret) + size, 'the joined chunk stays inside its block', '')
    for k in ('null', 'same', 'copy'):
        if k not in kinds:
            ck.gone('no path of region_join is of the kind %s' % k)
    # the copies tile the chunk from its end to its start, newest block first
    n = 0
    for i in I.loop_seen:
        for p, pairs in iterations(r, i):
            cps = p.evs('memcpy', 'memmove')
            if not p.need(len(cps) == 1, 'every block is copied once', lambda: '%d copies' % len(cps)):
                continue
            n += 1
            e = cps[0]
            dst, src, cnt = (p.n(x) for x in e.a)
            cur = None
            for k, (h, b) in pairs.items():
                if k[0] == 'phi' and any(SYMS[x].ptr for x in h.syms()) and not p.same(h, b):
                    U = p.n(p.f(h, 'rslab', 'used'))
                    if p.same(src + cnt, h + cx.hdr + U):
                        cur = (k, h, b, U)
            if not p.need(cur is not None, 'a block is copied up to its end', lambda: '%r' % (src,), e):
                continue
            k, h, b, U = cur
            # a part of a block only when that completes the chunk
            whole = p.same(cnt, U)
            if not whole:
                p.need_ge(U, cnt, 'a block is copied within its data', 'length', ev=e)
            nx = [x for x in p.evs('lnext') if p.same(x.a[0], h + cx.link)]
            p.need(len(nx) == 1 and p.same(b, p.n(nx[0].a[2]) - cx.link), 'blocks are copied newest first', '', e)
            en = i.vars[k][0]
            # starts with the block that was newest before the call
            ptr = i.S0
            tile_iter(p, cx, i, pairs, dst, cnt, size, e, whole)
    r.count('blocks copied', n)
    for p in r.rets:
        if p.is0(p.ret) or not [e for e in p.ev if e.kind == 'loop']:
            continue
        tile_end(p, cx, size, r)


def new_first(p, cx):
    return cx.first(p)


def tile_iter(p, cx, i, pairs, dst, cnt, size, e, whole):
    """some variable t runs down with the copies: dst + cnt == base + t, then
    t -= cnt, and base is fixed"""
    ok = False
    for k, (h, b) in pairs.items():
        if k[0] == 'phi' and p.same(h - b, cnt):
            base = dst + cnt - h
            stable = p.I.stable(p.n(base), i.mark)
            en = i.vars[k][0]
            # what is missing of the chunk: base + variable - its start
            chunk = base + en - size
            if stable and p.ge(dst, chunk) and (whole or p.same(dst, chunk)):
                i.tile = getattr(i, 'tile', []) + [(k, base + en, base)]
                ok = True
    p.need(ok, 'each copy ends where the previous one begins', lambda: 'to %r + %r' % (dst, cnt), e)


def tile_end(p, cx, size, r):
    for e in p.ev:
        if e.kind != 'loop':
            continue
        i, vals = e.x
        for k, start, base in getattr(i, 'tile', []):
            if not p.same(start, p.n(p.ret) + size):
                continue
            left = vals.get(k)
            if not isinstance(left, Lin):
                continue
            left = p.n(base + left - p.ret)
            ev = p.ev
            cps = [x for x in ev[ev.index(e):] if x.kind in ('memcpy', 'memmove')]
            if p.is0(p.n(left)):
                p.need(not cps or p.is0(p.n(cps[0].a[2])), 'the chunk is filled exactly', '')
                return
            if not p.need(len(cps) == 1, 'the chunk is filled exactly', lambda: '%r bytes missing at its start' % (p.n(left),)):
                return
            dst, src, cnt = (p.n(x) for x in cps[0].a)
            p.need(p.same(dst, p.ret) and p.same(cnt, left), 'the chunk is filled exactly', lambda: 'to %r, %r bytes of %r' % (dst, cnt, p.n(left)), cps[0])
            # from the tail of the block the cursor stands on
            cur = [v for kk, v in vals.items() if kk[0] == 'phi' and isinstance(v, Lin) and any(SYMS[x].ptr for x in v.syms())]
            okk = False
            for v in cur:
                U = p.n(p.f(v, 'rslab', 'used'))
                if p.same(src, v + cx.hdr + U - cnt) and p.ge(U, cnt):
                    okk = True
            p.need(okk, 'the oldest bytes come from the tail of the oldest block', lambda: '%r' % (src,), cps[0])
            return
    p.need(False, 'the chunk is filled exactly', 'the copies do not start at its end')


prop('R01', 'other', 'containment, alignment and usage ledger on every path of the reserve/alloc entry points', [rule_reserve, rule_alloc, rule_typed], min_obligations=100)
prop('R02', 'other', 'truncate/free/reset loops: each iteration removes one block of data above the mark, invariant between removed and remaining bytes', [rule_truncate, rule_free], min_obligations=50)
prop('R03', 'other', 'copies of region_join tile the joined chunk (loop invariant), cursor runs newest to oldest', [rule_join], min_obligations=20)
