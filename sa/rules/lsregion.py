"""Log structured region: allocation, garbage collection, export to iovec."""
from . import prop
from ..contract import *
from .. import models, irgen

BIG = models.BIG
NOT_USED = C(-1)


class Ctx:
    def __init__(self, ck, unit='headers', mods=None):
        self.ck = ck
        self.R = R = arg('lsregion', 'lsregion')
        self.I = I = ck.interp('plain', models.ARENA, models.QUOTA, unit=unit, mods=mods)
        off = I.offsetof
        I.map_tag = 'lslab'
        self.slabs = R + off('lsregion', 'slabs.slabs')[0]
        self.link = off('lslab', 'next_in_list')[0]
        e = lambda s, p, f, ptr=False: I.entry(p + off(s, f)[0], off(s, f)[1], ptr)
        self.used0 = e('lsregion', R, 'slabs.stats.used')
        self.total0 = e('lsregion', R, 'slabs.stats.total')
        self.cached0 = e('lsregion', R, 'cached', True)
        self.id0 = e('lsregion', R, 'slab_id')
        self.arena = e('lsregion', R, 'arena', True)
        self.asize = e('slab_arena', self.arena, 'slab_size')
        self.quota = e('slab_arena', self.arena, 'quota', True)
        self.hdr = (I.structsize('lslab') + 7) // 8 * 8
        I.elem_hook = self.elem

    def elem(self, I, st, h, link):
        if h != self.slabs:
            return
        s = link - self.link
        self.sane(I, st, s)
        st.facts.add_ge(self.used0 - self.s0(I, s, 'slab_used') + self.hdr)
        st.facts.add_ge(self.total0 - self.s0(I, s, 'slab_size'))

    def s0(self, I, s, f):
        o, n = I.offsetof('lslab', f)
        return I.entry(s + o, n)

    def sane(self, I, st, s):
        z, u = self.s0(I, s, 'slab_size'), self.s0(I, s, 'slab_used')
        f = st.facts
        f.add_ge(C(BIG) - z)
        f.add_ge(z - u)
        f.add_ge(u - self.hdr)
        i = self.s0(I, s, 'slab_id')
        f.add_ge(i - 1)
        f.add_ge(self.id0 - i)
        f.add_ge(self.s0(I, s, 'max_id') + 1)

    def pre(self, I, st):
        f = st.facts
        f.add_ge(C(1 << 60) - self.used0)
        f.add_ge(C(1 << 60) - self.total0)
        f.add_ge(self.total0 - self.used0)
        f.add_ge(self.asize - (1 << 12))
        f.add_ge(C(1 << 31) - self.asize)
        f.add_ge(self.id0)
        f.add_ge(C(1 << 60) - self.id0)
        st.ghost[('pow2', next(iter(self.asize.syms())))] = True

    def cached(self, I, st):
        """the spare slab, if any, is an empty slab of the arena"""
        c = self.cached0
        z, u = self.s0(I, c, 'slab_size'), self.s0(I, c, 'slab_used')
        for a, b in ((z, self.asize), (u, C(self.hdr)), (self.s0(I, c, 'max_id'), NOT_USED)):
            st.facts.add_ge(a - b)
            st.facts.add_ge(b - a)
        st.facts.add_ge(self.id0 - self.s0(I, c, 'slab_id'))

    def last(self, p):
        l = p.st.lists.get(p.n(self.slabs))
        if l is None:
            return None
        e = l.suf[-1] if l.suf else l.pre[-1] if l.pre and l.rest is None else None
        return p.n(e) - self.link if e is not None else None

    def f(self, p, name):
        return p.n(p.f(self.R, 'lsregion', name))


def lf(p, s, f):
    return p.n(p.f(s, 'lslab', f))


def isnew(s):
    return any(SYMS[x].kind == 'obj' for x in s.syms())


def judge_reserve(p, cx, ptr, size, align, seen, un):
    """-> (slab, fill level before the call) or None"""
    new = p.evs('alloc')
    adds = p.evs('list_add', 'list_add_tail')
    dels = p.evs('list_del')
    uses, back = p.evs('quota_use'), p.evs('quota_release')
    if p.is0(ptr):
        seen.add('null')
        p.no_effects('a failed request changes nothing', [lambda a: p.same(a, un)])
        p.need(not new and not adds and not dels, 'a failed request changes nothing', 'slabs')
        p.need(len(uses) == len(back) and all(p.same(a.a[1], b.a[1]) for a, b in zip(uses, back)), 'a failed request changes nothing', 'quota')
        p.need(p.evs('allocfail', 'quota_use_fail') or p.ge(size + align, 1 << 47), 'fails only when memory is refused', '')
        return None
    s = cx.last(p)
    if not p.need(s is not None, 'memory comes from the newest slab', 'no known last slab'):
        return None
    p.need(not p.evs('release') and not dels, 'a reservation releases nothing', '')
    used = ZERO
    if adds:
        p.need(len(adds) == 1 and adds[0].kind == 'list_add_tail' and p.same(adds[0].a[1], s + cx.link), 'a slab is appended once', lambda: '%r' % adds)
        if new:
            seen.add(new[0].a[0])
            p.need(len(new) == 1 and p.same(new[0].a[1], s), 'a slab is appended once', lambda: '%r' % new)
            size_ = lf(p, s, 'slab_size')
            if new[0].a[0] == 'slab_map':
                p.need_eq(size_, cx.asize, 'a slab knows its size', 'slab_size')
                p.need_eq(new[0].a[2], cx.arena, 'slabs come from the arena of the region', 'arena')
                p.need(not uses, 'only large slabs are charged here', '')
            else:
                p.need_ge(new[0].a[2], size_, 'a slab knows its size', 'slab_size')
                p.need(len(uses) == 1 and not back and p.same(uses[0].a[0], cx.quota) and p.same(uses[0].a[1], size_), 'a large slab is charged with its size', lambda: '%r' % uses)
                p.need_ge(size_, cx.asize + 1, 'a large slab is recognisable by its size', 'slab_size')
            p.need_eq(cx.f(p, 'slabs.stats.total'), cx.total0 + size_, 'total counts the slabs held', 'total')
            p.need_eq(cx.f(p, 'cached'), cx.cached0, 'the spare slab stays', 'cached')
        else:
            seen.add('cached')
            p.need(p.same(s, cx.cached0), 'a slab is appended once', lambda: '%r' % adds)
            p.need_eq(cx.f(p, 'slabs.stats.total'), cx.total0, 'total counts the slabs held', 'total')
            p.need_eq(cx.f(p, 'cached'), ZERO, 'the spare slab is used once', 'cached')
            p.need(not uses, 'only large slabs are charged here', '')
        p.need_ge(lf(p, s, 'slab_id'), cx.id0 + 1, 'slab ids grow along the list', 'slab_id')
        p.need_eq(cx.f(p, 'slab_id'), lf(p, s, 'slab_id'), 'slab ids grow along the list', 'slab_id')
        u0 = C(cx.hdr)
    else:
        seen.add('room')
        p.need(not new and not uses, 'a slab is appended once', '')
        p.need_eq(cx.f(p, 'slabs.stats.total'), cx.total0, 'total counts the slabs held', 'total')
        p.need_eq(lf(p, s, 'slab_id'), p.n(p.f0(s, 'lslab', 'slab_id')), 'slab ids grow along the list', 'slab_id')
        u0 = p.n(p.f0(s, 'lslab', 'slab_used'))
    p.need_ge(ptr, s + u0, 'a reservation does not overlap live data', 'start')
    p.need_ge(s + u0 + align - 1, ptr, 'no more than the alignment gap is skipped', 'start')
    p.need_ge(s + lf(p, s, 'slab_size'), p.n(ptr) + size, 'a reservation stays inside its slab', 'end')
    if not align.is_const():
        p.need(p.I.aligned_to(p.st, p.n(ptr), p.n(align)), 'the requested alignment is honoured', lambda: '%r' % (p.n(ptr),))
    return s, u0


def frame(p, cx, s):
    I = p.I
    n = I.structsize('lslab')
    base = field_pred(I, cx.R, 'lsregion', 'slabs', 'cached', 'slab_id')

    def ok(a):
        d = a - s
        return d.is_const() and 0 <= d.c < n or base(a)
    p.frame(ok, 'only the newest slab and the totals change')


def rule_alloc(ck):
    size = arg('size', lo=0, hi=U64 - 1)
    ident = arg('id', lo=0, hi=(1 << 62))
    for fn in ('lsregion_reserve', 'lsregion_aligned_reserve', 'lsregion_aligned_reserve_slow', 'lsregion_alloc', 'lsregion_aligned_alloc'):
        al = 'aligned' in fn
        alloc = fn.endswith('alloc')
        unit = 'lsregion' if fn.endswith('slow') else 'headers'
        cx = Ctx(ck, unit)
        I = cx.I
        align = S(mksym('alignment', 'arg', (), 1, 1 << 30, False, key='lalign')) if al else ONE
        un = arg('unaligned', ptr=True)

        def pre(I, st):
            cx.pre(I, st)
            cx.cached(I, st)
            if al:
                st.ghost[('pow2', next(iter(align.syms())))] = True
        args = [cx.R, size] + ([align] if al else []) + ([ident] if alloc else [un] if al else [])
        r = ck.run(I, fn, args, pre=pre)
        seen = set()
        for p in r.rets:
            v = judge_reserve(p, cx, p.ret, size, align, seen, un)
            if v is None:
                continue
            s, u0 = v
            if al and not alloc:
                p.need_eq(I.rd(p.st, un, 8), s + u0, 'the start of the gap is reported', 'unaligned')
                p.st.dirty = {k: x for k, x in p.st.dirty.items() if k[0] + k[1] != un}
            if alloc:
                end = p.n(p.ret) + size - s
                p.need_eq(lf(p, s, 'slab_used'), end, 'an allocation uses the slab up to its end', 'slab_used')
                p.need_eq(cx.f(p, 'slabs.stats.used'), cx.used0 + end - u0, 'usage counts every allocated byte and gap', 'used')
                p.need_eq(lf(p, s, 'max_id'), ident, 'a slab knows the last id allocated in it', 'max_id')
            else:
                p.need_eq(lf(p, s, 'slab_used'), u0, 'a reservation is not yet an allocation', 'slab_used')
                p.need_eq(cx.f(p, 'slabs.stats.used'), cx.used0, 'a reservation is not yet an allocation', 'used')
                want = NOT_USED if p.evs('list_add_tail') else p.n(p.f0(s, 'lslab', 'max_id'))
                p.need_eq(lf(p, s, 'max_id'), want, 'a reservation is not yet an allocation', 'max_id')
            frame(p, cx, s)
        for k in ('null', 'room', 'slab_map', 'malloc', 'cached'):
            if k not in seen and not (k == 'room' and fn.endswith('_slow')):
                ck.gone('%s: no path of the kind %s' % (fn, k))


WIT = '''
#include <stddef.h>
#include <stdint.h>
#include <stdalign.h>
#include "lsregion.h"
struct wit { int64_t a; char b[15]; };
struct __attribute__((aligned(64))) wit_wide { char c[320]; };
struct wit *wit_object(struct lsregion *r, int64_t id) { return lsregion_alloc_object(r, id, struct wit); }
struct wit_wide *wit_wide_object(struct lsregion *r, int64_t id) { return lsregion_alloc_object(r, id, struct wit_wide); }
'''
_wit = {}


def rule_typed(ck):
    """objects by type"""
    if 'm' not in _wit:
        _wit['m'] = irgen.build('plain', only=['lsregion'], extra_tu={'witness': WIT})
    ident = arg('id', lo=0, hi=(1 << 62))
    for fn, sz, al in (('wit_object', 24, 8), ('wit_wide_object', 320, 64)):
        cx = Ctx(ck, 'witness', _wit['m'])
        I = cx.I

        def pre(I, st):
            cx.pre(I, st)
            cx.cached(I, st)
        r = ck.run(I, fn, [cx.R, ident], pre=pre)
        seen = set()
        for p in r.rets:
            v = judge_reserve(p, cx, p.ret, C(sz), C(al), seen, ZERO)
            if v is None:
                continue
            s, u0 = v
            p.need(I.aligned_to(p.st, p.n(p.ret), C(al)), 'objects are aligned for their type', lambda: '%r' % (p.n(p.ret),))
            p.need_eq(lf(p, s, 'slab_used'), p.n(p.ret) + sz - s, 'an allocation uses the slab up to its end', 'slab_used')
            p.need_eq(lf(p, s, 'max_id'), ident, 'a slab knows the last id allocated in it', 'max_id')
            frame(p, cx, s)
        if len(seen) < 3:
            ck.gone('%s: only paths %r' % (fn, seen))


def rule_gc(ck):
    mn = S(mksym('min_id', 'arg', (), -1, (1 << 63) - 1, False, key='gcmin'))
    for fn in ('lsregion_gc', 'lsregion_destroy'):
        cx = Ctx(ck)
        I = cx.I

        def pre(I, st):
            cx.pre(I, st)
            cx.cached(I, st)
        dest = fn == 'lsregion_destroy'
        r = ck.run(I, fn, [cx.R] + ([] if dest else [mn]), pre=pre)
        kinds = set()

        def fate(p):
            """slabs released in the iteration"""
            return [e for e in p.ev if e.kind == 'release']

        def one(p, s, evs):
            dels = [e for e in evs if e.kind == 'list_del']
            if not p.need(len(dels) == 1 and p.same(dels[0].a[0], s + cx.link), 'a collected slab is unlinked once', lambda: '%r' % dels):
                return
            M0 = fstart(p, s, 'lslab', 'max_id')
            if not dest:
                p.need_ge(mn, M0, 'only data at or below the given id is freed', 'max_id', ev=dels[0])
            rel = fate(p)
            z = fstart(p, s, 'lslab', 'slab_size')
            qr = [e for e in evs if e.kind == 'quota_release']
            ca = I.rd(p.st, cx.R + I.offsetof('lsregion', 'cached')[0], 8)
            if rel:
                kinds.add(rel[0].a[0])
                if not p.need(len(rel) == 1 and p.same(rel[0].a[1], s), 'a collected slab is released once', lambda: '%r' % rel):
                    return
                p.need(evs.index(dels[0]) < evs.index(rel[0]), 'a slab is unlinked before it is released', '', rel[0])
                p.need(not p.same(ca, s), 'a released slab is not kept as spare', '', rel[0])
                if rel[0].a[0] == 'free':
                    p.need_ge(z, cx.asize + 1, 'only large slabs go to the heap', 'slab_size', ev=rel[0])
                    p.need(len(qr) == 1 and p.same(qr[0].a[0], cx.quota) and p.same(qr[0].a[1], z), 'a large slab gives its charge back', lambda: '%r for %r' % (qr, z), rel[0])
                else:
                    p.need(rel[0].a[0] == 'slab_unmap', 'slabs return to the arena', rel[0].a[0], rel[0])
                    p.need_ge(cx.asize, z, 'only slabs of the arena return to it', 'slab_size', ev=rel[0])
                    u = [e for e in evs if e.kind == 'slab_unmap']
                    p.need(len(u) == 1 and p.same(u[0].a[0], cx.arena), 'slabs return to the arena', '', rel[0])
                    p.need(not qr, 'only large slabs are charged here', '', rel[0])
            else:
                kinds.add('keep')
                p.need(p.same(ca, s), 'a collected slab is released once', 'kept: %r, spare: %r' % (s, ca), dels[0])
                p.need_ge(cx.asize, z, 'only a slab of the arena is kept', 'slab_size', ev=dels[0])
                c0 = p.loop[1].get(cached_key(p.loop[0], cx), None)
                p.need(c0 is not None and p.is0(c0) or (c0 is None and p.is0(cx.cached0)), 'the spare slab is not lost', 'spare before: %r' % (c0,), dels[0])
                p.need_eq(lf(p, s, 'slab_used'), C(cx.hdr), 'a spare slab is empty', 'slab_used')
                p.need_eq(lf(p, s, 'max_id'), NOT_USED, 'a spare slab is empty', 'max_id')
                p.need_eq(lf(p, s, 'slab_size'), z, 'a slab knows its size', 'slab_size')
                p.need(not qr, 'only large slabs are charged here', '')

        def stop(p, s):
            return not dest and p.ge(lf(p, s, 'max_id'), mn + 1)
        drain(r, cx.slabs, cx.link, one, 'all data at or below the given id is freed, oldest first', stop=stop)
        for k in ('free', 'slab_unmap', 'keep'):
            if k not in kinds:
                ck.gone('%s: no slab is treated as %s' % (fn, k))

        def size_of(p, f):
            d = [e for e in p.ev if e.kind == 'list_del']
            return fstart(p, p.n(d[0].a[0]) - cx.link, 'lslab', f) if d else None
        if not dest:
            ledger(r, cx.R + I.offsetof('lsregion', 'slabs.stats.total')[0], 8,
                   lambda p: ZERO - size_of(p, 'slab_size') if fate(p) and size_of(p, 'slab_size') is not None else ZERO,
                   'total counts the slabs held', 'total')
            ledger(r, cx.R + I.offsetof('lsregion', 'slabs.stats.used')[0], 8,
                   lambda p: C(cx.hdr) - size_of(p, 'slab_used') if size_of(p, 'slab_used') is not None else ZERO,
                   'usage counts every allocated byte and gap', 'used')
            for p in r.rets:
                p.need_ge(cx.f(p, 'slab_id'), cx.id0, 'slab ids grow along the list', 'slab_id')
        else:
            for p in r.rets:
                ca = cx.cached0
                for e in p.evs('loop'):
                    k = cached_key(e.x[0], cx)
                    if k in e.x[1]:
                        ca = e.x[1][k]
                u = p.evs('slab_unmap')
                if p.is0(ca):
                    p.need(not u, 'the spare slab is returned on destruction', lambda: '%r' % u)
                else:
                    p.need(len(u) == 1 and p.same(u[0].a[1], ca) and p.same(u[0].a[0], cx.arena), 'the spare slab is returned on destruction', lambda: '%r, spare %r' % (u, ca))
    cx = Ctx(ck)
    r = ck.run(cx.I, 'lsregion_create', [cx.R, cx.arena])
    for p in r.rets:
        for f in ('slabs.stats.used', 'slabs.stats.total', 'cached'):
            p.need_eq(cx.f(p, f), ZERO, 'a new region holds nothing', f)
        p.need_field(cx.R, 'lsregion', 'arena', cx.arena, 'slabs come from the arena of the region')
        p.need(list_known_empty(p.st, cx.slabs), 'a new region holds nothing', 'slabs')


def cached_key(i, cx):
    a = cx.R + cx.I.offsetof('lsregion', 'cached')[0]
    for k in i.vars:
        if k[0] == 'mem' and k[1] + k[2] == a:
            return k
    return None


def rule_iovec(ck):
    cx = Ctx(ck, 'lsregion')
    I = cx.I
    iov, cp, svp = arg('iov', 'iovec'), arg('iovcnt', ptr=True), arg('svp', 'lsregion_svp')
    mx = I.entry(cp, 4)
    P = I.entry(svp + I.offsetof('lsregion_svp', 'slab_id')[0], 8)
    pos = I.entry(svp + I.offsetof('lsregion_svp', 'pos')[0], 8)

    def pre(I, st):
        cx.pre(I, st)
        f = st.facts
        f.add_ge(mx)
        f.add_ge(C(1 << 20) - mx)
        f.add_ge(P)
        f.add_ge(cx.id0 - P)
        f.add_ge(C(BIG) - pos)
    r = ck.run(I, 'lsregion_to_iovec', [cx.R, iov, cp, svp], pre=pre)
    n = dict(out=0, skip=0)
    ob, ol = I.offsetof('iovec', 'iov_base')[0], I.offsetof('iovec', 'iov_len')[0]
    counts = {}

    def one(p, s, evs):
        i, hv = p.loop
        g = lambda f: p.n(p.f(s, 'lslab', f))
        data = g('slab_used') - cx.hdr
        cells = [(a, v) for a, z, v in p.changed() if not any(SYMS[x].kind == 'obj' for x in a.syms())
                 and not p.same(a, svp + I.offsetof('lsregion_svp', 'slab_id')[0]) and not p.same(a, svp + I.offsetof('lsregion_svp', 'pos')[0])]
        if not cells:
            n['skip'] += 1
            f = p.st.facts
            # an unseen byte in the slab would be lost
            sid, mid = g('slab_id'), g('max_id')
            seen = p.same(mid, NOT_USED) or p.ge(P, sid + 1) or (p.same(sid, P) and p.same(data, pos)) \
                or (p.ge(P, sid) and p.same(data, pos))
            p.need(seen, 'only slabs without unseen data are skipped', 'slab id %r, seen up to %r' % (sid, P))
            return
        n['out'] += 1
        if not p.need(len(cells) == 2, 'unseen data of a slab is exported as one block', lambda: '%r' % [a for a, v in cells]):
            return
        a0 = p.n(cells[0][0])
        a1 = p.n(cells[1][0])
        if not p.same(a1 - a0, C(ol - ob)):
            a0, a1, cells = a1, a0, cells[::-1]
        if not p.need(p.same(a1 - a0, C(ol - ob)), 'unseen data of a slab is exported as one block', lambda: '%r %r' % (a0, a1)):
            return
        skip = pos if p.same(g('slab_id'), P) else ZERO if p.differ(g('slab_id'), P) else None
        if not p.need(skip is not None, 'data seen before is not exported again', 'not decided whether the slab was seen'):
            return
        p.need_eq(cells[0][1], s + cx.hdr + skip, 'data seen before is not exported again', 'iov_base')
        p.need_eq(cells[1][1], data - skip, 'all unseen data of a slab is exported', 'iov_len')
        p.need_eq(p.f(svp, 'lsregion_svp', 'slab_id'), g('slab_id'), 'the savepoint tells what was exported', 'slab_id')
        p.need_eq(p.f(svp, 'lsregion_svp', 'pos'), data, 'the savepoint tells what was exported', 'pos')
        # the block is the next free one of the vector
        for k, v in hv.items():
            if not isinstance(v, Lin):
                continue
            if p.same(a0 - ob - iov, v.scale(16)) and p.is0(i.vars[k][0]):
                counts.setdefault(id(i), set()).add((k, 1))
            elif p.same(a0 - ob, v) and p.same(i.vars[k][0], iov):
                counts.setdefault(id(i), set()).add((k, 16))
        p.need(counts.get(id(i)), 'blocks are exported in order without gaps', lambda: '%r' % (a0,))
        p.need_ge(mx.scale(16), a0 - ob - iov + 16, 'no more blocks are written than there is room for', '')

    def stop(p, s):
        for e in p.evs('loop'):
            i, vals = e.x
            for k, m in counts.get(id(i), ()):
                if p.ge((vals[k] - i.vars[k][0]), mx.scale(m)):
                    return True
        # only slabs which were never allocated from may be left
        return False
    drain(r, cx.slabs, cx.link, one, 'the slabs are walked up to the end or until no block is left', stop=stop)
    for k in n:
        if not n[k]:
            ck.gone('no iteration of lsregion_to_iovec is of the kind %s' % k)
    # counters move with the export, ids follow it
    tops = {}
    for i in I.loop_seen:
        for p, pairs in iterations(r, i):
            out = [a for a, z, v in p.changed() if p.same(a, svp)]
            cells = exported(p, cx, svp)
            for k, m in counts.get(id(i), ()):
                h, b = pairs.get(k, (ZERO, ZERO))
                p.need_eq(b, h + (m if cells else 0), 'blocks are exported in order without gaps', 'position in the vector')
            cand = set()
            cur = [e for e in p.evs('lnext')]
            for k, (h, b) in pairs.items():
                if not cells and p.same(h, b):
                    cand.add(k)
                elif cells and cur and p.same(b, p.n(p.f(p.n(cur[0].a[0]) - cx.link, 'lslab', 'max_id'))):
                    cand.add(k)
            tops[id(i)] = cand if id(i) not in tops else tops[id(i)] & cand
    for p in r.rets:
        ok = cnt = False
        lp = p.evs('loop')
        if not lp:
            ok = p.same(p.ret, NOT_USED)
            cnt = p.is0(I.rd(p.st, cp, 4)) or p.same(I.rd(p.st, cp, 4), ZERO, 32)
        for e in lp:
            i, vals = e.x
            for k in tops.get(id(i), ()):
                ok = ok or p.same(p.ret, vals[k]) and p.same(i.vars[k][0], NOT_USED)
            for k, m in counts.get(id(i), ()):
                c = I.rd(p.st, cp, 4)
                cnt = cnt or p.same(c.scale(m), vals[k] - i.vars[k][0], 32)
        p.need(ok, 'the last id exported is returned', lambda: '%r' % (p.ret,))
        p.need(cnt, 'the number of blocks is reported', lambda: '%r' % (I.rd(p.st, cp, 4),))


def exported(p, cx, svp):
    I = p.I
    return [a for a, z, v in p.changed() if not any(SYMS[x].kind == 'obj' for x in a.syms())
            and not p.same(a, svp + I.offsetof('lsregion_svp', 'slab_id')[0]) and not p.same(a, svp + I.offsetof('lsregion_svp', 'pos')[0])]


prop('G01', 'other', 'containment, alignment and ledger on every path of the lsregion allocation entry points (arena, quota, heap replaced by contracts)', [rule_alloc, rule_typed], min_obligations=100)
prop('G02', 'other', 'collection loop: each iteration judged (unlink, release by kind, spare slab), ledger of used/total through the loop, stop condition', [rule_gc], min_obligations=30)
prop('G03', 'other', 'export loop: each iteration emits exactly the unseen part of a slab or skips a slab without unseen data; counters tied to emissions', [rule_iovec], min_obligations=20)
