"""matras: identifiers translate to one stable address; copy-on-write keeps
read views apart from the head; every extent is freed exactly once."""
from . import prop
from ..contract import *
from .. import models


def geometries(ck, few=False):
    """(log2 of the extent size, log2 of the block size)"""
    quick = [(4, 0), (4, 4), (5, 2), (9, 3), (14, 4), (14, 0), (19, 0), (20, 3), (24, 16)]
    if few:
        quick = [(4, 4), (5, 2), (14, 4), (20, 3)]
    if ck.tier != 'thorough':
        return quick
    if few:
        return quick + [(4, 0), (9, 3), (14, 0), (19, 0), (24, 16)]
    return [(e, b) for e in range(4, 31) for b in range(0, e + 1)]


class Ctx:
    def __init__(self, ck, geo=None):
        self.ck = ck
        self.M = M = arg('m', 'matras')
        self.I = I = ck.interp('plain', unit='matras')
        I.unroll_open = True
        I.copies = True
        off = I.offsetof
        e = lambda f, ptr=False: I.entry(M + off('matras', f)[0], off('matras', f)[1], ptr)
        self.count0 = e('head.block_count')
        self.root0 = e('head.root', True)
        self.prev = e('head.prev_view', True)
        self.al, self.stats = e('allocator', True), e('stats', True)
        self.geo = geo
        if geo:
            le, lb = geo
            self.le, self.lb = le, lb
            self.cap = 1 << min(32, 3 * le - lb - 6)
            self.sh1, self.sh2 = min(31, 2 * le - lb - 3), le - lb
        I.models['matras_allocator_alloc'] = self.m_alloc
        I.models['matras_allocator_free'] = self.m_free
        vo = lambda f: off('matras_view', f)
        self.vroot, self.vcount = vo('root'), vo('block_count')
        self.pcount = I.entry(self.prev + self.vcount[0], self.vcount[1])
        self.proot = I.entry(self.prev + self.vroot[0], self.vroot[1], True)

    def extents_are_there(self, I, st, id):
        """the extents leading to a block that exists are not NULL"""
        s0 = st.copy()
        for root, cnt in ((self.root0, self.count0), (self.proot, self.pcount)):
            if not s0.facts.ge0(s0.n(cnt) - s0.n(id) - 1):
                continue
            for x in self.chain(s0, root, id)[:3]:
                st.facts.add_ge(x - 4096)

    def pre(self, I, st):
        M, off = self.M, I.offsetof
        e = lambda f: I.entry(M + off('matras', f)[0], off('matras', f)[1])
        for f, v in (('block_size', 1 << self.lb), ('extent_size', 1 << self.le), ('capacity', self.cap),
                     ('shift1', self.sh1), ('shift2', self.sh2),
                     ('mask1', (1 << self.sh1) - 1), ('mask2', (1 << self.sh2) - 1)):
            I.learn_eq(st, e(f) - v)
        st.facts.add_ge(C(self.cap) - self.count0)
        st.facts.add_ge(self.al - 4096)
        st.facts.add_ge(self.stats - 4096)
        st.facts.add_ge(C(self.cap) - self.pcount)

    def m_alloc(self, I, st, v, ins):
        s2 = st.copy()
        s2.event('allocfail', ('extent', s2.n(v[0])), I.loc(ins))
        models.note(s2, I, ins, 'no extent available')
        x = models.newobj(I, st, 'extent')
        st.event('alloc', ('extent', x, st.n(v[0])), I.loc(ins))
        return [(st, x), (s2, ZERO)]

    def m_free(self, I, st, v, ins):
        x = st.n(v[1])
        st.event('release', ('extent', x, st.n(v[0])), I.loc(ins))
        st.objs[x] = 'released'
        return [(st, None)]

    # ---- address of a block, level by level
    def slots(self, st, id):
        I = self.I
        id = st.n(id)
        n1 = I.udiv(st, id, C(1 << self.sh1), 32, 'lshr', C(self.sh1))
        n2 = I.udiv(st, I.urem(st, id, C(1 << self.sh1), 32, lowmask=True), C(1 << self.sh2), 32, 'lshr', C(self.sh2))
        n3 = I.urem(st, id, C(1 << self.sh2), 32, lowmask=True)
        return n1, n2, n3

    def below(self, st, id):
        """block index inside its second-level extent"""
        I, id = self.I, st.n(id)
        b = I.urem(st, id, C(1 << self.sh1), 32, lowmask=True)
        # id >= id mod 2^sh1 >= id mod 2^sh2
        n3 = I.urem(st, id, C(1 << self.sh2), 32, lowmask=True)
        for f in (b - n3, id - b):
            if not f.is_const():
                st.facts.add_ge(f)
        return st.n(b)

    def chain(self, st, root, id):
        """-> (root, second level, third level, address of the block)"""
        I = self.I
        n1, n2, n3 = self.slots(st, id)
        root = st.n(root)
        e2 = st.n(I.rd(st, root + n1.scale(8), 8, True))
        e3 = st.n(I.rd(st, e2 + n2.scale(8), 8, True))
        return root, e2, e3, e3 + n3.scale(1 << self.lb)

    def root(self, p):
        return p.n(p.f(self.M, 'matras', 'head.root'))

    def count(self, p):
        return p.n(p.f(self.M, 'matras', 'head.block_count'))

    def ext(self, p):
        return p.n(p.f(self.M, 'matras', 'extent_count'))

    def stat(self, p, f):
        return p.n(p.f(self.stats, 'matras_stats', f))

    def ledger(self, p, rule='extents are counted'):
        """extent counters follow allocations and releases"""
        d = C(len(p.evs('alloc')) - len(p.evs('release')))
        p.need_eq(self.ext(p), p.f0(self.M, 'matras', 'extent_count') + d, rule, 'extent_count', 32)
        p.need_eq(self.stat(p, 'extent_count'), p.f0(self.stats, 'matras_stats', 'extent_count') + d, rule, 'stats', 32)
        for e in p.evs('alloc', 'release'):
            p.need_eq(e.a[2], self.al, 'extents come from the given allocator', 'allocator', ev=e)

    def bookkeeping(self):
        return (field_pred(self.I, self.M, 'matras', 'extent_count'),
                field_pred(self.I, self.stats, 'matras_stats', 'extent_count', 'read_view_extent_count'))


def inside(p, cx, n1, n2, n3):
    """indexes stay inside their extents"""
    top = (1 << cx.le) // 8
    p.need_ge(C(top - 1), n1, 'indexes stay inside the extents', 'first level')
    p.need_ge(C(top - 1), n2, 'indexes stay inside the extents', 'second level')
    p.need_ge(C((1 << (cx.le - cx.lb)) - 1), n3, 'indexes stay inside the extents', 'block')


def decided(p, f):
    """True/False/None: f == 0"""
    f = p.n(f)
    if p.is0(f):
        return True
    if p.differ(f, ZERO):
        return False
    return None


def nouaf(p):
    p.need(not p.evs('uaf'), 'a freed extent is not touched', lambda: '%r' % p.evs('uaf')[:1])


def rule_alloc(ck):
    rid = arg('result_id', ptr=True)
    def one(ck, geo):
        per = geo[0] - geo[1]
        for fn, lr in [('matras_alloc', 0)] + [('matras_alloc_range', k) for k in sorted({1, per // 2, per}) if 0 < k <= per]:
            cx = Ctx(ck, geo)
            I = cx.I
            if lr:
                k = arg('k', hi=1 << 32)
            def pre(I, st):
                cx.pre(I, st)
                if lr:
                    I.learn_eq(st, cx.count0 - k.scale(1 << lr))
            r = ck.run(I, fn, [cx.M, rid] + ([C(1 << lr)] if lr else []), pre=pre)
            kinds = set()
            for p in r.rets:
                nouaf(p)
                cx.ledger(p)
                new, rel = p.evs('alloc'), p.evs('release')
                if p.is0(p.ret):
                    p.need_eq(cx.count(p), cx.count0, 'a refused block changes nothing', 'block_count')
                    full = p.ge(cx.count0 + (1 << lr), cx.cap + 1)
                    p.need(p.evs('allocfail') or full, 'refused only without memory or identifiers', '')
                    p.need(sorted(map(repr, (p.n(e.a[1]) for e in new))) == sorted(map(repr, (p.n(e.a[1]) for e in rel))), 'a refused block leaves no extent behind', lambda: '%r %r' % (new, rel))
                    kinds.add('full' if full else 'null')
                    # only the slots behind the last block may have been written
                    n1, n2, n3 = cx.slots(p.st, cx.count0)
                else:
                    p.need_ge(C(cx.cap), cx.count0 + (1 << lr), 'never more blocks than identifiers', 'block_count')
                    p.need(not rel, 'a granted block frees nothing', '')
                    p.need_eq(cx.count(p), cx.count0 + (1 << lr), 'each block granted is counted', 'block_count')
                    p.need_eq(I.rd(p.st, rid, 4), cx.count0, 'identifiers are consecutive', 'id', 32)
                    g = ck_get(cx, p.st, cx.M, cx.count0, p)
                    p.need_eq(p.ret, g, 'the identifier translates to the block granted', 'address')
                    kinds.add(len(new))
                    n1, n2, n3 = cx.slots(p.st, cx.count0)
                    inside(p, cx, n1, n2, n3)
                    root, e2, e3, addr = cx.chain(p.st, cx.root(p), cx.count0)
                    p.need_eq(p.ret, addr, 'the identifier translates to the block granted', 'address')
                    have = [x for x in (root, e2, e3)]
                    for e in new:
                        p.need(len([1 for x in have if p.same(x, e.a[1])]) == 1, 'each new extent has its place', lambda: '%r' % e, e)
                    low = cx.below(p.st, cx.count0)
                    z = [decided(p, cx.count0), decided(p, low), decided(p, n3)]
                    want = [any(p.same(x, e.a[1]) for e in new) for x in have]
                    for w, zz, nm in zip(want, z, ('root', 'second level', 'third level')):
                        p.need(zz is w or (zz is None and not w and False), 'an extent is added exactly when the previous ones are full', lambda: '%s: added %s, first block there: %s' % (nm, w, zz))
                # other identifiers keep their addresses
                slots_ok = []
                rt = cx.root(p)
                low = cx.below(p.st, cx.count0)
                fe = decided(p, cx.count0)
                f2 = decided(p, low)
                f3 = decided(p, n3)

                def ok(a):
                    if any(x(a) for x in cx.bookkeeping()) or p.same(a, rid):
                        return True
                    if field_pred(I, cx.M, 'matras', 'head.block_count')(a):
                        return True
                    if field_pred(I, cx.M, 'matras', 'head.root')(a):
                        return fe is True
                    if p.same(a, rt + n1.scale(8)):
                        return f2 is True
                    if p.same(a, p.n(I.rd(p.st, rt + n1.scale(8), 8, True)) + n2.scale(8)):
                        return f3 is True
                    return False
                p.frame(ok, 'other blocks keep their addresses')
            for x in ('full', 'null', 0, 1, 2, 3):
                if x == 0 and lr == per or x == 1 and cx.sh1 == cx.sh2:
                    continue
                if x not in kinds:
                    ck.gone('%s: no path of the kind %r for extents of 2^%d, blocks of 2^%d' % ((fn, x) + geo))
    ck.par(geometries(ck), one)


def ck_get(cx, st, m, id, p):
    """what matras_get returns for id in the state st"""
    fn = cx.I.find('matras_get', 'headers')
    ps = [q for q in cx.I.call_entry('matras_get', [m, st.n(id)], st.copy(), 'matras') if q.kind == 'ret']
    vals = []
    for q in ps:
        v = q.st.n(q.ret)
        if not any(p.same(v, x) for x in vals):
            vals.append(v)
    return vals[0] if len(vals) == 1 else None


def rule_create(ck):
    for le, lb in (geometries(ck) if ck.tier == 'thorough' else [(e, b) for e in range(4, 31) for b in {0, 1, e // 2, e - 1, e}]):
        cx = Ctx(ck)
        I = cx.I
        al, stats = arg('allocator', 'matras_allocator'), arg('stats', 'matras_stats', 0)

        def pre(I, st):
            o, n = I.offsetof('matras_allocator', 'extent_size')
            I.learn_eq(st, I.entry(al + o, n) - (1 << le))
        r = ck.run(I, 'matras_create', [cx.M, C(1 << lb), al, stats], pre=pre)
        # blocks addressable through two levels of pointers
        room = (1 << (le - 3)) ** 2 * (1 << (le - lb))
        for p in r.rets:
            g = lambda f: p.n(p.f(cx.M, 'matras', f))
            for f, v in (('head.block_count', 0), ('head.prev_view', 0), ('head.next_view', 0), ('extent_count', 0),
                         ('block_size', 1 << lb), ('extent_size', 1 << le), ('capacity', min(1 << 32, room))):
                p.need_eq(g(f), C(v), 'a new instance is empty and sized by its extents', f)
            p.need_eq(g('allocator'), al, 'extents come from the given allocator', 'allocator')
            p.need(p.same(g('stats'), stats) or p.is0(stats), 'extents are counted', 'stats')
            s1, s2, m1, m2 = (g(f) for f in ('shift1', 'shift2', 'mask1', 'mask2'))
            if not p.need(all(x.is_const() for x in (s1, s2, m1, m2)), 'levels split the identifier', ''):
                continue
            s1, s2, m1, m2 = s1.c, s2.c, m1.c, m2.c
            w = 'extent 2^%d, block 2^%d: shifts %d %d' % (le, lb, s1, s2)
            p.need(0 <= s2 <= s1 < 32, 'shifts stay below the width of an identifier', w)
            p.need(m1 == (1 << s1) - 1 and m2 == (1 << s2) - 1, 'masks select what the shifts drop', w)
            p.need(s2 == le - lb, 'a third-level extent is filled with blocks', w)
            p.need(s1 - s2 <= le - 3, 'indexes stay inside the extents', w)
            p.need(((min(1 << 32, room) - 1) >> s1) < (1 << (le - 3)), 'indexes stay inside the extents', w)
        for geo in [(le, lb)]:
            cx = Ctx(ck, geo)
            p = r.rets[0]
            g = lambda f: p.n(p.f(cx.M, 'matras', f))
            p.need(g('shift1') == C(cx.sh1) and g('shift2') == C(cx.sh2), 'levels split the identifier', 'differs from the geometry analysed')


def covered(p, cx, id):
    """does the previous view own the extent of block id?  True/False/None"""
    if p.is0(cx.prev) or p.is0(cx.pcount):
        return False
    f = p.st.facts
    I = cx.I
    d = C(1 << cx.sh2)
    a = I.udiv(p.st, p.n(id), d, 32, 'lshr', C(cx.sh2))
    b = I.udiv(p.st, p.n(cx.pcount - 1), d, 32, 'lshr', C(cx.sh2))
    if p.ge(a, b + 1):
        return False
    if p.ge(b, a) and p.ge(cx.pcount, 1) and p.ge(cx.prev, 1):
        return True
    return None


def viewside(p, cx, id):
    """extents of the previous view on the way to block id, on entry"""
    st = p.st.copy()
    st.mem, st.dirty = {}, {}
    st.ghost = {}
    return cx.chain(st, cx.proot, id)


def judge_touch(p, cx, id, failed):
    """copies made on a path: each new extent is a whole copy of the one it
    replaces, installed in its place and nowhere else"""
    I = cx.I
    new = p.evs('alloc')
    st0 = p.st.copy()
    st0.mem, st0.dirty, st0.ghost = {}, {}, {}
    r0, a2, a3, adr0 = cx.chain(st0, cx.root0, id)
    r1, b2, b3, adr1 = cx.chain(p.st, cx.root(p), id)
    n1, n2, n3 = cx.slots(p.st, id)
    cps = p.evs('memcpy')
    left = list(new)
    for old, now, nm in ((r0, r1, 'root'), (a2, b2, 'second level'), (a3, b3, 'third level')):
        if p.same(old, now):
            continue
        mine = [e for e in new if p.same(e.a[1], now)]
        if not p.need(len(mine) == 1, 'a changed extent is a copy of the old one', lambda: '%s: %r, was %r' % (nm, now, old)):
            continue
        left = [e for e in left if e is not mine[0]]
        c = [e for e in cps if p.same(e.a[0], now)]
        p.need(len(c) == 1 and p.same(c[0].a[1], old) and p.same(c[0].a[2], C(1 << cx.le)), 'a changed extent is a copy of the old one', lambda: '%s: %r of %r' % (nm, c, old), mine[0])
    p.need(not left, 'each copy is installed in its place', lambda: '%r' % left)
    p.need(not [e for e in cps if not any(p.same(e.a[0], x.a[1]) for x in new)], 'a changed extent is a copy of the old one', 'copy elsewhere')
    return (r0, a2, a3), (r1, b2, b3), adr1


def touch_frame(p, cx, id, chains, rule='only private slots of the head change'):
    """slots written belong to extents the view does not share"""
    I = cx.I
    (r0, a2, a3), (r1, b2, b3), adr = chains
    n1, n2, n3 = cx.slots(p.st, id)
    v1, v2, v3, _ = viewside(p, cx, id)

    def private(now, view):
        return any(p.same(now, e.a[1]) for e in p.evs('alloc')) or p.differ(now, view)

    def ok(a):
        if any(x(a) for x in cx.bookkeeping()) or field_pred(I, cx.M, 'matras', 'head.root')(a):
            return True
        if p.same(a, r1 + n1.scale(8)):
            return private(r1, v1)
        if p.same(a, b2 + n2.scale(8)):
            return private(b2, v2)
        return False
    p.frame(ok, rule)


def rule_touch(ck):
    id = arg('id', hi=(1 << 32) - 1, bits=32)
    def one(ck, geo):
        for fn in ('matras_touch', 'matras_touch_no_check'):
            cx = Ctx(ck, geo)
            I = cx.I

            def pre(I, st):
                cx.pre(I, st)
                st.facts.add_ge(cx.count0 - id - 1)
                st.facts.add_ge(C(cx.cap - 1) - id)
                cx.extents_are_there(I, st, id)
                if fn == 'matras_touch_no_check':
                    st.facts.add_ge(cx.prev - 4096)
                    st.facts.add_ge(cx.pcount - 1)
                    d = C(1 << cx.sh2)
                    st.facts.add_ge(I.udiv(st, cx.pcount - 1, d, 32, 'lshr', C(cx.sh2)) - I.udiv(st, id, d, 32, 'lshr', C(cx.sh2)))
            r = ck.run(I, fn, [cx.M, id], pre=pre)
            kinds = set()
            for p in r.rets:
                nouaf(p)
                cx.ledger(p)
                p.need(not p.evs('release'), 'a touch frees nothing', '')
                new = p.evs('alloc')
                p.need_eq(cx.count(p), cx.count0, 'a touch adds no block', 'block_count')
                p.need_eq(cx.stat(p, 'read_view_extent_count'), p.f0(cx.stats, 'matras_stats', 'read_view_extent_count') + len(new), 'extents are counted', 'read view extents', 32)
                if fn == 'matras_touch' and len(p.ev) == 0 and not p.is0(p.ret) and not p.changed():
                    c = covered(p, cx, id)
                    if c is False:
                        p.need_eq(p.ret, cx.chain(p.st, cx.root(p), id)[3], 'the address returned is that of the block', 'result')
                        kinds.add('skip')
                        continue
                p.need(covered(p, cx, id) is True, 'copies are made only of what the view owns', 'covered: %r' % (covered(p, cx, id),))
                ch = judge_touch(p, cx, id, p.is0(p.ret))
                touch_frame(p, cx, id, ch)
                if p.is0(p.ret):
                    p.need(p.evs('allocfail'), 'a touch fails only without memory', '')
                    kinds.add('null')
                    continue
                (r0, a2, a3), (r1, b2, b3), adr = ch
                p.need_eq(p.ret, adr, 'the address returned is that of the block', 'result')
                p.need_eq(p.ret, ck_get(cx, p.st, cx.M, id, p), 'the address returned is that of the block', 'matras_get')
                v = viewside(p, cx, id)
                for now, view, nm in zip((r1, b2, b3), v, ('root', 'second level', 'third level')):
                    p.need(any(p.same(now, e.a[1]) for e in new) or p.differ(now, view), 'a touched block is private to the head', lambda: '%s: %r' % (nm, now))
                rooted = any(p.same(r1, e.a[1]) for e in new)
                p.need(len(new) <= 2 + (1 if rooted else 0), 'a touch takes no more than was reserved', lambda: '%d' % len(new))
                kinds.add(len(new))
            for x in ('null', 0, 1, 2, 3) + (('skip',) if fn == 'matras_touch' else ()):
                if x not in kinds:
                    ck.gone('%s: no path of the kind %r for extents of 2^%d, blocks of 2^%d' % ((fn, x) + geo))
    ck.par(geometries(ck), one)


def rule_dealloc(ck):
    def one(ck, geo):
        per = geo[0] - geo[1]
        for fn, lr in [('matras_dealloc', 0)] + [('matras_dealloc_range', k) for k in sorted({1, per // 2, per}) if 0 < k <= per]:
            cx = Ctx(ck, geo)
            I = cx.I
            k = arg('k', hi=1 << 32)

            def pre(I, st):
                cx.pre(I, st)
                if lr:
                    I.learn_eq(st, cx.count0 - k.scale(1 << lr))
                st.facts.add_ge(st.n(cx.count0) - (1 << lr))
                cx.extents_are_there(I, st, st.n(cx.count0) - (1 << lr))
            r = ck.run(I, fn, [cx.M] + ([C(1 << lr)] if lr else []), pre=pre)
            kinds = set()
            for p in r.rets:
                nouaf(p)
                cx.ledger(p)
                id = p.n(cx.count0 - (1 << lr))
                p.need_eq(cx.count(p), id, 'a block given back is not counted', 'block_count')
                new, rel = p.evs('alloc'), p.evs('release')
                c = covered(p, cx, id)
                p.need(c is not None, 'sharing with the view is determined', '')
                if p.evs('allocfail'):
                    # recorded finding: the copy fails, the block is dropped all the same
                    ok = True
                    v = viewside(p, cx, id)
                    now = cx.chain(p.st, cx.root(p), id)[:3]
                    for e in rel:
                        for a, b in zip(now, v):
                            if p.same(e.a[1], a) and not any(p.same(a, x.a[1]) for x in new) and not p.differ(a, b):
                                ok = False
                    p.need(ok, 'dealloc-touch-failure', 'an extent of the read view is freed when it cannot be copied')
                    continue
                ch = judge_touch(p, cx, id, False)
                (r0, a2, a3), now, adr = ch
                v = viewside(p, cx, id)
                n1, n2, n3 = cx.slots(p.st, id)
                low = cx.below(p.st, id)
                first = (decided(p, id), decided(p, low), decided(p, n3))
                free = []
                for x, vv, f, nm in zip(now, v, first, ('root', 'second level', 'third level')):
                    mine = [e for e in rel if p.same(e.a[1], x)]
                    want = f is True
                    free.append(want)
                    p.need(len(mine) == (1 if want else 0) and (f is not None), 'an extent is freed exactly with its first block', lambda: '%s: %r, first block there: %s' % (nm, rel, f))
                    if c is not False:
                        p.need(any(p.same(x, e.a[1]) for e in new) or p.differ(x, vv), 'nothing the view uses is freed or reused', lambda: '%s: %r' % (nm, x))
                p.need(len(rel) == len([1 for f in free if f]), 'an extent is freed exactly with its first block', lambda: '%r' % rel)
                kinds.add(len(rel))
                okb = field_pred(I, cx.M, 'matras', 'head.block_count')

                def ok(a):
                    if okb(a) or any(x(a) for x in cx.bookkeeping()) or field_pred(I, cx.M, 'matras', 'head.root')(a):
                        return True
                    return any(p.same(a, q) and (any(p.same(x, e.a[1]) for e in new) or p.differ(x, vv))
                               for q, x, vv in ((now[0] + n1.scale(8), now[0], v[0]), (now[1] + n2.scale(8), now[1], v[1])))
                p.frame(ok, 'only private slots of the head change')
            for x in (0, 1, 2, 3):
                if x == 0 and lr == per or x == 1 and cx.sh1 == cx.sh2:
                    continue
                if x not in kinds:
                    ck.gone('%s: no path of the kind %r for extents of 2^%d, blocks of 2^%d' % ((fn, x) + geo))
    ck.par(geometries(ck), one)


def rule_reserve(ck):
    """enough extents are put aside for the touches announced"""
    count = arg('count', hi=(1 << 30) - 1, bits=32)
    cx = Ctx(ck, (14, 4))
    I = cx.I

    def m_reserve(I, st, v, ins):
        s2 = st.copy()
        st.event('reserve', (st.n(v[0]), st.n(v[1]), True), I.loc(ins))
        s2.event('reserve', (s2.n(v[0]), s2.n(v[1]), False), I.loc(ins))
        return [(st, ZERO), (s2, C(-1))]
    I.models['matras_allocator_reserve'] = m_reserve
    r = ck.run(I, 'matras_touch_reserve', [cx.M, count], pre=cx.pre)
    n = 0
    for p in r.rets:
        p.no_effects('reserving touches nothing else')
        rs = p.evs('reserve')
        if not rs:
            p.need(p.is0(p.ret), 'nothing to reserve is a success', '')
            p.need(p.is0(count) or p.is0(cx.prev) or p.is0(cx.pcount), 'extents for every copy are reserved', 'none reserved')
            continue
        n += 1
        e = rs[0]
        p.need(len(rs) == 1 and p.same(e.a[0], cx.al), 'extents come from the given allocator', '')
        shared = not p.differ(cx.root0, cx.proot)
        p.need_ge(e.a[1], count.scale(2) + (1 if shared else 0), 'extents for every copy are reserved', 'reserved')
        p.need(p.is0(p.ret) if e.a[2] else p.differ(p.ret, ZERO), 'a failed reservation is reported', 'result')
    r.count('reservations', n, 2)


class Al:
    def __init__(self, ck):
        self.A = arg('allocator', 'matras_allocator')
        self.I = I = ck.interp('plain', unit='matras')
        off = I.offsetof
        e = lambda f, ptr=False: I.entry(self.A + off('matras_allocator', f)[0], off('matras_allocator', f)[1], ptr)
        self.list0, self.num0 = e('reserved_extents', True), e('num_reserved_extents')
        self.fa, self.ff = e('alloc_func', True), e('free_func', True)
        I.ptr_models = self.call
        I.on_load.append(self.counted)

    def counted(self, I, st, addr, size, ins):
        """the count is that of the list: with a positive count there is a
        first extent (both as they were at the start or at a loop header)"""
        off = I.offsetof
        o, sz = off('matras_allocator', 'reserved_extents')
        if st.n(addr) != st.n(self.A + o):
            return
        s2 = st.copy()
        h = s2.n(I.rd(s2, self.A + o, sz, True))
        o, sz = off('matras_allocator', 'num_reserved_extents')
        n = s2.n(I.rd(s2, self.A + o, sz))
        kind = lambda f: len(f.t) == 1 and f.c == 0 and len(f.t[0][0]) == 1 and SYMS[f.t[0][0][0]].kind
        if kind(h) and kind(h) == kind(n) and kind(h) in (kind(self.list0), 'hdr') and s2.facts.ge0(I.s(s2, n, 32) - 1):
            st.facts.add_ge(h - 4096)

    def call(self, I, st, target, v, ins):
        t = st.n(target)
        if t == st.n(self.fa):
            s2 = st.copy()
            s2.event('allocfail', ('extent', s2.n(v[0])), I.loc(ins))
            models.note(s2, I, ins, 'no extent available')
            x = models.newobj(I, st, 'extent')
            st.event('alloc', ('extent', x, st.n(v[0])), I.loc(ins))
            return [(st, x), (s2, ZERO)]
        if t == st.n(self.ff):
            st.event('release', ('extent', st.n(v[1]), st.n(v[0])), I.loc(ins))
            st.objs[st.n(v[1])] = 'released'
            return [(st, ZERO)]
        st.event('callback', (t, tuple(v)), I.loc(ins))
        return [(st, ZERO)]

    def pre(self, I, st):
        st.facts.add_ge(self.num0)
        # a positive number of reserved extents: there is a first one
        st.facts.add_ge(self.list0 - 4096)

    def list(self, p):
        return p.n(p.f(self.A, 'matras_allocator', 'reserved_extents'))

    def num(self, p):
        return p.n(p.f(self.A, 'matras_allocator', 'num_reserved_extents'))


def at(p, cx, f, start=True):
    return fstart(p, cx.A, 'matras_allocator', f)


def rule_allocator(ck):
    cx = Al(ck)
    I = cx.I
    r = ck.run(I, 'matras_allocator_alloc', [cx.A], pre=cx.pre)
    kinds = set()
    for p in r.rets:
        new = p.evs('alloc')
        p.need(not p.evs('release', 'callback'), 'a request frees nothing', '')
        if p.same(p.ret, cx.list0):
            kinds.add('reserved')
            p.need_ge(cx.num0, 1, 'a reserved extent is there', '')
            p.need_eq(cx.list(p), p.n(I.entry(cx.list0, 8)), 'a reserved extent is handed out once', 'list')
            p.need_eq(cx.num(p), cx.num0 - 1, 'reserved extents are counted', 'num', 32)
            p.need(not new and not p.evs('allocfail'), 'reserved extents are used first', '')
        else:
            kinds.add('fresh')
            p.need(p.is0(cx.num0), 'reserved extents are used first', '')
            p.no_effects('a request passes to the outer allocator')
            p.need(p.evs('allocfail') and p.is0(p.ret) or len(new) == 1 and p.same(p.ret, new[0].a[1]), 'a request passes to the outer allocator', '')
    if len(kinds) != 2:
        ck.gone('matras_allocator_alloc: %r' % kinds)
    cx = Al(ck)
    ext = arg('ext', ptr=True)
    r = ck.run(cx.I, 'matras_allocator_free', [cx.A, ext], pre=cx.pre)
    for p in r.rets:
        rel = p.evs('release')
        p.need(len(rel) == 1 and p.same(rel[0].a[1], ext) and p.same(rel[0].a[2], cx.A), 'an extent is returned once', lambda: '%r' % rel)
        p.no_effects('an extent is returned once')
    # reserve: every extent obtained is put on the list, up to the request
    cx = Al(ck)
    I = cx.I
    count = arg('count', hi=(1 << 31) - 1, bits=32)
    r = ck.run(I, 'matras_allocator_reserve', [cx.A, count], pre=cx.pre)
    n = 0
    for i in I.loop_seen:
        for p, pairs in iterations(r, i):
            new = p.evs('alloc')
            if not p.need(len(new) == 1 and not p.evs('release'), 'each step reserves one extent', lambda: '%r' % p.ev):
                continue
            n += 1
            x = new[0].a[1]
            p.need_eq(cx.list(p), x, 'each extent obtained is kept', 'list')
            p.need_eq(I.rd(p.st, x, 8), at(p, cx, 'reserved_extents'), 'each extent obtained is kept', 'link')
            p.need_eq(cx.num(p), at(p, cx, 'num_reserved_extents') + 1, 'reserved extents are counted', 'num', 32)
    r.count('reserved', n)
    for p in r.rets:
        ok = p.is0(p.ret)
        p.need(ok or p.evs('allocfail'), 'a reservation fails only without memory', '')
        # the list is left as the steps made it
        last = [e.x for e in p.ev if e.kind == 'loop']
        cells = last[-1][1] if last else {}
        for f, g in (('reserved_extents', cx.list(p)), ('num_reserved_extents', cx.num(p))):
            o, sz = I.offsetof('matras_allocator', f)
            was = [v for k, v in cells.items() if k[0] == 'mem' and k[3] == sz and p.same(k[1] + k[2], cx.A + o)]
            p.need_eq(g, was[0] if was else I.entry(cx.A + o, sz, sz == 8), 'each extent obtained is kept', 'at the end: ' + f, sz * 8)
        if ok:
            p.need_ge(I.s(p.st, cx.num(p), 32), count, 'a reservation is complete', 'num')
    # destroy: every reserved extent returned
    cx = Al(ck)
    I = cx.I
    r = ck.run(I, 'matras_allocator_destroy', [cx.A], pre=cx.pre)
    n = 0
    for i in I.loop_seen:
        for p, pairs in iterations(r, i):
            rel = p.evs('release')
            h = at(p, cx, 'reserved_extents')
            if not p.need(len(rel) == 1 and p.same(rel[0].a[1], h) and p.same(rel[0].a[2], cx.A), 'reserved extents are returned one by one', lambda: '%r, first is %r' % (rel, h)):
                continue
            n += 1
            p.need(not p.evs('uaf'), 'a freed extent is not touched', '')
            p.need_eq(cx.list(p), I.entry(h, 8), 'reserved extents are returned one by one', 'list')
            p.need_eq(cx.num(p), at(p, cx, 'num_reserved_extents') - 1, 'reserved extents are counted', 'num', 32)
    r.count('returned', n)
    for p in r.rets:
        p.need_ge(ZERO, I.s(p.st, cx.num(p), 32), 'no reserved extent stays behind', 'num')
    cx = Al(ck)
    size, fa, ff = arg('extent_size'), arg('alloc', ptr=True), arg('free', ptr=True)
    r = ck.run(cx.I, 'matras_allocator_create', [cx.A, size, fa, ff])
    for p in r.rets:
        for f, v in (('extent_size', size), ('alloc_func', fa), ('free_func', ff), ('reserved_extents', ZERO), ('num_reserved_extents', ZERO)):
            p.need_field(cx.A, 'matras_allocator', f, v, 'a new allocator has nothing reserved')


class At:
    """a state in the middle of a run"""

    def __init__(self, I, st):
        self.I, self.st, self.n = I, st, st.n

    def same(self, a, b):
        return self.I.same(self.st, a, b)


class View(Ctx):
    """destruction of the view v between next and prev"""

    def __init__(self, ck, geo):
        super().__init__(ck, geo)
        I = self.I
        I.unroll_open = False
        self.v = arg('v', 'matras_view')
        e = lambda b, f, ptr=False: I.entry(b + I.offsetof('matras_view', f)[0], I.offsetof('matras_view', f)[1], ptr)
        self.vroot0, self.vcount0 = e(self.v, 'root', True), e(self.v, 'block_count')
        self.next, self.vprev = e(self.v, 'next_view', True), e(self.v, 'prev_view', True)
        self.nroot, self.ncount = e(self.next, 'root', True), e(self.next, 'block_count')
        self.qroot, self.qcount = e(self.vprev, 'root', True), e(self.vprev, 'block_count')

    def pre(self, I, st):
        super().pre(I, st)
        for c in (self.vcount0, self.ncount, self.qcount):
            st.facts.add_ge(C(self.cap) - c)
        I.lazyhook = self.slot

    def slot(self, I, st, sym, addr, size):
        """a slot in front of the number of blocks holds an extent"""
        if size != 8:
            return
        for root, count in ((self.vroot0, self.vcount0), (self.nroot, self.ncount), (self.qroot, self.qcount)):
            at = place(self, At(I, st), root, S(sym))
            if at is None or at[0] is None:
                continue
            b = at[0].scale(1 << self.sh1)
            if at[1] is not None:
                b = b + at[1].scale(1 << self.sh2)
            if st.facts.ge0(st.n(count - b - 1)):
                st.facts.add_ge(S(sym) - 1)
                return

    def node(self, st, root, x=None, y=None):
        st.n(root)
        r = st.n(root)
        if x is None:
            return r
        r = st.n(self.I.rd(st, r + x.scale(8), 8, True))
        if y is None:
            return r
        return st.n(self.I.rd(st, r + y.scale(8), 8, True))

    def owns(self, p, root, count, exists, x, y, mine):
        """does the view (root, count) share the extent at (x, y)?"""
        b = ZERO
        if x is not None:
            b = b + x.scale(1 << self.sh1)
        if y is not None:
            b = b + y.scale(1 << self.sh2)
        if p.is0(exists):
            return False
        if p.ge(b, count):
            return False
        other = self.node(p.st, root, x, y)
        if p.differ(other, mine):
            return False
        if p.ge(count, b + 1) and p.same(other, mine) and p.differ(exists, ZERO):
            return True
        return None

    def verdict(self, p, x, y):
        """True: the extent at (x, y) goes with v; False: another view needs it"""
        mine = self.node(p.st, self.vroot0, x, y)
        a = self.owns(p, self.nroot, self.ncount, ONE, x, y, mine)
        b = self.owns(p, self.qroot, self.qcount, self.vprev, x, y, mine)
        if a is True or b is True:
            return False
        if a is False and b is False:
            return True
        return None

    def place(self, p, x):
        """(x, y) such that the extent is the one at that place of v"""
        return place(self, p, self.vroot0, x)


def lazyaddr(p, f):
    """address a pointer was read from"""
    if len(f.t) == 1 and f.c == 0 and f.t[0][1] == 1 and len(f.t[0][0]) == 1:
        s = SYMS[f.t[0][0][0]]
        if s.kind == 'lazy':
            return s.args[0]
    return None


def div8(f):
    if f.c % 8 or any(k % 8 for _, k in f.t):
        return None
    return Lin(tuple((m, k // 8) for m, k in f.t), f.c // 8)


def place(cx, p, root, ext):
    ext, root = p.n(ext), p.n(root)
    if p.same(ext, root):
        return (None, None)
    a = lazyaddr(p, ext)
    if a is None:
        return None
    x = div8(a - root)
    if x is not None and not any(SYMS[i].ptr for i in x.syms()):
        return (x, None)
    # which second-level extent is the address in?
    for m, k in a.t:
        if k == 1 and len(m) == 1 and SYMS[m[0]].kind == 'lazy':
            e2 = S(SYMS[m[0]])
            a2 = SYMS[m[0]].args[0]
            x, y = div8(p.n(a2) - root), div8(a - e2)
            if x is not None and y is not None and not any(SYMS[i].ptr for i in x.syms() | y.syms()):
                return (x, y)
    return None


def steps(p, pairs):
    """loop variables that advance by one"""
    return [h for k, (h, b) in pairs.items() if p.same(b - h, ONE)]


def walk(r, cx, root, count, judge, outer, total):
    """every extent below root is judged once: the loops run over every slot.
    judge(p, x, y, released) for a third-level extent,
    outer(p, x, released, whole): second level; total(p, released)"""
    I = r.I
    third = second = 0
    inner_of = {}
    ptrs = (1 << cx.le) // 8
    for i in I.loop_seen:
        for p, pairs in iterations(r, i):
            nouaf(p)
            rel = p.evs('release')
            places = [place(cx, p, root, e.a[1]) for e in rel]
            if not p.need(None not in places and (None, None) not in places, 'only extents of the view are freed', lambda: '%r' % rel):
                continue
            sub = [(e[0]) for e in [x.x for x in p.ev if x.kind == 'loop']]
            vars_ = steps(p, pairs)
            third_rel = [(x, y, e) for (x, y), e in zip(places, rel) if y is not None]
            second_rel = [(x, e) for (x, y), e in zip(places, rel) if y is None]
            # which slot does this iteration stand for?
            cells = slot_reads(cx, p, root)
            ys = [(x, y) for x, y in cells if y is not None and any(p.same(y, v) for v in vars_)]
            xs = [x for x, y in cells if y is None and any(p.same(x, v) for v in vars_)]
            if ys and not sub:
                third += 1
                x, y = ys[0]
                if not p.need(all(p.same(a, x) and p.same(b, y) for a, b, e in third_rel) and not second_rel and len(third_rel) <= 1, 'one extent per step', lambda: '%r' % rel):
                    continue
                i.slot = 'inner', [k for k, (h, b) in pairs.items() if p.same(h, y)], x
                judge(p, x, y, bool(third_rel))
            elif xs:
                second += 1
                x = xs[0]
                if not p.need(all(p.same(a, x) for a, e in second_rel) and len(second_rel) <= 1 and not third_rel, 'one extent per step', lambda: '%r' % rel):
                    continue
                i.slot = 'outer', [k for k, (h, b) in pairs.items() if p.same(h, x)], x
                full = False
                for e in p.ev:
                    if e.kind == 'loop' and getattr(e.x[0], 'slot', ('',))[0] == 'inner':
                        li, vals = e.x
                        keys = li.slot[1]
                        for k in keys:
                            y0, y1 = li.vars[k][0], vals.get(k)
                            if isinstance(y1, Lin) and isinstance(y0, Lin) and p.is0(y0):
                                full = p.ge(y1, ptrs) or p.ge(x.scale(1 << cx.sh1) + y1.scale(1 << cx.sh2), count)
                                if full:
                                    break
                outer(p, x, bool(second_rel), full)
            else:
                p.need(False, 'every step stands for one extent', lambda: '%r' % (pairs,))
    r.count('third-level steps', third)
    r.count('second-level steps', second)
    for p in r.rets:
        nouaf(p)
        rel = p.evs('release')
        for e in rel:
            p.need(place(cx, p, root, e.a[1]) == (None, None), 'only extents of the view are freed', lambda: '%r' % e, e)
        ran = False
        for e in p.ev:
            if e.kind == 'loop' and getattr(e.x[0], 'slot', ('',))[0] == 'outer':
                li, vals = e.x
                for k in li.slot[1]:
                    x0, x1 = li.vars[k][0], vals.get(k)
                    if isinstance(x1, Lin) and isinstance(x0, Lin) and p.is0(x0) and p.ge(x1.scale(1 << cx.sh1), count):
                        ran = True
        total(p, len(rel), ran)


def slot_reads(cx, p, root):
    """slots of the tree below root read so far"""
    out = []
    root = p.n(root)
    second = []
    for b, cells in p.st.mem.items():
        for o in cells:
            v = cells[o][1]
            x = div8(b + o - root)
            if x is not None and not any(SYMS[i].ptr for i in x.syms()):
                out.append((x, None))
                second.append((x, p.n(v)))
    for x, e2 in second:
        for b, cells in p.st.mem.items():
            for o in cells:
                y = div8(b + o - e2)
                if y is not None and not any(SYMS[i].ptr for i in y.syms()):
                    out.append((x, y))
    return out


def rule_view_destroy(ck):
    def one(ck, geo):
        cx = View(ck, geo)
        I = cx.I
        r = ck.run(I, 'matras_destroy_read_view', [cx.M, cx.v], pre=cx.pre)

        def judge(p, x, y, released):
            w = cx.verdict(p, x, y)
            p.need(w is released, 'an extent is freed exactly when no other view needs it', lambda: 'third level: freed %s, sole owner %s' % (released, w))

        def outer(p, x, released, full):
            w = cx.verdict(p, x, None)
            if p.is0(ZERO) and not [e for e in p.ev if e.kind == 'loop']:
                mine = cx.node(p.st, cx.vroot0, x)
                a = cx.owns(p, cx.nroot, cx.ncount, ONE, x, None, mine)
                p.need(a is True and not released, 'an extent is freed exactly when no other view needs it', lambda: 'blocks below the second level are skipped, next view needs it: %s' % a)
                return
            p.need(full, 'every extent of the view is considered', 'slots left')
            p.need(w is released, 'an extent is freed exactly when no other view needs it', lambda: 'second level: freed %s, sole owner %s' % (released, w))

        def total(p, released, ran):
            M = cx
            if p.is0(cx.next):
                p.no_effects('a view is destroyed once')
                p.need(not released, 'a view is destroyed once', '')
                return
            p.need_eq(p.f(cx.v, 'matras_view', 'next_view'), ZERO, 'a destroyed view is marked so', 'next_view')
            p.need_eq(p.f(cx.next, 'matras_view', 'prev_view'), cx.vprev, 'the views stay linked', 'next->prev_view')
            if not p.is0(cx.vprev):
                p.need(p.differ(cx.vprev, ZERO), 'the views stay linked', 'prev_view')
                p.need_eq(p.f(cx.vprev, 'matras_view', 'next_view'), cx.next, 'the views stay linked', 'prev->next_view')
            if not ran:
                p.need(not released, 'every extent of the view is considered', '')
                a = cx.owns(p, cx.nroot, cx.ncount, ONE, None, None, p.n(cx.vroot0))
                p.need(p.is0(cx.vcount0) or a is True, 'every extent of the view is considered', 'nothing is freed')
                return
            w = cx.verdict(p, None, None)
            p.need(w is (released == 1) and released <= 1, 'an extent is freed exactly when no other view needs it', lambda: 'root: freed %s, sole owner %s' % (released, w))
            vp = field_pred(I, cx.vprev, 'matras_view', 'next_view')
            np = field_pred(I, cx.next, 'matras_view', 'prev_view')
            vv = field_pred(I, cx.v, 'matras_view', 'next_view')
            bk = cx.bookkeeping()
            p.frame(lambda a: vp(a) or np(a) or vv(a) or any(x(a) for x in bk), 'other views stay as they are')
        walk(r, cx, cx.vroot0, cx.vcount0, judge, outer, total)
        counted(r, cx, True)
        ends(r)
    ck.par(geometries(ck, True), one)


def counted(r, cx, view):
    """extent counters follow the releases, segment by segment: from the start
    of the iteration (or of the function) or the end of the last inner loop up
    to the end"""
    I = r.I
    for b, s, f in ((cx.M, 'matras', 'extent_count'), (cx.stats, 'matras_stats', 'extent_count')) + (((cx.stats, 'matras_stats', 'read_view_extent_count'),) if view else ()):
        o, n = I.offsetof(s, f)

        def judge(p):
            rel, base = 0, fstart(p, b, s, f)
            for e in p.ev:
                if e.kind == 'release':
                    rel += 1
                elif e.kind == 'loop':
                    i, vals = e.x
                    for k, v in vals.items():
                        if k[0] == 'mem' and isinstance(v, Lin) and k[3] == n and p.same(k[1] + k[2], b + o):
                            # what happened before the loop
                            en = i.vars[k][0]
                            p.need_eq(en, base - rel, 'extents are counted', f + ' in front of a loop', n * 8)
                            base, rel = p.n(v), 0
                            break
            p.need_eq(I.rd(p.st, b + o, n), base - rel, 'extents are counted', f, n * 8)
        for i in I.loop_seen:
            for p, pairs in iterations(r, i):
                judge(p)
        for p in r.rets:
            judge(p)


def ends(r):
    for i in r.I.loop_seen:
        for p, pairs in iterations(r, i):
            p.need(any(p.ge(b, h + 1) and p.ge(C(U64 - 1), b) for h, b in pairs.values()) or p.evs('viewgone'), 'the walk ends', lambda: '%r' % (pairs,))


def rule_destroy(ck):
    def one(ck, geo):
        for fn in ('matras_destroy', 'matras_reset'):
            cx = Ctx(ck, geo)
            I = cx.I
            I.unroll_open = False

            def m_view(I, st, v, ins):
                st.event('viewgone', (st.n(v[0]), st.n(v[1])), I.loc(ins))
                o = I.offsetof('matras_view', 'prev_view')[0]
                ov = I.offsetof('matras', 'head.prev_view')[0]
                nx = I.rd(st, st.n(v[1]) + o, 8, True)
                return [(s, None) for s in I.store(st, cx.M + ov, 8, st.n(nx))]
            I.models['matras_destroy_read_view'] = m_view
            r = ck.run(I, fn, [cx.M], pre=cx.pre)
            nv = 0
            keep = []
            for i in I.loop_seen:
                for p, pairs in iterations(r, i):
                    for e in p.evs('viewgone'):
                        nv += 1
                        p.need(p.same(e.a[0], cx.M), 'every view is destroyed', '')
                        p.need_eq(e.a[1], fstart(p, cx.M, 'matras', 'head.prev_view'), 'every view is destroyed', 'newest first')
                if not any(p.evs('viewgone') for p, _ in iterations(r, i)):
                    keep.append(i)
            r.count('views', nv)
            I.loop_seen = keep

            def judge(p, x, y, released):
                p.need(released, 'every extent is freed', 'third level')

            def outer(p, x, released, full):
                p.need(full and released, 'every extent is freed', 'second level')

            def total(p, released, ran):
                pv = p.n(p.f(cx.M, 'matras', 'head.prev_view'))
                p.need(p.is0(pv), 'every view is destroyed', '%r' % pv)
                if fn == 'matras_reset':
                    p.need_eq(cx.count(p), ZERO, 'a reset instance is empty', 'block_count')
                if not ran:
                    p.need(p.is0(cx.count0) and not released, 'every extent is freed', '')
                    return
                p.need(released == 1, 'every extent is freed', 'root')
            walk(r, cx, cx.root0, cx.count0, judge, outer, total)
            counted(r, cx, False)
            ends(r)
    ck.par(geometries(ck, True), one)


def rule_view_create(ck):
    cx = Ctx(ck, (14, 4))
    I = cx.I
    v = arg('v', 'matras_view')
    r = ck.run(I, 'matras_create_read_view', [cx.M, v], pre=cx.pre)
    head = cx.M + I.offsetof('matras', 'head')[0]
    for p in r.rets:
        g = lambda b, f: p.n(p.f(b, 'matras_view', f))
        for f in ('root', 'block_count', 'prev_view'):
            p.need_eq(g(v, f), p.f0(cx.M, 'matras', 'head.' + f), 'a view is the head as it was', f)
        p.need_eq(g(v, 'next_view'), head, 'the views stay linked', 'next_view')
        p.need_eq(p.f(cx.M, 'matras', 'head.prev_view'), v, 'the views stay linked', 'head.prev_view')
        p.need_eq(cx.root(p), cx.root0, 'creating a view leaves the head alone', 'root')
        p.need_eq(cx.count(p), cx.count0, 'creating a view leaves the head alone', 'block_count')
        if not p.is0(cx.prev):
            p.need(p.differ(cx.prev, ZERO), 'the views stay linked', 'prev_view')
            p.need_eq(g(cx.prev, 'next_view'), v, 'the views stay linked', 'prev->next_view')
        vn, pn = field_pred(I, v, 'matras_view', 'root', 'block_count', 'prev_view', 'next_view'), field_pred(I, cx.prev, 'matras_view', 'next_view')
        hp = field_pred(I, cx.M, 'matras', 'head.prev_view')
        p.frame(lambda a: vn(a) or pn(a) or hp(a), 'other views stay as they are')
    # reading through a view
    id = arg('id', hi=(1 << 32) - 1, bits=32)
    def one(ck, geo):
        cx = Ctx(ck, geo)
        I = cx.I
        vn = I.entry(v + I.offsetof('matras_view', 'next_view')[0], 8, True)
        vr = I.entry(v + cx.vroot[0], 8, True)
        vc = I.entry(v + cx.vcount[0], 8)

        def pre(I, st):
            cx.pre(I, st)
            st.facts.add_ge(C(cx.cap - 1) - id)
        for fn, a in (('matras_view_get', [cx.M, v, id]), ('matras_get', [cx.M, id])):
            cx = Ctx(ck, geo)
            r = ck.run(cx.I, fn, a, pre=pre, unit='matras')
            for p in r.rets:
                p.no_effects('reading changes nothing')
                live = fn == 'matras_get' or p.is0(vn)
                if fn == 'matras_view_get':
                    p.need(live or p.differ(vn, ZERO), 'a view that is gone stands for the head', '')
                p.need_eq(p.ret, cx.chain(p.st, cx.root0 if live else vr, id)[3], 'a view shows its own blocks', 'address')
                inside(p, cx, *cx.slots(p.st, id))
    ck.par(geometries(ck), one)
    cx = Ctx(ck, (14, 4))
    r = ck.run(cx.I, 'matras_head_read_view', [v], unit='matras')
    for p in r.rets:
        p.need_field(v, 'matras_view', 'next_view', ZERO, 'a view that is gone stands for the head')
    r = ck.run(cx.I, 'matras_is_read_view_created', [v], unit='matras')
    vn = cx.I.entry(v + cx.I.offsetof('matras_view', 'next_view')[0], 8, True)
    for p in r.rets:
        p.need(p.is0(p.ret) == p.is0(vn) and (p.is0(p.ret) or p.differ(vn, ZERO)), 'a view that is gone stands for the head', 'is_created')


prop('T01', 'other', 'address translation and growth on every path, per geometry', [rule_create, rule_alloc], min_obligations=100)
prop('T02', 'other', 'copy-on-write on every path, per geometry', [rule_touch, rule_dealloc, rule_reserve, rule_allocator], min_obligations=100)
prop('T03', 'other', 'ownership of extents when views go: per loop iteration, freed exactly when neither neighbour shares it', [rule_view_destroy, rule_destroy, rule_view_create], min_obligations=100)
