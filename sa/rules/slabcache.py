"""Buddy allocator over the arena: every (order_max, order, position) of a small
tree plus selected ones of the deepest tree, with the slab size symbolic."""
from . import prop
from ..contract import *
from .. import models

BIG = models.BIG
OL = 'orders[%d]'


class Ctx:
    """one analysed configuration: cache with the given number of orders,
    smallest slab 2^lb, lb symbolic"""

    def __init__(self, ck, m, layers=(models.ARENA, models.QUOTA), drop=()):
        self.ck, self.m = ck, m
        self.A = arg('cache', 'slab_cache')
        self.I = I = ck.interp('plain', *layers, unit='slab_cache', drop=drop)
        A = self.A
        off = lambda s, f: I.offsetof(s, f)
        self.lb = I.entry(A + off('slab_cache', 'order0_size_lb')[0], 1)
        self.p = pow2(self.lb)
        self.arena = I.entry(A + off('slab_cache', 'arena')[0], 8, True)
        SYMS[next(iter(self.arena.syms()))].tag = 'slab_arena'
        self.SS = self.p.scale(1 << m)
        self.heads = {A + off('slab_cache', 'orders[%d].slabs' % o)[0]: o for o in range(m + 1)}
        self.alloc_head = A + off('slab_cache', 'allocated.slabs')[0]
        self.nil = off('slab', 'next_in_list')[0]
        self.nic = off('slab', 'next_in_cache')[0]
        self.magic = None
        I.elem_hook = self.elem

    def size(self, o):
        return self.p.scale(1 << o)

    def fill(self, st, s, order, size, used):
        """the invariant of a slab, assumed for entry states"""
        I = self.I
        for f, v in (('order', C(order)), ('size', size), ('in_use', C(order + 1 if used else 0))):
            o, n = I.offsetof('slab', f)
            self.sete(st, s + o, n, v)

    def sete(self, st, a, n, v):
        """entry value of a cell"""
        I = self.I
        e = I.entry(a, n)
        b, o = I.split(st.n(a))
        st.mem.setdefault(b, {})[o] = (n, st.n(v))
        # the symbol naming the entry value is that value
        if len(e.t) == 1 and e != v:
            st.sub[e.t[0][0][0]] = st.n(v)

    def elem(self, I, st, h, link):
        o = self.heads.get(h)
        base = I.split(link)[0]
        if o is not None:
            s = link - self.nil
            st.ghost[('align', next(iter(s.syms())))] = self.size(o)
            self.fill(st, s, o, self.size(o), False)

    def pre(self, I, st):
        A = self.A
        off = lambda s, f: I.offsetof(s, f)
        st.facts.add_ge(self.lb - 8)
        st.facts.add_ge(C(31 - self.m) - self.lb)
        I.pow2facts(st, self.p, self.lb, 64)
        self.sete(st, A + off('slab_cache', 'order_max')[0], 1, C(self.m))
        self.sete(st, A + off('slab_cache', 'order0_size')[0], 4, self.p)
        self.sete(st, self.arena + off('slab_arena', 'slab_size')[0], 4, self.SS)


# ---------------------------------------------------------------- ledgers
def stat(p, cx, path, which):
    return p.n(p.f(cx.A, 'slab_cache', path + '.stats.' + which) - p.f0(cx.A, 'slab_cache', path + '.stats.' + which))


def flows(p, cx):
    """per order: net bytes that entered the free list; list of changes"""
    moves = []
    for e in p.evs('list_add', 'list_add_tail'):
        h = p.n(e.a[0])
        if h in cx.heads:
            moves.append((+1, cx.heads[h], p.n(e.a[1]) - cx.nil, e))
        elif h == cx.alloc_head:
            moves.append((+1, 'all', p.n(e.a[1]) - cx.nic, e))
        else:
            moves.append((+1, None, p.n(e.a[1]), e))
    for e in p.evs('list_del'):
        it, h = p.n(e.a[0]), e.a[1]
        if h is not None and p.n(h) in cx.heads:
            moves.append((-1, cx.heads[p.n(h)], it - cx.nil, e))
        elif h is not None and p.n(h) == cx.alloc_head:
            moves.append((-1, 'all', it - cx.nic, e))
        else:
            moves.append((-1, '?', it, e))
    return moves


def order0_of(p, cx, slab):
    """order the slab had on entry"""
    o, n = p.I.offsetof('slab', 'order')
    v = p.n(p.I.entry(slab + o, n))
    return v.c if v.is_const() else None


def judge(cx, p, tag, arg_slab=None, order=None):
    """rules common to taking and returning an ordered slab"""
    I = p.I
    m = cx.m
    moves = flows(p, cx)
    net = {o: ZERO for o in range(m + 1)}
    pieces_out, pieces_in = [], []      # free-list changes: (slab, order)
    allin, allout = [], []
    for sg, o, s, e in moves:
        if o == '?':
            # an element taken out through its own links: which list it was in is
            # known from its entry state
            sl = None
            if order0_of(p, cx, s - cx.nil) is not None:
                sl, which = s - cx.nil, 'nil'
            elif True:
                sl, which = s - cx.nic, 'nic'
            if which == 'nil':
                oo = order0_of(p, cx, sl)
                iu = p.n(I.entry(sl + I.offsetof('slab', 'in_use')[0], 1))
                if p.need(p.is0(iu), 'only free slabs are taken off a free list',
                          lambda: 'in_use of the removed slab is %r' % (iu,), e):
                    net[oo] = net[oo] - cx.size(oo)
                    pieces_out.append((p.n(sl), oo))
            else:
                allout.append((p.n(sl), e))
            continue
        if o == 'all':
            (allin if sg > 0 else allout).append((s, e))
            continue
        if o is None:
            p.need(False, 'slabs go only to the lists of this cache', lambda: 'list %r' % (e.a[0],), e)
            continue
        net[o] = net[o] + cx.size(o).scale(sg)
        (pieces_in if sg > 0 else pieces_out).append((p.n(s), o))
    # a slab that entered and left on the same path cancels
    for x in list(pieces_in):
        for y in pieces_out:
            if x[1] == y[1] and p.same(x[0], y[0]):
                pieces_in.remove(x)
                pieces_out.remove(y)
                break
    for x in list(allin):
        for y in allout:
            if p.same(x[0], y[0]):
                allin.remove(x)
                allout.remove(y)
                break
    return net, pieces_in, pieces_out, allin, allout


def sums(cx, p, net, allin, allout):
    I, m = p.I, cx.m
    tt = ZERO
    for o in range(m + 1):
        dt = stat(p, cx, OL % o, 'total')
        du = stat(p, cx, OL % o, 'used')
        tt = tt + dt
        p.need_eq(dt, net[o] + du, 'per order: total = used + free', 'order %d total' % o)
    # slabs of this cache
    d = ZERO
    for s, e in allin:
        d = d + cx.SS
    for s, e in allout:
        d = d - cx.SS
    p.need_eq(stat(p, cx, 'allocated', 'total'), d, 'cache total = bytes held from the arena', 'total')
    p.need_eq(tt, d, 'the orders add up to the cache total', 'sum of totals')


def formatted(cx, p, s, o, used, rule):
    p.need_field(s, 'slab', 'order', C(o), rule)
    p.need_field(s, 'slab', 'size', cx.size(o), rule)
    iu = p.f(s, 'slab', 'in_use')
    if used:
        p.need(p.differ(iu, ZERO), rule, lambda: 'in_use %r' % (iu,))
    else:
        p.need_eq(iu, ZERO, rule, 'in_use')
    p.need(p.I.aligned_to(p.st, p.n(s), cx.size(o)), 'a slab is aligned by its size', lambda: '%r in order %d' % (s, o))


def tile(p, whole, parts):
    """parts [(addr, len)] exactly cover [whole)"""
    cur, left = whole[0], list(parts)
    while left:
        for x in left:
            if p.same(x[0], cur):
                cur = p.n(cur + x[1])
                left.remove(x)
                break
        else:
            return False
    return p.same(cur, whole[0] + whole[1])


def frame(cx, p, slabs, rule):
    """only statistics, free lists, and the headers of the given slabs change"""
    I = p.I
    so, sn = I.offsetof('slab_cache', 'allocated')
    oo, on = I.offsetof('slab_cache', 'orders')
    ssz = I.structsize('slab')

    def ok(a):
        d = a - cx.A
        if d.is_const() and (so <= d.c < so + sn or oo <= d.c < oo + on):
            return True
        for s in slabs:
            d = p.n(a - s)
            if d.is_const() and 0 <= d.c < ssz:
                return True
        return False
    p.frame(ok, rule)


def check_get(ck, m, order, label=''):
    cx = Ctx(ck, m)
    I = cx.I
    r = ck.run(I, 'slab_get_with_order', [cx.A, C(order)], pre=cx.pre)
    got = {'free': 0, 'new': 0, 'null': 0}
    for p in r.rets:
        net, pin, pout, ain, aout = judge(cx, p, 'get')
        news = [e for e in p.evs('alloc') if e.a[0] == 'slab_map']
        p.need(not p.evs('slab_unmap', 'release'), 'taking a slab gives nothing back', 'unmapped')
        if p.is0(p.ret):
            got['null'] += 1
            p.no_effects('a failed request changes nothing')
            p.need(not moves_of(p), 'a failed request changes nothing', 'list changed')
            p.need(p.evs('allocfail'), 'fails only when the arena refuses', '')
            continue
        ret = p.n(p.ret)
        sums(cx, p, net, ain, aout)
        p.need_eq(stat(p, cx, 'allocated', 'used'), cx.size(order), 'used grows by the slab handed out', 'used')
        for o in range(m + 1):
            p.need_eq(stat(p, cx, OL % o, 'used'), cx.size(order) if o == order else ZERO,
                      'used is billed to the order handed out', 'order %d' % o)
        formatted(cx, p, ret, order, True, 'the slab handed out is of the requested order and marked used')
        for s, o in pin:
            formatted(cx, p, s, o, False, 'the remainder is free, of the order of its list')
        if news:
            got['new'] += 1
            p.need(len(news) == 1, 'one arena slab at a time', '')
            src = (p.n(news[0].a[1]), cx.SS)
            p.need_eq(news[0].a[2], cx.arena, 'slabs come from the cache\'s own arena', 'arena', ev=news[0])
            p.need(len(ain) == 1 and p.same(ain[0][0], src[0]), 'a mapped slab is registered with the cache', '')
            p.need(not pout, 'no free slab is taken besides the mapped one', '')
            for o in range(order, m + 1):
                h = [k for k, v in cx.heads.items() if v == o][0]
                l = p.st.lists.get(h)
                known = not [e for e in p.evs('list_add', 'list_add_tail') if p.n(e.a[0]) == h]
                ok = l is not None and l.rest is None
                p.need(ok, 'the arena is asked only when no free slab fits', 'order %d not known empty' % o)
        else:
            got['free'] += 1
            if not p.need(len(pout) == 1, 'one free slab is taken', lambda: '%d' % len(pout)):
                continue
            src = (pout[0][0], cx.size(pout[0][1]))
            p.need(pout[0][1] >= order, 'the slab taken is large enough', '')
            p.need(not ain and not aout, 'slabs held from the arena are unchanged', '')
            for o in range(order, pout[0][1]):
                h = [k for k, v in cx.heads.items() if v == o][0]
                l = p.st.lists.get(h)
                ok = l is not None and l.rest is None
                p.need(ok, 'a larger slab is split only when no smaller one is free', 'order %d' % o)
        p.need(tile(p, src, [(ret, cx.size(order))] + [(s, cx.size(o)) for s, o in pin]),
               'the slab handed out and the remainders tile the slab taken',
               lambda: 'taken %r, handed out %r, kept %r' % (src, ret, pin))
        frame(cx, p, [ret] + [s for s, o in pin], 'only the slabs cut are written')
        if m == order:
            p.need(not pin, 'a whole slab has no remainder', '')
    r.count('free', got['free'], m - order + 1)
    r.count('new', got['new'])
    r.count('null', got['null'])


def moves_of(p):
    return p.evs('list_add', 'list_add_tail', 'list_del')


def check_put(ck, m, order, j):
    cx = Ctx(ck, m)
    I = cx.I
    base = arg('block', 'slab')
    s = base + cx.size(order).scale(j)
    bid = next(iter(base.syms()))

    def pre(I, st):
        cx.pre(I, st)
        st.ghost[('align', bid)] = cx.SS
        cx.fill(st, s, order, cx.size(order), True)
        # the neighbour at each level carries a sane header: its size goes with its order
        jj = j
        for o in range(order, m):
            b = base + cx.size(o).scale(jj ^ 1)
            oo, on = I.offsetof('slab', 'order')
            so, sn = I.offsetof('slab', 'size')
            cx.sete(st, b + so, sn, mul(cx.p, pow2(I.entry(b + oo, on))))
            jj >>= 1
        st.facts.add_ge(C(PTR_MAX - 1) - base - cx.SS)

    I.unroll_open = True
    r = ck.run(I, 'slab_put_with_order', [cx.A, s], pre=pre)
    kinds = {'cached': 0, 'unmapped': 0}
    for p in r.rets:
        net, pin, pout, ain, aout = judge(cx, p, 'put')
        sums(cx, p, net, ain, aout)
        p.need_eq(stat(p, cx, 'allocated', 'used'), -cx.size(order), 'used shrinks by the slab returned', 'used')
        for o in range(m + 1):
            p.need_eq(stat(p, cx, OL % o, 'used'), -cx.size(order) if o == order else ZERO,
                      'used is credited to the order returned', 'order %d' % o)
        un = p.evs('slab_unmap')
        p.need(not p.evs('alloc', 'quota_use', 'quota_release'), 'returning a slab takes nothing', '')
        if un:
            kinds['unmapped'] += 1
            p.need(len(un) == 1, 'one slab is unmapped', '')
            whole = (p.n(un[0].a[1]), cx.SS)
            p.need_eq(un[0].a[0], cx.arena, 'slabs return to the cache\'s own arena', 'arena')
            p.need(len(aout) == 1 and p.same(aout[0][0], whole[0]), 'an unmapped slab is unregistered', '')
            p.need(not ain, 'an unmapped slab is unregistered', 'list')
            p.need(not pin, 'an unmapped slab is in no free list', lambda: '%r' % (pin,))
            h = [k for k, v in cx.heads.items() if v == m][0]
            l = p.st.lists.get(h)
            p.need(l is not None and (l.pre or l.suf or (l.rest and l.rest[1])),
                   'a whole slab is unmapped only if another one stays cached', '')
        else:
            kinds['cached'] += 1
            p.need(not ain and not aout, 'slabs held from the arena are unchanged', '')
            if not p.need(len(pin) == 1, 'the slab returned becomes free exactly once', lambda: '%r' % (pin,)):
                continue
            whole = (p.n(pin[0][0]), cx.size(pin[0][1]))
            formatted(cx, p, pin[0][0], pin[0][1], False, 'a free slab is of the order of its list and marked free')
            if pin[0][1] == m:
                h = [k for k, v in cx.heads.items() if v == m][0]
                l = p.st.lists.get(h)
                p.need(l is not None and len(l.pre) + len(l.suf) == 1 and l.rest is None,
                       'at most one whole free slab stays cached', '')
        p.need(tile(p, whole, [(s, cx.size(order))] + [(x, cx.size(o)) for x, o in pout]),
               'the free slab is exactly the slab returned and the free buddies merged',
               lambda: 'result %r, returned %r, merged %r' % (whole, s, pout))
        # coalesced as far as possible
        top = [o for o in range(order, m + 1) if p.same(whole[1], cx.size(o))]
        if top and top[0] < m:
            o = top[0]
            par = (p.n(whole[0]) - base)
            q = I.exact_div(par, cx.size(o)) if (par.t or par.c) else ZERO
            if p.need(q is not None and q.is_const(), 'free slabs stay inside their block', lambda: '%r' % (par,)):
                b = base + cx.size(o).scale(q.c ^ 1)
                bo = p.n(I.entry(b + I.offsetof('slab', 'order')[0], 1))
                bu = p.n(I.entry(b + I.offsetof('slab', 'in_use')[0], 1))
                p.need(p.differ(bo, C(o)) or p.differ(bu, ZERO),
                       'free buddies are always merged', lambda: 'buddy order %r in_use %r' % (bo, bu))
        frame(cx, p, [s, whole[0]] + [x for x, o in pout], 'only the slabs merged are written')
    r.count('cached', kinds['cached'])
    if m == order:
        r.count('unmapped', kinds['unmapped'])


def trees(tier):
    for m in range(0, 5 if tier == 'quick' else 7):
        for o in range(m + 1):
            yield m, o


def rule_get(ck):
    for m, o in trees(ck.tier):
        check_get(ck, m, o)
    for o in (0, 14, 15):
        check_get(ck, 15, o)


def rule_put(ck):
    for m, o in trees(ck.tier):
        for j in range(1 << (m - o)):
            check_put(ck, m, o, j)
    for o, j in ((0, 0), (0, (1 << 15) - 1), (14, 1), (15, 0)):
        check_put(ck, 15, o, j)



# ---------------------------------------------------------------- routing by size
class Sym1(Ctx):
    """order_max symbolic"""

    def __init__(self, ck, layers, drop=()):
        self.ck = ck
        self.A = arg('cache', 'slab_cache')
        self.I = I = ck.interp('plain', *layers, unit='slab_cache', drop=drop)
        A = self.A
        off = lambda s, f: I.offsetof(s, f)
        self.lb = I.entry(A + off('slab_cache', 'order0_size_lb')[0], 1)
        self.om = I.entry(A + off('slab_cache', 'order_max')[0], 1)
        self.p = pow2(self.lb)
        self.arena = I.entry(A + off('slab_cache', 'arena')[0], 8, True)
        SYMS[next(iter(self.arena.syms()))].tag = 'slab_arena'
        self.SS = pow2(self.lb + self.om)
        self.alloc_head = A + off('slab_cache', 'allocated.slabs')[0]
        self.heads = {}
        self.nic = off('slab', 'next_in_cache')[0]
        self.nil = off('slab', 'next_in_list')[0]

    def size(self, o):
        return pow2(self.lb + o)

    def pre(self, I, st):
        A = self.A
        off = lambda s, f: I.offsetof(s, f)
        st.facts.add_ge(self.lb - 8)
        st.facts.add_ge(C(15) - self.om)
        st.facts.add_ge(C(31) - self.lb)
        st.facts.add_ge(C(31) - self.lb - self.om)
        I.pow2facts(st, self.p, self.lb, 64)
        I.pow2facts(st, self.SS, self.lb + self.om, 64)
        st.facts.add_ge(self.SS - self.p)
        self.sete(st, A + off('slab_cache', 'order0_size')[0], 4, self.p)
        self.sete(st, self.arena + off('slab_arena', 'slab_size')[0], 4, self.SS)


def need_pow2(p, cx, order):
    """facts about 2^(lb+order)"""
    f = cx.size(order)
    p.I.pow2facts(p.st, f, p.n(cx.lb + order), 64)
    f2 = pow2(p.n(cx.lb + order) - 1)
    p.I.pow2facts(p.st, f2, p.n(cx.lb + order) - 1, 64)
    return p.n(f)


def rule_route(ck):
    hdr = None
    size = arg('size')
    cx = Sym1(ck, (models.ARENA, models.QUOTA, models.CACHE), drop=('slab_get', 'slab_real_size'))
    I = cx.I
    hdr = models.slabsizeof(I)
    r = ck.run(I, 'slab_get', [cx.A, size], pre=cx.pre)
    seen = {'order': 0, 'large': 0}
    for p in r.rets:
        al = [e for e in p.ev if e.kind == 'alloc' or (e.kind == 'allocfail' and e.a[0] in ('slab_get_with_order', 'slab_get_large'))]
        if not al:
            p.need(p.is0(p.ret), 'every request is served or refused', '')
            p.need_ge(p.n(size) + hdr, C(1 << 64), 'refused without asking only when the size overflows', 'size')
            continue
        if not p.need(len(al) == 1, 'one slab per request', lambda: '%d' % len(al)):
            continue
        e = al[0]
        kind = e.a[0]
        cache, n = (e.a[1], e.a[2]) if e.kind == 'allocfail' else (e.a[2], e.a[3])
        p.need_eq(cache, cx.A, 'the request goes to the given cache', 'cache', ev=e)
        if e.kind == 'alloc':
            p.need_eq(p.ret, e.a[1], 'the slab obtained is handed out', 'result', ev=e)
        else:
            p.need(p.is0(p.ret), 'a refused request returns NULL', '', ev=e)
        if kind == 'slab_get_large':
            seen['large'] += 1
            p.need_eq(n, size, 'a large request is passed on unchanged', 'size', ev=e)
            p.need_ge(size + hdr, cx.SS + 1, 'large only when no ordered slab fits', 'size', ev=e)
        else:
            seen['order'] += 1
            n = p.n(n)
            p.need_ge(cx.om, n, 'the order exists', 'order', ev=e)
            f = need_pow2(p, cx, n)
            p.need_ge(f, size + hdr, 'the slab is large enough for the request and its header', 'order size', ev=e)
            if not p.is0(n):
                half = pow2(p.n(cx.lb + n) - 1)
                p.need_ge(size + hdr, half + 1, 'the smallest sufficient order is used', 'half the slab', ev=e)
    r.count('ordered', seen['order'])
    r.count('large', seen['large'])
    # the size promised beforehand is the size delivered
    small = arg('size', hi=BIG)
    r = ck.run(I, 'slab_real_size', [cx.A, small], pre=cx.pre)
    for p in r.rets:
        v = p.n(p.ret)
        if p.possible(Cond('ge', cx.SS - small - hdr)):
            # ordered
            p.need_ge(v, small + hdr, 'the announced size covers the request and its header', 'size')
            p.need(I.is_pow2(p.st, v), 'the announced size is a slab size', lambda: '%r' % (v,))
            p.need_ge(v, cx.p, 'the announced size is a slab size', 'lower end')
            p.need_ge(cx.SS, v, 'the announced size is a slab size', 'upper end')
            if not p.same(v, cx.p):
                p.need_ge((small + hdr).scale(2), v + 1, 'the announced size is the smallest sufficient', 'size')
        else:
            p.need_eq(v, small + hdr, 'a large slab is exactly the request and its header', 'size')
    # ---- returning: by order
    cx = Sym1(ck, (models.ARENA, models.QUOTA, models.CACHE), drop=('slab_put', 'slab_real_size'))
    I = cx.I
    s = arg('slab', 'slab')
    od = I.entry(s + I.offsetof('slab', 'order')[0], 1)
    r = ck.run(I, 'slab_put', [cx.A, s], pre=cx.pre)
    kinds = set()
    for p in r.rets:
        ev = p.evs('slab_put')
        if not p.need(len(ev) == 1, 'a slab is returned once', lambda: '%d' % len(ev)):
            continue
        e = ev[0]
        kinds.add(e.a[0])
        p.need_eq(e.a[1], cx.A, 'a slab returns to its cache', 'cache', ev=e)
        p.need_eq(e.a[2], s, 'the given slab is returned', 'slab', ev=e)
        if e.a[0] == 'slab_put_large':
            p.need_ge(od, cx.om + 1, 'only large slabs are freed right away', 'order', ev=e)
        else:
            p.need_ge(cx.om, od, 'ordered slabs go back to the buddy lists', 'order', ev=e)
    r.count('kinds', len(kinds), 2)


def rule_large(ck):
    size = arg('size')
    cx = Sym1(ck, (models.ARENA, models.QUOTA))
    I = cx.I
    hdr = models.slabsizeof(I)
    q = I.entry(cx.arena + I.offsetof('slab_arena', 'quota')[0], 8, True)

    def pre(I, st):
        cx.pre(I, st)
    r = ck.run(I, 'slab_get_large', [cx.A, size], pre=pre)
    got = 0

    def net(p):
        t = ZERO
        for e in p.evs('quota_use'):
            p.need_eq(e.a[0], q, 'large slabs are charged to the arena quota', 'quota', ev=e)
            t = t + e.a[1]
        for e in p.evs('quota_release'):
            p.need_eq(e.a[0], q, 'large slabs are charged to the arena quota', 'quota', ev=e)
            t = t - e.a[1]
        return p.n(t)
    for p in r.rets:
        if p.is0(p.ret):
            p.no_effects('a failed request changes nothing')
            p.need(not moves_of(p), 'a failed request changes nothing', 'list changed')
            p.need_eq(net(p), ZERO, 'a failed request charges nothing', 'quota')
            p.need(p.evs('allocfail', 'quota_use_fail') or p.ge(size + hdr, C(1 << 64)), 'fails only when memory is refused', '')
            continue
        got += 1
        al = p.evs('alloc')
        if not p.need(len(al) == 1, 'one block per large slab', ''):
            continue
        need = size + hdr
        p.need_eq(p.ret, al[0].a[1], 'the block obtained is handed out', 'result')
        p.need_ge(C((1 << 64) - 1), need, 'the size computation does not overflow', 'size + header')
        p.need_eq(al[0].a[2], need, 'the block holds the request and the header', 'malloc size', ev=al[0])
        p.need_eq(net(p), need, 'a large slab is charged by its size', 'quota')
        p.need_field(p.ret, 'slab', 'size', need, 'a large slab records its size')
        p.need_field(p.ret, 'slab', 'order', cx.om + 1, 'a large slab is recognisable')
        for w in ('used', 'total'):
            p.need_eq(stat(p, cx, 'allocated', w), need, 'large slabs are counted in the cache totals', w)
        add = p.evs('list_add', 'list_add_tail')
        p.need(len(add) == 1 and p.same(add[0].a[0], cx.alloc_head) and p.same(add[0].a[1], p.n(p.ret) + cx.nic),
               'a large slab is registered with the cache', '')
        p.frame(field_pred(I, cx.A, 'slab_cache', 'allocated'), 'only the cache totals change')
    r.count('granted', got)
    # ---- put
    s = arg('slab', 'slab')
    cx = Sym1(ck, (models.ARENA, models.QUOTA))
    I = cx.I
    sz = I.entry(s + I.offsetof('slab', 'size')[0], 8)

    def pre(I, st):
        cx.pre(I, st)
        cx.sete(st, s + I.offsetof('slab', 'order')[0], 1, cx.om + 1)
        st.facts.add_ge(C(BIG) - sz)
        st.facts.add_ge(sz - hdr)
    r = ck.run(I, 'slab_put_large', [cx.A, s], pre=pre)
    for p in r.rets:
        p.need_eq(net(p), -sz, 'a large slab gives its charge back', 'quota')
        for w in ('used', 'total'):
            p.need_eq(stat(p, cx, 'allocated', w), -sz, 'a large slab leaves the cache totals', w)
        de = p.evs('list_del')
        p.need(len(de) == 1 and p.same(de[0].a[0], s + cx.nic) and not p.evs('list_add', 'list_add_tail'),
               'a large slab is unregistered', '')
        fr = p.evs('release')
        p.need(len(fr) == 1 and fr[0].a[0] == 'free' and p.same(fr[0].a[1], s), 'a large slab is freed once', '')
        if de and fr:
            p.need(p.ev.index(de[0]) < p.ev.index(fr[0]), 'a large slab is unregistered before it is freed', '', fr[0])
        use = [e for e in p.evs('access_freed')]
        p.need(not use, 'a freed slab is not touched', '')


def rule_create(ck):
    """every slab size an arena can have"""
    for k, page in [(k, 4096) for k in range(16, 32)] + [(16, 65536), (22, 65536), (31, 16384)]:
        A, ar = arg('cache', 'slab_cache'), arg('arena', 'slab_arena')
        I = ck.interp('plain', models.ARENA, models.QUOTA, unit='slab_cache')
        I.unroll_open = True
        I.models['small_getpagesize'] = lambda I, st, v, ins: [(st, C(page))]

        def pre(I, st):
            o, n = I.offsetof('slab_arena', 'slab_size')
            I.store(st, ar + o, n, C(1 << k))
            st.dirty.clear()
        r = ck.run(I, 'slab_cache_create', [A, ar], pre=pre)
        for p in r.rets:
            g = lambda f: p.n(p.f(A, 'slab_cache', f))
            m, sz, lb = g('order_max'), g('order0_size'), g('order0_size_lb')
            if not p.need(m.is_const() and sz.is_const() and lb.is_const(), 'the geometry follows from the slab size', ''):
                continue
            no = I.offsetof('slab_cache', 'orders')[1] // I.offsetof('slab_cache', 'orders[0]')[1]
            p.need(0 <= m.c < no, 'every order has a list', 'order_max %d' % m.c)
            p.need(sz.c << m.c == 1 << k, 'the largest order is a whole arena slab', 'order0 %d, order_max %d' % (sz.c, m.c))
            p.need(sz.c == 1 << lb.c, 'order sizes are powers of two', 'order0 %d lb %d' % (sz.c, lb.c))
            p.need(sz.c > models.slabsizeof(I), 'the smallest slab has room besides its header', '')
            p.need_field(A, 'slab_cache', 'arena', ar, 'the cache draws on the given arena')
            for o in ['allocated'] + ['orders[%d]' % i for i in range(m.c + 1)]:
                l = p.st.lists.get(p.n(A + I.offsetof('slab_cache', o + '.slabs')[0]))
                p.need(l is not None and not l.pre and not l.suf and l.rest is None, 'a new cache holds nothing', o)
                for w in ('used', 'total'):
                    p.need_field(A, 'slab_cache', o + '.stats.' + w, ZERO, 'a new cache holds nothing')


def rule_destroy(ck):
    cx = Sym1(ck, (models.ARENA, models.QUOTA))
    I = cx.I
    cx.q = I.entry(cx.arena + I.offsetof('slab_arena', 'quota')[0], 8, True)
    I.elem_hook = None
    r = ck.run(I, 'slab_cache_destroy', [cx.A], pre=cx.pre)
    drain(r, cx.alloc_head, cx.nic, lambda p, s, evs: slab_gone(p, cx, s, evs))


def slab_gone(p, cx, s, evs):
    I = p.I
    od = p.n(p.f(s, 'slab', 'order'))
    sz = p.n(p.f(s, 'slab', 'size'))
    rel = [e for e in evs if e.kind == 'release']
    qr = [e for e in evs if e.kind == 'quota_release']
    p.need(len(rel) == 1 and p.same(rel[0].a[1], s), 'every slab of the cache is given back once',
           lambda: '%r for %r' % (rel, s))
    if rel and rel[0].a[0] == 'free':
        # (no slab has an order above order_max + 1)
        p.need_ge(od, cx.om + 1, 'large slabs are freed', 'order', ev=rel[0])
        p.need(len(qr) == 1 and p.same(qr[0].a[0], cx.q) and p.same(qr[0].a[1], sz), 'large slabs give their charge back', lambda: '%r' % (qr,))
    else:
        p.need(p.ge(cx.om, od) or p.differ(od, cx.om + 1), 'ordered slabs return to the arena', lambda: 'order %r' % (od,))
        p.need(not qr, 'the arena keeps the charge of its slabs', '')
        un = [e for e in evs if e.kind == 'slab_unmap']
        p.need(len(un) == 1 and p.same(un[0].a[0], cx.arena), 'ordered slabs return to their own arena', '')


prop('C01', 'other', 'ledger of slab_get/slab_put on every path: for each (number of orders, requested order, position in the slab, buddy states) the pieces tile the slab and every statistics counter moves by the slabs moved', [rule_get, rule_put], min_obligations=500)
prop('C02', 'other', 'routing of slab_get/slab_put by size and order and the derivation of orders at creation, over symbolic sizes', [rule_route, rule_create], min_obligations=100)
prop('C03', 'other', 'quota, list and heap ledger of large slabs; teardown loops process every list element once', [rule_large, rule_destroy], min_obligations=30)
