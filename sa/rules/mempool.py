"""Memory pool: every path of alloc/free from every place a slab can be in."""
from . import prop
from ..contract import *
from .. import models

BIG = models.BIG


class Ctx:
    def __init__(self, ck, drop=()):
        self.ck = ck
        self.P = P_ = arg('pool', 'mempool')
        self.I = I = ck.interp('plain', models.CACHE, models.TREE, models.ARENA, unit='mempool', drop=drop)
        I.slab_tag = 'mslab'
        off = I.offsetof
        g = lambda f, ptr=False: I.entry(P_ + off('mempool', f)[0], off('mempool', f)[1], ptr)
        self.cache = g('cache', True)
        SYMS[next(iter(self.cache.syms()))].tag = 'slab_cache'
        self.arena = I.entry(self.cache + off('slab_cache', 'arena')[0], 8, True)
        SYMS[next(iter(self.arena.syms()))].tag = 'slab_arena'
        self.lb = I.entry(self.cache + off('slab_cache', 'order0_size_lb')[0], 1)
        self.om = I.entry(self.cache + off('slab_cache', 'order_max')[0], 1)
        self.order = g('slab_order')
        self.S = pow2(self.lb + self.order)
        self.objsize, self.objcount = g('objsize'), g('objcount')
        self.hdr = (I.structsize('mslab') + 7) // 8 * 8
        self.slabs = P_ + off('mempool', 'slabs.slabs')[0]
        self.cold = P_ + off('mempool', 'cold_slabs')[0]
        self.tree = P_ + off('mempool', 'hot_slabs')[0]
        self.lcold = off('mslab', 'next_in_cold')[0]
        self.llist = off('mslab', 'slab.next_in_list')[0]
        I.elem_hook = self.elem
        self.units = {}

    def sete(self, st, a, n, v):
        I = self.I
        e = I.entry(a, n)
        b, o = I.split(st.n(a))
        v = st.n(v)
        st.mem.setdefault(b, {})[o] = (n, v)
        if e != v:
            st.sub[e.t[0][0][0]] = v

    def setf(self, st, p, struct, f, v):
        o, n = self.I.offsetof(struct, f)
        self.sete(st, p + o, n, v)

    def elem(self, I, st, h, link):
        if h == self.cold:
            s = link - self.lcold
            self.slab(st, s, 'cold')

    def pool(self, I, st):
        """invariant of an initialised pool"""
        f = st.facts
        f.add_ge(self.lb - 8)
        f.add_ge(C(31) - self.lb - self.order)
        f.add_ge(C(31) - self.lb)
        f.add_ge(C(31) - self.order)
        f.add_ge(self.objsize - 1)
        f.add_ge(self.objcount - 1)
        I.pow2facts(st, self.S, self.lb + self.order, 64)
        used = mul(self.objcount, self.objsize)
        f.add_ge(self.S - used - self.hdr)
        f.add_ge(C(1 << 31) - used)
        f.add_ge(self.S - self.objsize)
        f.add_ge(used - self.objsize)
        self.setf(st, self.P, 'mempool', 'offset', self.S - used)
        self.setf(st, self.P, 'mempool', 'slab_ptr_mask', C(1 << 64) - self.S)

    def slab(self, st, s, place, chain=None):
        """invariant of a formatted slab of the pool: U untouched objects at the
        end, L recycled ones in its list; chain: None fork-free unknown"""
        I, f = self.I, st.facts
        U = S(fresh('untouched', 0, (1 << 31)))
        L = S(fresh('recycled', 0, 1 << 31)) if self.mode == 'recycled' else ZERO
        for x in s.syms():
            if SYMS[x].ptr:
                st.ghost[('align', x)] = self.S
        self.setf(st, s, 'mslab', 'slab.order', self.order)
        self.setf(st, s, 'mslab', 'slab.size', self.S)
        self.setf(st, s, 'mslab', 'nfree', U + L)
        self.setf(st, s, 'mslab', 'free_offset', self.S - mul(U, self.objsize))
        self.setf(st, s, 'mslab', 'mempool', self.P)
        self.setf(st, s, 'mslab', 'in_hot_slabs', C(1 if place == 'hot' else 0))
        f.add_ge(mul(self.objcount, self.objsize) - mul(U, self.objsize))
        f.add_ge(self.objcount - U)
        f.add_ge(self.objcount - U - L)
        f.add_ge(C(1 << 31) - s * 0)
        mode = self.mode
        if mode == 'recycled':
            f.add_ge(L - 1)
            fl = S(fresh('free_object', 4096, PTR_MAX - 1 - BIG, True, kind='obj'))
            self.setf(st, s, 'mslab', 'free_list', fl)
        else:
            self.setf(st, s, 'mslab', 'free_list', ZERO)
        if place in ('hot', 'cold', 'spare'):
            f.add_ge(U + L - 1)
            if mode != 'recycled':
                f.add_ge(mul(U, self.objsize) - self.objsize)
        if place == 'spare':
            f.add_ge(U + L - self.objcount)
        self.units[s] = (U, L)

    def learn(self, st, a, b):
        st.sub[next(iter(a.syms()))] = b


def fin(p, s, f):
    return p.n(p.f(s, 'mslab', f))


def stat(p, cx, w):
    return p.n(p.f(cx.P, 'mempool', 'slabs.stats.' + w) - p.f0(cx.P, 'mempool', 'slabs.stats.' + w))


def placement(p, cx, s, before):
    """follow a slab through tree and cold list events -> set of memberships"""
    hot, cold = before == 'hot', before == 'cold'
    for e in p.ev:
        if e.kind == 'tree_add' and p.same(e.a[1], s):
            p.need_eq(e.a[0], cx.tree, 'slabs go to the tree of their own pool', 'tree', ev=e)
            p.need(not hot, 'a slab enters the tree once', '', e)
            hot = True
        elif e.kind == 'tree_del' and p.same(e.a[1], s):
            p.need(hot, 'only slabs in the tree are removed from it', '', e)
            hot = False
        elif e.kind == 'tree_next' and p.same(e.a[1], s):
            p.need(hot, 'the successor is looked up while the slab is in the tree', '', e)
        elif e.kind in ('list_add', 'list_add_tail') and p.same(e.a[1], s + cx.lcold):
            p.need_eq(e.a[0], cx.cold, 'slabs go to the staging list of their own pool', 'list', ev=e)
            p.need(not cold, 'a slab enters the staging list once', '', e)
            cold = True
        elif e.kind == 'list_del' and p.same(e.a[0], s + cx.lcold):
            cold = False
    return hot, cold


def registered(p, cx):
    """net registrations in the list of all slabs, as (sign, slab)"""
    out = []
    for e in p.ev:
        if e.kind in ('list_add', 'list_add_tail') and p.same(e.a[0], cx.slabs):
            out.append((1, p.n(e.a[1]) - cx.llist))
        elif e.kind == 'list_del' and e.a[1] is not None and p.same(e.a[1], cx.slabs):
            out.append((-1, p.n(e.a[0]) - cx.llist))
        elif e.kind == 'list_del' and e.a[1] is None:
            b = p.n(e.a[0])
            # which link of which slab
            for x in list(cx.units) + ([cx.s] if hasattr(cx, 's') else []):
                if p.same(b, x + cx.llist):
                    out.append((-1, x))
                    break
    return out


def frame(p, cx, slabs, extra=()):
    I = p.I
    sz = I.structsize('mslab')

    def ok(a):
        for s in slabs:
            d = p.n(a - s)
            if d.is_const() and 0 <= d.c < sz:
                return True
        for x, n in extra:
            d = p.n(a - x)
            if d.is_const() and 0 <= d.c < n:
                return True
        return base(a)
    base = field_pred(I, cx.P, 'mempool', 'slabs', 'first_hot_slab', 'cold_slabs', 'spare', 'hot_slabs')
    p.frame(ok, 'only the slab concerned and the pool\'s bookkeeping change')


def check_alloc(ck, mode):
    cx = Ctx(ck)
    cx.mode = mode
    I = cx.I
    F = I.entry(cx.P + I.offsetof('mempool', 'first_hot_slab')[0], 8, True)
    SP = I.entry(cx.P + I.offsetof('mempool', 'spare')[0], 8, True)
    for x in (F, SP):
        SYMS[next(iter(x.syms()))].tag = 'mslab'
    runs = []
    got = {'hot': 0, 'spare': 0, 'new': 0, 'cold': 0, 'null': 0}
    for hot, spare in ((True, False), (False, True), (False, False)):
        def pre(I, st):
            cx.pool(I, st)
            if hot:
                st.facts.add_ge(F - 4096)
                cx.slab(st, F, 'hot')
            else:
                cx.setf(st, cx.P, 'mempool', 'first_hot_slab', ZERO)
                if spare:
                    st.facts.add_ge(SP - 4096)
                    cx.slab(st, SP, 'spare')
                else:
                    cx.setf(st, cx.P, 'mempool', 'spare', ZERO)
        r = ck.run(I, 'mempool_alloc', [cx.P], pre=pre)
        for p in r.rets:
            p.need(not p.evs('slab_put', 'release'), 'allocation returns no slab', '')
            reg = registered(p, cx)
            news = [e for e in p.evs('alloc')]
            if p.is0(p.ret):
                got['null'] += 1
                p.no_effects('a failed allocation changes nothing')
                p.need(not p.evs('tree_add', 'tree_del', 'list_add', 'list_add_tail', 'list_del', 'alloc'), 'a failed allocation changes nothing', '')
                p.need(not hot and not spare and p.evs('allocfail') and list_known_empty(p.st, cx.cold),
                       'fails only when no slab has room and none can be had', '')
                continue
            # which slab served it
            pulled = [p.n(e.a[0]) - cx.lcold for e in p.evs('list_del') if e.a[1] is not None and p.same(e.a[1], cx.cold)]
            if hot:
                s, place = F, 'hot'
            elif spare:
                s, place = SP, 'spare'
            elif news:
                s, place = p.n(news[0].a[1]), 'new'
                p.need(len(news) == 1 and news[0].a[0] == 'slab_get_with_order', 'one slab is taken at a time', '')
                p.need_eq(news[0].a[2], cx.cache, 'slabs come from the pool\'s cache', 'cache')
                p.need_eq(news[0].a[3], cx.order, 'slabs have the pool\'s order', 'order', bits=8)
            elif p.need(len(pulled) == 1, 'the object comes from a slab of the pool', lambda: '%r' % (p.ret,)):
                s, place = pulled[0], 'cold'
            else:
                continue
            got[place] += 1
            s = p.n(s)
            if place != 'new':
                p.need(not news, 'no slab is taken while one has room', '')
            if place in ('hot', 'spare', 'new'):
                p.need(not pulled, 'staged slabs are used only when nothing else is left', '')
            # the object
            ret = p.n(p.ret)
            if place == 'new':
                U0, L0 = cx.objcount, ZERO
            else:
                key = [k for k in cx.units if p.same(k, s)]
                U0, L0 = (p.n(x) for x in cx.units[key[0]])
            nf, fo, fl = fin(p, s, 'nfree'), fin(p, s, 'free_offset'), fin(p, s, 'free_list')
            p.need_eq(nf, U0 + L0 - 1, 'each allocation uses up one free object', 'nfree')
            if mode == 'recycled' and place != 'new':
                fl0 = p.n(p.I.entry(s + I.offsetof('mslab', 'free_list')[0], 8))
                p.need_eq(ret, fl0, 'the most recently freed object is reused', 'result')
                p.need_eq(fl, p.n(I.entry(fl0, 8)), 'the recycled object is unlinked', 'free_list')
                p.need_eq(fo, cx.S - mul(U0, cx.objsize), 'untouched objects stay untouched', 'free_offset')
            else:
                p.need_eq(ret, s + cx.S - mul(U0, cx.objsize), 'a fresh object is the next untouched one', 'result')
                p.need_eq(fo, cx.S - mul(U0 - 1, cx.objsize), 'an untouched object is used once', 'free_offset')
                p.need_ge(s + cx.S, ret + cx.objsize, 'the object lies inside its slab', 'end')
                p.need_ge(ret, s + cx.hdr, 'the object does not overlap the slab header', 'start')
                p.need_eq(fl, ZERO, 'no recycled object appears', 'free_list')
            # books
            p.need_eq(stat(p, cx, 'used'), cx.objsize, 'used grows by one object', 'used')
            p.need_eq(stat(p, cx, 'total'), cx.S if place == 'new' else ZERO, 'total counts the slabs held', 'total')
            p.need([x for x in reg if x[0] > 0 and p.same(x[1], s)] == reg and len(reg) == (1 if place == 'new' else 0),
                   'each slab held is registered once', lambda: '%r' % (reg,))
            # place
            h, c = placement(p, cx, s, {'spare': 'none', 'new': 'none'}.get(place, place))
            flag = fin(p, s, 'in_hot_slabs')
            p.need(not c, 'a slab with room for allocation is not staged', '')
            if p.ge(nf, 1):
                p.need(h, 'a slab with room is available for allocation', '')
            elif p.is0(nf):
                p.need(not h, 'a full slab is not available for allocation', '')
            else:
                p.need(False, 'a slab with room is available for allocation', 'whether the slab is full is not decided')
            p.need_eq(flag, ONE if h else ZERO, 'the flag tells whether the slab is in the tree', 'in_hot_slabs')
            fh = p.n(p.f(cx.P, 'mempool', 'first_hot_slab'))
            if h:
                p.need_eq(fh, s, 'the first available slab is remembered', 'first_hot_slab')
            else:
                nx = [e for e in p.evs('tree_next') if p.same(e.a[1], s)]
                if hot or nx:
                    p.need(len(nx) == 1 and p.same(fh, nx[0].a[2]), 'the first available slab is remembered', lambda: '%r' % (fh,))
                else:
                    p.need_eq(fh, ZERO, 'the first available slab is remembered', 'first_hot_slab')
            sp = p.n(p.f(cx.P, 'mempool', 'spare'))
            if place == 'spare':
                p.need_eq(sp, ZERO, 'a spare slab in use is no longer spare', 'spare')
            else:
                p.unchanged(cx.P, 'mempool', 'spare', 'a spare slab not in use stays spare')
            if place == 'new':
                p.need_eq(p.f(s, 'mslab', 'mempool'), cx.P, 'a slab knows its pool', 'mempool')
            frame(p, cx, [s])
    for k, v in got.items():
        if k in ('spare', 'cold') or True:
            ck.count = None
        if v == 0:
            ck.gone('no path allocates from %s' % k)


def check_free(ck, mode, place, spare):
    """place of the slab before; spare: none / above / below"""
    cx = Ctx(ck)
    cx.mode = mode
    I = cx.I
    F = I.entry(cx.P + I.offsetof('mempool', 'first_hot_slab')[0], 8, True)
    SP = I.entry(cx.P + I.offsetof('mempool', 'spare')[0], 8, True)
    s = arg('mslab', 'mslab')
    for x in (F, SP):
        SYMS[next(iter(x.syms()))].tag = 'mslab'
    J = S(mksym('objects-from-end', 'arg', (), 1, 1 << 31, False, key='J'))
    ptr = s + cx.S - mul(J, cx.objsize)
    cx.s = s

    def pre(I, st):
        cx.pool(I, st)
        cx.slab(st, s, place)
        U, L = cx.units[s]
        nf = st.n(U + L)
        st.facts.add_ge(cx.objcount - J)
        st.facts.add_ge(mul(cx.objcount, cx.objsize) - mul(J, cx.objsize))
        # the object is allocated
        st.facts.add_ge(J - st.n(U) - 1)
        st.facts.add_ge(cx.objcount - nf - 1)
        st.facts.add_ge(C(1 << 31) - cx.objcount)
        thr = I.udiv(st, cx.objcount, C(8), 32)
        if place == 'full':
            st.facts.add_ge(-nf)
            for f in I.assume(st, Cond('eq', nf)):
                pass
        elif place == 'cold':
            st.facts.add_ge(thr - nf - 1)
            rest = S(opaque('rest0', (cx.cold,)))
            st.lists[cx.cold] = LS((s + cx.lcold,), (rest, False), ())
        if place == 'hot':
            # some slab is first; ours is not before it
            st.facts.add_ge(F - 4096)
            st.facts.add_ge(s - F)
        if spare == 'none':
            cx.setf(st, cx.P, 'mempool', 'spare', ZERO)
        else:
            st.facts.add_ge(SP - 4096)
            st.facts.add_ne(SP - s)
            cx.slab(st, SP, 'spare')
            if spare == 'above':
                st.facts.add_ge(SP - s - 1)
            else:
                st.facts.add_ge(s - SP - 1)
    if place == 'full' and mode == 'recycled':
        return {}
    r = ck.run(I, 'mempool_free', [cx.P, ptr], pre=pre, unit='headers')
    out = {}
    for p in r.rets:
        U, L = (p.n(x) for x in cx.units[s])
        puts = p.evs('slab_put')
        reg = registered(p, cx)
        gone = [p.n(e.a[2]) for e in puts]
        mine_gone = [e for e in puts if p.same(e.a[2], s)]
        sp_gone = [e for e in puts if spare != 'none' and p.same(e.a[2], SP)]
        p.need(len(mine_gone) + len(sp_gone) == len(puts), 'only slabs of this pool are returned', lambda: '%r' % (gone,))
        p.need(len(puts) <= 1, 'at most one slab is returned per freed object', '')
        for e in puts:
            p.need_eq(e.a[1], cx.cache, 'slabs return to the pool\'s cache', 'cache', ev=e)
            p.need(e.a[0] in ('slab_put_with_order', 'slab_put'), 'slabs return to the pool\'s cache', e.a[0], ev=e)
            un = [x for x in p.ev if x.kind == 'list_del' and p.same(x.a[0], p.n(e.a[2]) + cx.llist)]
            p.need(len(un) == 1 and p.ev.index(un[0]) < p.ev.index(e), 'a slab is unregistered before it is returned', '', e)
        p.need(len(reg) == len(puts) and all(x[0] < 0 for x in reg), 'each slab held is registered once', lambda: '%r' % (reg,))
        p.need_eq(stat(p, cx, 'used'), -cx.objsize, 'used shrinks by one object', 'used')
        p.need_eq(stat(p, cx, 'total'), -cx.S if puts else ZERO, 'total counts the slabs held', 'total')
        nf = p.n(U + L + 1)
        # the object goes to the slab's list
        wr = p.n(p.f(s, 'mslab', 'free_list'))
        fl0 = p.n(I.entry(s + I.offsetof('mslab', 'free_list')[0], 8))
        p.need_eq(wr, ptr, 'a freed object is recycled first', 'free_list')
        p.need_eq(I.rd(p.st, p.n(ptr), 8), fl0, 'a freed object is linked to the previously freed ones', 'link')
        p.need_eq(fin(p, s, 'nfree'), nf, 'each free gives back one object', 'nfree')
        p.need_eq(fin(p, s, 'free_offset'), cx.S - mul(U, cx.objsize), 'untouched objects stay untouched', 'free_offset')
        h, c = placement(p, cx, s, place)
        fh = p.n(p.f(cx.P, 'mempool', 'first_hot_slab'))
        sp = p.n(p.f(cx.P, 'mempool', 'spare'))
        fh0 = p.n(F)
        if mine_gone or (not p.is0(sp) and p.same(sp, s)):
            end = 'gone' if mine_gone else 'spare'
            p.need_eq(nf, cx.objcount, 'only an empty slab is retired', 'objects free')
            p.need(not h and not c, 'a retired slab is neither in the tree nor staged', '')
            p.need_eq(fin(p, s, 'in_hot_slabs'), ZERO, 'a retired slab is not marked available', 'in_hot_slabs')
            p.need(p.differ(fh, s), 'a retired slab is not the first available one', lambda: '%r' % (fh,))
            if mine_gone:
                p.need(spare != 'none', 'the last empty slab is kept', '')
                p.unchanged(cx.P, 'mempool', 'spare', 'the last empty slab is kept')
            elif spare != 'none':
                p.need(sp_gone, 'a replaced spare slab is returned', '')
        else:
            p.need(not puts, 'slabs are returned only when one becomes empty', '')
            p.unchanged(cx.P, 'mempool', 'spare', 'the spare slab is unaffected')
            end = 'hot' if h else 'cold' if c else 'none'
            p.need(h != c, 'a slab with a free object is in exactly one place', 'in %s' % ('both' if h else 'neither'))
            p.need_eq(fin(p, s, 'in_hot_slabs'), ONE if h else ZERO, 'the flag tells whether the slab is in the tree', 'in_hot_slabs')
            thr = I.udiv(p.st, cx.objcount, C(8), 32)
            if place == 'hot':
                p.need(p.differ(nf, cx.objcount), 'an empty slab is retired', lambda: '%r of %r free' % (nf, cx.objcount))
            elif h:
                pass
            if c:
                p.need_ge(cx.objcount, nf + 1, 'a staged slab still holds objects', '')
        out[end] = out.get(end, 0) + 1
        # leftmost
        if place == 'hot':
            if h:
                p.need_eq(fh, fh0, 'the first available slab is remembered', 'first_hot_slab')
            elif p.same(s, fh0):
                nx = [e for e in p.evs('tree_next') if p.same(e.a[1], s)]
                p.need(len(nx) == 1 and p.same(fh, nx[0].a[2]), 'the first available slab is remembered', '')
            else:
                p.need(p.same(fh, fh0) and p.differ(fh0, s), 'the first available slab is remembered', '')
        elif h:
            if p.same(fh, s):
                p.need(p.is0(fh0) or p.ge(fh0, s), 'the first available slab is the lowest', lambda: 'was %r' % (fh0,))
            else:
                p.need(p.same(fh, fh0) and p.ge(s, fh0), 'the first available slab is the lowest', lambda: '%r' % (fh,))
        else:
            p.need_eq(fh, fh0, 'the first available slab is remembered', 'first_hot_slab')
        frame(p, cx, [s] + ([SP] if sp_gone else []), [(p.n(ptr), 8)])
    return out


def rule_alloc(ck):
    for mode in ('fresh', 'recycled'):
        check_alloc(ck, mode)


def rule_free(ck):
    tot = {}
    for mode in ('fresh', 'recycled'):
        for place in ('hot', 'cold', 'full'):
            for spare in ('none', 'above', 'below'):
                for k, v in check_free(ck, mode, place, spare).items():
                    tot[k] = tot.get(k, 0) + v
    for k in ('hot', 'spare'):
        if not tot.get(k):
            ck.gone('no path of free leaves the slab %s' % k)


def rule_create(ck):
    P_, cache = arg('pool', 'mempool'), arg('cache', 'slab_cache')
    objsize, order = arg('objsize', hi=(1 << 32) - 1, bits=32), arg('order', hi=255, bits=8)
    I = ck.interp('plain', models.CACHE, models.TREE, models.ARENA, unit='mempool')
    lb = I.entry(cache + I.offsetof('slab_cache', 'order0_size_lb')[0], 1)
    SZ = pow2(lb + order)
    hdr = (I.structsize('mslab') + 7) // 8 * 8

    def pre(I, st):
        f = st.facts
        f.add_ge(lb - 8)
        f.add_ge(C(31) - lb)
        f.add_ge(C(31) - order)
        f.add_ge(C(31) - lb - order)
        I.pow2facts(st, SZ, lb + order, 64)
        f.add_ge(objsize - 1)
        f.add_ge(SZ - hdr - objsize)
    r = ck.run(I, 'mempool_create_with_order', [P_, cache, objsize, order], pre=pre)
    for p in r.rets:
        g = lambda f: p.n(p.f(P_, 'mempool', f))
        cnt = g('objcount')
        p.need_eq(g('objsize'), objsize, 'the object size is as requested', 'objsize')
        p.need_ge(cnt, 1, 'a slab holds at least one object', 'objcount')
        body = mul(cnt, objsize)
        p.need_eq(g('offset'), SZ - body, 'objects are packed against the end of the slab', 'offset')
        p.need_ge(SZ - body, C(hdr), 'objects do not overlap the slab header', 'offset')
        p.need_ge(C(hdr) + objsize - 1, SZ - body, 'no room for an object is wasted', 'offset')
        p.need_eq(g('slab_ptr_mask'), -SZ, 'objects map to their slab', 'mask')
        p.need_eq(g('slab_order'), order, 'slabs have the given order', 'order', bits=8)
        p.need_eq(g('cache'), cache, 'the pool draws on the given cache', 'cache')
        for f in ('spare', 'first_hot_slab', 'small_mempool', 'slabs.stats.used', 'slabs.stats.total'):
            p.need_eq(g(f), ZERO, 'a new pool holds nothing', f)
        for h in ('slabs.slabs', 'cold_slabs'):
            p.need(list_known_empty(p.st, P_ + I.offsetof('mempool', h)[0]), 'a new pool holds nothing', h)
        for q in ck.run(I, 'mempool_is_initialized', [P_], st=p.st.copy(), unit='headers').rets:
            v = q.n(q.ret)
            q.need(I.decide(q.st, v) is True if isinstance(v, Cond) else q.differ(v, ZERO), 'a created object is known to be one', lambda: '%r' % (v,))
        p.need(any(p.same(e.a[0], P_ + I.offsetof('mempool', 'hot_slabs')[0]) for e in p.evs('tree_new')), 'a new pool holds nothing', 'hot_slabs')
    I2 = ck.interp('plain', unit='headers')
    for q in ck.run(I2, 'mempool_is_initialized', [P_], pre=lambda I, st: I.learn_eq(st, I.entry(P_ + I.offsetof('mempool', 'cache')[0], 8))).rets:
        v = q.n(q.ret)
        q.need(I2.decide(q.st, v) is False if isinstance(v, Cond) else q.is0(v), 'a zeroed object is known not to be one', lambda: '%r' % (v,))
    # ---- creation by object size
    I = ck.interp('plain', models.CACHE, models.TREE, models.ARENA, unit='mempool')
    om = I.entry(cache + I.offsetof('slab_cache', 'order_max')[0], 1)
    arena = I.entry(cache + I.offsetof('slab_cache', 'arena')[0], 8, True)
    SYMS[next(iter(arena.syms()))].tag = 'slab_arena'
    SS = pow2(lb + om)

    def setc(st, a, n, v):
        b, o = I.split(a)
        st.mem.setdefault(b, {})[o] = (n, v)
        st.sub[next(iter(I.entry(a, n).syms()))] = v

    def pre2(I, st):
        f = st.facts
        f.add_ge(lb - 8)
        f.add_ge(C(31) - lb)
        f.add_ge(C(15) - om)
        f.add_ge(C(31) - lb - om)
        I.pow2facts(st, pow2(lb), lb, 64)
        I.pow2facts(st, SS, lb + om, 64)
        f.add_ge(SS - pow2(lb))
        setc(st, cache + I.offsetof('slab_cache', 'order0_size')[0], 4, pow2(lb))
        setc(st, arena + I.offsetof('slab_arena', 'slab_size')[0], 4, SS)
        f.add_ge(objsize - 1)

    def m_create(I, st, v, ins):
        st.event('create', tuple(v), I.loc(ins))
        return [(st, None)]
    I.models['mempool_create_with_order'] = m_create
    r = ck.run(I, 'mempool_create', [P_, cache, objsize], pre=pre2, unit='headers')
    for p in r.rets:
        ev = p.evs('create')
        if not p.need(len(ev) == 1, 'a pool is created once', ''):
            continue
        a = [p.n(x) for x in ev[0].a]
        p.need(p.same(a[0], P_) and p.same(a[1], cache), 'a pool is created once', lambda: '%r' % (a,))
        p.need_eq(a[2], objsize, 'the object size is as requested', 'objsize', bits=32)
        o = I.u(p.st, a[3], 8)
        p.need_ge(om, o, 'the slab order exists', 'order', ev=ev[0])


def rule_destroy(ck):
    cx = Ctx(ck)
    I = cx.I
    I.elem_hook = None
    r = ck.run(I, 'mempool_destroy', [cx.P])

    def one(p, s, evs):
        pu = [e for e in evs if e.kind == 'slab_put']
        p.need(len(pu) == 1 and p.same(pu[0].a[2], s) and p.same(pu[0].a[1], cx.cache), 'every slab of the pool is returned once', lambda: '%r' % (pu,))
    drain(r, cx.slabs, cx.llist, one)
    for p in r.rets:
        p.need_eq(p.f(cx.P, 'mempool', 'cache'), ZERO, 'a destroyed pool is recognisable', 'cache')
    # ---- statistics agree with the counters
    st_ = arg('stats', 'mempool_stats')
    cx = Ctx(ck)
    I = cx.I
    r = ck.run(I, 'mempool_stats', [cx.P, st_], pre=cx.pool)
    for p in r.rets:
        used = p.f0(cx.P, 'mempool', 'slabs.stats.used')
        tot = p.f0(cx.P, 'mempool', 'slabs.stats.total')
        cnt = I.udiv(p.st, p.n(tot), p.n(cx.S), 64)
        p.need_field(st_, 'mempool_stats', 'objsize', cx.objsize, 'reported statistics are the pool\'s')
        p.need_field(st_, 'mempool_stats', 'objcount', I.udiv(p.st, p.n(used), p.n(cx.objsize), 64), 'reported statistics are the pool\'s', bits=32)
        p.need_field(st_, 'mempool_stats', 'totals.used', used, 'reported statistics are the pool\'s')
        p.need_field(st_, 'mempool_stats', 'slabsize', cx.S, 'reported statistics are the pool\'s', bits=32)
        p.need_field(st_, 'mempool_stats', 'slabcount', cnt, 'reported statistics are the pool\'s', bits=32)


prop('M01', 'other', 'typestate of pool slabs and object ledger on every path of mempool_alloc/mempool_free, per fill state, tree/list membership and neighbourhood of the slab', [rule_alloc, rule_free], min_obligations=300)
prop('M02', 'other', 'layout obligations of mempool_create and teardown loops of mempool_destroy', [rule_create, rule_destroy], min_obligations=30)
