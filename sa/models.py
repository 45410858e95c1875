"""Boundary models: what a lower layer's public API does, as seen by its
caller.  Every model is itself the contract that the rule set of that layer
decides on the current source (see rules/*), so layers are checked modularly.
Lists (rlist) are abstract sequences: known front, unknown middle, known back.
"""
from .dom import *
from . import dom
from .interp import LS, Broken

BIG = 1 << 46          # no object or request of the modelled world is larger

# (struct holding the head, path) -> (element struct, link member)
LISTS = {
    ('slab_cache', 'allocated.slabs'): ('slab', 'next_in_cache'),
    ('slab_cache', 'orders[].slabs'): ('slab', 'next_in_list'),
    ('mempool', 'slabs.slabs'): ('mslab', 'slab.next_in_list'),
    ('mempool', 'cold_slabs'): ('mslab', 'next_in_cold'),
    ('region', 'slabs.slabs'): ('rslab', 'slab.next_in_list'),
    ('region', 'allocations'): ('region_allocation', 'link'),
    ('lsregion', 'slabs.slabs'): ('lslab', 'next_in_list'),
    ('lsregion', 'allocations'): ('lsregion_allocation', 'link'),
}


def norm_idx(p):
    import re
    return re.sub(r'\[\d+\]', '[]', p)


def list_kind(I, h):
    """element struct and link offset of the list headed at h"""
    base, off = I.split(h)
    for m, k in base.t:
        if len(m) == 1 and k == 1 and SYMS[m[0]].tag:
            f = I.field_at(SYMS[m[0]].tag, off)
            if f is None:
                continue
            path = norm_idx(f[0])
            for cut in ('.next', '.prev', ''):
                p = path[:-len(cut)] if cut and path.endswith(cut) else path
                key = (SYMS[m[0]].tag, p)
                c = I.lists_cfg.get(key)
                if c:
                    return c[0], I.offsetof(c[0], c[1])[0]
    return None, 0


def lget(I, st, h):
    l = st.lists.get(h)
    if l is None:
        # a node whose links are known to point to itself is an empty list
        b, o = I.split(h)
        tag, off = list_kind(I, h)
        r = opaque('rest0', (h,))
        l = LS((), (S(r), False), ())
        st.lists[h] = l
    return l


def mkelem(I, h, rest, which):
    key = ('elem', which, rest)
    if key in dom.INTERN:
        s = dom.INTERN[key]
    else:
        tag, off = list_kind(I, h)
        s = mksym('%s(%s)' % (which, I.name_addr(h)[0] if not h.is_const() else '?'), 'elem', (),
                  4096, PTR_MAX - 1 - BIG, True, key=key)
        s.tag = tag
    tag, off = list_kind(I, h)
    return S(s) + off


def elem_facts(I, st, h, link):
    st.facts.add_ne(link - h)
    base = I.split(link)[0]
    if I.elem_hook:
        I.elem_hook(I, st, h, link)


def restnext(rest, which):
    return S(opaque('rest-' + which, (rest,)))


def need_end(I, st, h, which):
    """-> list of (state, link or None) : the first/last element of list h"""
    l = lget(I, st, h)
    if which == 'first':
        if l.pre:
            return [(st, l.pre[0])]
    else:
        if l.suf:
            return [(st, l.suf[-1])]
    if l.rest is None:
        if which == 'first':
            return [(st, l.suf[0] if l.suf else None)]
        return [(st, l.pre[-1] if l.pre else None)]
    out = []
    rest, ne = l.rest
    if not ne:
        s2 = st.copy()
        s2.lists[h] = LS(l.pre, None, l.suf)
        s2.notes = (s2.notes, (None, 'list %s exhausted' % I.name_addr(h)[0]))
        if I.list_empty_hook:
            I.list_empty_hook(I, s2, h, rest)
        if not s2.dead:
            out += need_end(I, s2, h, which)
    e = mkelem(I, h, rest, which)
    r2 = (restnext(rest, which), False)
    if which == 'first':
        st.lists[h] = LS(l.pre + (e,), r2, l.suf)
    else:
        st.lists[h] = LS(l.pre, r2, (e,) + l.suf)
    st.notes = (st.notes, (None, 'list %s has a further element' % I.name_addr(h)[0]))
    elem_facts(I, st, h, e)
    if not st.dead:
        out.append((st, e))
    return out


def m_empty(I, st, v, ins):
    h = st.n(v[0])
    l = lget(I, st, h)
    if l.pre or l.suf:
        return [(st, ZERO)]
    if l.rest is None:
        return [(st, ONE)]
    if l.rest[1]:
        return [(st, ZERO)]
    s2 = st.copy()
    s2.lists[h] = LS((), None, ())
    s2.notes = (s2.notes, (I.loc(ins), 'list %s empty' % I.name_addr(h)[0]))
    st.lists[h] = LS((), (l.rest[0], True), ())
    st.notes = (st.notes, (I.loc(ins), 'list %s not empty' % I.name_addr(h)[0]))
    if I.list_empty_hook:
        I.list_empty_hook(I, s2, h, l.rest[0])
    return [(s, r) for s, r in ((s2, ONE), (st, ZERO)) if not s.dead]


def m_first(I, st, v, ins):
    h = st.n(v[0])
    return [(s, s.n(e) if e is not None else s.n(h)) for s, e in need_end(I, st, h, 'first')]


def m_last(I, st, v, ins):
    h = st.n(v[0])
    return [(s, s.n(e) if e is not None else s.n(h)) for s, e in need_end(I, st, h, 'last')]


def find_item(st, item):
    for h, l in st.lists.items():
        for i, e in enumerate(l.pre):
            if e == item:
                return h, 'pre', i
        for i, e in enumerate(l.suf):
            if e == item:
                return h, 'suf', i
    return None


def m_step(which):
    def f(I, st, v, ins):
        item = st.n(v[0])
        w = find_item(st, item)
        if w is None:
            if item in st.lists or list_kind(I, item)[0]:
                return (m_first if which == 'next' else m_last)(I, st, v, ins)
            # a cursor somewhere inside a list: its neighbour is unknown (it may
            # be the head) ; one name per (cursor, epoch)
            s = opaque('l' + which, (item, C(st.ghost.get(('lepoch',), 0))), 4096, PTR_MAX - 1 - BIG, True)
            tag = None
            b, off = I.split(item)
            if len(b.t) == 1:
                tag = SYMS[b.t[0][0][0]].tag
            # the container, not the link, is what fields are read from
            s2 = cont_sym(I, s, tag, off)
            st.event('l' + which, (item, S(s), s2 + off), I.loc(ins))
            return [(st, s2 + off)]
        h, part, i = w
        l = st.lists[h]
        if which == 'next':
            if part == 'pre':
                if i + 1 < len(l.pre):
                    return [(st, l.pre[i + 1])]
                if l.rest is None:
                    return [(st, l.suf[0] if l.suf else h)]
                return mid(I, st, h, 'first')
            return [(st, l.suf[i + 1] if i + 1 < len(l.suf) else h)]
        if part == 'suf':
            if i > 0:
                return [(st, l.suf[i - 1])]
            if l.rest is None:
                return [(st, l.pre[-1] if l.pre else h)]
            return mid(I, st, h, 'last')
        return [(st, l.pre[i - 1] if i else h)]
    return f


def cont_sym(I, s, tag, off):
    key = ('cont', s.id)
    if key in dom.INTERN:
        return S(dom.INTERN[key])
    c = mksym('%s' % s.name, 'cont', (), 1, PTR_MAX - 1 - BIG, True, key=key)
    c.tag = tag
    return S(c)


def mid(I, st, h, which):
    l = st.lists[h]
    rest, ne = l.rest
    out = []
    if not ne:
        s2 = st.copy()
        s2.lists[h] = LS(l.pre, None, l.suf)
        s2.notes = (s2.notes, (None, 'list %s exhausted' % I.name_addr(h)[0]))
        if which == 'first':
            out.append((s2, l.suf[0] if l.suf else h))
        else:
            out.append((s2, l.pre[-1] if l.pre else h))
    e = mkelem(I, h, rest, which)
    r2 = (restnext(rest, which), False)
    if which == 'first':
        st.lists[h] = LS(l.pre + (e,), r2, l.suf)
    else:
        st.lists[h] = LS(l.pre, r2, (e,) + l.suf)
    elem_facts(I, st, h, e)
    if not st.dead:
        out.append((st, e))
    return out


def epoch(st):
    st.ghost[('lepoch',)] = st.ghost.get(('lepoch',), 0) + 1


def touch(I, st, link, ins, what='list'):
    I.check_access(st, link, ins, what)


def m_create(I, st, v, ins):
    h = st.n(v[0])
    touch(I, st, h, ins)
    st.lists[h] = LS((), None, ())
    st.event('list_create', (h,), I.loc(ins))
    return [(st, None)]


def detach(st, item):
    w = find_item(st, item)
    if w is None:
        return None
    h, part, i = w
    l = st.lists[h]
    if part == 'pre':
        st.lists[h] = LS(l.pre[:i] + l.pre[i + 1:], l.rest, l.suf)
    else:
        st.lists[h] = LS(l.pre, l.rest, l.suf[:i] + l.suf[i + 1:])
    return h


def m_add(tail):
    def f(I, st, v, ins):
        h, item = st.n(v[0]), st.n(v[1])
        touch(I, st, item, ins)
        touch(I, st, h, ins)
        l = lget(I, st, h)
        w = find_item(st, item)
        if w is not None:
            st.event('list_add_linked', (h, item, w[0]), I.loc(ins))
        if tail:
            st.lists[h] = LS(l.pre, l.rest, l.suf + (item,)) if l.rest is not None else \
                LS(l.pre + l.suf + (item,), None, ())
        else:
            st.lists[h] = LS((item,) + l.pre, l.rest, l.suf)
        if item in st.lists:
            del st.lists[item]
        st.event('list_add_tail' if tail else 'list_add', (h, item), I.loc(ins))
        return [(st, None)]
    return f


def m_del(I, st, v, ins):
    item = st.n(v[0])
    touch(I, st, item, ins)
    h = detach(st, item)
    st.lists[item] = LS((), None, ())
    st.event('list_del', (item, h), I.loc(ins))
    return [(st, None)]


def m_shift(which):
    def f(I, st, v, ins):
        h = st.n(v[0])
        out = []
        for s, e in need_end(I, st, h, 'first' if which == 'shift' else 'last'):
            if e is None:
                s.event('shift_empty', (h,), I.loc(ins))
                out.append((s, h))
                continue
            e = s.n(e)
            detach(s, e)
            s.lists[e] = LS((), None, ())
            s.event('list_del', (e, h), I.loc(ins))
            out.append((s, e))
        return out
    return f


def m_move(tail):
    def f(I, st, v, ins):
        h, item = st.n(v[0]), st.n(v[1])
        r = m_del(I, st, [item], ins)
        return m_add(tail)(I, st, [h, item], ins)
    return f


def m_swap(I, st, v, ins):
    a, b = st.n(v[0]), st.n(v[1])
    touch(I, st, a, ins)
    touch(I, st, b, ins)
    la, lb = lget(I, st, a), lget(I, st, b)
    st.lists[a], st.lists[b] = lb, la
    st.event('list_swap', (a, b), I.loc(ins))
    return [(st, None)]


def m_splice(tail):
    def f(I, st, v, ins):
        to, frm = st.n(v[0]), st.n(v[1])
        touch(I, st, to, ins)
        touch(I, st, frm, ins)
        a, b = lget(I, st, to), lget(I, st, frm)
        x, y = (a, b) if tail else (b, a)
        if x.rest is None:
            l = LS(x.pre + x.suf + y.pre, y.rest, y.suf)
        elif y.rest is None:
            l = LS(x.pre, x.rest, x.suf + y.pre + y.suf)
        elif not (x.suf or y.pre):
            l = LS(x.pre, (S(opaque('rest-cat', (x.rest[0], y.rest[0]))), x.rest[1] or y.rest[1]), y.suf)
        else:
            raise Broken('concatenation of two partly known lists')
        st.lists[to] = l
        st.lists[frm] = LS((), None, ())
        st.event('list_splice', (to, frm), I.loc(ins))
        return [(st, None)]
    return f


def m_cut(I, st, v, ins):
    raise Broken('rlist_cut_before is not modelled')


RLIST = {
    'rlist_swap': m_swap, 'rlist_splice': m_splice(False), 'rlist_splice_tail': m_splice(True),
    'rlist_cut_before': m_cut,
    'rlist_empty': m_empty, 'rlist_first': m_first, 'rlist_last': m_last,
    'rlist_next': m_step('next'), 'rlist_prev': m_step('prev'),
    'rlist_create': m_create, 'rlist_add': m_add(False), 'rlist_add_tail': m_add(True),
    'rlist_del': m_del, 'rlist_shift': m_shift('shift'), 'rlist_shift_tail': m_shift('tail'),
    'rlist_move': m_move(False), 'rlist_move_tail': m_move(True),
}


# ------------------------------------------------------------------ allocation
def newobj(I, st, name, tag=None, size=None, align=None):
    s = fresh(name, 4096, PTR_MAX - 1 - BIG, True, kind='obj')
    s.tag = tag
    o = S(s)
    st.objs[o] = 'live'
    if align is not None:
        st.ghost[('align', s.id)] = align
    return o


def note(st, I, ins, txt):
    st.notes = (st.notes, (I.loc(ins) if ins is not None else None, txt))


def released(I, st, p, ins, kind):
    p = st.n(p)
    cur = st.objs.get(p)
    if cur is None:
        # an object reached by a different offset of the same root
        for k in st.objs:
            d = p - k
            if d.is_const() and d.c and I.roots(k) == I.roots(p) and st.objs[k] == 'released':
                pass
    if cur == 'released':
        st.event('double_release', (kind, p), I.loc(ins))
    st.objs[p] = 'released'
    st.event('release', (kind, p), I.loc(ins))


def m_malloc(I, st, v, ins):
    s2 = st.copy()
    note(s2, I, ins, 'malloc fails')
    s2.event('allocfail', ('malloc', v[0]), I.loc(ins))
    o = newobj(I, st, 'malloc@%s:%d' % I.loc(ins))
    st.event('alloc', ('malloc', o, v[0]), I.loc(ins))
    st.ghost[('size', o)] = st.n(v[0])
    return [(s2, ZERO), (st, o)]


def m_calloc(I, st, v, ins):
    # what the block holds is left open
    n = [st.n(x) for x in v[:2]]
    if not any(x.is_const() for x in n):
        raise Broken('calloc of a product that is not constant')
    return I.models.get('malloc', m_malloc)(I, st, [mul(n[0], n[1])], ins)


def m_realloc(I, st, v, ins):
    raise Broken('realloc not modelled')


def m_free(I, st, v, ins):
    p = st.n(v[0])
    if p.is_const() and p.c == 0:
        return [(st, None)]
    released(I, st, p, ins, 'free')
    return [(st, None)]


def m_mmap(I, st, v, ins):
    s2 = st.copy()
    note(s2, I, ins, 'mmap fails')
    s2.event('allocfail', ('mmap', v[1]), I.loc(ins))
    o = newobj(I, st, 'mmap')
    st.event('alloc', ('mmap', o, v[1], v[3]), I.loc(ins))
    return [(s2, C(-1)), (st, o)]


def m_munmap(I, st, v, ins):
    s2 = st.copy()
    s2.dead = True
    st.event('munmap', (st.n(v[0]), st.n(v[1])), I.loc(ins))
    return [(st, ZERO)]


def m_sys0(name):
    def f(I, st, v, ins):
        st.event('sys', (name,) + tuple(v), I.loc(ins))
        s2 = st.copy()
        return [(st, ZERO)]
    return f


def m_pagesize(I, st, v, ins):
    s = S(mksym('pagesize', 'arg', (), 4096, 65536, False, key='pagesize'))
    st.ghost[('pow2', next(iter(s.syms())))] = True
    return [(st, s)]


SYS = {
    'malloc': m_malloc, 'calloc': m_calloc, 'free': m_free, 'realloc': m_realloc,
    'mmap': m_mmap, 'munmap': m_munmap, 'madvise': m_sys0('madvise'),
    'mprotect': m_sys0('mprotect'),
    'small_getpagesize': m_pagesize,
    'pthread_self': lambda I, st, v, ins: [(st, S(mksym('self', 'arg', (), 0, U64 - 1, False, key='pthself')))],
    'pthread_equal': lambda I, st, v, ins: [(st, ONE)],
    '__errno_location': lambda I, st, v, ins: [(st, S(mksym('errno_p', 'arg', (), 4096, PTR_MAX - 1, True, key='errnop')))],
}


# ------------------------------------------------------------------ quota
def m_quota_use(I, st, v, ins):
    q, n = st.n(v[0]), I.u(st, st.n(v[1]), 64)
    s2 = st.copy()
    note(s2, I, ins, 'quota exhausted')
    s2.event('quota_use_fail', (q, n), I.loc(ins))
    r = I.udiv(st, n + 1023, C(1024), 64).scale(1024)
    st.facts.add_ge(r - n)
    st.facts.add_ge(n + 1023 - r)
    # never more than a quota can hold (Q01)
    st.facts.add_ge(C(1024 * ((1 << 32) - 1)) - r)
    st.event('quota_use', (q, n, r), I.loc(ins))
    return [(s2, C(-1)), (st, r)]


def m_quota_release(I, st, v, ins):
    q, n = st.n(v[0]), I.u(st, st.n(v[1]), 64)
    r = I.udiv(st, n + 1023, C(1024), 64).scale(1024)
    st.facts.add_ge(r - n)
    st.facts.add_ge(n + 1023 - r)
    st.event('quota_release', (q, n, r), I.loc(ins))
    return [(st, r)]


QUOTA = {'quota_use': m_quota_use, 'quota_release': m_quota_release}


# ------------------------------------------------------------------ arena
def m_slab_map(I, st, v, ins):
    a = st.n(v[0])
    s2 = st.copy()
    note(s2, I, ins, 'arena exhausted')
    s2.event('allocfail', ('slab_map', a), I.loc(ins))
    o = newobj(I, st, 'mapped', getattr(I, 'map_tag', 'slab'))
    ss = I.rd(st, a + I.offsetof('slab_arena', 'slab_size')[0], 4)
    st.ghost[('align', next(iter(o.syms())))] = ss
    st.event('alloc', ('slab_map', o, a), I.loc(ins))
    return [(s2, ZERO), (st, o)]


def m_slab_unmap(I, st, v, ins):
    a, p = st.n(v[0]), st.n(v[1])
    released(I, st, p, ins, 'slab_unmap')
    st.event('slab_unmap', (a, p), I.loc(ins))
    return [(st, None)]


def m_lifo_pop(I, st, v, ins):
    s2 = st.copy()
    note(s2, I, ins, 'cache of slabs empty')
    s2.event('lifo_empty', (v[0],), I.loc(ins))
    o = newobj(I, st, 'popped')
    del st.objs[o]
    st.event('lifo_pop', (v[0], o), I.loc(ins))
    return [(s2, ZERO), (st, o)]


def m_lifo_push(I, st, v, ins):
    st.event('lifo_push', (st.n(v[0]), st.n(v[1])), I.loc(ins))
    return [(st, v[0])]


def m_lifo_init(I, st, v, ins):
    st.event('lifo_init', (st.n(v[0]),), I.loc(ins))
    return [(st, None)]


LIFO = {'lf_lifo_pop': m_lifo_pop, 'lf_lifo_push': m_lifo_push, 'lf_lifo_init': m_lifo_init}

ARENA = {'slab_map': m_slab_map, 'slab_unmap': m_slab_unmap}


# ------------------------------------------------------------------ slab cache
def slabsizeof(I):
    sz = I.structsize('slab')
    return (sz + 7) // 8 * 8


def m_slab_get(kind, tag):
    def f(I, st, v, ins):
        cache, n = st.n(v[0]), st.n(v[1])
        s2 = st.copy()
        note(s2, I, ins, '%s fails' % kind)
        s2.event('allocfail', (kind, cache, n), I.loc(ins))
        o = newobj(I, st, 'slab', I.slab_tag)
        soff, ssz = I.offsetof('slab', 'size')
        if kind == 'slab_get_with_order':
            n = I.u(st, n, 8)
            sz = order_size(I, st, cache, n)
            st.ghost[('align', next(iter(o.syms())))] = sz
        else:
            sz = S(fresh('slab.size', 0, BIG))
        for s3 in I.store(st, o + soff, ssz, sz):
            pass
        if kind == 'slab_get_with_order':
            pass
        elif kind == 'slab_get':
            # at least the request plus the header
            st.facts.add_ge(sz - n - slabsizeof(I))
        else:
            st.facts.add_ge(sz - n - slabsizeof(I))
            st.facts.add_ge(n + slabsizeof(I) - sz)
        st.ghost[('slabreq', o)] = n
        st.event('alloc', (kind, o, cache, n), I.loc(ins))
        return [(s2, ZERO), (st, o)]
    return f


def order_size(I, st, cache, order):
    """2^(order0_size_lb + order); that this is the size is decided by C01/C02"""
    lb = I.rd(st, cache + I.offsetof('slab_cache', 'order0_size_lb')[0], 1)
    f = pow2(st.n(lb + order))
    I.pow2facts(st, f, st.n(lb + order), 64)
    return f


def m_slab_put(kind):
    def f(I, st, v, ins):
        cache, p = st.n(v[0]), st.n(v[1])
        released(I, st, p, ins, kind)
        st.event('slab_put', (kind, cache, p), I.loc(ins))
        return [(st, None)]
    return f


def m_slab_real_size(I, st, v, ins):
    cache, n = st.n(v[0]), st.n(v[1])
    s = S(opaque('real_size', (cache, n), 0, BIG))
    st.facts.add_ge(s - n - slabsizeof(I))
    return [(st, s)]


CACHE = {
    'slab_get': m_slab_get('slab_get', 'slab'),
    'slab_get_large': m_slab_get('slab_get_large', 'slab'),
    'slab_get_with_order': m_slab_get('slab_get_with_order', 'slab'),
    'slab_put': m_slab_put('slab_put'), 'slab_put_large': m_slab_put('slab_put_large'),
    'slab_put_with_order': m_slab_put('slab_put_with_order'),
    'slab_real_size': m_slab_real_size,
}


# ------------------------------------------------------------------ tree of hot slabs
def m_tree_add(I, st, v, ins):
    st.event('tree_add', (st.n(v[0]), st.n(v[1])), I.loc(ins))
    return [(st, None)]


def m_tree_del(I, st, v, ins):
    st.event('tree_del', (st.n(v[0]), st.n(v[1])), I.loc(ins))
    return [(st, None)]


def m_tree_next(I, st, v, ins):
    t, s = st.n(v[0]), st.n(v[1])
    s2 = st.copy()
    note(s2, I, ins, 'no successor in the tree')
    s2.event('tree_next', (t, s, ZERO), I.loc(ins))
    y = fresh('hot.next', 4096, PTR_MAX - 1 - BIG, True, kind='obj')
    y.tag = 'mslab'
    st.facts.add_ge(S(y) - s - 1)
    st.event('tree_next', (t, s, S(y)), I.loc(ins))
    return [(s2, ZERO), (st, S(y))]


TREE = {'mslab_tree_insert': m_tree_add, 'mslab_tree_remove': m_tree_del, 'mslab_tree_next': m_tree_next,
        'mslab_tree_new': lambda I, st, v, ins: (st.event('tree_new', (st.n(v[0]),), I.loc(ins)), [(st, None)])[1]}


# ------------------------------------------------------------------ asan helpers
def m_asan_alloc(I, st, v, ins):
    payload, align, unused = st.n(v[0]), st.n(v[1]), st.n(v[2])
    o = newobj(I, st, 'asan_hdr', I.asan_tag)
    st.event('alloc', ('small_asan_alloc', o, payload, align, unused), I.loc(ins))
    st.ghost[('payload', o)] = payload
    return [(st, o)]


def m_asan_free(I, st, v, ins):
    p = st.n(v[0])
    released(I, st, p, ins, 'small_asan_free')
    return [(st, None)]


def m_asan_payload(I, st, v, ins):
    p = st.n(v[0])
    key = ('payload_of', p)
    s = opaque('payload', (p,), 4096, PTR_MAX - 1 - BIG, True)
    return [(st, S(s))]


def m_noop(I, st, v, ins):
    return [(st, None)]


ASAN = {
    'small_asan_alloc': m_asan_alloc, 'small_asan_free': m_asan_free,
    'small_asan_payload_from_header': m_asan_payload,
    '__asan_poison_memory_region': m_noop, '__asan_unpoison_memory_region': m_noop,
}


def bundle(*ds):
    out = dict(RLIST)
    out.update(SYS)
    for d in ds:
        out.update(d)
    return out


# ------------------------------------------------------------------ memory-checking build
def m_poison(kind):
    def f(I, st, v, ins):
        st.event(kind, (st.n(v[0]), st.n(v[1])), I.loc(ins))
        return [(st, None)]
    return f


POISON = {'__asan_poison_memory_region': m_poison('poison'), '__asan_unpoison_memory_region': m_poison('unpoison')}
