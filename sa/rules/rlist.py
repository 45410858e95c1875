"""Intrusive lists: the ring operations themselves (the other rules use them
as an abstract sequence).

A list operation reaches at most the neighbours of the nodes it is given, so
rings of up to four nodes show every way these nodes can coincide; addresses
are symbols.  Expected: the sequence the operation is named for."""
from . import prop
from .. import irgen
from ..contract import *

_wit = {}

WIT = '''
#include <stddef.h>
#include "rlist.h"
#include "slab_list.h"
struct wit { long pad[3]; struct rlist link; long size; };
void wit_visit(void *item);
#define WALK(name, macro) void name(struct rlist *head) { struct wit *it; macro(it, head, link) wit_visit(it); }
WALK(wit_foreach_entry, rlist_foreach_entry)
WALK(wit_foreach_entry_reverse, rlist_foreach_entry_reverse)
#define WALK0(name, macro) void name(struct rlist *head) { struct rlist *it; macro(it, head) wit_visit(it); }
WALK0(wit_foreach, rlist_foreach)
WALK0(wit_foreach_reverse, rlist_foreach_reverse)
#define WALKS(name, macro) void name(struct rlist *head) { struct wit *it, *tmp; macro(it, head, link, tmp) wit_visit(it); }
WALKS(wit_foreach_entry_safe, rlist_foreach_entry_safe)
WALKS(wit_foreach_entry_safe_reverse, rlist_foreach_entry_safe_reverse)
#define WALKD(name, macro) void name(struct rlist *head) { struct wit *it, *tmp; macro(it, head, link, tmp) { rlist_del_entry(it, link); wit_visit(it); } }
WALKD(wit_del_safe, rlist_foreach_entry_safe)
WALKD(wit_del_safe_reverse, rlist_foreach_entry_safe_reverse)
struct wit *wit_first(struct rlist *head) { return rlist_first_entry(head, struct wit, link); }
struct wit *wit_last(struct rlist *head) { return rlist_last_entry(head, struct wit, link); }
struct wit *wit_next(struct wit *it) { return rlist_next_entry(it, link); }
struct wit *wit_prev(struct wit *it) { return rlist_prev_entry(it, link); }
struct wit *wit_prev_safe(struct wit *it, struct rlist *head) { return rlist_prev_entry_safe(it, head, link); }
struct wit *wit_shift(struct rlist *head) { return rlist_shift_entry(head, struct wit, link); }
struct wit *wit_shift_tail(struct rlist *head) { return rlist_shift_tail_entry(head, struct wit, link); }
void wit_add(struct rlist *head, struct wit *it) { rlist_add_entry(head, it, link); }
void wit_add_tail(struct rlist *head, struct wit *it) { rlist_add_tail_entry(head, it, link); }
void wit_move(struct rlist *to, struct wit *it) { rlist_move_entry(to, it, link); }
void wit_move_tail(struct rlist *to, struct wit *it) { rlist_move_tail_entry(to, it, link); }
void wit_del(struct wit *it) { rlist_del_entry(it, link); }
void wit_init(struct rlist *out) { struct rlist r = RLIST_HEAD_INITIALIZER(*out); *out = r; }
void wit_use(struct rlist *);
void wit_head(void) { RLIST_HEAD(h); wit_use(&h); }
void wit_slab_add(struct slab_list *l, struct wit *it) { slab_list_add(l, it, link); }
void wit_slab_del(struct slab_list *l, struct wit *it) { slab_list_del(l, it, link); }
'''


def interp(ck):
    if 'm' not in _wit:
        _wit['m'] = irgen.build('plain', only=[], extra_tu={'witness': WIT})
    I = Interp(_wit['m'], 'witness')
    I.models = {}
    I.lists_cfg = {}
    I.elem_hook = None
    I.list_empty_hook = None
    I.slab_tag = None
    I.asan_tag = None
    I.cfg = 'plain'
    I.unroll_open = True
    return I


class Rings:
    """heads and nodes with fixed links; names are symbols"""

    def __init__(self, ck, link=0):
        self.ck = ck
        self.I = I = interp(ck)
        self.NX, self.PV = I.offsetof('rlist', 'next')[0], I.offsetof('rlist', 'prev')[0]
        self.nodes = {}
        self.rings = []
        self.L = link

    def node(self, n):
        if n not in self.nodes:
            self.nodes[n] = arg(n, ptr=True)
        return self.nodes[n]

    def link(self, n):
        """address of the links of a node (heads: the address itself)"""
        return self.node(n) + (0 if n[0] == 'H' else self.L)

    def ring(self, *names):
        self.rings.append(names)
        for n in names:
            self.node(n)

    def pre(self, I, st):
        ns = list(self.nodes.values())
        for i, a in enumerate(ns):
            for b in ns[:i]:
                for d in {0, self.L, -self.L}:
                    st.facts.add_ne(a - b + d)
        for r in self.rings:
            for a, b in zip(r, r[1:] + r[:1]):
                st.mem.setdefault(self.link(a), {})
                I.store(st, self.link(a) + self.NX, 8, self.link(b))
                I.store(st, self.link(b) + self.PV, 8, self.link(a))
        st.events = None if st.events is None else st.events

    def name(self, st, f):
        f = st.n(f)
        for n in self.nodes:
            if st.n(self.link(n)) == f:
                return n
        return repr(f)

    def read(self, st):
        """links of all nodes, by name"""
        out = {}
        for n in self.nodes:
            nx = self.I.rd(st, self.link(n) + self.NX, 8, True)
            pv = self.I.rd(st, self.link(n) + self.PV, 8, True)
            out[n] = (self.name(st, nx), self.name(st, pv))
        return out

    def go(self, fn, args, rings, rule, ret=None, visited=None, free=(), cond=None):
        """run fn; afterwards exactly the given rings must be linked.  free:
        nodes whose own links no longer matter"""
        I, ck = self.I, self.ck
        seen = []
        I.models['wit_visit'] = lambda I, st, v, ins: (st.event('visit', (self.vname(st, v[0]),), I.loc(ins)), [(st, None)])[1]
        r = ck.run(I, fn, args, pre=self.pre)
        want = {}
        for g in rings:
            for a, b in zip(g, g[1:] + g[:1]):
                want.setdefault(a, [None, None])[0] = b
                want.setdefault(b, [None, None])[1] = a
        desc = ' '.join('(%s)' % ' '.join(x) for x in self.rings)
        for p in r.rets:
            got = self.read(p.st)
            for n in self.nodes:
                if n in free or n not in want:
                    continue
                p.need(got[n] == tuple(want[n]), rule, lambda: 'rings %s: %s has next %s, prev %s; expected %s, %s' % ((desc, n) + got[n] + tuple(want[n])))
            if ret is not None:
                g = p.n(p.ret)
                p.need(g == p.n(ret), rule, lambda: 'rings %s: result %r, expected %r' % (desc, g, ret))
            if cond is not None:
                p.need(p.is0(p.ret) if not cond else p.differ(p.ret, ZERO), rule, lambda: 'rings %s: result %r' % (desc, p.ret))
            if visited is not None:
                v = [e.a[0] for e in p.evs('visit')]
                p.need(v == list(visited), rule, lambda: 'rings %s: visited %s' % (desc, ' '.join(v)))
        return r

    def vname(self, st, f):
        f = st.n(f)
        for n, a in self.nodes.items():
            if f == st.n(a):
                return n
        return repr(f)


def N(k, b='a'):
    return tuple('%s%d' % (b, i) for i in range(1, k + 1))


def rule_prims(ck):
    R = lambda *rings: _mk(ck, *rings)
    lens = range(0, 5)
    x = Rings(ck)
    x.node('H')
    x.go('rlist_create', [x.node('H')], [('H',)], 'a new list is empty')
    for k in lens:
        a = N(k)
        ring = ('H',) + a
        for fn, res, want in (('rlist_first', ring[1 % (k + 1)], 0), ('rlist_last', ring[-1], 0), ('rlist_next', ring[1 % (k + 1)], 0), ('rlist_prev', ring[-1], 0)):
            q = R(ring)
            q.go(fn, [q.node('H')], [ring], 'neighbours are found', ret=q.node(res))
        q = R(ring)
        q.go('rlist_empty', [q.node('H')], [ring], 'emptiness is exact', cond=(k == 0))
        for i in range(k + 1):
            # add behind / before any node of the ring
            q = R(ring)
            q.node('x')
            q.go('rlist_add', [q.node(ring[i]), q.node('x')], [ring[:i + 1] + ('x',) + ring[i + 1:]], 'added exactly where asked')
            q = R(ring)
            q.node('x')
            w = ring[:i] + ('x',) + ring[i:] if i else ring + ('x',)
            q.go('rlist_add_tail', [q.node(ring[i]), q.node('x')], [w], 'added exactly where asked')
        for i in range(1, k + 1):
            rest = ring[:i] + ring[i + 1:]
            q = R(ring)
            q.go('rlist_del', [q.node(ring[i])], [rest, (ring[i],)], 'exactly the element is removed')
            # moved within the list: after/before the head and every other element
            for j in range(k + 1):
                if j == i:
                    continue
                to = ring[j]
                at = rest.index(to)
                q = R(ring)
                q.go('rlist_move', [q.node(to), q.node(ring[i])], [rest[:at + 1] + (ring[i],) + rest[at + 1:]], 'moved exactly where asked')
                q = R(ring)
                w = rest[:at] + (ring[i],) + rest[at:] if at else rest + (ring[i],)
                q.go('rlist_move_tail', [q.node(to), q.node(ring[i])], [w], 'moved exactly where asked')
            for k2 in range(0, 3):
                r2 = ('H2',) + N(k2, 'b')
                q = R(ring, r2)
                q.go('rlist_move', [q.node('H2'), q.node(ring[i])], [rest, ('H2', ring[i]) + r2[1:]], 'moved exactly where asked')
                q = R(ring, r2)
                q.go('rlist_move_tail', [q.node('H2'), q.node(ring[i])], [rest, r2 + (ring[i],)], 'moved exactly where asked')
        if k:
            q = R(ring)
            q.go('rlist_shift', [q.node('H')], [('H',) + a[1:], (a[0],)], 'taken from the named end', ret=q.node(a[0]))
            q = R(ring)
            q.go('rlist_shift_tail', [q.node('H')], [('H',) + a[:-1], (a[-1],)], 'taken from the named end', ret=q.node(a[-1]))
        for k2 in range(0, 4):
            b = N(k2, 'b')
            r2 = ('H2',) + b
            q = R(ring, r2)
            q.go('rlist_swap', [q.node('H'), q.node('H2')], [('H',) + b, ('H2',) + a], 'lists are exchanged')
            q = R(ring, r2)
            q.go('rlist_splice', [q.node('H'), q.node('H2')], [('H',) + b + a, ('H2',)], 'lists are joined in order')
            q = R(ring, r2)
            q.go('rlist_splice_tail', [q.node('H'), q.node('H2')], [('H',) + a + b, ('H2',)], 'lists are joined in order')
            if k == 0:
                # the head to cut into need not be a list yet
                for i in range(0, k2 + 1):
                    item = b[i] if i < k2 else 'H2'
                    q = R(r2)
                    q.node('H')
                    q.go('rlist_cut_before', [q.node('H'), q.node('H2'), q.node(item)], [('H',) + b[:i], ('H2',) + b[i:]], 'cut exactly before the element')
            if k < 3:
                # the old content of the first list is discarded
                for i in range(0, k2 + 1):
                    item = b[i] if i < k2 else 'H2'
                    q = R(ring, r2)
                    q.go('rlist_cut_before', [q.node('H'), q.node('H2'), q.node(item)], [('H',) + b[:i], ('H2',) + b[i:]], 'cut exactly before the element', free=a)


def _mk(ck, *rings):
    q = Rings(ck)
    for r in rings:
        q.ring(*r)
    return q


def rule_macros(ck):
    I = interp(ck)
    off = I.offsetof('wit', 'link')[0]

    def R(*rings):
        q = Rings(ck, off)
        for r in rings:
            q.ring(*r)
        return q
    for k in range(0, 5):
        a = N(k)
        ring = ('H',) + a
        for fn, vis in (('wit_foreach_entry', a), ('wit_foreach_entry_reverse', a[::-1]),
                        ('wit_foreach_entry_safe', a), ('wit_foreach_entry_safe_reverse', a[::-1])):
            q = R(ring)
            q.go(fn, [q.node('H')], [ring], 'every element is visited once and in order', visited=vis)
        for fn, vis in (('wit_del_safe', a), ('wit_del_safe_reverse', a[::-1])):
            q = R(ring)
            q.go(fn, [q.node('H')], [('H',)] + [(x,) for x in a], 'elements may be removed while visited', visited=vis)
        for fn, vis in (('wit_foreach', a), ('wit_foreach_reverse', a[::-1])):
            q = _mk(ck, ring)
            q.go(fn, [q.node('H')], [ring], 'every element is visited once and in order', visited=vis)
        for i in range(1, k + 1):
            q = R(ring)
            if i < k:
                q.go('wit_next', [q.node(ring[i])], [ring], 'neighbours are found', ret=q.node(ring[i + 1]))
            q = R(ring)
            if i > 1:
                q.go('wit_prev', [q.node(ring[i])], [ring], 'neighbours are found', ret=q.node(ring[i - 1]))
            q = R(ring)
            q.go('wit_prev_safe', [q.node(ring[i]), q.node('H')], [ring], 'neighbours are found', ret=q.node(ring[i - 1]) if i > 1 else ZERO)
            q = R(ring)
            q.go('wit_del', [q.node(ring[i])], [ring[:i] + ring[i + 1:], (ring[i],)], 'exactly the element is removed')
            q = R(ring, ('H2', 'b1'))
            q.go('wit_move', [q.node('H2'), q.node(ring[i])], [ring[:i] + ring[i + 1:], ('H2', ring[i], 'b1')], 'moved exactly where asked')
            q = R(ring, ('H2', 'b1'))
            q.go('wit_move_tail', [q.node('H2'), q.node(ring[i])], [ring[:i] + ring[i + 1:], ('H2', 'b1', ring[i])], 'moved exactly where asked')
        if k:
            q = R(ring)
            q.go('wit_first', [q.node('H')], [ring], 'neighbours are found', ret=q.node(a[0]))
            q = R(ring)
            q.go('wit_last', [q.node('H')], [ring], 'neighbours are found', ret=q.node(a[-1]))
            q = R(ring)
            q.go('wit_shift', [q.node('H')], [('H',) + a[1:], (a[0],)], 'taken from the named end', ret=q.node(a[0]))
            q = R(ring)
            q.go('wit_shift_tail', [q.node('H')], [('H',) + a[:-1], (a[-1],)], 'taken from the named end', ret=q.node(a[-1]))
        q = R(ring)
        q.node('x')
        q.go('wit_add', [q.node('H'), q.node('x')], [('H', 'x') + a], 'added exactly where asked')
        q = R(ring)
        q.node('x')
        q.go('wit_add_tail', [q.node('H'), q.node('x')], [ring + ('x',)], 'added exactly where asked')
    q = Rings(ck)
    q.node('H')
    q.go('wit_init', [q.node('H')], [('H',)], 'a new list is empty')
    I = interp(ck)
    got = []

    def use(I, st, v, ins):
        nx, pv = (I.rd(st, v[0] + I.offsetof('rlist', f)[0], 8, True) for f in ('next', 'prev'))
        got.append((st.n(v[0]), st.n(nx), st.n(pv)))
        return [(st, None)]
    I.models['wit_use'] = use
    r = ck.run(I, 'wit_head', [])
    for p in r.rets:
        p.need(len(got) == 1 and got[0][0] == got[0][1] == got[0][2], 'a new list is empty', lambda: '%r' % got)


def rule_counted(ck):
    """slab lists: the total follows the elements"""
    I = interp(ck)
    l, it = arg('l', 'slab_list'), arg('it', 'wit')
    so, sz = I.offsetof('wit', 'size')
    for fn, d in (('wit_slab_add', 1), ('wit_slab_del', -1)):
        I = interp(ck)
        from .. import models
        I.models = dict(models.RLIST)
        I.lists_cfg = {('slab_list', 'slabs'): ('wit', 'link')} if isinstance(models.LISTS, dict) else models.LISTS
        ev = []
        for f in ('rlist_add', 'rlist_del', 'rlist_add_tail'):
            I.models[f] = lambda I, st, v, ins, f=f: (st.event(f, tuple(st.n(x) for x in v), I.loc(ins)), [(st, None)])[1]
        r = ck.run(I, fn, [l, it])
        for p in r.rets:
            e = p.evs('rlist_add', 'rlist_del', 'rlist_add_tail')
            lk = it + I.offsetof('wit', 'link')[0]
            p.need(len(e) == 1 and p.same(e[0].a[-1], lk) and (e[0].kind == 'rlist_del') == (d < 0), 'a counted list changes by the element', lambda: '%r' % e)
            if d > 0 and e:
                p.need(p.same(e[0].a[0], l + I.offsetof('slab_list', 'slabs')[0]), 'a counted list changes by the element', 'head')
            p.need_eq(p.f(l, 'slab_list', 'stats.total'), p.f0(l, 'slab_list', 'stats.total') + I.entry(it + so, sz).scale(d), 'the total follows the elements', 'total', 64)
            p.frame(field_pred(I, l, 'slab_list', 'stats.total'), 'the total follows the elements')


def rule_lifo(ck):
    I = interp(ck)
    h, e = arg('head', 'lifo'), arg('elem', ptr=True)

    def pre(I, st):
        st.facts.add_ne(h - e)
    nx = I.offsetof('lifo', 'next')[0]
    top = I.entry(h + nx, 8, True)
    rd = lambda p, a: p.n(I.rd(p.st, a, 8, True))
    r = ck.run(I, 'lifo_init', [h], pre=pre)
    for p in r.rets:
        p.need(p.is0(rd(p, h)), 'a new stack is empty', '')
        p.frame(lambda a: p.same(a, h), 'a new stack is empty')
    r = ck.run(interp(ck), 'lifo_push', [h, e], pre=pre)
    for p in r.rets:
        p.need(p.same(rd(p, h), e) and p.same(rd(p, e), top), 'the last element pushed is on top of the others', lambda: '%r' % p.changed())
        p.frame(lambda a: p.same(a, h) or p.same(a, e), 'the last element pushed is on top of the others')
    r = ck.run(interp(ck), 'lifo_pop', [h], pre=pre)
    kinds = set()
    for p in r.rets:
        p.need(p.same(p.ret, top), 'the last element pushed is taken first', 'result')
        if p.is0(p.ret):
            kinds.add(0)
            p.need(p.is0(rd(p, h)), 'an empty stack stays empty', '')
        else:
            kinds.add(1)
            p.need_ge(p.n(top), 1, 'an element is taken only when there is one', '')
            p.need(p.same(rd(p, h), I.entry(p.n(top), 8, True)), 'the last element pushed is taken first', 'rest')
        p.frame(lambda a: p.same(a, h), 'the last element pushed is taken first')
    if kinds != {0, 1}:
        ck.gone('lifo_pop: %r' % kinds)
    r = ck.run(interp(ck), 'lifo_peek', [h], pre=pre)
    for p in r.rets:
        p.need(p.same(p.ret, top), 'the last element pushed is taken first', 'peek')
        p.frame(lambda a: False, 'looking changes nothing')
    r = ck.run(interp(ck), 'lifo_is_empty', [h], pre=pre)
    for p in r.rets:
        p.frame(lambda a: False, 'looking changes nothing')
        # the result is the truth value of "no element"
        v = p.n(p.ret)
        if isinstance(v, Lin):
            ok = v.is_const() and (p.is0(top) if v.c else p.differ(top, ZERO))
        else:
            ok = v.op == 'eq' and v.f in (p.n(top), -p.n(top)) or v.op == 'ge' and v.f == -p.n(top)
        p.need(ok, 'emptiness is exact', lambda: '%r' % (v,))


prop('E01', 'other',
     'Each list operation executed abstractly on rings of up to four nodes with symbolic addresses, every position of the named elements; expected ring compared in both directions.',
     [rule_prims, rule_macros, rule_counted, rule_lifo], min_obligations=500)
