"""Red-black trees: the functions rb.h generates, instantiated here for a
witness type and analysed in the compiler's intermediate representation.

Abstract trees: every red-black tree up to a black height, materialised only
as far as a function looks.  A child that was never loaded stands for every
subtree of its black height.  Node addresses are names; the comparison is an
arbitrary order: it is asked where it has not been decided yet, and both (or
all three) answers are followed."""
import os
import re
from . import prop
from .. import irgen
from ..contract import *

ORDER = str.maketrans('LR', '02')
NODES = 1 << 32               # addresses that name the nodes of the tree
_wit = {}
_lines = {}

WIT = '''
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <assert.h>
#include <sys/types.h>
%s
#include "rb.h"
struct wn { long pad[2]; rb_node(struct wn) link; long tail; };
typedef struct { long before; rb_tree(struct wn) rb; long after; } wt_box;
typedef rb_tree(struct wn) wt;
#ifdef RB_CMP_TREE_ARG
#define T wt *tree,
#define TT tree,
#else
#define T
#define TT
#endif
int wit_cmp(T const struct wn *a, const struct wn *b);
int wit_key(T long key, const struct wn *b);
void wit_aug(struct wn *n, struct wn *l, struct wn *r);
void wit_visit(const struct wn *n);
int wit_dir(const struct wn *n, const struct wn *l, const struct wn *r);
struct wn *wit_cb(wt *tree, struct wn *n, void *arg);
rb_proto_ext_key(static __attribute__((used)), w_, wt, struct wn, long)
rb_gen_ext_key%s(static __attribute__((used)), w_, wt, struct wn, link, wit_cmp, long, wit_key%s)
unsigned long wit_left(void) { return offsetof(struct wn, link.rbn_left); }
unsigned long wit_right(void) { return offsetof(struct wn, link.%s); }
unsigned long wit_red(void) { return %s; }
unsigned long wit_root(void) { return offsetof(wt, rbt_root); }
unsigned long wit_ipath(void) { return sizeof(((struct w_iterator *)0)->path) / sizeof(((struct w_iterator *)0)->path[0]); }
unsigned long wit_wpath(void) { return sizeof(((struct w_walk *)0)->path) / sizeof(((struct w_walk *)0)->path[0]); }
#define IT struct w_iterator it
struct wn *wit_ifirst(wt *t) { IT; w_ifirst(t, &it); return w_iterator_get(&it); }
struct wn *wit_ilast(wt *t) { IT; w_ilast(t, &it); return w_iterator_get(&it); }
bool wit_icreate(wt *t, struct wn *n) { IT; bool r = w_icreate(t, n, &it); wit_visit(w_iterator_get(&it)); return r; }
void wit_inext(wt *t, struct wn *n) { IT; w_icreate(t, n, &it); wit_visit(w_inext(&it)); wit_visit(w_inext(&it)); wit_visit(w_iterator_get(&it)); wit_visit(w_inext(&it)); wit_visit(w_inext(&it)); }
void wit_iprev(wt *t, struct wn *n) { IT; w_icreate(t, n, &it); wit_visit(w_iprev(&it)); wit_visit(w_iprev(&it)); wit_visit(w_iterator_get(&it)); wit_visit(w_iprev(&it)); wit_visit(w_iprev(&it)); }
void wit_iturn(wt *t, struct wn *n) { IT; w_icreate(t, n, &it); wit_visit(w_inext(&it)); wit_visit(w_iprev(&it)); wit_visit(w_iterator_get(&it)); }
void wit_iturn2(wt *t, struct wn *n) { IT; w_icreate(t, n, &it); wit_visit(w_iprev(&it)); wit_visit(w_inext(&it)); wit_visit(w_iterator_get(&it)); }
bool wit_isearch(wt *t, long k) { IT; bool r = w_isearch(t, k, &it); wit_visit(w_iterator_get(&it)); return r; }
void wit_n_eq(wt *t, long k) { IT; w_isearch(t, k, &it); wit_visit(w_inext(&it)); wit_visit(w_inext(&it)); }
void wit_p_eq(wt *t, long k) { IT; w_isearch(t, k, &it); wit_visit(w_iprev(&it)); wit_visit(w_iprev(&it)); }
#define S(x) struct wn *wit_isearch_##x(wt *t, long k) { IT; w_isearch_##x(t, k, &it); return w_iterator_get(&it); } \\
void wit_n_##x(wt *t, long k) { IT; w_isearch_##x(t, k, &it); wit_visit(w_inext(&it)); wit_visit(w_inext(&it)); } \\
void wit_p_##x(wt *t, long k) { IT; w_isearch_##x(t, k, &it); wit_visit(w_iprev(&it)); wit_visit(w_iprev(&it)); }
S(le) S(ge) S(lt) S(gt)
void wit_forward(wt *t) { IT; struct wn *n; w_ifirst(t, &it); while ((n = w_inext(&it)) != NULL) wit_visit(n); }
void wit_backward(wt *t) { IT; struct wn *n; w_ilast(t, &it); while ((n = w_iprev(&it)) != NULL) wit_visit(n); }
struct wn *wit_iter(wt *t, struct wn *start, void *arg) { return w_iter(t, start, wit_cb, arg); }
struct wn *wit_riter(wt *t, struct wn *start, void *arg) { return w_reverse_iter(t, start, wit_cb, arg); }
void wit_walk(wt *t) { struct w_walk w; struct wn *n, *l, *r; int dir = 0; w_walk_init(&w, t); while ((n = w_walk_next(&w, dir, &l, &r)) != NULL) dir = wit_dir(n, l, r); }
'''


def build(variant):
    """variant: compact / plain, aug / noaug, treearg"""
    if variant not in _wit:
        c, a, t = variant
        defs = ('#define RB_COMPACT 1\n' if c else '') + ('#define RB_CMP_TREE_ARG 1\n' if t else '')
        txt = WIT % (defs, '_aug' if a else '', ', wit_aug' if a else '',
                     'rbn_right_red' if c else 'rbn_right', '~0ul' if c else 'offsetof(struct wn, link.rbn_red)')
        _wit[variant] = irgen.build('plain', only=[], extra_tu={'witness': txt})
    return _wit[variant]


class Tree:
    def __init__(self, ck, height, variant=(True, True, False), target=None):
        self.ck = ck
        self.variant = variant
        self.compact, self.aug, self.treearg = variant
        self.I = I = Interp(build(variant), 'witness')
        I.models = {}
        I.lists_cfg = {}
        I.elem_hook = I.list_empty_hook = I.slab_tag = I.asan_tag = None
        I.cfg = 'plain'
        I.unroll_open = True
        I.unroll_max = max(70, 6 * height)
        I.recursion_limit = 14
        k = {}
        for n in ('left', 'right', 'red', 'root', 'ipath', 'wpath'):
            f = ck.run(I, 'wit_' + n, [])
            k[n] = f.rets[0].st.n(f.rets[0].ret).c
        self.off = {'L': k['left'], 'R': k['right']}
        self.red_off = k['red']
        self.root_off = k['root']
        self.k = k
        self.T = arg('tree', 'wt')
        self.height = height
        self.addr, self.info = {}, {}
        self.NEW = NODES + (1 << 26)
        self.key = arg('key', lo=-(1 << 40), hi=1 << 40)
        I.fork_load = self.materialise
        I.on_store.append(self.bounds)
        I.loc = self.loc
        I.models['wit_cmp'] = self.m_cmp
        I.models['wit_key'] = self.m_key
        I.models['wit_aug'] = self.m_aug
        I.models['wit_visit'] = self.m_visit
        self.pos = {self.NEW: None}
        self.preset = None
        self.single = False         # one colouring only off the preset way
        self.along = None           # the way comparisons are answered

    def loc(self, ins):
        """the generated functions, by the place of their text in rb.h"""
        if not _lines:
            txt = open(os.path.join(irgen.REPO, 'include/small/rb.h')).read().split('\n')
            gen = False
            for i, l in enumerate(txt, 1):
                gen = gen or 'rb_gen_ext_key_aug(a_attr' in l
                m = re.match(r'a_prefix##(\w+)\(', l)
                if gen and m:
                    _lines.setdefault('w_' + m.group(1), i)
            _lines['rb_gen'] = 1
        n = (ins.fn if hasattr(ins, 'fn') else ins).name
        return ('include/small/rb.h', _lines.get(n) or _lines.get('w_' + n.replace('wit_', '').split('_')[0]) or 1)

    # ---------------------------------------------------------- shapes
    def node(self, path, red, h):
        a = self.addr.get((path, red, h))
        if a is None:
            a = self.addr[(path, red, h)] = NODES + 4096 * (len(self.addr) + 1)
            self.info[a] = (path, red, h)
        return a

    def kids(self, a, side):
        """what the child of node a on that side may be"""
        path, red, h = self.info[a]
        hc = h if red else h - 1
        out = []
        if hc == 0:
            out.append(0)
        else:
            out.append(self.node(path + side, False, hc))
        if not red and side == 'L':
            out.append(self.node(path + side, True, hc))
        return out

    def roots(self):
        return [0 if self.height == 0 else self.node('', False, self.height)]

    def materialise(self, I, st, addr, size, isptr):
        addr = st.n(addr)
        if addr.is_const() and addr.c == self.NEW + self.off['R'] and size == 8 and self.compact:
            # memory of a new node: whatever was there
            x = S(fresh('junk', 0, (1 << 62) - 1)).scale(2)
            out = []
            for bit in (0, 1):
                s = st.copy()
                s.mem.setdefault(ZERO, {})[addr.c] = (8, x + bit)
                out.append((s, x + bit))
            return out
        if not addr.is_const() and not (addr - self.T).is_const():
            ids = list(addr.syms())
            local = len(ids) == 1 and ids[0] in I.stack_sizes
            self.ck.fail('only variables that were set and elements of the tree are used', I.cfg, st.frames[0].fn.name, '%s:%d' % self.loc(st.frames[-1]),
                         '%s is used before it is set' % SYMS[ids[0]].name.split('#')[0] if local else 'access to %r' % (addr,))
            st.dead = True
            return []
        if addr == self.T + self.root_off and size == 8:
            out = []
            for a in self.roots():
                out.append((st, 'T', 'root', a))
        elif addr.is_const() and NODES <= addr.c < self.NEW:
            a = NODES + (addr.c - NODES) // 4096 * 4096
            if a not in self.info:
                return None
            o = addr.c - a
            side = [s for s in 'LR' if self.off[s] == o]
            if side and size == 8:
                if self.preset and (a, side[0]) in self.preset:
                    out = [(st, a, side[0], self.preset[(a, side[0])])]
                else:
                    out = [(st, a, side[0], k) for k in self.kids(a, side[0])]
            elif o == self.red_off and size == 1 and not self.compact:
                v = C(int(self.info[a][1]))
                st.mem.setdefault(ZERO, {})[addr.c] = (1, v)
                return [(st, v)]
            else:
                return None
        else:
            return None
        res = []
        if self.single:
            out = out[-1:]
        for i, (s, a, side, v) in enumerate(out):
            s = st if i == len(out) - 1 else st.copy()
            s.ghost[('kid', a, side)] = C(v)
            if side == 'R' and self.compact:
                v += int(self.info[a][1])
            base, off = I.split(addr)
            s.mem.setdefault(base, {})[off] = (8, C(v))
            res.append((s, C(v)))
        return res

    def orig(self, st, a, side):
        """the child the node had at the beginning: address, 0, or None if
        nobody looked"""
        k = st.ghost.get(('kid', a, side))
        if k is not None:
            return k.c
        if self.preset and (a, side) in self.preset:
            return self.preset[(a, side)]
        if a == 'T' and self.preset is not None:
            return self.roots()[0]
        if a != 'T' and side == 'R' and self.info[a][2] - (not self.info[a][1]) == 0:
            return 0
        if a != 'T' and self.info[a][1] and self.info[a][2] == 0:
            return 0
        if a == 'T' and self.height == 0:
            return 0
        return None

    def before(self, st):
        """the elements on entry, in order; ('?', node, side) for subtrees
        nobody looked at"""
        def go(a):
            if a == 0:
                return []
            out = []
            for side in 'LR':
                k = self.orig(st, a, side)
                out += [('?', a, side)] if k is None else go(k)
                if side == 'L':
                    out.append(a)
            return out
        r = self.orig(st, 'T', 'root')
        return go(r) if r is not None else [('?', 'T', 'root')]

    def now(self, st, a, what):
        """field of a node at the end: left / right child (None: untouched), colour"""
        base, off = ZERO, a + (self.off[what] if what in self.off else self.red_off)
        if what == 'red' and self.compact:
            off = a + self.off['R']
        c = st.mem.get(base, {}).get(off)
        if c is None:
            if a == self.NEW:
                return 'bad'
            return None if what != 'red' else int(self.info[a][1])
        v = st.n(c[1])
        if not (isinstance(v, Lin) and v.is_const()):
            return 'bad'
        if self.compact and off == a + self.off['R']:
            return v.c & 1 if what == 'red' else v.c & ~1
        return v.c

    def nm(self, v):
        if isinstance(v, Lin):
            if not v.is_const():
                return v
            v = v.c
        return v

    def show(self, a):
        if isinstance(a, tuple):
            return '?%s%s' % (self.show(a[1]), a[2])
        if a == self.NEW:
            return 'new'
        if a in self.info:
            p, red, h = self.info[a]
            return (p or 'root') + ("'" if red else '')
        return 'NULL' if a == 0 else repr(a)

    # ---------------------------------------------------------- the order
    def place(self, a):
        """sort key of the in-order position of a node"""
        if a == self.NEW:
            return None
        return self.info[a][0].translate(ORDER) + '1'

    def node_of(self, v):
        v = self.nm(v)
        if v == self.NEW or v in self.info:
            return v
        return None

    def answer(self, st, sign, key):
        """the comparison's result: any number of that sign"""
        if sign == 0:
            return [(st, ZERO)]
        s = S(fresh('cmp', 1, (1 << 31) - 1))
        return [(st, s if sign > 0 else -s)]

    def bounds(self, I, st, addr, size, v, ins):
        ids = list(addr.syms())
        if len(ids) == 1 and ids[0] in I.stack_sizes:
            off = (addr - S(SYMS[ids[0]])).c
            if off < 0 or off + size > I.stack_sizes[ids[0]]:
                self.ck.fail('the way down the highest tree fits', I.cfg, st.frames[0].fn.name, '%s:%d' % I.loc(ins),
                             '%s is written at %d, it has %d bytes' % (SYMS[ids[0]].name.split('#')[0], off, I.stack_sizes[ids[0]]))
            else:
                self.ck.ok('the way down the highest tree fits')

    def visit(self, I, st, v, ins):
        """notes a visit; False if there have been more than there are
        elements"""
        n = self.nm(st.n(v))
        st.event('visit', (n,), I.loc(ins))
        c = st.ghost.get('visits', ZERO) + 1
        st.ghost['visits'] = c
        if c.c > 3 ** (self.height + 1):
            self.ck.fail('every walk ends at a leaf', I.cfg, st.frames[0].fn.name, '%s:%d' % I.loc(ins), 'goes on after %d elements' % c.c)
            st.dead = True
        return not st.dead

    def m_visit(self, I, st, v, ins):
        return [(st, None)] if self.visit(I, st, v[0], ins) else []

    def m_cmp(self, I, st, v, ins):
        if self.treearg:
            if not st.n(v[0]) == self.T:
                st.event('badcmp', (v[0],), I.loc(ins))
            v = v[1:]
        a, b = self.node_of(st.n(v[0])), self.node_of(st.n(v[1]))
        if a is None or b is None:
            st.event('badcmp', (v[0], v[1]), I.loc(ins))
            return self.answer(st, 1, None)
        if a == b:
            return self.answer(st, 0, None)
        if self.NEW not in (a, b):
            return self.answer(st, 1 if self.place(a) > self.place(b) else -1, None)
        flip = 1 if a == self.NEW else -1
        x = b if a == self.NEW else a
        return self.ask(I, st, x, (-1, 1), flip)

    def m_key(self, I, st, v, ins):
        if self.treearg:
            if not st.n(v[0]) == self.T:
                st.event('badcmp', (v[0],), I.loc(ins))
            v = v[1:]
        b = self.node_of(st.n(v[1]))
        if b is None or b == self.NEW or not st.n(v[0]) == self.key:
            st.event('badcmp', (v[0], v[1]), I.loc(ins))
            return self.answer(st, 1, None)
        return self.ask(I, st, b, (-1, 0, 1), 1)

    def ask(self, I, st, x, answers, flip):
        """is the new element (the key) before, at or after x?"""
        px = self.place(x)
        g = {k: st.ghost[('ask', k)].c for k in ('lo', 'hi', 'e0', 'e1') if ('ask', k) in st.ghost}
        ok = []
        if self.along is not None and x in self.along:
            answers = (self.along[x],)
        for s in answers:
            if s > 0 and any(k in g and self.place(g[k]) <= px for k in ('hi', 'e0', 'e1')):
                continue
            if s < 0 and any(k in g and self.place(g[k]) >= px for k in ('lo', 'e0', 'e1')):
                continue
            if s == 0 and ('lo' in g and self.place(g['lo']) >= px or 'hi' in g and self.place(g['hi']) <= px):
                continue
            if s != 0 and 'e0' in g and self.place(g['e0']) <= px <= self.place(g['e1']):
                continue
            ok.append(s)
        out = []
        for s in ok:
            s2 = st.copy()
            gh = s2.ghost
            if s > 0 and ('lo' not in g or self.place(g['lo']) < px):
                gh[('ask', 'lo')] = C(x)
            if s < 0 and ('hi' not in g or self.place(g['hi']) > px):
                gh[('ask', 'hi')] = C(x)
            if s == 0:
                if 'e0' not in g or self.place(g['e0']) > px:
                    gh[('ask', 'e0')] = C(x)
                if 'e1' not in g or self.place(g['e1']) < px:
                    gh[('ask', 'e1')] = C(x)
            out += self.answer(s2, s * flip, None)
        return out

    def asked(self, st, k):
        v = st.ghost.get(('ask', k))
        return v.c if v is not None else None

    # ---------------------------------------------------------- annotations
    def m_aug(self, I, st, v, ins):
        n, l, r = (self.nm(st.n(x)) for x in v)
        if n not in self.info and n != self.NEW:
            st.event('badaug', (v[0],), I.loc(ins))
            return [(st, None)]
        val = {n}
        for side, k in (('L', l), ('R', r)):
            cur = self.now(st, n, side)
            if cur != k:
                st.event('badaug', (v[0],), I.loc(ins))
            if k:
                val |= st.ghost.get(('aug', k), frozenset({('orig', k)}))
        st.ghost[('aug', n)] = frozenset(val)
        return [(st, None)]

    def expand(self, st, val):
        out = set()

        def go(a):
            if a == 0:
                return
            out.add(a)
            for side in 'LR':
                k = self.orig(st, a, side)
                if k is None:
                    out.add(('?', a, side))
                else:
                    go(k)
        for x in val:
            if isinstance(x, tuple) and x[0] == 'orig':
                if x[1] == self.NEW or x[1] not in self.info:
                    out.add('nothing')
                else:
                    go(x[1])
            else:
                out.add(x)
        return out

    # ---------------------------------------------------------- verdicts
    def final(self, p, judge=True):
        """the tree a path leaves behind: (elements in order, {node: set of its
        subtree}); obligations on its shape"""
        st = p.st
        seen = set()
        sets = {}
        bad = []

        def go(a, side, parent_red):
            # -> (order, black height or None)
            if a == 0:
                return [], 0
            if a == 'bad' or (a not in self.info and a != self.NEW):
                bad.append('%r is no node of the tree' % (a,))
                return [], None
            if a in seen:
                bad.append('node %s is linked twice' % self.show(a))
                return [], None
            seen.add(a)
            red = self.now(st, a, 'red')
            if red == 'bad':
                bad.append('node %s has no colour' % self.show(a))
            if red and parent_red:
                bad.append('red node %s has a red parent' % self.show(a))
            if red and side == 'R':
                bad.append('red node %s is a right child' % self.show(a))
            order, hs = [], []
            for sd in 'LR':
                k = self.now(st, a, sd)
                if k is None:
                    o0 = self.orig(st, a, sd)
                    if o0 == 0:
                        o, h = [], 0
                    else:
                        path, r0, h0 = self.info[a]
                        o, h = [('?', a, sd)], h0 if r0 else h0 - 1
                        if red and not r0 and sd == 'L':
                            bad.append('red node %s may have a red child' % self.show(a))
                else:
                    o, h = go(k, sd, red)
                order += o
                hs.append(h)
                if sd == 'L':
                    order.append(a)
            if None not in hs and hs[0] != hs[1]:
                bad.append('node %s has black heights %d and %d below' % (self.show(a), hs[0], hs[1]))
            sets[a] = set(order)
            return order, None if None in hs else hs[0] + (not red)
        c = st.mem.get(I_base(self.T), {}).get(self.root_off)
        root = st.n(c[1]) if c else None
        if root is None:
            r0 = self.orig(st, 'T', 'root')
            if r0 is None:
                return [('?', 'T', 'root')], sets
            root = C(r0)
        if not root.is_const():
            if judge:
                p.need(False, 'the tree stays a red-black tree', lambda: 'root is %r' % (root,))
            return None, sets
        if root.c and root.c in seen | set(self.info) | {self.NEW} and self.now(st, root.c, 'red'):
            bad.append('the root is red')
        order, h = go(root.c, 'root', False)
        if judge:
            p.need(not bad, 'the tree stays a red-black tree', lambda: '%s; from %s' % ('; '.join(bad[:3]), self.seq(self.before(st))))
        return order, sets

    def seq(self, l):
        return ' '.join(self.show(x) for x in l)

    def unchanged(self, p, rule='looking does not change the tree'):
        """nothing but the function's own variables was written"""
        w = [k for k in p.st.dirty if k[0] == ZERO and k[1] >= NODES or k[0] == I_base(self.T)]
        p.need(not w, rule, lambda: 'writes %r' % (w[:2],))

    def sane(self, p):
        b = p.evs('badcmp', 'badaug')
        p.need(not b, 'only elements of the tree are compared', lambda: '%r' % (b[:1],), b[0] if b else None)
        loops = p.evs('loop')
        p.need(not loops, 'every walk ends at a leaf', lambda: '%r' % (loops[:1],))

    def go(self, fn, args, pre=None):
        I = self.I

        def pre2(I, st):
            st.mem.setdefault(ZERO, {})
            if pre:
                pre(I, st)
        r = self.ck.run(I, fn, args, pre=pre2)
        r.fn.file, r.fn.line = self.loc(r.fn)
        for p in r.rets:
            self.sane(p)
        return r

    # ---------------------------------------------------------- targets
    def targets(self):
        """every position a node can be at, with the colours on the way"""
        out = []

        def go(a, way):
            out.append((a, dict(way)))
            for side in 'LR':
                for k in self.kids(a, side):
                    if k:
                        go(k, way + [((a, side), k)])
        for a in self.roots():
            if a:
                go(a, [])
        return out


def I_base(f):
    return Lin(f.t, 0)


def heights(ck, quick=3):
    return range(0, max(quick, 4 if ck.tier == 'thorough' else 0) + 1)


# ------------------------------------------------------------------ D01, D03
PLAIN = [(True, False, False), (False, False, False)]      # colour in the right link / a field of its own
AUG = [(True, True, False), (False, True, False)]
TREEARG = [(True, False, True)]


def gap(T, st, b):
    """where the new element belongs: its index in the order, or None if the
    comparisons made do not determine it"""
    lo, hi = T.asked(st, 'lo'), T.asked(st, 'hi')
    if lo is not None and (hi is None or lo in b):
        i = b.index(lo) + 1 if lo in b else None
        if i is None or (b[i] != hi if i < len(b) else hi is not None):
            return None
        return i
    if hi is None:
        return 0 if not b else None
    return 0 if b and b[0] == hi else None


def insertions(ck, vs):
    for v in vs:
        for h in heights(ck, 4):
            T = Tree(ck, h, v)
            for p in T.go('w_insert', [T.T, C(T.NEW)]).rets:
                yield T, p


def removals(ck, vs):
    for v in vs:
        for h in heights(ck, 4):
            T = Tree(ck, h, v)
            for a, way in T.targets():
                T.preset = way
                for p in T.go('w_remove', [T.T, C(a)]).rets:
                    yield T, p, a


def inserted(T, p):
    b = T.before(p.st)
    i = gap(T, p.st, b)
    order, sets = T.final(p)
    p.need(i is not None and order == b[:i] + [T.NEW] + b[i:],
           'an element is inserted where the order wants it',
           lambda: '%s becomes %s' % (T.seq(b), T.seq(order or [])))


def removed(T, p, a):
    b = T.before(p.st)
    order, sets = T.final(p)
    p.need(order == [x for x in b if x != a], 'removal takes out the element and nothing else',
           lambda: 'without %s: %s becomes %s' % (T.show(a), T.seq(b), T.seq(order or [])))


def rule_insert(ck):
    for T, p in insertions(ck, PLAIN + TREEARG):
        inserted(T, p)


def rule_remove(ck):
    for T, p, a in removals(ck, PLAIN):
        removed(T, p, a)


def annotated(T, p):
    """every node's data was computed from the elements now below it"""
    order, sets = T.final(p, False)
    for a, s in (sets or {}).items():
        cur = T.expand(p.st, p.st.ghost.get(('aug', a), frozenset({('orig', a)})))
        p.need(cur == s, 'data of a node follows the set of elements below it',
               lambda: 'node %s: computed from {%s}, subtree is {%s}' % (T.show(a), T.seq(sorted(cur, key=str)), T.seq(sorted(s, key=str))))


def rule_data_insert(ck):
    for T, p in insertions(ck, AUG):
        annotated(T, p)


def rule_data_remove(ck):
    for T, p, a in removals(ck, AUG):
        annotated(T, p)


# ------------------------------------------------------------------ D02
def val(T, p, v=None):
    v = p.st.n(p.ret if v is None else v)
    return v.c if isinstance(v, Lin) and v.is_const() else v


def truth(p):
    """the returned bool, or None if it depends on something"""
    v = p.n(p.ret)
    if isinstance(v, Cond):
        return {'true': 1, 'false': 0}.get(v.op)
    return v.c if isinstance(v, Lin) and v.is_const() else None


def near(b, a, step):
    """the neighbour of a in the order: a node, 0 at the end, None if nobody
    looked what is there"""
    i = b.index(a) + step
    x = b[i] if 0 <= i < len(b) else 0
    return None if isinstance(x, tuple) else x


def visits(p):
    return [e.a[0] for e in p.evs('visit')]


def spot(T, p, b, want):
    """(known, node) for 'le', 'ge', 'lt', 'gt', 'eq', 'max' (last match or
    successor) and 'min' (first match or predecessor) from the comparisons
    made; known is False if they do not determine it"""
    lo, hi, e0, e1 = (T.asked(p.st, k) for k in ('lo', 'hi', 'e0', 'e1'))

    def adj(x, y):
        # nothing between x (None: the beginning) and y (None: the end)
        i = b.index(x) + 1 if x is not None else 0
        j = b.index(y) if y is not None else len(b)
        return i == j
    if want == 'eq':
        return (True, e0) if e0 is not None else (adj(lo, hi), 0)
    if want in ('le', 'max') and e1 is not None:
        return adj(e1, hi), e1
    if want in ('ge', 'min') and e0 is not None:
        return adj(lo, e0), e0
    if want in ('le', 'lt', 'min'):
        return adj(lo, e0 if e0 is not None else hi), lo or 0
    return adj(e1 if e1 is not None else lo, hi), hi or 0


SEARCH = [('w_search', 'eq'), ('w_nsearch', 'max'), ('w_psearch', 'min'), ('wit_isearch', 'eq'),
          ('wit_isearch_le', 'le'), ('wit_isearch_ge', 'ge'), ('wit_isearch_lt', 'lt'), ('wit_isearch_gt', 'gt')]
WHICH = {'eq': 'the element that matches', 'max': 'the last element that matches, or the successor', 'min': 'the first element that matches, or the predecessor',
         'le': 'the last element not after the key', 'ge': 'the first element not before the key', 'lt': 'the last element before the key', 'gt': 'the first element after the key'}


def searches(T):
    for fn, want in SEARCH:
        r = T.go(fn, [T.T, T.key])
        for p in r.rets:
            T.unchanged(p)
            b = T.before(p.st)
            known, node = spot(T, p, b, want)
            if fn == 'wit_isearch':
                got = (visits(p) + [None])[0]
                t = truth(p)
                p.need(t is not None and (t & 1 != 0) == (node != 0), 'the result says whether there is a match', lambda: 'returns %r' % (p.ret,))
            else:
                got = val(T, p)
            p.need(known and (got == node if want != 'eq' or not node else T.node_of(C(got)) is not None and T.place(T.asked(p.st, 'e0')) <= T.place(got) <= T.place(T.asked(p.st, 'e1'))),
                   'a search finds %s' % WHICH[want],
                   lambda: 'finds %s, expected %s of %s%s' % (T.show(got), T.show(node), T.seq(b), '' if known else ' (the comparisons made do not tell)'))
    for fn, want in SEARCH[3:]:
        for d, step in (('n', 1), ('p', -1)):
            r = T.go('wit_%s_%s' % (d, want), [T.T, T.key])
            for p in r.rets:
                T.unchanged(p)
                b = T.before(p.st)
                known, node = spot(T, p, b, want)
                got = visits(p)
                if want == 'eq' and node and got[0] in b and T.place(node) <= T.place(got[0]) <= T.place(T.asked(p.st, 'e1')):
                    node = got[0]       # any of the matches
                expect = [node, near(b, node, step) if node else 0]
                p.need(known and got == expect, 'an iterator set by a search goes on along the order',
                       lambda: 'visits %s, expected %s in %s' % (T.seq(got), T.seq(expect), T.seq(b)))


def rule_search(ck):
    for v in PLAIN + TREEARG:
        for h in heights(ck):
            searches(Tree(ck, h, v))


def ends(T):
    for fn, i in (('w_first', 0), ('w_last', -1), ('wit_ifirst', 0), ('wit_ilast', -1)):
        r = T.go(fn, [T.T])
        for p in r.rets:
            b = T.before(p.st)
            want = b[i] if b else 0
            p.need(val(T, p) == want, 'first and last are the ends of the order', lambda: '%s of %s' % (T.show(val(T, p)), T.seq(b)))
            T.unchanged(p)


def steps_from(T, a):
    for fn, step in (('w_next', 1), ('w_prev', -1)):
        r = T.go(fn, [T.T, C(a)])
        for p in r.rets:
            b = T.before(p.st)
            want = near(b, a, step)
            p.need(want is not None and val(T, p) == want, 'next and prev are neighbours in the order',
                   lambda: '%s from %s of %s' % (T.show(val(T, p)), T.show(a), T.seq(b)))
            T.unchanged(p)
    r = T.go('wit_icreate', [T.T, C(a)])
    for p in r.rets:
        t = truth(p)
        p.need(t is not None and t & 1 and visits(p) == [a], 'an iterator stands at the element it was created for',
               lambda: '%r at %s, for %s' % (t, T.seq(visits(p)), T.show(a)))
        T.unchanged(p)
    for fn, steps in (('wit_inext', (0, 1, 2, 2, 3)), ('wit_iprev', (0, -1, -2, -2, -3)), ('wit_iturn', (0, 1, 0)), ('wit_iturn2', (0, -1, 0))):
        r = T.go(fn, [T.T, C(a)])
        for p in r.rets:
            b = T.before(p.st)
            want = []
            for i, s in enumerate(steps):
                if i and 0 in want and 0 not in (want[i - 1],) or i and want[i - 1] == 0:
                    want.append(0)      # the iterator has ended
                    continue
                want.append(near(b, a, s))
            got = visits(p)
            p.need(None not in want and got == want, 'an iterator goes along the order, and back',
                   lambda: 'visits %s, expected %s in %s' % (T.seq(got), T.seq(want), T.seq(b)))
            T.unchanged(p)


def rule_neighbours(ck):
    for v in PLAIN + TREEARG:
        for h in heights(ck):
            T = Tree(ck, h, v)
            r = ck.run(T.I, 'w_new', [T.T])
            for p in r.rets:
                c = p.st.mem.get(I_base(T.T), {}).get(T.root_off)
                p.need(c is not None and p.st.n(c[1]) == ZERO, 'a new tree is empty', 'root is not NULL')
                p.frame(lambda a: (p.st.n(a) - T.T) == C(T.root_off), 'only the tree is written')
            r = T.go('w_empty', [T.T])
            for p in r.rets:
                t = truth(p)
                p.need(t is not None and (t & 1) == (h == 0), 'emptiness is exact', lambda: 'returns %r' % (p.ret,))
                T.unchanged(p)
            ends(T)
            for a, way in T.targets():
                T.preset = way
                steps_from(T, a)
            T.preset = None
            # an element that is not there
            r = T.go('wit_icreate', [T.T, C(T.NEW)])
            for p in r.rets:
                b = T.before(p.st)
                t = truth(p)
                p.need(gap(T, p.st, b) is not None and t is not None and t & 1 == 0 and visits(p) == [0],
                       'no iterator for an element that is not in the tree', lambda: '%r at %s' % (t, T.seq(visits(p))))
                T.unchanged(p)


def rule_traverse(ck):
    for v in PLAIN:
        for h in range(0, 4 if ck.tier == 'thorough' else 3):
            T = Tree(ck, h, v)
            for fn, step in (('wit_forward', 1), ('wit_backward', -1)):
                r = T.go(fn, [T.T])
                for p in r.rets:
                    b = T.before(p.st)
                    got = visits(p)
                    p.need(got == b[::step], 'a traversal visits every element once, in order', lambda: 'visits %s of %s' % (T.seq(got), T.seq(b)))
                    T.unchanged(p)
            if h > 2:
                continue
            rule_iter(ck, T, h)
            rule_walk(ck, T, h)


def rule_iter(ck, T, h):
    data = arg('arg', ptr=True)
    cookie = arg('found', ptr=True)

    def cb(I, st, v, ins):
        if not (st.n(v[0]) == T.T and st.n(v[2]) == data):
            st.event('badcmp', (v[0], v[2]), I.loc(ins))
        n = T.nm(st.n(v[1]))
        if not T.visit(I, st, v[1], ins):
            return []
        s2 = st.copy()
        s2.ghost[('found',)] = C(n) if isinstance(n, int) else n
        return [(st, ZERO), (s2, cookie)]
    T.I.models['wit_cb'] = cb
    for fn, step in (('wit_iter', 1), ('wit_riter', -1)):
        for a, way in [(0, None)] + T.targets():
            T.preset = way
            r = T.go(fn, [T.T, C(a), data])
            for p in r.rets:
                b = T.before(p.st)
                seq = b[::step]
                if a:
                    seq = seq[seq.index(a):]
                got = visits(p)
                found = p.st.ghost.get(('found',))
                want = seq[:seq.index(found.c) + 1] if found is not None and found.c in seq else seq
                p.need(got == want, 'the callback is called for every element from the start on, in order, until it stops the traversal',
                       lambda: 'visits %s, expected %s' % (T.seq(got), T.seq(want)))
                p.need(p.same(p.ret, cookie if found is not None else ZERO), 'the result of the callback that stopped is returned', lambda: 'returns %r' % (p.ret,))
                T.unchanged(p)
    T.preset = None


def rule_walk(ck, T, h):
    """pre-order; a direction a node was refused is skipped with all below it"""
    LEFT, RIGHT = 1, 2

    def direction(I, st, v, ins):
        n, l, r = (T.nm(st.n(x)) for x in v)
        if not T.visit(I, st, v[0], ins):
            return []
        for side, k in (('L', l), ('R', r)):
            if T.node_of(C(n) if isinstance(n, int) else n) is None or T.orig(st, n, side) != k:
                st.event('badcmp', (v[0], k), I.loc(ins))
        k = sum(1 for x in st.ghost if x[0] == 'refused')
        again = sum(1 for e in st.evlist() if e.kind == 'visit' and e.a[0] == n) > 1
        out = []
        for d in (3, 0, 1, 2) if k < 2 and not again else (3,):
            s2 = st.copy()
            if d != 3:
                s2.ghost[('refused', n)] = C(d)
            out.append((s2, C(d)))
        return out
    T.I.models['wit_dir'] = direction
    r = T.go('wit_walk', [T.T])
    for p in r.rets:
        want = []

        def go(a):
            if a == 0:
                return
            want.append(a)
            if a is None:
                return
            d = p.st.ghost.get(('refused', a), C(3)).c
            for bit, side in ((LEFT, 'L'), (RIGHT, 'R')):
                if d & bit:
                    go(T.orig(p.st, a, side))
        go(T.orig(p.st, 'T', 'root'))
        got = visits(p)
        p.need(got == want, 'a walk visits, in pre-order, the nodes below every direction allowed', lambda: 'visits %s, expected %s' % (got, want))
        T.unchanged(p)


# ------------------------------------------------------------------ high trees
LEVELS = 44     # a node holds two pointers at least: fewer than 2^44 of them


def high(ck, v):
    """trees as high as memory allows, along one way down: (tree, way as list
    of nodes)"""
    for turn, other in (('LL', ''), ('LR', ''), ('RR', 'b'), ('RR', 'r'), ('RR', 'rrb'), ('RL', 'b'), ('RL', 'r'), ('S', 'b'), ('S', 'r')):
        T = Tree(ck, LEVELS, v)
        a, way, T.preset, T.along = T.roots()[0], [], {}, {}
        n = 0
        while a:
            way.append(a)
            red, h = T.info[a][1:]
            # below a black element: the turn's first letter (left: a red one
            # as long as there are levels to spend), below a red one the second
            side = turn[red] if turn != 'S' else 'R' if len(way) == 1 else 'L'
            if not red and turn == 'RL':
                side = 'RL'[n % 2]
                n += 1
            ks = [k for k in T.kids(a, side) if not k or red or T.info[k][1] or side == 'R']
            T.along[a] = -1 if side == 'L' else 1
            if side == 'R' and not red:     # the left neighbours of the way
                T.preset[(a, 'L')] = [k for k in T.kids(a, 'L') if k and T.info[k][1] == (other[len(way) % len(other)] == 'r') or not k and other != 'r' or len(T.kids(a, 'L')) == 1][0]
            T.preset[(a, side)] = ks[-1]
            a = ks[-1]
        # the last elements; the first if the way leads to its successor
        yield T, way[:-3:-1] + (way[:1] if turn == 'S' else [])


def rule_high(ck):
    for v in PLAIN:
        for T, way in high(ck, v):
            for p in T.go('w_insert', [T.T, C(T.NEW)]).rets:
                inserted(T, p)
            T.along = None
            for a in way:
                for p in T.go('w_remove', [T.T, C(a)]).rets:
                    removed(T, p, a)


def rule_data_high(ck):
    for v in AUG:
        for T, way in high(ck, v):
            for p in T.go('w_insert', [T.T, C(T.NEW)]).rets:
                annotated(T, p)
            T.along = None
            for a in way:
                for p in T.go('w_remove', [T.T, C(a)]).rets:
                    annotated(T, p)


def rule_find_high(ck):
    for v in PLAIN:
        for T, last in high(ck, v):
            T.single = True
            ends(T)
            searches(T)
            for a in last:
                steps_from(T, a)
            # the walk along the way
            T.I.models['wit_dir'] = lambda I, st, v, ins: ([(st, C({-1: 1, 1: 2}[T.along.get(T.node_of(st.n(v[0])), -1)]))]
                                                           if T.visit(I, st, v[0], ins) else [])
            for p in T.go('wit_walk', [T.T]).rets:
                want, a = [], T.roots()[0]
                while a:
                    want.append(a)
                    a = T.orig(p.st, a, 'L' if T.along.get(a, -1) < 0 else 'R')
                p.need(visits(p) == want, 'a walk visits, in pre-order, the nodes below every direction allowed', lambda: 'visits %s' % T.seq(visits(p)))
                T.unchanged(p)


prop('D01', 'other',
     'Insertion, removal and initialisation of the functions rb.h generates, executed abstractly on every left-leaning red-black tree up to black height 4, materialised as far as the function looks, with an arbitrary order as comparison; the tree left behind is compared with the order wanted and with the balance rules.',
     [rule_insert, rule_remove, rule_high], min_obligations=10000)
prop('D02', 'other',
     'Searches, neighbours, iterators, traversals, callbacks and walks, executed abstractly on every left-leaning red-black tree up to black height 3 (4 thorough), answers of the comparison forked; results compared with the order.',
     [rule_search, rule_neighbours, rule_traverse, rule_find_high], min_obligations=10000)
prop('D03', 'other',
     'Insertion and removal with an augmentation callback: ghost sets of elements per node, final contents compared with the final subtree for every node.',
     [rule_data_insert, rule_data_remove, rule_data_high], min_obligations=10000)
