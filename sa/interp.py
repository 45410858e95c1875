"""Path-sensitive abstract interpreter over the IR of /repo.

Every acyclic path of an entry function is followed (helpers inlined, the
public API of lower layers replaced by its contract); loops are summarised at
their header with an affine-relation (Karr-style) and bound inference.  The
values are linear forms over symbols naming the entry state, so that a rule
compares 'state at exit' with 'state at entry' for every input at once.
Branches whose outcome does not follow from the recorded linear facts are
forked; no solver is used and nothing is executed.
"""
import re
from fractions import Fraction
from .dom import *
from . import dom
from . import llir, irgen


class Broken(Exception):
    """the analysis itself cannot continue (not a verdict)"""


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'regs', 'prev', 'call', 'loops', 'sret')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.idx, f.prev, f.call = self.fn, self.block, self.idx, self.prev, self.call
        f.regs = dict(self.regs)
        f.loops = self.loops
        f.sret = self.sret
        return f


class LS:
    """abstract list: known front elements, unknown middle, known back elements.
    rest: None = known empty middle ; else (symbol Lin, nonempty flag)"""
    __slots__ = ('pre', 'rest', 'suf')

    def __init__(self, pre=(), rest=None, suf=()):
        self.pre, self.rest, self.suf = tuple(pre), rest, tuple(suf)

    def __eq__(self, o):
        return (self.pre, self.rest, self.suf) == (o.pre, o.rest, o.suf)

    def __repr__(self):
        return 'L%r ~%r~ %r' % (list(self.pre), self.rest, list(self.suf))


class Event:
    __slots__ = ('kind', 'a', 'loc', 'x')

    def __init__(self, kind, a, loc, x=None):
        self.kind, self.a, self.loc, self.x = kind, a, loc, x

    def __repr__(self):
        return '%s%r@%s' % (self.kind, self.a, '%s:%d' % self.loc if self.loc else '')


UREM = {}        # (constant divisor, dividend reduced by it) -> [symbol]
DIVISORS = set()


def canon(a, b):
    return Lin(tuple((m, k % b) for m, k in a.t if k % b), a.c % b)


def note_urem(r, a, b):
    DIVISORS.add(b)
    l = UREM.setdefault((b, canon(a, b)), [])
    sy = SYMS[next(iter(r.syms()))]
    if sy not in l:
        l.append(sy)


def _fold(s, args):
    a, b = args[:2]
    if a.is_const() and b.is_const() and a.c >= 0 and b.c > 0:
        return C(a.c // b.c if s.kind == 'udiv' else a.c % b.c)
    r = S(opaque(s.kind, args, s.lo, s.hi, s.ptr))
    if s.kind == 'urem' and b.is_const():
        note_urem(r, a, b.c)
    return r


dom.REBUILD['udiv'] = dom.REBUILD['urem'] = _fold


class State:
    __slots__ = ('frames', 'mem', 'dirty', 'facts', 'sub', 'lists', 'ghost',
                 'events', 'objs', 'dead', 'trail', 'notes')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.dirty = {}
        self.facts = Facts()
        self.sub = {}
        self.lists = {}
        self.ghost = {}
        self.events = None
        self.objs = {}
        self.dead = False
        self.trail = None
        self.notes = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = {b: dict(c) for b, c in self.mem.items()}
        s.dirty = dict(self.dirty)
        s.facts = self.facts.copy()
        s.sub = dict(self.sub)
        s.lists = dict(self.lists)
        s.ghost = dict(self.ghost)
        s.events = self.events
        s.objs = dict(self.objs)
        s.dead = self.dead
        s.trail = self.trail
        s.notes = self.notes
        return s

    # normal form under the equalities learnt on this path
    def n(self, f):
        if isinstance(f, Lin) and self.sub and f.t:
            return subst(f, self.sub, {})
        return f

    def nv(self, v, memo=None):
        if not self.sub:
            return v
        if memo is None:
            memo = {}
        if isinstance(v, Lin):
            return subst(v, self.sub, memo)
        if isinstance(v, Cond):
            if v.op in ('and', 'or'):
                return Cond(v.op, (self.nv(v.f[0], memo), self.nv(v.f[1], memo)))
            return Cond(v.op, subst(v.f, self.sub, memo))
        if isinstance(v, tuple):
            return tuple(self.nv(x, memo) for x in v)
        return v

    def event(self, kind, a, loc, x=None):
        self.events = (self.events, Event(kind, a, loc, x))

    def evlist(self, since=None):
        out = []
        e = self.events
        while e is not None:
            if since is not None and e is since:
                break
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


class LoopInfo:
    def __init__(self, fn, header):
        self.fn, self.header = fn, header
        self.backs = []       # (state, event list since header)
        self.vars = {}
        self.start = None
        self.phis = []


class Path:
    def __init__(self, kind, st, ret):
        self.kind, self.st, self.ret = kind, st, ret

    @property
    def events(self):
        return self.st.evlist()


MAXW = {}


class Interp:
    def __init__(self, mods, unit=None, models=None, prefer=None):
        self.mods = mods
        self.on_memset = None
        self.models = models or {}
        self.unit = unit
        self.fnindex = {}
        for u, m in mods.items():
            for n, f in m.fns.items():
                self.fnindex.setdefault(n, []).append((u, f))
        self.ptr_models = None      # callback for indirect calls
        self.struct_tag = {}        # sym id -> struct name
        self.lazyhook = None
        self.steps = 0
        self.step_limit = 4000000
        self.paths_limit = 20000
        self.seen_fns = set()
        self.seen_calls = 0
        self.cmplog = None
        self.forks = 0
        self.volatile_addr = None   # predicate(addr Lin) -> bool
        self.hints = []
        self.unroll_max = 40
        self.loop_seen = []
        self.terms = None
        self.recursion_limit = 2
        self.deadline = None
        self.on_store = []
        self.on_load = []
        self.fork_load = None
        self.stack_sizes = {}
        self.copies = False
        dom.REBUILD['lazy'] = lambda s, a: S(self.lazy(a[0], a[1], s.ptr, s.lo < 0))

    # -------------------------------------------------------------- lookup
    def find(self, name, unit=None):
        c = self.fnindex.get(name)
        if not c:
            return None
        for u, f in c:
            if u == unit:
                return f
        for u, f in c:
            if not f.internal:
                return f
        for u, f in c:
            if u == self.unit:
                return f
        return c[0][1]

    def loc(self, ins):
        m = ins.fn.mod
        f, l = m.loc(ins.dbg)
        return (f.replace(irgen.REPO + '/', ''), l)

    # -------------------------------------------------------------- structs
    def offsetof(self, struct, path):
        for m in self.mods.values():
            try:
                return m.offsetof(struct, path)
            except KeyError:
                continue
        raise Broken('anchor missing: field %s of struct %s' % (path, struct))

    def structsize(self, struct):
        for m in self.mods.values():
            st = m.structs()
            if struct in st:
                return st[struct][1]
        raise Broken('anchor missing: struct %s' % struct)

    def field_at(self, struct, off):
        """-> (path, pointee struct or None, signed)"""
        for m in self.mods.values():
            st = m.structs()
            if struct in st:
                break
        else:
            return None
        fields = st[struct][0]
        path = ''
        for _ in range(8):
            best = None
            for (nm, o, s, bt) in fields:
                if o <= off < o + max(s, 1):
                    best = (nm, o, s, bt)
                    break
            if best is None:
                return None
            nm, o, s, bt = best
            path += ('.' if path else '') + nm
            off -= o
            ref, d = m.strip_type(bt)
            tag = d.get('tag')
            if tag == 'DW_TAG_array_type':
                ref2, d2 = m.strip_type(d.get('baseType', ''))
                es = int(d2.get('size', '8') or 8) // 8
                path += '[%d]' % (off // es if es else 0)
                off = off % es if es else 0
                ref, d, tag = ref2, d2, d2.get('tag')
            if tag in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                fields = st.get(ref, ((), 0))[0]
                continue
            if tag == 'DW_TAG_pointer_type':
                r2, d2 = m.strip_type(d.get('baseType', ''))
                return path, d2.get('name') if d2.get('tag') == 'DW_TAG_structure_type' else None, False
            return path, None, 'signed' in d.get('encoding', '') and 'unsigned' not in d.get('encoding', '')
        return None

    # -------------------------------------------------------------- values
    def rng_u(self, st, f, w):
        return st.facts.ge0(f) and st.facts.ge0(C((1 << w) - 1) - f)

    def u(self, st, f, w):
        """unsigned representative of f (mod 2^w) as an integer-valued form"""
        if f.is_const():
            return C(f.c % (1 << w))
        if self.rng_u(st, f, w):
            return f
        M = 1 << w
        g = f
        # reduce coefficients to (-M/2, M/2]
        t = []
        for m, k in f.t:
            k2 = k % M
            if k2 > M // 2:
                k2 -= M
            if k2:
                t.append((m, k2))
        c2 = f.c % M
        if c2 > M // 2:
            c2 -= M
        g = Lin(tuple(t), c2)
        if g.is_const():
            return C(g.c % M)
        if g != f and self.rng_u(st, g, w):
            return g
        for k in (M, -M):
            if self.rng_u(st, g + k, w):
                return g + k
        s = opaque('wrap%d' % w, (g,), 0, M - 1)
        r = S(s)
        return r

    def s(self, st, f, w):
        if f.is_const():
            v = f.c % (1 << w)
            return C(v - (1 << w) if v >= (1 << (w - 1)) else v)
        H = 1 << (w - 1)
        if st.facts.ge0(f + H) and st.facts.ge0(C(H - 1) - f):
            return f
        for k in (2 * H, -2 * H):
            if st.facts.ge0(f + k + H) and st.facts.ge0(C(H - 1) - f - k):
                return f + k
        return S(opaque('swrap%d' % w, (f,), -H, H - 1))

    def decide(self, st, c):
        """True / False / None"""
        op = c.op
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'and':
            a, b = self.decide(st, c.f[0]), self.decide(st, c.f[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if op == 'or':
            a, b = self.decide(st, c.f[0]), self.decide(st, c.f[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        c = self.remcond(st, c)
        f, op = c.f, c.op
        if op == 'ge':
            if st.facts.ge0(f):
                return True
            if st.facts.ge0(-f - 1):
                return False
            return None
        z = None
        if f.is_const():
            z = f.c == 0
        elif st.facts.nonzero(f):
            z = False
        elif st.facts.zero(f):
            z = True
        if z is None:
            return None
        return z if op == 'eq' else not z

    def remcond(self, st, c):
        """x == x % m says x < m"""
        if c.op not in ('eq', 'ne') or c.f.is_const():
            return c
        if len(c.f.t) == 1 and not c.f.c and len(c.f.t[0][0]) == 1:
            s = SYMS[c.f.t[0][0][0]]
            if s.kind == 'aligndn' and s.args[1].is_const():
                x = st.n(s.args[0])
                if st.facts.ge0(x):
                    return Cond('ge', s.args[1] - 1 - x if c.op == 'eq' else x - s.args[1])
        for m, k in c.f.t:
            s = SYMS[m[0]]
            if len(m) == 1 and s.kind == 'urem' and abs(k) == 1 and s.args[1].is_const():
                x = st.n(s.args[0])
                if c.f == (x - S(s)).scale(-k) and st.facts.ge0(x):
                    return Cond('ge', s.args[1] - 1 - x if c.op == 'eq' else x - s.args[1])
        return c

    def assume(self, st, c):
        """-> list of states in which c holds (st is consumed)"""
        op = c.op
        if op == 'true':
            return [st]
        if op == 'false':
            return []
        if op == 'and':
            out = []
            for s in self.assume(st, c.f[0]):
                c2 = s.nv(c.f[1])
                if self.decide(s, c2) is False:
                    continue
                out += self.assume(s, c2)
            return out
        if op == 'or':
            s2 = st.copy()
            out = []
            if self.decide(st, c.f[0]) is not False:
                out += self.assume(st, c.f[0])
            # second: not first and second
            n = c.f[0].neg()
            if self.decide(s2, n) is not False:
                for s in self.assume(s2, n):
                    c2 = s.nv(c.f[1])
                    if self.decide(s, c2) is not False:
                        out += self.assume(s, c2)
            return out
        c0, c = c, self.remcond(st, c)
        op = c.op
        d = self.decide(st, c)
        if d is True:
            return [st]
        if d is False:
            return []
        f = c.f
        if c0 is not c and c0.op == 'eq':
            self.learn_eq(st, c0.f)
            f = st.n(f)
            if st.dead:
                return []
        if op == 'ge':
            st.facts.add_ge(f)
            # equality by antisymmetry
            if st.facts.ge0(-f):
                self.learn_eq(st, f)
        elif op == 'ne':
            st.facts.add_ne(f)
        else:
            self.learn_eq(st, f)
        if st.dead:
            return []
        return [st]

    def learn_eq(self, st, f):
        """f == 0: eliminate a symbol"""
        best = None
        g = 0
        for _, k in f.t:
            g = gcd(g, k)
        if g > 1:
            if f.c % g:
                st.dead = True
                return
            f = Lin(tuple((m, k // g) for m, k in f.t), f.c // g)
        for m, k in f.t:
            if len(m) != 1 or abs(k) != 1:
                continue
            i = m[0]
            rest = Lin(tuple((mm, kk) for mm, kk in f.t if mm != m), f.c)
            if i in deps(rest):
                continue
            s = SYMS[i]
            if s.kind == 'pow2':
                pri = 0
            elif s.kind in ('fresh', 'lazy', 'arg'):
                pri = 3 if s.kind == 'fresh' else 2
                if s.kind == 'arg':
                    pri = 1.5
            elif s.kind == 'hdr':
                pri = 2.5
            else:
                pri = 1
            key = (pri, i)
            if best is None or key > best[0]:
                best = (key, i, rest.scale(-1) if k == 1 else rest)
        if best is None or best[0][0] == 0:
            # pow2(e) == const etc
            st.facts.add_ge(f)
            st.facts.add_ge(-f)
            return
        _, i, v = best
        mp = {i: v}
        sy = SYMS[i]
        if sy.kind == 'urem' and v == ZERO and sy.args[1].is_const():
            for x in DIVISORS:
                if sy.args[1].c % x == 0:
                    for s2 in UREM.get((x, canon(sy.args[0], x)), ()):
                        mp[s2.id] = ZERO
        self.substitute(st, mp)

    def substitute(self, st, mp):
        memo = {}
        def N(v):
            if isinstance(v, Lin):
                return subst(v, mp, memo)
            if isinstance(v, Cond):
                if v.op in ('and', 'or'):
                    return Cond(v.op, (N(v.f[0]), N(v.f[1])))
                if v.op in ('true', 'false'):
                    return v
                return Cond(v.op, subst(v.f, mp, memo))
            if isinstance(v, tuple):
                return tuple(N(x) for x in v)
            return v
        for fr in st.frames:
            r = fr.regs
            for k in r:
                r[k] = N(r[k])
        newmem = {}
        pend = []
        for b, cells in st.mem.items():
            nb = N(b)
            base, off0 = Lin(nb.t, 0), nb.c
            tgt = newmem.setdefault(base, {})
            for off, (sz, val, *r) in cells.items():
                o = off + off0
                v = N(val)
                if o in tgt and tgt[o][0] == sz:
                    # two names for one cell: keep the dirty one, equate otherwise
                    d_new = (b, off) in st.dirty
                    old = tgt[o]
                    if isinstance(v, Lin) and isinstance(old[1], Lin):
                        if d_new and not old[2]:
                            tgt[o] = (sz, v, True)
                        elif not d_new and not old[2] and v != old[1]:
                            pend.append(v - old[1])
                        elif d_new and old[2] and v != old[1]:
                            # both written: later write wins; order known by stamp
                            if st.dirty[(b, off)] > old[2]:
                                tgt[o] = (sz, v, st.dirty[(b, off)])
                    continue
                tgt[o] = (sz, v, st.dirty.get((b, off), 0))
        st.mem = {}
        st.dirty = {}
        for b, cells in newmem.items():
            st.mem[b] = {}
            for o, (sz, v, d) in cells.items():
                st.mem[b][o] = (sz, v)
                if d:
                    st.dirty[(b, o)] = d
        for k, v in st.sub.items():
            # what is known of a term stays known of the term it becomes
            if SYMS[k].kind in ('urem', 'udiv') and k not in mp:
                r = dom.subst_sym(k, mp, memo)
                if r is not None:
                    pend.append(r - N(v))
        st.sub = {k: N(v) for k, v in st.sub.items()}
        st.sub.update(mp)
        nl = {}
        for h, l in st.lists.items():
            nl[N(h)] = LS(tuple(N(e) for e in l.pre), l.rest, tuple(N(e) for e in l.suf))
        st.lists = nl
        st.ghost = {k: N(v) for k, v in st.ghost.items()}
        st.objs = {N(k): v for k, v in st.objs.items()}
        st.facts, bad = st.facts.rewrite(mp)
        if bad or st.facts.contradictory():
            st.dead = True
            return
        for d in pend:
            d = st.n(d)
            if d.is_const():
                if d.c % (1 << 64):
                    st.dead = True
                    return
            else:
                self.learn_eq(st, d)
                if st.dead:
                    return

    # -------------------------------------------------------------- memory
    def split(self, addr):
        return Lin(addr.t, 0), addr.c

    def roots(self, base):
        r = []
        for m, k in base.t:
            if len(m) == 1 and k == 1 and SYMS[m[0]].ptr:
                r.append(m[0])
        if not r:
            # a pointer rounded down still points into the same object
            for m, k in base.t:
                if len(m) == 1 and k == 1 and SYMS[m[0]].kind == 'aligndn':
                    r += self.roots(SYMS[m[0]].args[0])
        return tuple(r)

    def name_addr(self, addr):
        base, off = self.split(addr)
        if len(base.t) == 1 and len(base.t[0][0]) == 1:
            s = SYMS[base.t[0][0][0]]
            if s.tag:
                f = self.field_at(s.tag, off)
                if f:
                    return '%s->%s' % (s.name, f[0]), f[1], f[2]
        if len(base.t) >= 2:
            for m, k in base.t:
                if len(m) == 1 and k == 1 and SYMS[m[0]].ptr and SYMS[m[0]].tag:
                    f = self.field_at(SYMS[m[0]].tag, off)
                    if f:
                        rest = Lin(tuple(x for x in base.t if x[0] != m), 0)
                        return '%s->%s{+%r}' % (SYMS[m[0]].name, f[0], rest), f[1], f[2]
        return '[%r]' % (addr,), None, None

    def lazy(self, addr, size, isptr, signed=False):
        key = ('lazy', addr, size, self.cfg)
        if key in dom.INTERN:
            s = dom.INTERN[key]
            if isptr and not s.ptr:
                s.ptr = True
                s.hi = min(s.hi, PTR_MAX - 1)
            return s
        nm, tag, sg = self.name_addr(addr)
        if sg is not None:
            signed = sg
        w = size * 8
        if isptr:
            lo, hi = 0, PTR_MAX - 1
        elif signed:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            lo, hi = 0, (1 << w) - 1
        s = mksym(nm, 'lazy', (addr, size), lo, hi, isptr, key=key)
        s.tag = tag
        return s

    def alias_forks(self, st, base, off, size):
        """same-root cells at other symbolic offsets that may overlap.
        -> None if none, or the Lin difference to case-split on"""
        rt = self.roots(base)
        for b2 in st.mem:
            if b2 == base:
                continue
            if self.roots(b2) != rt:
                continue
            d = base - b2
            for o2, cell in st.mem[b2].items():
                sz2 = cell[0]
                df = d + (off - o2)       # addr - addr2
                if st.facts.ge0(df - sz2) or st.facts.ge0(-df - size):
                    continue
                # congruence: all coefficients multiples of g, remainder apart
                g = 0
                for _, k in df.t:
                    g = gcd(g, k)
                if g:
                    r = df.c % g
                    if r >= sz2 and g - r >= size:
                        continue
                    if r == 0 and size <= g and sz2 <= g and st.facts.nonzero(df):
                        continue
                return df, b2, o2, sz2
        return None

    def load(self, st, addr, size, isptr=False, signed=False, _d=0):
        """-> list of (state, value)"""
        base, off = self.split(addr)
        cells = st.mem.get(base)
        if cells is not None:
            c = cells.get(off)
            if c is not None and c[0] == size:
                v = c[1]
                if isptr and isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
                    sy = SYMS[v.t[0][0][0]]
                    if not sy.ptr and sy.kind in ('lazy', 'fresh') and len(v.t[0][0]) == 1 and v.t[0][1] == 1:
                        sy.ptr = True
                        sy.hi = min(sy.hi, PTR_MAX - 1)
                return [(st, v)]
        if _d < 4:
            al = self.alias_forks(st, base, off, size)
            if al is not None and al[3] == size:
                df = al[0]
                out = []
                s2 = st.copy()
                for s in self.assume(s2, Cond('eq', df)):
                    out += self.load(s, s.n(addr), size, isptr, signed, _d + 1)
                for s in self.assume(st, Cond('ne', df)):
                    out += self.load(s, s.n(addr), size, isptr, signed, _d + 1)
                return out
        if cells is not None:
            # overlapping cells of other sizes in the same base
            for o2, (sz2, v2) in cells.items():
                if o2 <= off and off + size <= o2 + sz2 and sz2 > size:
                    if isinstance(v2, Lin):
                        if v2.is_const():
                            v = C((v2.c % (1 << (8 * sz2)) >> (8 * (off - o2))) & ((1 << (8 * size)) - 1))
                        elif off == o2:
                            v = v2          # mod 2^w semantics
                        else:
                            v = S(opaque('bytes%d_%d' % (off - o2, size), (v2,), 0, (1 << (8 * size)) - 1))
                        return [(st, v)]
                elif o2 < off + size and off < o2 + sz2:
                    if size == 8 and sz2 < 8 and o2 >= off:
                        # compose from parts when they tile
                        parts, p = [], off
                        while p < off + size:
                            c3 = cells.get(p)
                            if c3 is None or p + c3[0] > off + size:
                                parts = None
                                break
                            parts.append((p, c3))
                            p += c3[0]
                        if parts:
                            v = ZERO
                            for p, c3 in parts:
                                v = v + self.u(st, c3[1], 8 * c3[0]).scale(1 << (8 * (p - off)))
                            return [(st, v)]
                    return [(st, S(fresh('bytes', 0, (1 << (8 * size)) - 1)))]
        if self.copies and st.ghost:
            for i in base.syms():
                cp = st.ghost.get(('copy', i))
                if cp is not None:
                    o = addr - S(SYMS[i])
                    if st.facts.ge0(o) and st.facts.ge0(cp[1] - o - size):
                        out = []
                        for s2, v in self.load(st, st.n(cp[0] + o), size, isptr, signed):
                            s2.mem.setdefault(base, {})[off] = (size, v)
                            out.append((s2, v))
                        return out
        if self.fork_load is not None:
            r = self.fork_load(self, st, addr, size, isptr)
            if r is not None:
                return r
        s = self.lazy(addr, size, isptr, signed)
        v = st.n(S(s))
        st.mem.setdefault(base, {})[off] = (size, v)
        if self.lazyhook:
            self.lazyhook(self, st, s, addr, size)
            v = st.n(S(s))
        if st.dead:
            return []
        return [(st, v)]

    _stamp = [0]

    def store(self, st, addr, size, val, _d=0):
        """-> list of states"""
        base, off = self.split(addr)
        if self.copies:
            rt = self.roots(base)
            for k in [k for k, v in st.ghost.items() if k[0] == 'copy' and set(self.roots(v[0])) & set(rt)]:
                del st.ghost[k]
        if _d < 4:
            al = self.alias_forks(st, base, off, size)
            if al is not None:
                df, b2, o2, sz2 = al
                if sz2 == size:
                    out = []
                    s2 = st.copy()
                    for s in self.assume(s2, Cond('eq', df)):
                        out += self.store(s, s.n(addr), size, s.nv(val), _d + 1)
                    for s in self.assume(st, Cond('ne', df)):
                        out += self.store(s, s.n(addr), size, s.nv(val), _d + 1)
                    return out
                else:
                    # partial overlap possible: value unknown from here on
                    st.mem[b2][o2] = (sz2, S(fresh('part', 0, (1 << 8 * sz2) - 1)))
                    self._stamp[0] += 1
                    st.dirty[(b2, o2)] = self._stamp[0]
                    return self.store(st, addr, size, val, _d + 1)
        cells = st.mem.setdefault(base, {})
        for o2 in list(cells):
            sz2 = cells[o2][0]
            if o2 != off and o2 < off + size and off < o2 + sz2:
                # partial overlap: split constants, drop the rest
                v2 = cells[o2][1]
                del cells[o2]
                st.dirty.pop((base, o2), None)
                if o2 < off:
                    if isinstance(v2, Lin) and v2.is_const():
                        for q in range(o2, off):
                            cells[q] = (1, C(v2.c % (1 << 8 * sz2) >> 8 * (q - o2) & 255))
                    else:
                        cells[o2] = (off - o2, S(fresh('part', 0, (1 << 8 * (off - o2)) - 1)))
                    self._stamp[0] += 1
                    st.dirty[(base, o2)] = self._stamp[0]
                e2, e = o2 + sz2, off + size
                if e2 > e:
                    if isinstance(v2, Lin) and v2.is_const():
                        cells[e] = (e2 - e, C(v2.c % (1 << 8 * sz2) >> 8 * (e - o2)))
                    else:
                        cells[e] = (e2 - e, S(fresh('part', 0, (1 << 8 * (e2 - e)) - 1)))
                    st.dirty[(base, e)] = self._stamp[0]
            elif o2 == off and sz2 > size:
                v2 = cells[o2][1]
                e2, e = o2 + sz2, off + size
                if isinstance(v2, Lin) and v2.is_const():
                    cells[e] = (e2 - e, C(v2.c % (1 << 8 * sz2) >> 8 * (e - o2)))
                else:
                    cells[e] = (e2 - e, S(fresh('part', 0, (1 << 8 * (e2 - e)) - 1)))
                st.dirty[(base, e)] = self._stamp[0]
        cells[off] = (size, val)
        self._stamp[0] += 1
        st.dirty[(base, off)] = self._stamp[0]
        return [st]

    # rule-side convenience: read a field at the end of a path
    def rd(self, st, addr, size=8, isptr=False):
        addr = st.n(addr)
        base, off = self.split(addr)
        c = st.mem.get(base, {}).get(off)
        if c is not None and c[0] == size:
            return c[1]
        r = self.load(st.copy(), addr, size, isptr, False, 9)
        return r[0][1] if r else None

    def entry(self, addr, size=8, isptr=False):
        """the value the cell had on entry"""
        return S(self.lazy(addr, size, isptr))

    # -------------------------------------------------------------- operands
    def val(self, st, fr, v, ty):
        k = v[0]
        if k == 'loc':
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise Broken('unbound %s in %s' % (v[1], fr.fn.name))
        if k == 'int':
            if ty is not None and ty.k == 'int' and ty.n == 1:
                return TRUE if v[1] & 1 else FALSE
            return C(v[1])
        if k == 'glo':
            return self.glob(v[1])
        if k == 'zero':
            if ty.k in ('struct', 'named', 'array'):
                t = fr.fn.mod.resolve(ty)
                if t.k == 'array':
                    return tuple(self.val(st, fr, v, t.el) for _ in range(t.n))
                return tuple(self.val(st, fr, v, e) for e in t.el)
            return ZERO
        if k == 'undef':
            if ty.k == 'int' and ty.n == 1:
                return Cond('ne', S(fresh('undef', 0, 1)))
            if ty.k in ('struct', 'named'):
                t = fr.fn.mod.resolve(ty)
                return tuple(self.val(st, fr, v, e) for e in t.el)
            w = ty.n if ty.k == 'int' else 64
            return S(fresh('undef', 0, (1 << w) - 1))
        if k == 'fp':
            return S(opaque('fp:' + v[1], ()))
        if k == 'cgep':
            ops = [(t, self.val(st, fr, x, t)) for t, x in v[2]]
            return self.gep(st, fr.fn.mod, v[1], ops)
        if k == 'ccast':
            return self.val(st, fr, v[3], v[2])
        if k == 'cbin':
            a, b = self.val(st, fr, v[3], v[2]), self.val(st, fr, v[4], v[2])
            return self.binop(st, v[1], a, b, v[2].n)
        if k == 'agg':
            return tuple(self.val(st, fr, x, t) for t, x in v[1])
        if k in ('str', 'md', 'asm'):
            return S(opaque(k, (), 4096, PTR_MAX - 1))
        raise Broken('operand %r' % (v,))

    def glob(self, name):
        key = ('glob', name)
        if key in dom.INTERN:
            return S(dom.INTERN[key])
        return S(mksym('@' + name, 'glob', (), 4096, PTR_MAX - 1, True, key=key))

    def gep(self, st, mod, ty, ops):
        addr = ops[0][1]
        first = True
        t = ty
        for ot, iv in ops[1:]:
            if first:
                sz = mod.sizeof(t)
                addr = addr + self.idx(st, iv, ot).scale(sz)
                first = False
                continue
            t = mod.resolve(t)
            if t.k in ('struct', 'packed'):
                o, t = mod.field_off(t, iv.c)
                addr = addr + o
            elif t.k == 'array':
                addr = addr + self.idx(st, iv, ot).scale(mod.sizeof(t.el))
                t = t.el
            else:
                raise Broken('gep into %r' % t)
        return addr

    def idx(self, st, iv, ot):
        if ot.n == 64:
            if iv.is_const():
                v = iv.c % U64
                return C(v - U64 if v >= U64 // 2 else v)
            return iv
        return self.s(st, iv, ot.n)

    # -------------------------------------------------------------- arithmetic
    def binop(self, st, op, a, b, w):
        if op == 'add':
            return self.cn(a + b, w)
        if op == 'sub':
            return self.cn(a - b, w)
        if op == 'mul':
            if a.is_const() or b.is_const():
                return self.cn(mul(a, b), w)
            return mul(self.u(st, a, w), self.u(st, b, w)) if w < 64 else mul(a, b)
        M = 1 << w
        if op in ('shl', 'lshr', 'ashr') and self.check_shifts:
            x = self.u(st, b, w)
            if not st.facts.ge0(C(w - 1) - x):
                st.event('badshift', (op, x), self.cur_loc)
        if op == 'shl':
            b = self.pin(st, self.u(st, b, w))
            pb = pow2(b)
            self.pow2facts(st, pb, b, w)
            return self.cn(mul(a, pb), w)
        if op in ('udiv', 'urem', 'lshr', 'and', 'or', 'xor'):
            # not/complement idioms first
            if op == 'xor':
                if b.is_const() and b.c % M == M - 1:
                    return self.cn(-a - 1, w)
                if a.is_const() and a.c % M == M - 1:
                    return self.cn(-b - 1, w)
            if op == 'and':
                return self.band(st, a, b, w)
            a, b = self.u(st, a, w), self.u(st, b, w)
            if a.is_const() and b.is_const():
                x, y = a.c, b.c
                if op == 'udiv':
                    return C(x // y) if y else C(0)
                if op == 'urem':
                    return C(x % y) if y else C(0)
                if op == 'lshr':
                    return C(x >> y) if y < w else C(0)
                if op == 'or':
                    return C(x | y)
                return C(x ^ y)
            if op == 'udiv':
                return self.udiv(st, a, b, w)
            if op == 'lshr':
                b = self.pin(st, b)
                return self.udiv(st, a, pow2(b), w, 'lshr', b)
            if op == 'urem':
                return self.urem(st, a, b, w)
            if op == 'or':
                if a.is_const() and a.c == 0:
                    return b
                if b.is_const() and b.c == 0:
                    return a
                if a == b:
                    return a
                a, b = self.pin(st, a), self.pin(st, b)
                if a.is_const() and b.is_const():
                    return C(a.c | b.c)
                for x, y in ((a, b), (b, a)):
                    # x multiple of 2^k, y < 2^k
                    k = 64
                    for _, cc in x.t:
                        k = min(k, (cc & -cc).bit_length() - 1)
                    if x.c:
                        k = min(k, (x.c & -x.c).bit_length() - 1)
                    if 0 < k < 64 and st.facts.ge0(C((1 << k) - 1) - y):
                        return x + y
                    # x aligned, y below the alignment
                    if k == 0 and st.facts.ge0(y):
                        yh = self.rng(st, y)[1]
                        kk = yh.bit_length()
                        if 0 < kk < 64 and self.aligned_to(st, x, C(1 << kk)):
                            return x + y
                r = opaque('or%d' % w, tuple(sorted((a, b), key=repr)), 0, M - 1)
                st.facts.add_ge(S(r) - a)
                st.facts.add_ge(S(r) - b)
                st.facts.add_ge(a + b - S(r))
                # no bit above the highest one of the operands
                top = max(self.rng(st, a)[1], self.rng(st, b)[1])
                if 0 <= top < M:
                    st.facts.add_ge(C((1 << top.bit_length()) - 1) - S(r))
                return S(r)
            if op == 'xor':
                if a == b:
                    return ZERO
                for x, y in ((a, b), (b, a)):
                    if x.is_const() and x.c == 0:
                        return y
                for x, y in ((a, b), (b, a)):
                    if y.is_const() and y.c & (y.c + 1) == 0 and st.facts.ge0(x) and st.facts.ge0(y - x):
                        return y - x
                # flipping one bit of an address whose lower bits are known
                for x, y in ((a, b), (b, a)):
                    if not self.is_pow2(st, y):
                        continue
                    hi, lo = self.align_split(st, x, y.scale(2))
                    q = self.exact_div(lo, y) if (lo.t or lo.c) else ZERO
                    if q is not None and q.is_const():
                        return x - y if q.c & 1 else x + y
                r = opaque('xor%d' % w, tuple(sorted((a, b), key=repr)), 0, M - 1)
                st.facts.add_ge(a + b - S(r))
                st.facts.add_ne(S(r) - a)
                st.facts.add_ne(S(r) - b)
                return S(r)
        if op in ('sdiv', 'srem', 'ashr'):
            a, b = self.s(st, a, w), self.s(st, b, w)
            if a.is_const() and b.is_const() and b.c:
                q = abs(a.c) // abs(b.c)
                q = q if (a.c >= 0) == (b.c > 0) else -q
                if op == 'sdiv':
                    return C(q)
                if op == 'srem':
                    return C(a.c - q * b.c)
                return C(a.c >> b.c)
            if op == 'ashr' and b.is_const():
                if st.facts.ge0(a):
                    return self.udiv(st, a, C(1 << b.c), w, 'lshr', b)
            if op in ('sdiv', 'srem') and st.facts.ge0(a) and st.facts.ge0(b - 1):
                return self.udiv(st, a, b, w) if op == 'sdiv' else self.urem(st, a, b, w)
            # exact division of pointer differences
            if op == 'sdiv' and b.is_const() and b.c and all(k % b.c == 0 for _, k in a.t) and a.c % b.c == 0:
                return Lin(tuple((m, k // b.c) for m, k in a.t), a.c // b.c)
            return S(opaque('%s%d' % (op, w), (a, b), -(M // 2), M // 2 - 1))
        raise Broken('binop ' + op)

    def pin(self, st, f):
        """the constant f is known to equal, if any"""
        if f.is_const():
            return f
        lo, hi = self.rng(st, f)
        return C(lo) if lo == hi else f

    def rng(self, st, f):
        lo, hi = st.facts.low(f), -st.facts.low(-f)
        t = dict(f.t)
        for g in st.facts.ge:
            if len(g.t) == len(f.t) and g.t[0][0] == f.t[0][0]:
                k = g.t[0][1] // f.t[0][1] if g.t[0][1] % f.t[0][1] == 0 else 0
                if k in (1, -1) and all(t.get(m) == c * k for m, c in g.t):
                    if k == 1:
                        lo = max(lo, f.c - g.c)
                    else:
                        hi = min(hi, f.c + g.c)
        return lo, hi

    def pow2facts(self, st, pb, e, w):
        if pb.is_const():
            return
        lo, hi = st.facts.low(e), -st.facts.low(-e)
        if hi > 31:
            for b in (31, 63):
                if hi > b and st.facts.ge0(C(b) - e):
                    hi = b
        if 0 <= lo < 200:
            st.facts.add_ge(pb - (1 << lo))
        if 0 <= hi < w:
            st.facts.add_ge(C(1 << hi) - pb)
        # monotone against the other powers of two of the path
        for y in self.known_pow2(st):
            (mm, kk), = y.t
            d = SYMS[mm[0]].args[0] + (kk.bit_length() - 1) - e
            if d.is_const():
                continue
            if st.facts.ge0(d):
                st.facts.add_ge(y - pb)
            elif st.facts.ge0(-d):
                st.facts.add_ge(pb - y)
        # 2^(msb(x)) <= x < 2^(msb(x)+1)
        if len(e.t) == 1 and e.t[0][1] == 1:
            s = SYMS[e.t[0][0][0]]
            if s.kind == 'msb' and 0 <= e.c:
                x = s.args[0]
                if st.facts.ge0(x - 1):
                    st.facts.add_ge(x.scale(1 << e.c) - pb)
                    st.facts.add_ge(pb.scale(2) - x.scale(1 << e.c) - 1)

    def cn(self, f, w):
        """keep constants small"""
        M = 1 << w
        if f.is_const():
            return C(f.c % M)
        if not (-(M >> 1) < f.c <= (M >> 1)):
            c = f.c % M
            if c > M >> 1:
                c -= M
            f = Lin(f.t, c)
        for _, k in f.t:
            if not (-(M >> 1) < k <= (M >> 1)):
                t = []
                for m, k in f.t:
                    k %= M
                    if k > M >> 1:
                        k -= M
                    if k:
                        t.append((m, k))
                return Lin(tuple(t), f.c)
        return f

    def band(self, st, a, b, w):
        M = 1 << w
        if a.is_const() and b.is_const():
            return C((a.c % M) & (b.c % M))
        if a.is_const():
            a, b = b, a
        if b.is_const():
            mk = b.c % M
            if mk == 0:
                return ZERO
            if mk == M - 1:
                return a
            low = mk + 1
            if low & (low - 1) == 0:       # low mask 2^k - 1
                return self.urem(st, self.u_mod(st, a, w), C(low), w, lowmask=True)
            inv = M - mk
            if inv & (inv - 1) == 0:       # ~(2^k-1)
                au = self.u(st, a, w)
                return self.aligndown(st, au, C(inv), w)
            # ~ (low mask) expressed in a smaller width handled above
            au = self.u(st, a, w)
            r = opaque('and%d' % w, (au, C(mk)), 0, mk)
            st.facts.add_ge(au - S(r))
            return S(r)
        # x & (A-1)  and  x & -A  with A a power-of-two form
        for x, y in ((a, b), (b, a)):
            y = self.cn(y, w)
            A = y + 1
            if self.is_pow2(st, A) and not self.is_pow2(st, -y):
                return self.urem(st, self.u(st, x, w), A, w, lowmask=True)
            if self.is_pow2(st, -y):
                return self.aligndown(st, self.u(st, x, w), -y, w)
        for x, y in ((a, b), (b, a)):
            y = self.cn(y, w)
            for A, off in ((-y - 1, True), (y, False)):
                # clear or test a single bit
                if not A.is_const() and self.is_pow2(st, A):
                    xu = self.u(st, x, w)
                    r = self.urem(st, xu, A.scale(2), w, lowmask=True)
                    if st.facts.ge0(r - A):
                        return xu - A if off else A
                    if st.facts.ge0(A - r - 1):
                        return xu if off else ZERO
        au, bu = self.u(st, a, w), self.u(st, b, w)
        if au == bu:
            return au
        if self.cn(a + b, w) == ZERO:
            # x & -x, the lowest set bit: known if all other terms are
            # multiples of more than the lowest bit of the constant
            for x in (au, bu):
                if x.c and all(k % ((x.c & -x.c) << 1) == 0 for _, k in x.t):
                    return C(x.c & -x.c)
        r = opaque('and%d' % w, tuple(sorted((au, bu), key=repr)), 0, M - 1)
        st.facts.add_ge(au - S(r))
        st.facts.add_ge(bu - S(r))
        return S(r)

    def u_mod(self, st, a, w):
        return a if self.rng_u(st, a, w) else self.u(st, a, w)

    def is_pow2(self, st, f):
        if f.is_const():
            return f.c > 0 and f.c & (f.c - 1) == 0
        if len(f.t) == 1 and f.c == 0:
            m, k = f.t[0]
            if k > 0 and k & (k - 1) == 0:
                return all(SYMS[i].kind == 'pow2' or SYMS[i].tag == 'pow2' or
                           self.pow2sym(st, i) for i in m)
        return False

    def pow2sym(self, st, i):
        return ('pow2', i) in st.ghost

    def aligndown(self, st, x, A, w):
        """largest multiple of A not above x"""
        x0 = x
        # drop the parts of x that are multiples of A
        if A.is_const():
            keep, mult = [], []
            for m, k in x.t:
                (mult if k % A.c == 0 else keep).append((m, k))
            cm = x.c // A.c * A.c
            if not keep:
                return Lin(tuple(mult), cm)
        else:
            q = self.exact_div(x, A)
            if q is not None:
                return x
            # strip multiples of A: monomials divisible by A
            pass
        al = self.aligned_to(st, x, A)
        if al:
            return x
        # aligned part + remainder below A
        hi, lo = self.align_split(st, x, A)
        if hi.t or hi.c:
            if st.facts.ge0(lo) and st.facts.ge0(A - 1 - lo):
                return hi
            if st.facts.ge0(lo + A) and st.facts.ge0(-lo - 1):
                return hi - A
        # (y + A - 1) & -A with y aligned -> y
        y = x - A + 1
        if self.aligned_to(st, y, A):
            return y
        r = opaque('aligndn', (x, A), 0, (1 << w) - 1)
        r = S(r)
        st.facts.add_ge(x - r)
        st.facts.add_ge(r - x + A - 1)
        return r

    def aligned_to(self, st, f, A):
        """f is a multiple of A by shape or by a recorded alignment fact"""
        if f.is_const() and A.is_const():
            return f.c % A.c == 0
        z = dom.INTERN.get(('aligndn', f, A, U64 - 1))
        if z is not None and st.facts.zero(st.n(S(z)) - f):
            return True
        for m, k in f.t:
            if A.is_const() and k % A.c == 0:
                continue
            ok = False
            for i in m:
                s = SYMS[i]
                if s.kind == 'aligndn' and self.divides(st, A, s.args[1]):
                    ok = True
                al = st.ghost.get(('align', i))
                if al is not None and self.divides(st, A, al):
                    ok = True
                if s.kind == 'pow2' and self.divides(st, A, S(s)):
                    ok = True
            if not ok:
                q = self.exact_div(Lin(((m, k),), 0), A)
                if q is None:
                    return False
        if f.c == 0:
            return True
        if A.is_const():
            return f.c % A.c == 0
        return self.exact_div(C(f.c), A) is not None

    def align_split(self, st, x, A):
        hi, lo = [], []
        for m, k in x.t:
            if len(A.t) == 1 and A.c == 0 and m == A.t[0][0] and k % A.t[0][1]:
                # a few A and a part of one
                r = k % A.t[0][1]
                if k - r:
                    hi.append((m, k - r))
                lo.append((m, r))
                continue
            (hi if self.aligned_to(st, Lin(((m, k),), 0), A) else lo).append((m, k))
        ch = 0
        if A.is_const():
            ch = x.c // A.c * A.c
        return Lin(tuple(hi), ch), Lin(tuple(lo), x.c - ch)

    def divides(self, st, a, b):
        """a | b"""
        if a == b:
            return True
        return self.exact_div(b, a) is not None

    def exact_div(self, a, b):
        """a / b when it is a polynomial"""
        if a.is_const() and b.is_const():
            return C(a.c // b.c) if b.c and a.c % b.c == 0 else None
        if b.is_const():
            if all(k % b.c == 0 for _, k in a.t) and a.c % b.c == 0:
                return Lin(tuple((m, k // b.c) for m, k in a.t), a.c // b.c)
            return None
        if len(b.t) == 1 and b.c == 0:
            bm, bk = b.t[0]
            out = []
            if a.c:
                return None
            for m, k in a.t:
                if k % bk:
                    # pow2 coefficient may still divide
                    return None
                mm = list(m)
                for i in bm:
                    if i in mm:
                        mm.remove(i)
                    else:
                        return None
                out.append((tuple(mm), k // bk))
            c = 0
            res = {}
            for m, k in out:
                if not m:
                    c += k
                else:
                    res[m] = k
            return Lin(tuple(sorted(res.items())), c)
        return None

    def udiv(self, st, a, b, w, op='udiv', sh=None):
        if b.is_const() and b.c == 1:
            return a
        if b.is_const() and b.c == 0:
            return S(fresh('div0'))
        q = self.exact_div(a, b)
        if q is not None:
            return q
        if b.is_const():
            # split off the multiple part:  (b*q + r)/b  with 0 <= r < b
            mult, rest = [], []
            for m, k in a.t:
                (mult if k % b.c == 0 else rest).append((m, k))
            cm = a.c // b.c
            r = Lin(tuple(rest), a.c - cm * b.c)
            qpart = Lin(tuple((m, k // b.c) for m, k in mult), cm)
            if (mult or cm) and st.facts.ge0(r) and st.facts.ge0(C(b.c - 1) - r):
                return qpart
            if st.facts.ge0(r):
                inner = self.udiv(st, r, b, w) if mult or cm else None
                if inner is not None:
                    return qpart + inner
        if st.facts.ge0(b - 1 - a):
            return ZERO
        exact = False
        if b.is_const() and b.c > 1 and b.c & (b.c - 1) == 0:
            # what lies below an aligned part does not count
            h, l = self.align_split(st, a, b)
            if h.t:
                if l.t and st.facts.ge0(l) and st.facts.ge0(b - 1 - l):
                    return self.udiv(st, h, b, w)
                exact = not l.t and not l.c
        if b.is_const():
            lo, hi = self.rng(st, a)
            if lo >= 0 and lo // b.c == hi // b.c:
                return C(lo // b.c)
        s = S(opaque('udiv', (a, b), 0, U64 - 1 if b.is_const() else (1 << w) - 1))
        # b*s <= a < b*s + b
        st.facts.add_ge(a - mul(b, s))
        st.facts.add_ge(mul(b, s) - a if exact else mul(b, s) + b - a - 1)
        if b.is_const():
            st.facts.add_ge(C(min(hi, U64 - 1) // b.c) - s)
            if lo >= b.c:
                st.facts.add_ge(s - lo // b.c)
        elif st.facts.ge0(a - b):
            st.facts.add_ge(s - 1)
        return s

    def urem(self, st, a, b, w, lowmask=False):
        if b.is_const() and b.c == 1:
            return ZERO
        if b.is_const() and b.c and not a.is_const():
            # x mod c is congruent to x when b divides c
            for m, k in a.t:
                sy = SYMS[m[0]]
                if len(m) == 1 and sy.kind == 'urem' and sy.args[1].is_const() and sy.args[1].c % b.c == 0 and len(a.t) > 1:
                    x = st.n(sy.args[0])
                    if st.facts.ge0(x):
                        r = self.cn(a - S(sy).scale(k) + x.scale(k), w) if b.c & (b.c - 1) == 0 else a - S(sy).scale(k) + x.scale(k)
                        if r.is_const():
                            return C(r.c % b.c)
                        if len(r.t) < len(a.t):
                            return self.urem(st, r, b, w, lowmask)
        if b.is_const() and not a.is_const():
            lo, hi = self.rng(st, a)
            if lo >= 0 and lo // b.c == hi // b.c:
                return a - (lo // b.c) * b.c
        if b.is_const() and b.c > 0 and not a.is_const():
            for x in DIVISORS:
                if x % b.c == 0:
                    for s2 in UREM.get((x, canon(a, x)), ()):
                        if s2.id in st.sub and st.sub[s2.id] == ZERO:
                            return ZERO
        if b.is_const() and a.c == 0 and len(a.t) == 1 and a.t[0][1] == 1 and len(a.t[0][0]) == 1:
            sy = SYMS[a.t[0][0][0]]
            if sy.kind == 'urem' and sy.args[1].is_const() and sy.args[1].c % b.c == 0:
                return self.urem(st, sy.args[0], b, w, lowmask)
        if b.is_const():
            rest = [(m, k % b.c) for m, k in a.t if k % b.c]
            r = Lin(tuple(rest), a.c % b.c)
            if r.is_const():
                return r
            if st.facts.ge0(r) and st.facts.ge0(C(b.c - 1) - r):
                return r
            ctr = Lin(tuple((m, k - b.c if 2 * k > b.c else k) for m, k in r.t),
                      r.c - b.c if 2 * r.c > b.c else r.c)
            for cand in (ctr, ctr + b.c, ctr - b.c):
                if st.facts.ge0(cand) and st.facts.ge0(C(b.c - 1) - cand):
                    return cand
            if b.c & (b.c - 1) == 0:
                a = ctr
            elif self.rng_u(st, r, w):
                a = r
            else:
                # modular reduction is only valid when b divides 2^w
                a = self.u(st, r if b.c & (b.c - 1) == 0 else a, w)
        if st.facts.ge0(b - 1 - a) and st.facts.ge0(a):
            return a
        if self.aligned_to(st, a, b):
            return ZERO
        if lowmask or b.is_const():
            hi, lo = self.align_split(st, a, b)
            if (hi.t or hi.c) and (self.is_pow2(st, b)):
                if lo.is_const() and b.is_const():
                    return C(lo.c % b.c)
                if st.facts.ge0(lo) and st.facts.ge0(b - 1 - lo):
                    return lo
                a = lo
        if st.facts.ge0(a) and self.is_pow2(st, b) and \
                (not b.is_const() or any(SYMS[i].ptr for i in a.syms())):
            # canonical form: what is above the aligned part
            return a - self.aligndown(st, a, b, w)
        if not b.is_const() and st.facts.ge0(a) and st.facts.ge0(b - 1):
            # canonical form: what the quotient leaves
            q = self.udiv(st, a, b, w)
            if q is not None:
                return a - mul(b, q)
        s = S(opaque('urem', (a, b), 0, b.c - 1 if b.is_const() else (1 << w) - 1))
        if b.is_const():
            note_urem(s, a, b.c)
        if st.facts.ge0(a):
            st.facts.add_ge(a - s)
        st.facts.add_ge(b - 1 - s)
        return s

    # -------------------------------------------------------------- compare
    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, Cond) or isinstance(b, Cond):
            # i1 comparison with constant
            if isinstance(b, Cond) and b.op in ('true', 'false'):
                same = (b.op == 'true') == (pred == 'eq')
                return a if same else a.neg()
            return None
        w = ty.n if ty.k == 'int' else 64
        if pred in ('eq', 'ne'):
            d = self.cn(a - b, w)
            if d.is_const():
                z = d.c % (1 << w) == 0
                return (TRUE if z else FALSE) if pred == 'eq' else (FALSE if z else TRUE)
            if w == 64 and ty.k == 'ptr':
                return Cond(pred, a - b)
            # both representatives must be exact integers
            for norm in (self.u, self.s):
                x, y = norm(st, a, w), norm(st, b, w)
                if not self.wrapped(x) and not self.wrapped(y):
                    return Cond(pred, x - y)
            x, y = self.u(st, a, w), self.u(st, b, w)
            return Cond(pred, x - y)
        if pred[0] == 'u':
            x, y = self.u(st, a, w), self.u(st, b, w)
        else:
            x, y = self.s(st, a, w), self.s(st, b, w)
        p = pred[1:]
        if p == 'ge':
            return Cond('ge', x - y)
        if p == 'gt':
            return Cond('ge', x - y - 1)
        if p == 'le':
            return Cond('ge', y - x)
        return Cond('ge', y - x - 1)

    def wrapped(self, f):
        for m, _ in f.t:
            for i in m:
                if SYMS[i].kind.startswith(('wrap', 'swrap')):
                    return True
        return False

    def split_wrap(self, st, fr, ops, vals, w, pred):
        """a value that may or may not have wrapped: one state per case"""
        if not self.do_split:
            return None
        M = 1 << w
        if pred in ('eq', 'ne'):
            d = self.cn(vals[0] - vals[1], w)
            if d.is_const():
                return None
        signed = pred[0] == 's'
        for o, v in zip(ops, vals):
            if v.is_const() or o[0] != 'loc':
                continue
            base = -(M >> 1) if signed else 0
            f = v
            if st.facts.ge0(f - base) and st.facts.ge0(C(base + M - 1) - f):
                continue
            r = self.s(st, f, w) if signed else self.u(st, f, w)
            if not self.wrapped(r):
                continue
            f = None
            for m, k in r.t:
                if len(r.t) == 1 and len(m) == 1 and SYMS[m[0]].kind.startswith(('wrap', 'swrap')) and r.c == 0:
                    f = SYMS[m[0]].args[0]
            if f is None or any(len(m) > 1 for m, k in f.t):
                continue
            lo, hi = st.facts.low(f), -st.facts.low(-f)
            ks = [k for k in range(-2, 3) if lo < base + M * (k + 1) and hi >= base + M * k]
            if lo < base - 2 * M or hi >= base + 3 * M or len(ks) > 3:
                continue
            out = []
            for k in ks:
                s2 = st.copy()
                g = f - M * k
                for s3 in self.assume(s2, Cond('ge', g - base)):
                    for s4 in self.assume(s3, Cond('ge', C(base + M - 1) - s3.n(g))):
                        if s4.facts.contradictory():
                            continue
                        s4.frames[-1].regs[o[1]] = s4.n(g)
                        out.append(s4)
            return out
        return None

    do_split = True

    def tolin(self, st, v):
        """Cond -> list of (state, Lin 0/1)"""
        if isinstance(v, Lin):
            return [(st, v)]
        d = self.decide(st, v)
        if d is not None:
            return [(st, ONE if d else ZERO)]
        self.forks += 1
        s2 = st.copy()
        return [(s, ONE) for s in self.assume(s2, v)] + \
               [(s, ZERO) for s in self.assume(st, v.neg())]

    # -------------------------------------------------------------- run
    def call_entry(self, name, args, st=None, unit=None):
        fn = self.find(name, unit or self.unit) if isinstance(name, str) else name
        if fn is None:
            raise Broken('anchor missing: function %s' % name)
        st = st or State()
        if len(args) != len(fn.params):
            raise Broken('anchor changed: %s takes %d parameters, %d expected'
                         % (fn.name, len(fn.params), len(args)))
        self.push(st, fn, args, None)
        self.terms = []
        outs = self.explore([st], None)
        return self.terms + [Path('ret', s, r) for s, r in outs]

    def push(self, st, fn, args, call):
        fr = Frame()
        fr.fn, fr.block, fr.idx, fr.prev, fr.call = fn, fn.order[0], 0, None, call
        fr.regs = {}
        fr.loops = ()
        fr.sret = None
        for (t, nm), v in zip(fn.params, args):
            if isinstance(v, Cond) and not (t.k == 'int' and t.n == 1):
                v = ONE if v.op == 'true' else ZERO
            fr.regs[nm] = v
        st.frames.append(fr)
        self.seen_fns.add(fn.name)
        llir.find_loops(fn)

    def explore(self, work, marker):
        """run all states.  marker=(depth, header, body): stop when the loop is
        left or its header is reached again.
        without marker -> [(state, retval)];  with -> (backs, exits)"""
        rets, backs, exits = [], [], []
        work = list(work)
        while work:
            st = work.pop()
            if st.dead:
                continue
            r = self.run1(st, work, marker)
            if r is None:
                continue
            if r[0] == 'ret':
                rets.append((st, r[1]))
                if len(rets) > self.paths_limit:
                    raise Broken('path limit')
            elif r[0] == 'back':
                backs.append(st)
            elif r[0] == 'exit':
                exits.append(r[1])
        if marker is None:
            return rets
        return backs, exits

    def run1(self, st, work, marker):
        """advance one state until it ends; forks are pushed on work"""
        while True:
            fr = st.frames[-1]
            if fr.idx == 0:
                pass
            ins = fr.fn.blocks[fr.block][fr.idx]
            self.steps += 1
            if self.steps > self.step_limit:
                raise Broken('step limit (%s)' % fr.fn.name)
            op = ins.op
            if self.check_shifts:
                self.cur_loc = self.loc(ins)
            if op == 'br':
                if ins.a[0] is None:
                    tgt = ins.a[1]
                    r = self.jump(st, fr, tgt, work, marker)
                else:
                    c = self.val(st, fr, ins.a[0], llir.ity(1))
                    d = self.decide(st, c)
                    self.log(st, c)
                    if d is None:
                        self.forks += 1
                        if self.unroll_watch is not None:
                            self.unroll_watch(st, fr, ins)
                        s2 = st.copy()
                        lc = self.loc(ins)
                        s2.notes = (s2.notes, (lc, c.neg()))
                        st.notes = (st.notes, (lc, c))
                        for s in self.assume(s2, c.neg()):
                            r2 = self.jump(s, s.frames[-1], ins.a[2], work, marker)
                            self.settle(s, r2, work, marker)
                        l = self.assume(st, c)
                        if not l:
                            return None
                        for s in l[1:]:
                            r2 = self.jump(s, s.frames[-1], ins.a[1], work, marker)
                            self.settle(s, r2, work, marker)
                        st = l[0]
                        r = self.jump(st, st.frames[-1], ins.a[1], work, marker)
                        self.settle(st, r, work, marker)
                        return None
                    r = self.jump(st, fr, ins.a[1] if d else ins.a[2], work, marker)
                if r == 'go':
                    continue
                self.settle(st, r, work, marker)
                return None
            elif op == 'switch':
                t, v, dflt, cases = ins.a
                x = self.val(st, fr, v, t)
                rest = st
                dead = False
                lc = self.loc(ins)
                for cv, lab in cases:
                    c = self.icmp(rest, 'eq', t, rest.nv(x), C(cv))
                    d = self.decide(rest, c)
                    if d is False:
                        continue
                    if d is True:
                        r = self.jump(rest, rest.frames[-1], lab, work, marker)
                        self.settle(rest, r, work, marker)
                        dead = True
                        break
                    s2 = rest.copy()
                    for s in self.assume(s2, c):
                        r = self.jump(s, s.frames[-1], lab, work, marker)
                        self.settle(s, r, work, marker)
                    l = self.assume(rest, c.neg())
                    if not l:
                        dead = True
                        break
                    rest = l[0]
                if not dead:
                    r = self.jump(rest, rest.frames[-1], dflt, work, marker)
                    self.settle(rest, r, work, marker)
                return None
            elif op == 'ret':
                v = None
                if ins.a[1] is not None:
                    v = self.val(st, fr, ins.a[1], ins.a[0])
                st.frames.pop()
                if not st.frames:
                    self.finish(st, v, work, marker)
                    return None
                caller = st.frames[-1]
                call = fr.call
                if call is not None and call.res is not None:
                    caller.regs[call.res] = v
                caller.idx += 1
                if marker is not None and len(st.frames) < marker[0]:
                    self.pend.append(('exit', st))
                    return None
                continue
            elif op == 'unreachable':
                self.terms.append(Path('abort', st, None))
                return None
            elif op == 'call':
                out = self.do_call(st, fr, ins)
                if out is None:
                    continue        # frame pushed or simple
                for s in out[1:]:
                    if not s.dead:
                        work.append(s)
                if not out or out[0].dead:
                    return None
                st = out[0]
                continue
            else:
                out = self.step(st, fr, ins)
                if out is None:
                    fr.idx += 1
                    continue
                for s in out:
                    s.frames[-1].idx += 1
                    if not s.dead:
                        work.append(s)
                return None

    pend = None
    unroll_watch = None
    check_shifts = False
    cur_loc = None

    def finish(self, st, v, work, marker):
        if marker is None:
            self.pend.append(('ret', st, v))
        else:
            # function returned from inside the summarised loop of the entry frame
            self.pend.append(('exitret', st, v))

    def settle(self, st, r, work, marker):
        if r == 'go':
            if not st.dead:
                work.append(st)
        elif r is None:
            pass
        else:
            self.pend.append(r)

    def log(self, st, c):
        if self.cmplog is not None and isinstance(c, Cond):
            self.cmplog.append(c)

    def explore(self, work, marker):
        save = self.pend
        self.pend = []
        rets, backs, exits = [], [], []
        work = list(work)
        while work:
            st = work.pop()
            if st.dead:
                continue
            self.run1(st, work, marker)
            for p in self.pend:
                if p[0] == 'ret':
                    rets.append((p[1], p[2]))
                elif p[0] == 'back':
                    backs.append(p[1])
                elif p[0] == 'exit':
                    exits.append(('st', p[1]))
                elif p[0] == 'exitret':
                    exits.append(('ret', p[1], p[2]))
            self.pend = []
            if len(rets) + len(backs) + len(exits) > self.paths_limit:
                raise Broken('path limit')
        self.pend = save
        if marker is None:
            return rets
        return backs, exits

    def jump(self, st, fr, tgt, work, marker):
        """move to block tgt.  -> 'go' | None | pending tuple"""
        src = fr.block
        loops = fr.fn.loops
        depth = len(st.frames)
        # leaving loops of this frame
        if fr.loops:
            fr.loops = tuple(h for h in fr.loops if tgt in loops[h])
        if marker is not None and depth == marker[0] and tgt not in marker[2]:
            fr.prev, fr.block, fr.idx = src, tgt, 0
            # the jump is completed by whoever resumes: phis done now
            self.pend.append(('exit', st))
            st.trail = (src, tgt)
            # perform phis / nested loop entry lazily: mark pending jump
            fr.idx = -1
            return None
        if tgt in loops:
            if tgt in fr.loops:
                # back edge
                if marker is not None and depth == marker[0] and tgt == marker[1]:
                    fr.prev = src
                    fr.block = tgt
                    fr.idx = 0
                    self.pend.append(('back', st))
                    return None
                # back edge of a loop being unrolled by hand (should not happen)
                raise Broken('unexpected back edge in %s' % fr.fn.name)
            self.enter_loop(st, fr, tgt, src, work, marker)
            return None
        fr.prev, fr.block, fr.idx = src, tgt, 0
        self.do_phis(st, fr)
        return 'go'

    def resume_exit(self, st, work, marker):
        """complete a pending loop exit in the outer context"""
        fr = st.frames[-1]
        if fr.idx == -1:
            tgt, src = fr.block, fr.prev
            fr.block = src
            r = self.jump(st, fr, tgt, work, marker)
            if r == 'go':
                work.append(st)
            elif r is not None:
                self.pend.append(r)
        else:
            if marker is not None and len(st.frames) < marker[0]:
                self.pend.append(('exit', st))
            else:
                work.append(st)

    def phi_vals(self, st, fr, block, src):
        out = []
        for ins in fr.fn.blocks[block]:
            if ins.op != 'phi':
                break
            for v, l in ins.a[1]:
                if l == src:
                    out.append((ins, self.val(st, fr, v, ins.a[0])))
                    break
            else:
                raise Broken('phi without edge in %s %s' % (fr.fn.name, block))
        return out

    def do_phis(self, st, fr):
        vals = self.phi_vals(st, fr, fr.block, fr.prev)
        for ins, v in vals:
            fr.regs[ins.res] = v
        fr.idx = len(vals)

    # -------------------------------------------------------------- loops
    def enter_loop(self, st, fr, H, src, work, marker):
        body = fr.fn.loops[H]
        depth = len(st.frames)
        phis = self.phi_vals(st, fr, H, src)
        S0 = st
        fr.block, fr.prev = H, src
        fr.idx = len(phis)
        for ins, v in phis:
            fr.regs[ins.res] = v
        S0.frames[-1].loops = fr.loops + (H,)
        mk = (depth, H, body)
        ex = self.try_unroll(S0, mk, phis)
        if ex is None:
            ex = self.summarise(S0, mk, phis)
        for e in ex:
            if e[0] == 'ret':
                if marker is None:
                    self.pend.append(('ret', e[1], e[2]))
                else:
                    self.pend.append(('exitret', e[1], e[2]))
            else:
                self.resume_exit(e[1], work, marker)

    def try_unroll(self, S0, mk, phis):
        """follow the loop concretely while its exit test is decided"""
        depth, H, body = mk
        cur = [S0.copy()]
        exits = []
        undecided = [False]
        save_w = self.unroll_watch
        saveterms = list(self.terms)
        fn = S0.frames[-1].fn

        class Undecided(Exception):
            pass

        def watch(st, fr, ins):
            if self.unroll_open:
                return      # the rule fixed the sizes: every path is finite
            if len(st.frames) == depth and fr.fn is fn and fr.block in body:
                if ins.a[1] not in body or ins.a[2] not in body:
                    raise Undecided()
        spend = self.pend
        both = 0
        try:
            for it in range(self.unroll_max + 1):
                self.unroll_watch = watch
                backs, ex = self.explore(cur, mk)
                self.unroll_watch = save_w
                exits += ex
                # the end is not decided but split off, round by round
                both += bool(ex and backs)
                if both > 18 and not self.unroll_open:
                    self.terms = saveterms
                    return None
                if not backs:
                    return exits
                if len(backs) > (20000 if self.unroll_open else 24) or it == self.unroll_max:
                    self.terms = saveterms
                    return None
                cur = []
                for b in backs:
                    self.do_phis(b, b.frames[-1])
                    cur.append(b)
        except Undecided:
            self.terms = saveterms
            self.pend = spend
            return None
        finally:
            self.unroll_watch = save_w

    def stable(self, f, mark):
        """form denotes the same thing on every iteration"""
        for i in deps(f):
            s = SYMS[i]
            if i >= mark and s.kind in ('fresh', 'hdr', 'elem', 'obj'):
                return False
        return True

    def numeric(self, v):
        return isinstance(v, Lin)

    def get_var(self, st, fr, key, phivals=None):
        k = key[0]
        if k == 'phi':
            return st.nv(phivals[key[1]])
        if k == 'mem':
            base = st.n(key[1])
            b, o = self.split(base + key[2])
            c = st.mem.get(b, {}).get(o)
            if c is None or c[0] != key[3]:
                r = self.load(st.copy(), base + key[2], key[3], key[4], False, 9)
                return r[0][1] if r else None
            return c[1]
        if k == 'ghost':
            return st.ghost.get(key[1], ZERO)
        if k == 'pfld':
            p = st.nv(phivals[key[1]])
            if not isinstance(p, Lin):
                return None
            r = self.load(st, p + key[2], key[3], key[4], False, 9)
            return r[0][1] if r else None
        if k == 'list':
            return st.lists.get(st.n(key[1]))

    def summarise(self, S0, mk, phis):
        depth, H, body = mk
        fr0 = S0.frames[-1]
        M = {}          # key -> entry value
        pv0 = {ins.res: v for ins, v in phis}
        ptys = {ins.res: ins.a[0] for ins, v in phis}
        mark = len(SYMS)
        info = LoopInfo(fr0.fn, H)
        info.entry = S0
        nseen = len(self.loop_seen)
        saveterms = self.terms
        savew = self.unroll_watch
        self.unroll_watch = None
        self.terms = []
        signed = self.signed_phis(fr0.fn, H)
        observed = {}

        def shv(st, v):
            v = st.n(v)
            for k, x in st.ghost.items():
                if isinstance(k, tuple) and k[0] == 'shv' and st.n(k[1]) == v:
                    return x
            return None

        def header(rel=None, inv=()):
            sh = S0.copy()
            fr = sh.frames[-1]
            vals = {}
            sh.trail = None
            for key in M:
                if key[0] == 'list':
                    continue
                nm = key[1] if isinstance(key[1], str) else '%r' % (key[1],)
                if key[0] == 'phi':
                    t = ptys[key[1]]
                    if t.k == 'int' and t.n == 1:
                        v = Cond('ne', S(self.hsym(key, nm, 0, 1, False)))
                    elif t.k == 'ptr':
                        v = S(self.hsym(key, nm, 0, PTR_MAX - 1, True, tag=self.tagof(pv0[key[1]])))
                    elif t.k == 'int':
                        e = M[key]
                        if key[1] in signed or isinstance(e, Lin) and (
                                e.is_const() and e.c < 0 or len(e.t) == 1 and e.c == 0 and len(e.t[0][0]) == 1
                                and SYMS[e.t[0][0][0]].lo < 0 and not SYMS[e.t[0][0][0]].kind == 'hdr'):
                            v = S(self.hsym(key, nm, -(1 << (t.n - 1)), (1 << (t.n - 1)) - 1, False))
                        else:
                            v = S(self.hsym(key, nm, 0, (1 << t.n) - 1, False))
                    else:
                        v = S(self.hsym(key, nm, 0, U64 - 1, False))
                elif key[0] == 'mem':
                    e = M[key]
                    isp = key[4]
                    lo, hi = 0, (1 << (8 * key[3])) - 1
                    if isinstance(e, Lin) and len(e.t) == 1 and e.c == 0 and len(e.t[0][0]) == 1:
                        sy = SYMS[e.t[0][0][0]]
                        if sy.lo < 0:
                            lo, hi = sy.lo, sy.hi
                    if isp:
                        hi = PTR_MAX - 1
                    v = S(self.hsym(key, self.name_addr(key[1] + key[2])[0] + "'", lo, hi, isp,
                                    tag=self.tagof(e)))
                elif key[0] == 'ghost':
                    v = S(self.hsym(key, 'ghost:%s' % (key[1],), -(1 << 100), 1 << 100, False))
                elif key[0] == 'pfld':
                    lo, hi = 0, PTR_MAX - 1 if key[4] else (1 << (8 * key[3])) - 1
                    e = M[key]
                    if not key[4] and isinstance(e, Lin) and len(e.t) == 1 and e.c == 0 and len(e.t[0][0]) == 1 \
                       and SYMS[e.t[0][0][0]].lo < 0:
                        lo, hi = -(hi + 1 >> 1), hi >> 1
                    v = S(self.hsym(key, '%s+%d' % (key[1], key[2]), lo, hi, key[4]))
                if key in observed:
                    v = self.shared(sh, *observed[key])
                vals[key] = v
            if rel:
                for key, expr in rel:
                    # expr: function(vals)->Lin
                    vals[key] = expr(vals)
            for key, v in vals.items():
                if key[0] == 'phi':
                    fr.regs[key[1]] = v
                elif key[0] == 'mem':
                    b, o = self.split(sh.n(key[1]) + key[2])
                    sh.mem.setdefault(b, {})[o] = (key[3], v)
                    self._stamp[0] += 1
                    sh.dirty[(b, o)] = self._stamp[0]
                elif key[0] == 'ghost':
                    sh.ghost[key[1]] = v
            for key, v in vals.items():
                if key[0] == 'pfld':
                    p = vals.get(('phi', key[1]))
                    if p is None:
                        continue
                    b, o = self.split(p + key[2])
                    sh.mem.setdefault(b, {})[o] = (key[3], v)
            for key in M:
                if key[0] == 'list':
                    sh.lists[key[1]] = LS((), (S(fresh('rest', kind='fresh')), False), ())
            info.vals = vals
            for c in inv:
                for f in c(vals):
                    sh.facts.add_ge(f)
            sh.events = (sh.events, Event('loop', (), None, (info, dict(vals))))
            return sh

        # ---- discovery
        backs = []
        for rnd in range(8):
            sh = header()
            base_ev = sh.events
            hvals = dict(info.vals)
            shm = {b: dict(c) for b, c in sh.mem.items()}
            shl = dict(sh.lists)
            shg = dict(sh.ghost)
            backs, exits = self.explore([sh], mk)
            grew = False
            for b in backs:
                fr = b.frames[-1]
                pv = {ins.res: v for ins, v in self.phi_vals(b, fr, H, fr.prev)}
                for ins, v in phis:
                    key = ('phi', ins.res)
                    cur = hvals.get(key, pv0[ins.res])
                    nv = pv[ins.res]
                    if key not in M and not self.same(b, cur, nv):
                        M[key] = pv0[ins.res]
                        grew = True
                for (base, off), stamp in b.dirty.items():
                    if not self.stable(base, mark):
                        continue
                    sz, v = b.mem[base][off]
                    hb = shm.get(base, {}).get(off)
                    hv = None
                    if hb is not None and hb[0] == sz:
                        hv = hb[1]
                    else:
                        lz = dom.INTERN.get(('lazy', base + off, sz, self.cfg))
                        hv = S(lz) if lz is not None else None
                    if hv is not None and self.same(b, hv, v):
                        continue
                    # is this key covered?
                    if any(k[0] == 'mem' and b.n(k[1]) + k[2] == base + off and k[3] == sz for k in M):
                        continue
                    isp = isinstance(v, Lin) and any(SYMS[i].ptr for i in v.syms())
                    key = ('mem', base, off, sz, isp)
                    r = self.load(S0, base + off, sz, isp, False, 9)
                    M[key] = r[0][1]
                    grew = True
                for h, l in b.lists.items():
                    if not self.stable(h, mark):
                        continue
                    hl = shl.get(h)
                    if hl is None or hl != l:
                        if ('list', h) not in M:
                            # lists only materialised but not changed stay as they are
                            if self.refines(h, hl, l):
                                continue
                            M[('list', h)] = None
                            grew = True
                for g, v in b.ghost.items():
                    if isinstance(g, tuple):
                        continue
                    if ('ghost', g) not in M and not self.same(b, shg.get(g, ZERO), v):
                        M[('ghost', g)] = S0.ghost.get(g, ZERO)
                        grew = True
            # derived variables: cells reached through pointer phis
            for key in list(M):
                if key[0] == 'phi' and ptys[key[1]].k == 'ptr' and ('phi', key[1]) in hvals:
                    P = hvals[key]
                    if not isinstance(P, Lin) or len(P.t) != 1:
                        continue
                    p0 = pv0[key[1]]
                    for b in backs + [e[1] for e in exits]:
                        for off, (sz, v) in list(b.mem.get(P, {}).items()):
                            fk = ('pfld', key[1], off, sz,
                                  isinstance(v, Lin) and len(v.t) == 1 and SYMS[v.t[0][0][0]].ptr)
                            if any(k[0] == 'pfld' and k[1] == key[1] and k[2] == off for k in M):
                                continue
                            if isinstance(p0, Lin) and not p0.is_const():
                                r = self.load(S0, p0 + off, sz, fk[4], False, 9)
                                if r:
                                    M[fk] = r[0][1]
                                    grew = True
            if S0.dead:
                self.terms = saveterms
                self.unroll_watch = savew
                return []
            if not grew:
                break
        else:
            raise Broken('loop state does not stabilise in %s' % fr0.fn.name)

        # ---- variables that hold an observation of a shared word in every round
        for key, e in M.items():
            if key[0] not in ('phi', 'mem') or not isinstance(e, Lin):
                continue
            src = shv(S0, e)
            if src is None:
                continue
            good = True
            for b in backs:
                fr = b.frames[-1]
                v = self.get_var(b, fr, key, {ins.res: x for ins, x in self.phi_vals(b, fr, H, fr.prev)})
                good = good and isinstance(v, Lin) and (shv(b, v) == src or self.same(b, v, hvals.get(key)))
            if good:
                observed[key] = src
        # ---- affine relations between loop variables
        outerlog, self.cmplog = self.cmplog, []
        sh = header()
        hvals = dict(info.vals)
        backs, exits = self.explore([sh], mk)
        cmplog, self.cmplog = self.cmplog, outerlog
        keys = [k for k in M if k[0] != 'list' and self.numeric(hvals.get(k)) and self.numeric(M[k])]
        rows = []
        usable = dict.fromkeys(keys, True)
        bvals = []
        for b in backs:
            fr = b.frames[-1]
            pv = {ins.res: v for ins, v in self.phi_vals(b, fr, H, fr.prev)}
            bv = {}
            for k in keys:
                v = self.get_var(b, fr, k, pv)
                if not isinstance(v, Lin):
                    usable[k] = False
                    continue
                bv[k] = v
            bvals.append((b, bv, pv))
        keys = [k for k in keys if usable[k]]
        rel = []
        if keys and backs:
            eqs = []
            for b, bv, pv in bvals:
                cols = [bv[k] - b.n(hvals[k]) for k in keys]
                monos = set()
                for c in cols:
                    for m, _ in c.t:
                        monos.add(m)
                for m in monos:
                    eqs.append([Fraction(dict(c.t).get(m, 0)) for c in cols])
                eqs.append([Fraction(c.c) for c in cols])
            for vec in nullspace(eqs, len(keys)):
                den = 1
                for q in vec:
                    den = den * q.denominator // gcd(den, q.denominator)
                iv = [int(q * den) for q in vec]
                g = 0
                for q in iv:
                    g = gcd(g, q)
                if g > 1:
                    iv = [q // g for q in iv]
                done = {k for k, _ in rel}
                # pivot: ghosts last resort first, then memory, phi
                cand = [i for i, q in enumerate(iv) if abs(q) == 1 and keys[i] not in done]
                if not cand:
                    continue
                cand.sort(key=lambda i: {'ghost': 0, 'pfld': 1, 'mem': 2, 'phi': 3}[keys[i][0]])
                pi = cand[0]
                others = [(i, q) for i, q in enumerate(iv) if q and i != pi]
                if any(keys[i] in done for i, q in others):
                    # order matters: skip relations among already fixed vars
                    pass
                sgn = iv[pi]

                def expr(vals, pi=pi, others=others, sgn=sgn):
                    f = M[keys[pi]]
                    for i, q in others:
                        f = f - (vals[keys[i]] - M[keys[i]]).scale(q * sgn)
                    return f
                rel.append((keys[pi], expr))
        # ---- bound candidates (Houdini)
        stride = {}
        for b, bv, pv in bvals:
            for k in keys:
                d = bv[k] - b.n(hvals[k])
                if d.is_const():
                    stride[k] = max(stride.get(k, 0), abs(d.c))
        cands = self.candidates(S0, M, keys, hvals, cmplog, mark, signed, ptys, stride)
        if backs:
            sp = self.first_test(S0, mk)
            if sp is not None:
                SIN, out = sp
                more = self.candidates(SIN, M, keys, hvals, cmplog, mark, signed, ptys, stride)
                if {c[0] for c in more} - {c[0] for c in cands}:
                    # the loop may be skipped altogether: a case of its own
                    del self.loop_seen[nseen:]
                    self.terms = saveterms
                    self.unroll_watch = savew
                    info.skipped = dict(M)
                    for s in out:
                        s.events = (s.events, Event('loop', (), None, (info, dict(M))))
                    backs, exits = self.explore(out, mk)
                    return exits + self.summarise(SIN, mk, phis)
        inv = []
        for rnd in range(10):
            sh = header(rel, inv=[c[1] for c in cands])
            if sh.dead:
                break
            hv2 = dict(info.vals)
            backs, exits = self.explore([sh], mk)
            drop = set()
            for b in backs:
                fr = b.frames[-1]
                pv = {ins.res: v for ins, v in self.phi_vals(b, fr, H, fr.prev)}
                bv = {}
                for k in M:
                    if k[0] != 'list':
                        bv[k] = self.get_var(b, fr, k, pv)
                for ci, c in enumerate(cands):
                    try:
                        fs = c[1](bv)
                    except (TypeError, KeyError, AttributeError):
                        drop.add(ci)
                        continue
                    for f in fs:
                        if not b.facts.ge0(b.n(f)):
                            drop.add(ci)
                            break
            if not drop:
                if not backs and bvals:
                    cands = []      # never let bounds cut off the loop body
                break
            cands = [c for i, c in enumerate(cands) if i not in drop]
        else:
            cands = []
        # ---- final exploration, over the reachable typestates
        # (inner loops met while the header was being established do not count)
        del self.loop_seen[nseen:]
        self.terms = saveterms
        self.unroll_watch = savew
        all_exits, all_backs = [], []
        seen, queue = [], [dict(S0.objs)]
        final_hv = None
        info.hvs = []
        info.bvs = []
        info.finals = []
        while queue:
            objs = queue.pop(0)
            if objs in seen or len(seen) > 6:
                continue
            seen.append(objs)
            sh = header(rel, inv=[c[1] for c in cands])
            final_hv = dict(info.vals)
            info.finals.append(final_hv)
            sh.objs = dict(objs)
            ev0 = sh.events
            sh_facts = sh.facts.copy()
            backs, exits = self.explore([sh], mk)
            all_exits += exits
            for b in backs:
                fr = b.frames[-1]
                pv = {ins.res: v for ins, v in self.phi_vals(b, fr, H, fr.prev)}
                all_backs.append((b, b.evlist(ev0), pv))
                info.hvs.append(final_hv)
                info.bvs.append({k: self.get_var(b, fr, k, pv) for k in M if k[0] != 'list'})
                o2 = {k: v for k, v in b.objs.items() if self.stable(k, mark)}
                if o2 not in seen:
                    queue.append(o2)
        info.backs = all_backs
        info.vars = {k: (M[k], final_hv.get(k)) for k in M} if final_hv else {}
        info.mark = mark
        info.S0 = S0
        info.inv = [c[0] for c in cands]
        self.loop_seen.append(info)
        return all_exits

    def first_test(self, S0, mk):
        """an undecided exit test at the first arrival at the loop header
        -> (state entering the body, states skipping the loop) or None"""
        depth, H, body = mk
        fn = S0.frames[-1].fn

        class Found(Exception):
            pass

        def watch(st, fr, ins):
            if len(st.frames) == depth and fr.fn is fn and fr.block in body:
                raise Found(st.copy(), ins)
        savew, saveterms, spend, savelog, nseen = self.unroll_watch, list(self.terms), self.pend, self.cmplog, len(self.loop_seen)
        self.unroll_watch, self.cmplog = watch, []
        try:
            self.explore([S0.copy()], mk)
            return None
        except Found as e:
            st, ins = e.args
        finally:
            self.unroll_watch, self.terms, self.pend, self.cmplog = savew, saveterms, spend, savelog
            del self.loop_seen[nseen:]
        fr = st.frames[-1]
        if fr.block != H or st.dirty != S0.dirty or st.events != S0.events:
            return None
        tin = [ins.a[i] in body for i in (1, 2)]
        if tin[0] == tin[1]:
            return None
        c = self.val(st, fr, ins.a[0], llir.ity(1))
        cin = c if tin[0] else c.neg()
        into, out = self.assume(st.copy(), cin), self.assume(st.copy(), cin.neg())
        if len(into) != 1 or not out:
            return None
        for s in into + out:
            g = S0.frames[-1]
            f = s.frames[-1]
            f.block, f.prev, f.idx = g.block, g.prev, g.idx
        return into[0], out

    def hsym(self, key, nm, lo, hi, isptr, tag=None):
        s = fresh(nm, lo, hi, isptr, kind='hdr')
        s.tag = tag
        return s

    def tagof(self, v):
        if isinstance(v, Lin) and len(v.t) == 1 and len(v.t[0][0]) == 1:
            return SYMS[v.t[0][0][0]].tag
        return None

    def same(self, st, a, b):
        if a is b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            return (st.n(a) - st.n(b)).is_const() and (st.n(a) - st.n(b)).c % U64 == 0
        if isinstance(a, Cond) and isinstance(b, Cond):
            a, b = st.nv(a), st.nv(b)
            return a.op == b.op and a.f == b.f
        return a == b

    def refines(self, h, old, new):
        """new is old with some more elements of its unknown part named"""
        if old is None:
            old = self.lazylist(h)
        if old == new:
            return True
        np, ns = len(old.pre), len(old.suf)
        if old.rest is None or new.pre[:np] != old.pre or len(new.suf) < ns or \
           (ns and new.suf[-ns:] != old.suf):
            return False
        from . import models

        def go(rest, pre, suf):
            if not pre and not suf and (new.rest is None or new.rest[0] == rest):
                return True
            if pre and models.mkelem(self, h, rest, 'first') == pre[0] and \
               go(models.restnext(rest, 'first'), pre[1:], suf):
                return True
            return bool(suf) and models.mkelem(self, h, rest, 'last') == suf[-1] and \
                go(models.restnext(rest, 'last'), pre, suf[:-1])
        return go(old.rest[0], new.pre[np:], new.suf[:len(new.suf) - ns])

    def lazylist(self, h):
        return LS((), (S(opaque('rest0', (h,))), False), ())

    def signed_phis(self, fn, H):
        res = set()
        uses = {}
        for b in fn.blocks.values():
            for i in b:
                if i.op == 'sext' or (i.op == 'icmp' and i.a[0][0] == 's') or i.op in ('sdiv', 'ashr', 'srem'):
                    for x in i.a:
                        if isinstance(x, tuple) and x and x[0] == 'loc':
                            res.add(x[1])
        # one level through add/sub
        for b in fn.blocks.values():
            for i in b:
                if i.op in ('add', 'sub') and i.res in res:
                    for x in i.a[1:]:
                        if x[0] == 'loc':
                            res.add(x[1])
        return res

    def candidates(self, S0, M, keys, hvals, cmplog, mark, signed, ptys, stride):
        out = []

        def hold0(fn):
            vals = {k: M[k] for k in M if k[0] != 'list'}
            try:
                fs = fn(vals)
            except (TypeError, KeyError, AttributeError):
                return False
            return all(S0.facts.ge0(S0.n(f)) for f in fs)

        def add(name, fn):
            if hold0(fn):
                out.append((name, fn))
        for k in keys:
            x0 = M[k]
            add('%r>=init' % (k,), lambda v, k=k, x0=x0: [v[k] - x0])
            add('%r<=init' % (k,), lambda v, k=k, x0=x0: [x0 - v[k]])
            if k[0] in ('phi', 'mem', 'pfld'):
                add('%r>=1' % (k,), lambda v, k=k: [v[k] - 1])
                add('%r>=0' % (k,), lambda v, k=k: [v[k]])
        # comparisons evaluated in the loop, as bounds on header symbols
        inv = {}
        for k in keys:
            h = hvals[k]
            if len(h.t) == 1 and h.c == 0:
                inv[h.t[0][0]] = k
        seen = set()
        for c in cmplog:
            for cc in ([c] if c.op not in ('and', 'or') else list(c.f)):
                if cc.op not in ('eq', 'ne', 'ge'):
                    continue
                f = cc.f
                for m, k in f.t:
                    # assume that the sum does not wrap; refuted otherwise
                    sy = SYMS[m[0]]
                    if len(m) == 1 and sy.kind.startswith('wrap') and isinstance(sy.args[0], Lin):
                        f = f - S(sy).scale(k) + sy.args[0].scale(k)
                ks = [(m, k) for m, k in f.t if m in inv]
                if not ks:
                    continue
                rest = Lin(tuple((m, k) for m, k in f.t if m not in inv), f.c)
                if not self.stable(rest, mark):
                    continue
                g = sum(abs(k) * stride.get(inv[m], 0) for m, k in ks)
                for d in (0, 1, -1, 'n0', 'n1', 'n-1') + ((g, 'n%d' % g) if g > 1 else ()):
                    if isinstance(d, str):
                        sg, dd = -1, int(d[1:])
                    else:
                        sg, dd = 1, d
                    key = (f, sg, dd)
                    if key in seen:
                        continue
                    seen.add(key)

                    def fn(v, ks=ks, rest=rest, sg=sg, dd=dd):
                        g = rest
                        for m, k in ks:
                            g = g + v[inv[m]].scale(k)
                        return [g.scale(sg) + dd]
                    add('cmp%r%+d' % (f, dd), fn)
        # entry facts carried over to the loop variables
        imap = {}
        for k in keys:
            e = M[k]
            if len(e.t) == 1 and e.c == 0 and e.t[0][1] == 1 and len(e.t[0][0]) == 1:
                imap.setdefault(e.t[0][0][0], k)
        for f in list(S0.facts.ge):
            ids = [i for i in f.syms() if i in imap]
            if not ids:
                continue

            def fn(v, f=f, ids=ids):
                return [subst(f, {i: v[imap[i]] for i in ids}, {})]
            out.append(('entry %r' % (f,), fn))
        for m, b in list(S0.facts.bnd.items()):
            if len(m) == 1 and m[0] in imap:
                k = imap[m[0]]
                if b[0] > -(1 << 190):
                    out.append(('lo', lambda v, k=k, b=b[0]: [v[k] - b]))
                if b[1] < 1 << 190:
                    out.append(('hi', lambda v, k=k, b=b[1]: [C(b) - v[k]]))
        for h in self.hints:
            for nm, fn in h(self, S0, M, keys, ptys):
                add(nm, fn)
        return out

    def rlist_links(self, fn):
        """registers of fn that address a link of a struct rlist"""
        r = getattr(fn, '_rlinks', None)
        if r is None:
            r = {}
            for b in fn.blocks.values():
                for ins in b:
                    if ins.op == 'getelementptr' and ins.a[0].k == 'named' and \
                       re.match(r'%?"?struct\.rlist(\.\d+)?"?$', ins.a[0].name) and len(ins.a[1]) == 3:
                        j = ins.a[1][2][1]
                        if j[0] == 'int' or j[0] == 'zero':
                            n = j[1] if j[0] == 'int' else 0
                            r[ins.res] = ('next', 8) if n else ('prev', 0)
            fn._rlinks = r
        return r

    # -------------------------------------------------------------- steps
    def step(self, st, fr, ins):
        """one non-control instruction; None = simple, else list of states with
        idx not yet advanced"""
        op = ins.op
        a = ins.a
        regs = fr.regs
        if op == 'load':
            t, p, atomic, vol = a
            addr = self.val(st, fr, p, llir.PTR)
            if t.k == 'ptr' and p[0] == 'loc' and 'rlist_next' in self.models:
                w = self.rlist_links(fr.fn).get(p[1])
                if w is not None:
                    # an open-coded step along an abstract list
                    outs = self.models['rlist_' + w[0]](self, st, [addr - w[1]], ins)
                    for s2, v in outs:
                        s2.frames[-1].regs[ins.res] = s2.n(v)
                    return None if len(outs) == 1 and outs[0][0] is st else [s2 for s2, v in outs]
            return self.do_load(st, fr, ins, t, addr)
        if op == 'store':
            t, v, p, atomic, vol = a
            val = self.val(st, fr, v, t)
            addr = self.val(st, fr, p, llir.PTR)
            if t.k == 'ptr' and p[0] == 'loc' and 'rlist_next' in self.models and p[1] in self.rlist_links(fr.fn):
                raise Broken('open-coded list update in %s' % fr.fn.name)
            return self.do_store(st, fr, ins, t, val, addr)
        if op == 'getelementptr':
            t, ops = a
            vs = [(ot, self.val(st, fr, x, ot)) for ot, x in ops]
            for i, (ot, v) in enumerate(vs):
                if isinstance(v, Cond):
                    raise Broken('gep on i1')
            regs[ins.res] = self.gep(st, fr.fn.mod, t, vs)
            return None
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and',
                  'or', 'xor', 'shl', 'lshr', 'ashr'):
            t = a[0]
            x, y = self.val(st, fr, a[1], t), self.val(st, fr, a[2], t)
            if isinstance(x, Cond) or isinstance(y, Cond):
                regs[ins.res] = self.boolop(op, x, y)
                return None
            regs[ins.res] = self.binop(st, op, x, y, t.n)
            return None
        if op == 'icmp':
            pred, t = a[0], a[1]
            x, y = self.val(st, fr, a[2], t), self.val(st, fr, a[3], t)
            if t.k == 'int' and isinstance(x, Lin) and isinstance(y, Lin):
                sp = self.split_wrap(st, fr, a[2:4], (x, y), t.n, pred)
                if sp is not None:
                    # run the instruction again in each range
                    for q in sp:
                        q.frames[-1].idx -= 1
                    return sp
            r = self.icmp(st, pred, t, x, y)
            if r is None:
                raise Broken('icmp on i1 in %s' % fr.fn.name)
            regs[ins.res] = r
            return None
        if op in ('zext', 'sext'):
            t, x, t2 = a
            v = self.val(st, fr, x, t)
            if isinstance(v, Cond):
                outs = self.tolin(st, v)
                if len(outs) == 1 and outs[0][0] is st:
                    r = outs[0][1]
                    regs[ins.res] = -r if op == 'sext' else r
                    return None
                res = []
                for s, r in outs:
                    s.frames[-1].regs[ins.res] = -r if op == 'sext' else r
                    res.append(s)
                return res
            sp = self.split_wrap(st, fr, a[1:2], (v,), t.n, 'zext' if op == 'zext' else 'slt')
            if sp is not None:
                for q in sp:
                    q.frames[-1].idx -= 1
                return sp
            regs[ins.res] = self.u(st, v, t.n) if op == 'zext' else self.s(st, v, t.n)
            return None
        if op == 'trunc':
            t, x, t2 = a
            v = self.val(st, fr, x, t)
            if t2.n == 1:
                # bool loaded as i8
                w = self.urem(st, self.u(st, v, t.n), C(2), t.n)
                regs[ins.res] = Cond('ne', w) if not w.is_const() else (TRUE if w.c else FALSE)
            else:
                regs[ins.res] = self.cn(v, t2.n)
            return None
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            regs[ins.res] = self.val(st, fr, a[1], a[0])
            return None
        if op == 'alloca':
            s = fresh('stack.%s' % ins.res[1:], 4096, PTR_MAX - (1 << 20), True, kind='obj')
            s.tag = None
            regs[ins.res] = S(s)
            if a[1] is None:
                self.stack_sizes[s.id] = self.tysize(fr, a[0])
            st.facts.add_ge(S(s) - 4096)
            return None
        if op == 'phi':
            raise Broken('phi out of place')
        if op == 'select':
            t, c, x, y = a
            cv = self.val(st, fr, c, llir.ity(1))
            vx, vy = self.val(st, fr, x, t), self.val(st, fr, y, t)
            self.log(st, cv)
            d = self.decide(st, cv)
            if d is not None:
                regs[ins.res] = vx if d else vy
                return None
            if isinstance(vx, Cond) and isinstance(vy, Cond):
                if vy.op == 'false':
                    regs[ins.res] = Cond('and', (cv, vx))
                    return None
                if vx.op == 'true':
                    regs[ins.res] = Cond('or', (cv, vy))
                    return None
            self.forks += 1
            out = []
            s2 = st.copy()
            for s in self.assume(s2, cv):
                s.frames[-1].regs[ins.res] = s.nv(vx)
                out.append(s)
            for s in self.assume(st, cv.neg()):
                s.frames[-1].regs[ins.res] = s.nv(vy)
                out.append(s)
            return out
        if op == 'extractvalue':
            v = self.val(st, fr, a[1], a[0])
            for i in a[2]:
                v = v[i]
            regs[ins.res] = v
            return None
        if op == 'insertvalue':
            v = self.val(st, fr, a[1], a[0])
            ev = self.val(st, fr, a[3], a[2])
            def ins_(v, idx):
                l = list(v)
                l[idx[0]] = ev if len(idx) == 1 else ins_(l[idx[0]], idx[1:])
                return tuple(l)
            regs[ins.res] = ins_(v, a[4])
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            regs[ins.res] = S(opaque(op, (self.val(st, fr, a[1], a[0]), self.val(st, fr, a[2], a[0]))))
            return None
        if op == 'fcmp':
            regs[ins.res] = Cond('ne', S(opaque('fcmp' + a[0], (self.val(st, fr, a[2], a[1]), self.val(st, fr, a[3], a[1])), 0, 1)))
            return None
        if op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'fneg'):
            v = self.val(st, fr, a[1], a[0])
            hi = U64 - 1
            if op == 'fptoui':
                hi = (1 << a[2].n) - 1
            if isinstance(v, Cond):
                v = S(fresh('b'))
            regs[ins.res] = S(opaque(op, (v,), 0, hi))
            return None
        if op == 'fence':
            st.event('fence', (), self.loc(ins))
            return None
        if op == 'cmpxchg':
            return self.do_cmpxchg(st, fr, ins)
        if op == 'atomicrmw':
            return self.do_rmw(st, fr, ins)
        raise Broken('instruction %s' % ins.text)

    def boolop(self, op, x, y):
        if op == 'xor':
            if isinstance(y, Cond) and y.op == 'true':
                return x.neg()
            if isinstance(x, Cond) and x.op == 'true':
                return y.neg()
            if isinstance(y, Cond) and y.op == 'false':
                return x
        if op == 'and':
            return Cond('and', (x, y))
        if op == 'or':
            return Cond('or', (x, y))
        raise Broken('i1 ' + op)

    def tysize(self, fr, t):
        return fr.fn.mod.sizeof(t)

    def check_access(self, st, addr, ins, what):
        """typestate of the object behind an address"""
        if st.objs:
            rt = self.roots(addr)
            for k, v in st.objs.items():
                kr = self.roots(k)
                if kr and rt == kr and (v == 'released'):
                    d = addr - k
                    st.event('uaf', (what, k, addr), self.loc(ins))
                    return

    def fixed_global(self, st, fr, addr, t):
        """value of a private global that no code of its unit ever changes"""
        a = st.n(addr)
        base = None
        for m, k in a.t:
            if len(m) != 1 or SYMS[m[0]].kind != 'glob' or k != 1 or base is not None:
                return None
            base = SYMS[m[0]].name[1:]
        if base is None:
            return None
        mod = fr.fn.mod
        g = mod.globals.get(base)
        if g is None or g['init'] is None or g['tls'] or not (g['const'] or g['internal'] and base in mod.fixed_globals()):
            return None
        off, ty, v = a.c, g['ty'], g['init']
        while True:
            ty = mod.resolve(ty)
            if ty.k == 'array':
                sz = mod.sizeof(ty.el)
                i, off = divmod(off, sz)
                if not 0 <= i < ty.n:
                    return None
                sub = ty.el
            elif ty.k in ('struct', 'packed'):
                for i in range(len(ty.el)):
                    o, e = mod.field_off(ty, i)
                    if o <= off < o + mod.sizeof(e):
                        off, sub = off - o, e
                        break
                else:
                    return None
            else:
                break
            if v[0] == 'agg':
                v = v[1][i][1]
            elif v[0] not in ('zero', 'int') or v[0] == 'int' and v[1]:
                return None
            ty = sub
        if off or mod.sizeof(ty) != mod.sizeof(t):
            return None
        if v[0] == 'zero':
            return ZERO
        if v[0] not in ('int', 'glo'):
            return None
        return self.val(st, fr, v, t)

    def do_load(self, st, fr, ins, t, addr):
        size = self.tysize(fr, t)
        self.check_access(st, addr, ins, 'load')
        if self.on_load:
            for h in self.on_load:
                h(self, st, addr, size, ins)
        if self.volatile_addr is not None and self.volatile_addr(st, addr):
            w = size * 8
            v = self.shared(st, addr, size, t.k == 'ptr')
            st.event('aload', (addr, v), self.loc(ins), bool(ins.a[2]))
            fr.regs[ins.res] = v
            return None
        if t.k in ('struct', 'named', 'array'):
            raise Broken('aggregate load')
        fv = self.fixed_global(st, fr, addr, t)
        if fv is not None:
            fr.regs[ins.res] = fv
            return None
        signed = False
        if t.k == 'int' and t.n < 64:
            signed = ins.res in self.signed_phis_cached(fr.fn)
        outs = self.load(st, addr, size, t.k == 'ptr', signed)
        if len(outs) == 1 and outs[0][0] is st:
            fr.regs[ins.res] = outs[0][1] if not (t.k == 'int' and t.n == 1) else self.i1(outs[0][1])
            return None
        res = []
        for s, v in outs:
            s.frames[-1].regs[ins.res] = v
            res.append(s)
        return res

    shared_hook = None
    on_cas = None
    unroll_open = False

    def shared(self, st, addr, size, isptr):
        """a value another thread may have put there"""
        if self.shared_hook:
            v = self.shared_hook(self, st, addr, size)
            if v is not None:
                st.ghost[('shv', v)] = (addr, size, isptr)
                return v
        return S(fresh('shared[%s]' % self.name_addr(addr)[0], 0, (1 << (8 * size)) - 1, isptr))

    def i1(self, v):
        if isinstance(v, Cond):
            return v
        if v.is_const():
            return TRUE if v.c & 1 else FALSE
        return Cond('ne', v)

    def signed_phis_cached(self, fn):
        r = getattr(fn, '_signed', None)
        if r is None:
            r = self.signed_phis(fn, None)
            fn._signed = r
        return r

    def do_store(self, st, fr, ins, t, val, addr):
        size = self.tysize(fr, t)
        self.check_access(st, addr, ins, 'store')
        if isinstance(val, Cond):
            outs = self.tolin(st, val)
        else:
            outs = [(st, val)]
        res = []
        for s, v in outs:
            if isinstance(v, tuple):
                raise Broken('aggregate store')
            a2 = s.n(addr)
            if self.volatile_addr is not None and self.volatile_addr(s, a2):
                s.event('astore', (a2, s.nv(v)), self.loc(ins), bool(ins.a[3]))
            for h in self.on_store:
                h(self, s, a2, size, s.n(v), ins)
            res += self.store(s, a2, size, s.n(v))
        if len(res) == 1 and res[0] is st:
            return None
        return res

    def do_cmpxchg(self, st, fr, ins):
        t, p, e, n = ins.a
        addr = self.val(st, fr, p, llir.PTR)
        ev, nv = self.val(st, fr, e, t), self.val(st, fr, n, t)
        loc = self.loc(ins)
        s2 = st.copy()
        # success
        st.event('cas', (addr, ev, nv), loc)
        if self.on_cas:
            self.on_cas(self, st, addr, ev, nv, ins)
        fr.regs[ins.res] = (ev, TRUE)
        if not (self.volatile_addr is not None and self.volatile_addr(st, addr)):
            size = self.tysize(fr, t)
            r = self.store(st, addr, size, nv)
        # failure
        cur = self.shared(s2, addr, self.tysize(fr, t), t.k == 'ptr')
        s2.event('casfail', (addr, ev, nv), loc)
        if not re.match(r'\S+ = cmpxchg weak', ins.text):
            s2.facts.add_ne(cur - ev)
        s2.frames[-1].regs[ins.res] = (cur, FALSE)
        return [st, s2]

    def do_rmw(self, st, fr, ins):
        kind, t, p, v = ins.a
        addr = self.val(st, fr, p, llir.PTR)
        x = self.val(st, fr, v, t)
        size = self.tysize(fr, t)
        vol = self.volatile_addr is not None and self.volatile_addr(st, addr)
        if vol:
            old = self.shared(st, addr, size, t.k == 'ptr')
        else:
            outs = self.load(st, addr, size)
            if len(outs) != 1:
                raise Broken('rmw fork')
            old = outs[0][1]
        new = {'add': lambda: self.cn(old + x, t.n), 'sub': lambda: self.cn(old - x, t.n),
               'xchg': lambda: x}.get(kind, lambda: S(fresh('rmw')))()
        st.event('rmw', (kind, addr, x, old, new), self.loc(ins))
        fr.regs[ins.res] = old
        if not vol:
            self.store(st, addr, size, new)
        return None

    # -------------------------------------------------------------- calls
    def do_call(self, st, fr, ins):
        rt, callee, args = ins.a
        self.seen_calls += 1
        if callee[0] == 'asm':
            if ins.res is not None:
                fr.regs[ins.res] = S(fresh('asm'))
            fr.idx += 1
            return None
        if callee[0] == 'glo':
            name = callee[1]
            if name.startswith('llvm.'):
                return self.intrinsic(st, fr, ins, name, rt, args)
            vals = [self.val(st, fr, v, t) for t, v in args]
            mdl = self.models.get(name)
            if mdl is None and name not in self.models:
                mdl = BUILTINS.get(name)
            if mdl is not None:
                # i1 arguments as 0/1
                outs = mdl(self, st, vals, ins)
                return self.ret_model(st, fr, ins, rt, outs)
            fn = self.find(name, fr.fn.mod.unit)
            if fn is not None:
                n = sum(1 for f in st.frames if f.fn is fn)
                if n > self.recursion_limit:
                    st.event('recursion', (name,), self.loc(ins))
                    return self.ret_model(st, fr, ins, rt, [(st, self.freshret(rt, name))])
                if any(isinstance(v, Cond) and v.op not in ('true', 'false') for v in vals):
                    # materialise boolean arguments
                    for i, v in enumerate(vals):
                        if isinstance(v, Cond) and args[i][0].k == 'int' and args[i][0].n == 1:
                            continue
                self.push(st, fn, vals, ins)
                st.frames[-1].idx = 0
                return None
            st.event('extern', (name,) + tuple(vals), self.loc(ins))
            if name in ('abort', 'exit', '__assert_fail', '_exit', '__assert_perror_fail'):
                self.terms.append(Path('abort', st, None))
                return []
            return self.ret_model(st, fr, ins, rt, [(st, self.freshret(rt, name))])
        # indirect
        target = self.val(st, fr, callee, llir.PTR)
        vals = [self.val(st, fr, v, t) for t, v in args]
        # resolved function pointer?
        if isinstance(target, Lin) and len(target.t) == 1 and target.c == 0:
            s = SYMS[target.t[0][0][0]]
            if s.kind == 'glob':
                mdl = self.models.get(s.name[1:])
                if mdl is not None:
                    return self.ret_model(st, fr, ins, rt, mdl(self, st, vals, ins))
                fn = self.find(s.name[1:], fr.fn.mod.unit)
                if fn is not None:
                    self.push(st, fn, vals, ins)
                    return None
        if self.ptr_models:
            outs = self.ptr_models(self, st, target, vals, ins)
            if outs is not None:
                return self.ret_model(st, fr, ins, rt, outs)
        st.event('icall', (target,) + tuple(vals), self.loc(ins))
        return self.ret_model(st, fr, ins, rt, [(st, self.freshret(rt, 'cb'))])

    def freshret(self, rt, name):
        if rt.k == 'void':
            return None
        if rt.k == 'ptr':
            return S(fresh(name, 0, PTR_MAX - 1, True))
        if rt.k == 'int' and rt.n == 1:
            return Cond('ne', S(fresh(name, 0, 1)))
        if rt.k == 'int':
            if rt.n < 64:
                return S(fresh(name, -(1 << (rt.n - 1)), (1 << (rt.n - 1)) - 1))
            return S(fresh(name, 0, (1 << rt.n) - 1))
        if rt.k in ('struct', 'named'):
            return tuple(S(fresh(name)) for _ in range(4))
        return S(fresh(name))

    def ret_model(self, st, fr, ins, rt, outs):
        res = []
        for s, v in outs:
            if s.dead:
                continue
            f = s.frames[-1]
            if ins.res is not None:
                if rt.k == 'int' and rt.n == 1 and isinstance(v, Lin):
                    v = self.i1(v)
                f.regs[ins.res] = s.nv(v)
            f.idx += 1
            res.append(s)
        return res

    def with_overflow(self, st, sign, op, vals, w):
        """arithmetic that tells whether the result fits"""
        M = 1 << w
        x, y = ((self.u if sign == 'u' else self.s)(st, v, w) for v in vals)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: mul(x, y)}[op]()
        lo, hi = (0, M - 1) if sign == 'u' else (-(M >> 1), (M >> 1) - 1)
        f, t = Cond('false', ZERO), Cond('true', ZERO)
        out = []
        for s in self.assume(st.copy(), Cond('ge', C(hi) - r)):
            for s2 in self.assume(s, Cond('ge', s.n(r) - lo)):
                out.append((s2, (s2.n(r), f)))
        for c, k in ((Cond('ge', r - hi - 1), -M), (Cond('ge', C(lo - 1) - r), M)):
            if self.decide(st, c) is False:
                continue
            for s in self.assume(st.copy(), c):
                out.append((s, (S(opaque('wrap%d' % w, (s.n(r),), lo, hi)) if op == 'mul' else s.n(r) + k, t)))
        return out

    def known_pow2(self, st):
        """powers of two occurring in the facts of the path"""
        out = {}
        for f in st.facts.ge:
            for m, k in f.t:
                if len(m) == 1 and SYMS[m[0]].kind == 'pow2' and (abs(k) & (abs(k) - 1)) == 0:
                    out[Lin(((m, abs(k)),), 0)] = 1
        for m in st.facts.bnd:
            if len(m) == 1 and SYMS[m[0]].kind == 'pow2':
                out[Lin(((m, 1),), 0)] = 1
        return out

    def intrinsic(self, st, fr, ins, name, rt, args):
        b = name.split('.')[1]
        if b in ('dbg', 'lifetime', 'assume', 'donothing', 'va_start', 'va_end', 'stacksave', 'stackrestore', 'prefetch'):
            if ins.res is not None:
                fr.regs[ins.res] = S(fresh(b))
            fr.idx += 1
            return None
        vals = [self.val(st, fr, v, t) for t, v in args]
        if b == 'expect':
            fr.regs[ins.res] = vals[0]
            fr.idx += 1
            return None
        if b == 'threadlocal':
            fr.regs[ins.res] = vals[0]
            fr.idx += 1
            return None
        if b in ('memcpy', 'memmove'):
            outs = self.memcpy(st, vals[0], vals[1], vals[2], ins, b)
            return self.ret_model(st, fr, ins, rt, [(s, None) for s in outs])
        if b == 'memset':
            outs = self.memset(st, vals[0], vals[1], vals[2], ins)
            return self.ret_model(st, fr, ins, rt, [(s, None) for s in outs])
        if b in ('ctlz', 'cttz', 'ctpop'):
            w = rt.n
            x = self.u(st, vals[0], w)
            if x.is_const() and x.c:
                v = x.c
                r = C({'ctlz': w - v.bit_length(), 'cttz': (v & -v).bit_length() - 1,
                       'ctpop': bin(v).count('1')}[b])
            elif b == 'ctlz' and self.is_pow2(st, x) and len(x.t[0][0]) == 1 and SYMS[x.t[0][0][0]].kind == 'pow2':
                e = SYMS[x.t[0][0][0]].args[0] + (x.t[0][1].bit_length() - 1)
                r = C(w - 1) - e
            elif b == 'cttz' and x.c and all(k % ((x.c & -x.c) << 1) == 0 for _, k in x.t):
                # all other terms are multiples of more than the lowest bit
                r = C((x.c & -x.c).bit_length() - 1)
            else:
                if b == 'ctlz':
                    # position of the highest bit; x == 0 is undefined
                    sh = 0
                    if len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0 and len(x.t[0][0]) == 1:
                        q = SYMS[x.t[0][0][0]]
                        if q.kind == 'udiv' and q.args[1].is_const() and not q.args[1].c & (q.args[1].c - 1) and st.facts.ge0(x - 1):
                            x = st.n(q.args[0])
                            sh = q.args[1].c.bit_length() - 1
                    r = S(opaque('msb', (x,), 0, 63))
                    lo, hi = st.facts.low(x), -st.facts.low(-x)
                    if lo >= 1:
                        st.facts.add_ge(r - (lo.bit_length() - 1))
                    if 0 < hi < (1 << w):
                        st.facts.add_ge(C(hi.bit_length() - 1) - r)
                    # against the powers of two the path knows: 2^e <= x iff e <= msb(x)
                    for y in self.known_pow2(st):
                        (mm, kk), = y.t
                        e = SYMS[mm[0]].args[0] + (kk.bit_length() - 1)
                        if st.facts.ge0(x - y):
                            st.facts.add_ge(r - e)
                        elif st.facts.ge0(y - x - 1):
                            st.facts.add_ge(e - r - 1)
                    blo = max(-st.facts.low(-r), 0)
                    while blo > 0 and not st.facts.ge0(x - (1 << blo)):
                        blo -= 1
                    if st.facts.ge0(C((2 << blo) - 1) - x):
                        r = C(blo)
                    r = C(w - 1) - r + sh
                else:
                    r = S(opaque('%s%d' % (b, w), (x,), 0, w))
            fr.regs[ins.res] = r
            fr.idx += 1
            return None
        if len(b) == 4 and b[0] in 'us' and b[1:] in ('add', 'sub', 'mul') and name.split('.')[2] == 'with':
            return self.ret_model(st, fr, ins, rt, self.with_overflow(st, b[0], b[1:], vals, args[0][0].n))
        if b in ('umin', 'umax', 'smin', 'smax'):
            x, y = (self.u(st, v, rt.n) for v in vals) if b[0] == 'u' else (self.s(st, v, rt.n) for v in vals)
            c = Cond('ge', x - y)
            out = []
            s2 = st.copy()
            for s in self.assume(s2, c):
                out.append((s, x if b.endswith('max') else y))
            for s in self.assume(st, c.neg()):
                out.append((s, y if b.endswith('max') else x))
            return self.ret_model(st, fr, ins, rt, out)
        if b == 'trap':
            self.terms.append(Path('abort', st, None))
            return []
        st.event('intrinsic', (name,) + tuple(vals), self.loc(ins))
        return self.ret_model(st, fr, ins, rt, [(st, self.freshret(rt, b))])

    def memcpy(self, st, dst, src, n, ins, kind='memcpy'):
        self.check_access(st, src, ins, kind + '-src')
        self.check_access(st, dst, ins, kind + '-dst')
        st.event(kind, (dst, src, n), self.loc(ins))
        if self.copies:
            rt = self.roots(dst)
            if len(rt) == 1 and dst == S(SYMS[rt[0]]) and SYMS[rt[0]].kind == 'obj' \
               and not any(rt[0] in b.syms() for b in st.mem) and ('copy', rt[0]) not in st.ghost:
                # a whole new object: its cells read through to the source
                st.ghost[('copy', rt[0])] = (src, n)
                return [st]
        if n.is_const() and n.c <= 4096:
            k = n.c
            chunks = []
            o = 0
            for sz in (8, 4, 2, 1):
                while k - o >= sz:
                    chunks.append((o, sz))
                    o += sz
            cur = [st]
            loads = [(st, [])]
            for o, sz in chunks:
                nl = []
                for s, vs in loads:
                    for s2, v in self.load(s, s.n(src) + o, sz):
                        nl.append((s2, vs + [v]))
                loads = nl
            outs = []
            for s, vs in loads:
                ss = [s]
                for (o, sz), v in zip(chunks, vs):
                    nx = []
                    for s2 in ss:
                        a2 = s2.n(dst) + o
                        for h in self.on_store:
                            h(self, s2, a2, sz, s2.nv(v), ins)
                        nx += self.store(s2, a2, sz, s2.nv(v))
                    ss = nx
                outs += ss
            return outs
        # unknown extent: drop what may be overwritten in the same object
        self.clobber(st, dst, n)
        return [st]

    def clobber(self, st, dst, n):
        rt = self.roots(dst)
        for b in list(st.mem):
            if self.roots(b) == rt and rt:
                for o in list(st.mem[b]):
                    sz = st.mem[b][o][0]
                    df = b + o - dst
                    if st.facts.ge0(-df - sz) or st.facts.ge0(df - n):
                        continue
                    st.mem[b][o] = (sz, S(fresh('clobber', 0, (1 << 8 * sz) - 1)))
                    self._stamp[0] += 1
                    st.dirty[(b, o)] = self._stamp[0]

    def memset(self, st, dst, c, n, ins):
        self.check_access(st, dst, ins, 'memset')
        st.event('memset', (dst, c, n), self.loc(ins), self.on_memset(st, dst) if self.on_memset else None)
        if n.is_const() and n.c <= 65536 and c.is_const():
            byte = c.c & 255
            o = 0
            cells_known = sorted(st.mem.get(self.split(dst)[0], {}))
            b, off0 = self.split(dst)
            cells = st.mem.setdefault(b, {})
            for x in list(cells):
                if off0 <= x < off0 + n.c:
                    del cells[x]
                    st.dirty.pop((b, x), None)
            while o < n.c:
                sz = 8
                while sz > n.c - o:
                    sz //= 2
                v = int.from_bytes(bytes([byte]) * sz, 'little')
                cells[off0 + o] = (sz, C(v))
                self._stamp[0] += 1
                st.dirty[(b, off0 + o)] = self._stamp[0]
                o += sz
            return [st]
        self.clobber(st, dst, n)
        return [st]


def nullspace(rows, n):
    """basis of { a : rows . a = 0 }"""
    rows = [r[:] for r in rows if any(r)]
    piv = []
    r = 0
    for c in range(n):
        p = None
        for i in range(r, len(rows)):
            if rows[i][c]:
                p = i
                break
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        x = rows[r][c]
        rows[r] = [v / x for v in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                y = rows[i][c]
                rows[i] = [v - y * w for v, w in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for i, c in enumerate(piv):
            v[c] = -rows[i][f]
        out.append(v)
    return out


# ------------------------------------------------------------------ builtins
def _memcpy(kind):
    def f(I, st, v, ins):
        return [(s, s.n(v[0])) for s in I.memcpy(st, v[0], v[1], v[2], ins, kind)]
    return f


def _memset(I, st, v, ins):
    return [(s, s.n(v[0])) for s in I.memset(st, v[0], v[1], v[2], ins)]


def _noop(I, st, v, ins):
    return [(st, S(fresh('r')) if ins.res else None)]


BUILTINS = {
    'memcpy': _memcpy('memcpy'), 'memmove': _memcpy('memmove'), 'memset': _memset,
    'fprintf': _noop, 'printf': _noop, 'strerror_r': _noop, '__xpg_strerror_r': _noop,
}
