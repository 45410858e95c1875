"""Abstract value domain: linear forms over symbols (polynomial monomials),
with a small forward prover for linear facts.  No solver is involved: entailment
is a bounded elimination over recorded facts (difference-bound style)."""

PTR_MAX = 1 << 47
U64 = 1 << 64


class Sym:
    __slots__ = ('id', 'name', 'kind', 'args', 'lo', 'hi', 'ptr', 'tag')

    def __init__(self, id, name, kind, args, lo, hi, ptr):
        self.id, self.name, self.kind, self.args = id, name, kind, args
        self.lo, self.hi, self.ptr = lo, hi, ptr
        self.tag = None

    def __repr__(self):
        return self.name


SYMS = []
INTERN = {}


def mksym(name, kind, args=(), lo=0, hi=U64 - 1, ptr=False, key=None):
    if key is not None and key in INTERN:
        return INTERN[key]
    s = Sym(len(SYMS), name, kind, args, lo, hi, ptr)
    SYMS.append(s)
    if key is not None:
        INTERN[key] = s
    return s


class Lin:
    """c + sum coef*monomial ; monomial = sorted tuple of symbol ids"""
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t, c):
        self.t = t          # tuple of (mono, coef) sorted
        self.c = c
        self._h = hash((t, c))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o) if o else self
        if not o.t:
            return Lin(self.t, self.c + o.c) if o.c else self
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for m, k in o.t:
            v = d.get(m, 0) + k
            if v:
                d[m] = v
            else:
                del d[m]
        return Lin(tuple(sorted(d.items())), self.c + o.c)
    __radd__ = __add__

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(tuple((m, v * k) for m, v in self.t), self.c * k)

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + o.scale(-1)

    def __rsub__(self, o):
        return self.scale(-1) + o

    def __mul__(self, o):
        if isinstance(o, int):
            return self.scale(o)
        return mul(self, o)

    def syms(self):
        out = set()
        for m, _ in self.t:
            out.update(m)
        return out

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = []
        for m, k in self.t:
            n = '*'.join(SYMS[i].name for i in m)
            if k == 1:
                s.append('+' + n)
            elif k == -1:
                s.append('-' + n)
            else:
                s.append('%+d*%s' % (k, n))
        r = ''.join(s)
        if r[0] == '+':
            r = r[1:]
        if self.c:
            r += '%+d' % self.c
        return r

    def modeq(self, o, w=64):
        """equal modulo 2^w"""
        d = self - o
        M = (1 << w)
        return d.c % M == 0 and all(k % M == 0 for _, k in d.t)


ZERO = Lin((), 0)
ONE = Lin((), 1)


def C(n):
    return Lin((), n)


def S(sym):
    return Lin((((sym.id,), 1),), 0)


def mono_mul(a, b):
    """product of monomials -> (coef, mono) ; folds pow2 symbols together"""
    ids = list(a) + list(b)
    p2 = [i for i in ids if SYMS[i].kind == 'pow2']
    if len(p2) >= 2:
        rest = [i for i in ids if SYMS[i].kind != 'pow2']
        e = ZERO
        for i in p2:
            e = e + SYMS[i].args[0]
        f = pow2(e)
        # f is coef*mono
        if f.is_const():
            return f.c, tuple(sorted(rest))
        (m, k), = f.t
        return k, tuple(sorted(rest + list(m)))
    return 1, tuple(sorted(ids))


def mul(a, b):
    if not a.t:
        return b.scale(a.c)
    if not b.t:
        return a.scale(b.c)
    d = {}
    c = a.c * b.c
    for m, k in a.t:
        for m2, k2 in b.t:
            kk, mm = mono_mul(m, m2)
            if not mm:
                c += k * k2 * kk
                continue
            d[mm] = d.get(mm, 0) + k * k2 * kk
        if b.c:
            d[m] = d.get(m, 0) + k * b.c
    for m2, k2 in b.t:
        if a.c:
            d[m2] = d.get(m2, 0) + k2 * a.c
    return Lin(tuple(sorted((m, k) for m, k in d.items() if k)), c)


def pow2(e):
    """2**e, constants folded out"""
    if e.is_const():
        if 0 <= e.c < 128:
            return C(1 << e.c)
    if e.t:
        # a fixed part is moved to the coefficient when non-negative
        k = e.c
        b = Lin(e.t, 0) if k >= 0 else e
        if k < 0:
            k = 0
        if k > 64:
            b, k = e, 0
        s = mksym('2^(%r)' % (b,), 'pow2', (b,), 1, U64 - 1, key=('pow2', b))
        return Lin((((s.id,), 1 << k),), 0)
    s = mksym('2^(%d)' % e.c, 'opaque', (e,), 0, U64 - 1, key=('pow2', e))
    return S(s)


def opaque(op, args, lo=0, hi=U64 - 1, ptr=False):
    key = (op,) + tuple(args) + (hi,)
    if key in INTERN:
        return INTERN[key]
    return mksym('%s(%s)' % (op, ','.join(map(repr, args))), op, tuple(args), lo, hi, ptr, key=key)


_cnt = [0]


def fresh(name, lo=0, hi=U64 - 1, ptr=False, kind='fresh'):
    _cnt[0] += 1
    return mksym('%s#%d' % (name, _cnt[0]), kind, (), lo, hi, ptr)


# ---------------------------------------------------------------- substitution
def subst(f, mp, memo):
    """replace symbols in f by forms (mp: id -> Lin), also inside opaque args"""
    if not f.t:
        return f
    if f in memo:
        return memo[f]
    out = C(f.c)
    changed = False
    for m, k in f.t:
        term = C(k)
        for i in m:
            r = subst_sym(i, mp, memo)
            if r is None:
                term = mul(term, S(SYMS[i]))
            else:
                changed = True
                term = mul(term, r)
        out = out + term
    if not changed:
        out = f
    memo[f] = out
    return out


def subst_sym(i, mp, memo):
    if i in mp:
        return mp[i]
    s = SYMS[i]
    if not s.args or s.kind == 'fresh':
        return None
    key = ('s', i)
    if key in memo:
        return memo[key]
    memo[key] = None
    new = tuple(subst(a, mp, memo) if isinstance(a, Lin) else a for a in s.args)
    if new == s.args:
        return None
    r = rebuild(s, new)
    memo[key] = r
    return r


REBUILD = {}


def rebuild(s, args):
    if s.kind == 'pow2':
        return pow2(args[0])
    fn = REBUILD.get(s.kind)
    if fn:
        return fn(s, args)
    return S(opaque(s.kind, args, s.lo, s.hi, s.ptr))


def deps(f, acc=None):
    """all symbol ids occurring in f, recursively through opaque arguments"""
    if acc is None:
        acc = set()
    for m, _ in f.t:
        for i in m:
            if i not in acc:
                acc.add(i)
                for a in SYMS[i].args:
                    if isinstance(a, Lin):
                        deps(a, acc)
    return acc


# ---------------------------------------------------------------- facts
class Facts:
    """conjunction of linear facts  f >= 0  and  f != 0"""
    __slots__ = ('ge', 'ne', 'idx', 'bnd', 'cache', 'shared', 'bc')

    def __init__(self):
        self.ge = {}        # Lin -> True
        self.ne = set()
        self.idx = {}       # (mono, sign) -> [Lin]
        self.bnd = {}       # mono -> [lo, hi]
        self.cache = {}
        self.bc = {}        # bounds() memo
        self.shared = False

    def copy(self):
        n = Facts.__new__(Facts)
        n.ge = dict(self.ge)
        n.ne = set(self.ne)
        n.idx = {k: list(v) for k, v in self.idx.items()}
        n.bnd = {k: list(v) for k, v in self.bnd.items()}
        n.cache = dict(self.cache)
        n.bc = dict(self.bc)
        return n

    def bounds(self, m):
        r = self.bc.get(m)
        if r is None:
            r = self.bc[m] = self._bounds(m)
        return r

    def _bounds(self, m):
        lo, hi = 1, 1
        b = self.bnd.get(m)
        for i in m:
            s = SYMS[i]
            l, h = s.lo, s.hi
            if len(m) > 1:
                bb = self.bnd.get((i,))
                if bb:
                    l, h = max(l, bb[0]), min(h, bb[1])
            c = (lo * l, lo * h, hi * l, hi * h)
            lo, hi = min(c), max(c)
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        return lo, hi

    def add_ge(self, f):
        """f >= 0"""
        if f.is_const() or f in self.ge:
            return
        # normalise by gcd
        g = 0
        for _, k in f.t:
            g = gcd(g, k)
        if g > 1:
            f = Lin(tuple((m, k // g) for m, k in f.t), f.c // g)
        if f in self.ge:
            return
        self.cache = {k: v for k, v in self.cache.items() if v}
        self.ge[f] = True
        if len(f.t) == 1:
            (m, k), = f.t
            b = self.bnd.setdefault(m, [-(1 << 200), 1 << 200])
            self.bc = {}
            if k > 0:
                b[0] = max(b[0], -(f.c // k))
            else:
                b[1] = min(b[1], f.c // (-k))
            return
        for m, k in f.t:
            self.idx.setdefault((m, k > 0), []).append(f)

    def add_ne(self, f):
        if f.is_const():
            return
        self.ne.add(f)
        # strengthen against bounds
        if self.ge0(f):
            self.add_ge(f - 1)
        elif self.ge0(-f):
            self.add_ge(-f - 1)

    def low(self, f):
        """interval lower bound"""
        v = f.c
        bc = self.bc
        for m, k in f.t:
            b = bc.get(m) or self.bounds(m)
            v += k * b[0] if k > 0 else k * b[1]
        return v

    def ge0(self, f, depth=5):
        if not f.t:
            return f.c >= 0
        key = (f, depth)
        r = self.cache.get(key)
        if r is None:
            for d, n in ((2, 60), (3, 60), (depth, 60)):
                budget = [n]
                r = self._prove(f, min(d, depth), set(), budget)
                if r or d >= depth or budget[0] == n - 1:
                    break
            self.cache[key] = r
        return r

    def _prove(self, f, depth, seen, budget):
        if not f.t:
            return f.c >= 0
        if self.low(f) >= 0:
            return True
        if depth == 0 or f in seen or budget[0] <= 0:
            return False
        budget[0] -= 1
        seen.add(f)
        # choose candidate monomials: those which hurt the bound the most
        order = []
        for m, k in f.t:
            lo, hi = self.bounds(m)
            loss = (-k * hi) if k < 0 else (-(k * lo))
            order.append((loss, m, k))
        order.sort(key=lambda x: -x[0])
        for loss, m, k in order:
            for g in self.idx.get((m, k > 0), ()):
                for mm, gk in g.t:
                    if mm == m:
                        break
                # f*|gk| - g*|k|
                a, b = abs(gk), abs(k)
                if a == 1:
                    pass
                elif b == 1:
                    a, b = a, 1
                else:
                    d = gcd(a, b)
                    a, b = a // d, b // d
                t = dict(f.t) if a == 1 else {mm: v * a for mm, v in f.t}
                for mm, v in g.t:
                    w = t.get(mm, 0) - v * b
                    if w:
                        t[mm] = w
                    else:
                        del t[mm]
                if len(t) > len(f.t) + 2:
                    continue
                r = Lin(tuple(sorted(t.items())), f.c * a - g.c * b + a - 1)
                if self._prove(r, depth - 1, seen, budget):
                    return True
        return False

    def nonzero(self, f):
        if not f.t:
            return f.c != 0
        if f in self.ne or -f in self.ne:
            return True
        if self.ge0(f - 1) or self.ge0(-f - 1):
            return True
        # multiples: a ne-fact g with f == k*g
        for g in self.ne:
            if g.t and len(g.t) == len(f.t) and g.t[0][0] == f.t[0][0]:
                k1, k2 = f.t[0][1], g.t[0][1]
                if f.scale(k2) == g.scale(k1):
                    return True
        return False

    def zero(self, f):
        if not f.t:
            return f.c == 0
        return self.ge0(f) and self.ge0(-f)

    def contradictory(self):
        for f in self.ge:
            if self.ge0(-f - 1, 3):
                return True
        for f in self.ne:
            if self.zero(f):
                return True
        return False

    def rewrite(self, mp):
        n = Facts()
        memo = {}
        bad = False
        for f in self.ge:
            g = subst(f, mp, memo)
            if g.is_const():
                if g.c < 0:
                    bad = True
                continue
            n.add_ge(g)
        for f in self.ne:
            g = subst(f, mp, memo)
            if g.is_const():
                if g.c == 0:
                    bad = True
                continue
            n.ne.add(g)
        # symbol static ranges of the eliminated symbols
        for i, v in mp.items():
            s = SYMS[i]
            if v.is_const():
                if v.c < s.lo or v.c > s.hi:
                    bad = True
                continue
            if s.lo > -(1 << 100) and n.low(v - s.lo) < 0:
                n.add_ge(v - s.lo)
            if s.hi < (1 << 100) and n.low(C(s.hi) - v) < 0:
                n.add_ge(C(s.hi) - v)
        return n, bad


def gcd(a, b):
    a, b = abs(a), abs(b)
    while b:
        a, b = b, a % b
    return a


# ---------------------------------------------------------------- conditions
class Cond:
    """comparison  (op, Lin)  meaning f op 0 with op in eq, ne, ge ; or constant"""
    __slots__ = ('op', 'f')

    def __init__(self, op, f):
        self.op, self.f = op, f

    def neg(self):
        if self.op == 'eq':
            return Cond('ne', self.f)
        if self.op == 'ne':
            return Cond('eq', self.f)
        if self.op == 'ge':
            return Cond('ge', -self.f - 1)
        if self.op == 'true':
            return Cond('false', ZERO)
        if self.op == 'false':
            return Cond('true', ZERO)
        if self.op == 'and':
            return Cond('or', (self.f[0].neg(), self.f[1].neg()))
        if self.op == 'or':
            return Cond('and', (self.f[0].neg(), self.f[1].neg()))

    def __repr__(self):
        if self.op in ('true', 'false'):
            return self.op
        if self.op in ('and', 'or'):
            return '(%r %s %r)' % (self.f[0], self.op, self.f[1])
        return '%r %s 0' % (self.f, {'eq': '==', 'ne': '!=', 'ge': '>='}[self.op])


TRUE, FALSE = Cond('true', ZERO), Cond('false', ZERO)
