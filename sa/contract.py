"""Obligations: what must hold on every path of a function of /repo."""
import sys, time, os, json, traceback, multiprocessing
from . import irgen, llir, dom, models
from .dom import *
from .interp import Interp, State, Broken, LS, Event

_mods = {}
post = None         # judgement of every run in the build with assertions


def mods(cfg):
    if cfg not in _mods:
        _mods[cfg] = irgen.build(cfg)
    return _mods[cfg]


def arg(name, tag=None, lo=None, hi=None, ptr=None, bits=64):
    """symbol for a parameter of the analysed function"""
    if tag is not None or ptr:
        key = ('arg', name, tag)
        s = mksym(name, 'arg', (), 4096, PTR_MAX - 1 - models.BIG, True, key=key)
        s.tag = tag
    else:
        lo = 0 if lo is None else lo
        hi = (1 << bits) - 1 if hi is None else hi
        s = mksym(name, 'arg', (), lo, hi, False, key=('arg', name, lo, hi))
    return S(s)


class Check:
    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.obl = 0
        self.by_rule = {}
        self.viol = []
        self.functions = {}
        self.paths = 0
        self.steps = 0
        self.loops = 0
        self.samples = []
        self.t0 = time.time()
        self.runs = []
        self.skip = set()

    cfg = None

    def interp(self, cfg, *layers, **kw):
        if cfg != self.cfg:
            # what is known of an address (type, sign) belongs to one build
            for k in [k for k, s in dom.INTERN.items() if isinstance(k, tuple) and s.kind not in ('arg', 'pow2')]:
                del dom.INTERN[k]
            self.cfg = cfg
        I = Interp(kw.get('mods') or mods(cfg), kw.get('unit'))
        I.models = models.bundle(*layers)
        I.lists_cfg = models.LISTS
        I.elem_hook = None
        I.list_empty_hook = None
        I.slab_tag = 'slab'
        I.asan_tag = kw.get('asan_tag')
        I.cfg = cfg
        for d in kw.get('drop', ()):
            I.models.pop(d, None)
        return I

    def run(self, I, fn, args, st=None, pre=None, unit=None, expect_abort=False):
        st = st or State()
        if pre:
            pre(I, st)
        f = I.find(fn, unit or I.unit)
        if f is None:
            raise Broken('anchor missing: function %s (%s)' % (fn, I.cfg))
        s0 = I.steps
        if post and I.unit == 'slab_cache':
            o, w = I.offsetof('slab', 'size')
            I.on_memset = lambda st, d: I.rd(st, d - models.slabsizeof(I) + o, w)
        paths = I.call_entry(fn, args, st, unit)
        r = Run(self, I, fn, f, args, paths)
        self.functions[(I.cfg, fn)] = len(paths)
        self.paths += len(paths)
        self.steps += I.steps - s0
        self.loops += len(I.loop_seen)
        self.runs.append((I.cfg, fn, len(paths)))
        if not [p for p in paths if p.kind == 'ret'] and not expect_abort:
            self.fail('calls that meet the preconditions return', I.cfg, fn, r.where, 'no path through %s returns' % fn)
            raise Broken('no returning path in %s' % fn)
        if post:
            post(self, I, fn, r)
        return r

    def par(self, items, f, *cfgs):
        """f(check, item) for every item, several at a time"""
        for c in cfgs or ('plain',):
            mods(c)         # built once, shared by the workers
        items = list(items)
        if len(items) < 2 or os.environ.get('SMALL_SEQ'):
            for x in items:
                f(self, x)
            return
        global _job
        _job = (self.prop, self.tier, f, items)
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1, len(items))) as pool:
            res = pool.map(_work, range(len(items)), 1)
        bad = None
        for c, err in res:
            self.obl += c.obl
            for k, v in c.by_rule.items():
                self.by_rule[k] = self.by_rule.get(k, 0) + v
            for v in c.viol:
                for w in self.viol:
                    if all(w[k] == v[k] for k in ('rule', 'function', 'config')):
                        w['count'] += v['count']
                        break
                else:
                    self.viol.append(v)
            self.functions.update(c.functions)
            self.paths += c.paths
            self.steps += c.steps
            self.loops += c.loops
            self.runs += c.runs
            bad = bad or err
        if bad:
            raise Broken(bad)

    def gone(self, what, where=''):
        """a behaviour the property consists of is no longer there"""
        self.fail('expected behaviour is present', 'plain', what.split(':')[0], where, what)

    def ok(self, rule, n=1):
        self.obl += n
        self.by_rule[rule] = self.by_rule.get(rule, 0) + n

    def fail(self, rule, cfg, fn, where, detail, path=None):
        self.obl += 1
        self.by_rule[rule] = self.by_rule.get(rule, 0) + 1
        for v in self.viol:
            if v['rule'] == rule and v['function'] == fn and v['config'] == cfg:
                v['count'] += 1
                return
        self.viol.append(dict(rule=rule, config=cfg, function=fn, where=where,
                              detail=detail, path=path or [], count=1))


_job = None


def _work(i):
    prop, tier, f, items = _job
    ck = Check(prop, tier)
    err = None
    try:
        f(ck, items[i])
    except (Broken, irgen.AnalysisBroken) as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    ck.skip = ()
    return ck, err


class Run:
    def __init__(self, ck, I, name, fn, args, paths):
        self.ck, self.I, self.name, self.fn, self.args = ck, I, name, fn, args
        self.all = [P(self, p) for p in paths]
        self.rets = [p for p in self.all if p.kind == 'ret']
        self.aborts = [p for p in self.all if p.kind == 'abort']

    @property
    def where(self):
        return '%s:%d' % (self.fn.file.replace(irgen.REPO + '/', ''), self.fn.line)

    # entry value of a field
    def f0(self, ptr, struct, path):
        off, size = self.I.offsetof(struct, path)
        return self.I.entry(ptr + off, size)

    def count(self, rule, n, least=1):
        """number of instances a rule found; fewer than confirmed = broken"""
        if n < least:
            self.ck.gone('%s: %d instances of "%s", at least %d expected' % (self.name, n, rule, least), self.where)


class P:
    def __init__(self, run, path):
        self.run, self.path = run, path
        self.st, self.kind, self.ret = path.st, path.kind, path.ret
        self.I = run.I
        self._ev = None

    @property
    def ev(self):
        if self._ev is None:
            self._ev = self.st.evlist()
        return self._ev

    def evs(self, *kinds):
        return [e for e in self.ev if e.kind in kinds]

    def n(self, f):
        return self.st.nv(f)

    # value of a field at the end of the path
    def f(self, ptr, struct, path):
        off, size = self.I.offsetof(struct, path)
        v = self.I.rd(self.st, ptr + off, size)
        return v

    def f0(self, ptr, struct, path):
        return self.run.f0(ptr, struct, path)

    def trace(self):
        out = []
        e = self.st.notes
        while e is not None:
            loc, c = e[1]
            out.append('%s %r' % ('%s:%d' % loc if loc else '', c) if not isinstance(c, str)
                       else '%s %s' % ('%s:%d' % loc if loc else '', c))
            e = e[0]
        out.reverse()
        return out[-40:]

    # ---- facts about the path
    def is0(self, f):
        return self.st.facts.zero(self.n(f))

    def same(self, a, b, bits=64):
        a, b = self.n(a), self.n(b)
        d = a - b
        if d.is_const():
            return d.c % (1 << bits) == 0
        if self.st.facts.zero(d):
            return True
        if bits < 64 or True:
            M = 1 << bits
            if all(k % M == 0 for _, k in d.t) and d.c % M == 0:
                return True
            d2 = self.I.cn(d, bits)
            if d2.is_const():
                return d2.c % M == 0
            if self.st.facts.zero(d2):
                return True
        return False

    def ge(self, a, b=0):
        b = b if isinstance(b, Lin) else C(b)
        return self.st.facts.ge0(self.n(a) - self.n(b))

    def differ(self, a, b):
        return self.st.facts.nonzero(self.n(a) - self.n(b))

    def possible(self, c):
        return self.I.decide(self.st, self.st.nv(c)) is not False

    def where(self, ev=None):
        if ev is not None and ev.loc:
            return '%s:%d' % ev.loc
        return self.run.where

    # ---- obligations
    def _bad(self, rule, detail, ev=None):
        self.run.ck.fail(rule, self.I.cfg, self.run.name, self.where(ev), detail, self.trace())

    def need(self, cond, rule, detail='', ev=None):
        if cond:
            self.run.ck.ok(rule)
            return True
        self._bad(rule, detail() if callable(detail) else detail, ev)
        return False

    def need_eq(self, a, b, rule, what='', bits=64, ev=None):
        if a is None or b is None:
            return self.need(False, rule, '%s: value not determined' % what, ev)
        return self.need(self.same(a, b, bits), rule,
                         lambda: '%s: found %r, expected %r' % (what, self.n(a), self.n(b)), ev)

    def need_ge(self, a, b, rule, what='', ev=None):
        b = b if isinstance(b, Lin) else C(b)
        return self.need(self.ge(a, b), rule,
                         lambda: '%s: %r >= %r does not follow' % (what, self.n(a), self.n(b)), ev)

    def need_field(self, ptr, struct, path, expect, rule, bits=None):
        off, size = self.I.offsetof(struct, path)
        v = self.I.rd(self.st, ptr + off, size)
        return self.need_eq(v, expect, rule, '%s.%s' % (struct, path), bits or size * 8)

    def unchanged(self, ptr, struct, path, rule):
        return self.need_field(ptr, struct, path, self.f0(ptr, struct, path), rule)

    # ---- frame: which cells changed
    def changed(self):
        """cells whose exit value differs from the entry value:
        list of (address, size, value)"""
        out = []
        hv = self.loop[1] if getattr(self, 'loop', None) else {}
        for (b, o) in self.st.dirty:
            c = self.st.mem.get(b, {}).get(o)
            if c is None:
                continue
            sz, v = c
            if hv and isinstance(v, Lin):
                # an iteration changes what differs from its start
                h = [x for k, x in hv.items() if k[0] == 'mem' and k[3] == sz and isinstance(x, Lin) and (k[1], k[2]) == (b, o)]
                if h and self.same(v, h[0], sz * 8):
                    continue
            base_ids = b.syms()
            if any(SYMS[i].kind == 'obj' and SYMS[i].name.startswith('stack.') for i in base_ids):
                continue
            key = ('lazy', b + o, sz, self.I.cfg)
            s = dom.INTERN.get(key)
            if s is not None and isinstance(v, Lin) and self.same(v, S(s), sz * 8):
                continue
            if post and self.I.name_addr(b + o)[0].endswith('->reserved'):
                continue        # in the build with assertions only, judged there
            out.append((b + o, sz, v))
        return out

    def frame(self, allowed, rule):
        """only addresses accepted by allowed(addr) may differ from entry"""
        for a, sz, v in self.changed():
            if isinstance(v, Lin) and any(SYMS[i].kind == 'obj' for i in a.syms()):
                continue
            self.need(allowed(a), rule,
                      lambda: 'writes %s' % self.I.name_addr(a)[0])

    def no_effects(self, rule, allow=()):
        """failure path: nothing visible changed"""
        ch = [(a, v) for a, sz, v in self.changed() if not any(x(a) for x in allow)]
        self.need(not ch, rule, lambda: 'state changed on a failing path: %s' %
                  ', '.join('%s=%r' % (self.I.name_addr(a)[0], v) for a, v in ch[:3]))


def iteration(r, st, evs):
    """a loop iteration looked at like a path"""
    p = P(r, type('X', (), dict(st=st, kind='ret', ret=None))())
    p._ev = evs
    return p


def iterations(r, i):
    """every iteration of loop i: (iteration, {var: (at start, at end)})"""
    for (b, evs, pv), hv, bv in zip(i.backs, i.hvs, i.bvs):
        p = iteration(r, b, evs)
        p.loop = (i, hv)
        yield p, {k: (hv.get(k), bv.get(k)) for k in bv if isinstance(hv.get(k), Lin) and isinstance(bv.get(k), Lin)}


def fstart(p, s, struct, path):
    """value of a field of s when the iteration p began"""
    off, size = p.I.offsetof(struct, path)
    if getattr(p, 'loop', None):
        i, hv = p.loop
        for k, v in hv.items():
            if k[0] == 'pfld' and isinstance(v, Lin) and k[3] == size and isinstance(hv.get(('phi', k[1])), Lin) \
               and p.same(hv[('phi', k[1])] + k[2], s + off):
                return p.n(v)
            if k[0] == 'mem' and isinstance(v, Lin) and k[3] == size and p.same(k[1] + k[2], s + off):
                return p.n(v)
    return p.n(p.I.entry(s + off, size))


def counters(r, i, pairs, delta):
    """loop variables that change by +delta or -delta in the iteration:
    [(key, sign, at loop entry, at start of the iteration, at end)]"""
    out = []
    for k, (h, b) in pairs.items():
        e = i.vars.get(k, (None,))[0]
        if not isinstance(e, Lin):
            continue
        for sg in (1, -1):
            if r.same(b - h, delta.scale(sg)):
                out.append((k, sg, e, h, b))
    return out


def ledger(r, addr, size, delta, rule, what, outside=None, step=None):
    """over every path the cell at addr changes by the sum of delta(p) over the
    iterations of the loops plus outside(p).  delta(iteration) -> Lin; step(i)
    tells whether loop i is one of interest"""
    I = r.I
    cands = {}
    for i in I.loop_seen:
        c = None
        for p, pairs in iterations(r, i):
            d = delta(p)
            now = set()
            for k, (h, b) in pairs.items():
                for sg in (1, -1):
                    if p.same(b - h, d.scale(sg)):
                        now.add((k, sg))
            c = now if c is None else c & now
            if p.is0(d):
                now.add((None, 1))
        cands[id(i)] = {(None, 1)} if c is None else c
    for p in r.rets:
        opts = [I.entry(addr, size) + (outside(p) if outside else ZERO)]
        for e in p.ev:
            if e.kind != 'loop':
                continue
            i, vals = e.x
            new = list(opts) if (None, 1) in cands.get(id(i), ()) else []
            for k, sg in cands.get(id(i), ()):
                if k is None:
                    continue
                en = i.vars.get(k, (None,))[0]
                v = vals.get(k)
                if isinstance(v, Lin) and isinstance(en, Lin):
                    new += [o + (v - en).scale(sg) for o in opts]
            opts = new
        f = I.rd(p.st, addr, size)
        p.need(any(p.same(f, o, size * 8) for o in opts), rule, lambda: '%s: found %r, expected one of %r' % (what, p.n(f), [p.n(o) for o in opts[:3]]))


def list_known_empty(st, h):
    l = st.lists.get(st.n(h))
    return l is not None and not l.pre and not l.suf and l.rest is None


def where_now(st, head):
    """the list that holds what was in the list at head"""
    for e in st.evlist():
        if e.kind == 'list_swap':
            a, b = st.n(e.a[0]), st.n(e.a[1])
            if head == a:
                head = b
            elif head == b:
                head = a
        elif e.kind == 'list_splice' and st.n(e.a[1]) == head:
            head = st.n(e.a[0])
    return head


def elements(r, i, head, link):
    """the iterations of loop i with the element of the list at head they
    process: (iteration, element or None, cursor variable or None, offset of
    the link from the cursor, step event, (loop, values at its start))"""
    S0 = i.S0
    for (b, evs, pv), hv in zip(i.backs, i.hvs):
        p = iteration(r, b, evs)
        p.pv = pv
        p.loop = ih = (i, hv)
        for key, v in hv.items():
            if key[0] != 'phi' or not isinstance(v, Lin) or not any(SYMS[x].ptr for x in v.syms()):
                continue
            nx = [e for e in evs if e.kind == 'lnext' and p.same(e.a[0], v + link)]
            elem, off = v, link
            if not nx:
                # the link itself may be the cursor
                nx = [e for e in evs if e.kind == 'lnext' and p.same(e.a[0], v)]
                if not nx:
                    continue
                elem, off = v - link, ZERO
            e0 = S0.n(i.vars[key][0]) if key in i.vars else None
            l = S0.lists.get(S0.n(head))
            if e0 is None or l is None or not l.pre or not p.same(e0 + off, l.pre[0]):
                continue
            yield p, elem, key, off, nx[0], ih
            break
        else:
            dels = [e for e in evs if e.kind == 'list_del' and e.a[1] is not None and p.same(e.a[1], head)]
            yield p, p.n(dels[0].a[0]) - link if dels else None, None, None, None, ih


def drain(r, head, link, cb, rule='every element of the list is processed', least=1, stop=None):
    """the function processes every element of the list at head exactly once:
    either a cursor runs from the first element over each successor up to the
    head, or elements are unlinked until the list is empty.
    cb(p, element, events): judge one iteration;
    stop(p, element): whether the walk may end in front of that element"""
    cb0 = cb
    cb = lambda p, e, evs, i=None: (setattr(p, 'loop', i), cb0(p, e, evs))
    I, ck = r.I, r.ck
    n = 0
    head0 = head
    curs = {}                # id of LoopInfo -> phi keys that are cursors
    for i in I.loop_seen:
        head = where_now(i.S0, i.S0.n(head0))
        for p, elem, key, off, nx, ih in elements(r, i, head, link):
            if elem is None:
                continue
            n += 1
            if key is not None:
                back = p.pv.get(key[1])
                w = nx.a[2] if off is ZERO else nx.a[2] - link
                p.need(isinstance(back, Lin) and p.same(back, w), rule, lambda: 'cursor moves to %r' % (back,), nx)
                curs.setdefault(id(i), set()).add((key, off))
                rel = [e for e in p.ev if e.kind == 'release' and p.same(e.a[1], elem)]
                if rel:
                    p.need(p.ev.index(nx) < p.ev.index(rel[0]), 'the successor is read before an element is released', '', rel[0])
            else:
                dels = [e for e in p.ev if e.kind == 'list_del' and e.a[1] is not None and p.same(e.a[1], head)]
                p.need(len(dels) == 1, rule, lambda: '%d elements unlinked in one iteration' % len(dels))
            cb(p, elem, p.ev, ih)
    for p in r.rets:
        head = where_now(p.st, p.n(head0))
        done = list_known_empty(p.st, head)
        if stop and not done:
            l = p.st.lists.get(p.n(head))
            done = l is not None and bool(l.pre) and stop(p, p.n(l.pre[0]) - link)
        if not done:
            for e in p.ev:
                if e.kind != 'loop':
                    continue
                i, vals = e.x
                for key, off in curs.get(id(i), ()):
                    if isinstance(vals.get(key), Lin) and (p.same(vals[key] + off, head) or
                                                           stop and stop(p, p.n(vals[key] + off - link))):
                        done = True
        p.need(done, rule, 'the function returns with elements left')
    if least:
        r.count(rule, n, least)
    return n


def field_pred(I, ptr, struct, *paths):
    rs = []
    for p in paths:
        off, size = I.offsetof(struct, p)
        rs.append((ptr + off, size))

    def f(a):
        for lo, n in rs:
            d = a - lo
            if d.is_const() and 0 <= d.c < n:
                return True
        return False
    return f


def covered(p, lo, hi, ranges):
    """how far the union of ranges reaches from lo (up to hi)"""
    ok = [(p.n(a), p.n(b)) for a, b in ranges]
    for _ in range(3):
        ok += [(a, d) for a, b in ok for c, d in ok if a is not c and p.same(b, c) and (a, d) not in ok]
    at = lo
    for _ in range(len(ok)):
        nx = [b for a, b in ok if p.ge(at, a) and p.ge(b, at) and not p.same(b, at)]
        if not nx or p.ge(at, hi):
            break
        for b in nx:
            if p.ge(b, at):
                at = b
    return at


def hides(p, lo, hi):
    """the bytes [lo, hi) are marked inaccessible at the end of the path"""
    lo, hi = p.n(lo), p.n(hi)
    if p.ge(lo, hi):
        return True
    rs = []
    for e in p.ev:
        a, b = (p.n(e.a[0]), p.n(e.a[0] + e.a[1])) if e.kind in ('poison', 'unpoison') else (ZERO, ZERO)
        if e.kind == 'poison':
            rs.append((a, b))
        elif e.kind == 'unpoison' and not (p.ge(a, hi) or p.ge(lo, b)):
            rs = []
    return p.ge(covered(p, lo, hi, rs), hi)
