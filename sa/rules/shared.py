"""What threads that use their own objects have in common: variables of the
process, arena and quota, read views."""
from . import prop, PROPS
from ..contract import *

CREATION = {'slab_arena': ('slab_arena_create', 'slab_arena_destroy'), 'quota': ('quota_init',)}
# not safe to call from several threads at once (attributes(7))
UNSAFE = set('''strtok strerror rand srand random srandom drand48 lrand48 mrand48 localtime gmtime ctime asctime
setlocale getenv setenv putenv unsetenv tmpnam getpwnam getpwuid getgrnam getgrgid readdir gethostbyname
basename dirname ptsname ttyname strsignal hcreate hsearch ecvt fcvt lgamma lgammaf inet_ntoa
signal sigprocmask setitimer fork brk sbrk mallopt'''.split())


def loc(m, f, i):
    l = m.loc(i.dbg)
    return '%s:%d' % (l[0].replace(irgen.REPO + '/', ''), l[1]) if l else f.file.replace(irgen.REPO + '/', '')


def mentions(x, g):
    if isinstance(x, (tuple, list)):
        return len(x) == 2 and x[0] == 'glo' and x[1] == g or any(mentions(y, g) for y in x)
    return False


def regs(x, out):
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] == 'loc':
            out.add(x[1])
        else:
            for y in x:
                regs(y, out)
    return out


class Use:
    """everything done with an address inside one function"""

    def __init__(self, ms, report):
        self.ms, self.report, self.done, self.n = ms, report, set(), 0

    def fn(self, name, prefer):
        for m in [prefer] + list(self.ms.values()):
            if name in m.fns:
                return m, m.fns[name]
        return None, None

    def run(self, m, f, is_addr, key):
        """is_addr(operand): the operand is the address itself"""
        if (m.unit, f.name, key) in self.done:
            return
        self.done.add((m.unit, f.name, key))
        der = set()
        hit = lambda x: is_addr(x) or bool(regs(x, set()) & der)
        while True:
            n = len(der)
            for b in f.order:
                for i in f.blocks[b]:
                    if i.res and i.op in ('getelementptr', 'phi', 'select', 'bitcast', 'freeze', 'addrspacecast') and hit(i.a):
                        der.add(i.res)
            if len(der) == n:
                break
        for b in f.order:
            for i in f.blocks[b]:
                if not hit(i.a):
                    continue
                self.n += 1
                if i.op in ('getelementptr', 'phi', 'select', 'bitcast', 'freeze', 'addrspacecast', 'icmp', 'load', 'atomicrmw'):
                    if i.op == 'atomicrmw' and hit(i.a[3]):
                        self.report(m, f, i, 'its address is stored')
                elif i.op == 'cmpxchg':
                    if hit(i.a[3]):
                        self.report(m, f, i, 'its address is stored')
                elif i.op == 'store':
                    if hit(i.a[1]):
                        self.report(m, f, i, 'its address is stored')
                    elif 'store atomic' not in i.text:
                        self.report(m, f, i, 'written without an atomic operation')
                elif i.op == 'call':
                    callee = i.a[1]
                    if callee[0] != 'glo':
                        if any(hit(x) for x in i.a[2]):
                            self.report(m, f, i, 'its address is passed on')
                        continue
                    c = callee[1]
                    if c.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.threadlocal', 'pthread_', '__tsan', '__asan', '__atomic_load')):
                        continue
                    for k, x in enumerate(i.a[2]):
                        if not hit(x):
                            continue
                        if c.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove', 'memcmp')) and (k == 1 or c == 'memcmp'):
                            continue
                        m2, f2 = self.fn(c, m)
                        if f2 is None:
                            self.report(m, f, i, 'its address is passed to %s' % c)
                            continue
                        pn = f2.params[k][1]
                        self.run(m2, f2, lambda y, pn=pn: pn in regs(y, set()), ('param', k))
                elif i.op == 'ret':
                    self.report(m, f, i, 'its address is returned')
                else:
                    self.report(m, f, i, 'its address is used by %s' % i.op)


def rule_globals(ck):
    """no writable variable of the process"""
    rule = 'process-wide variables are constant, per thread or atomic'
    for cfg in ('plain', 'asan'):
        ms = mods(cfg)
        seen = 0
        for m in ms.values():
            for g, d in m.globals.items():
                if d['ext'] or g.startswith('llvm.'):
                    continue
                seen += 1
                if d['tls'] or d['const']:
                    ck.ok(rule)
                    continue
                bad = []
                u = Use(ms, lambda m2, f, i, why: bad.append((m2, f, i, why)))
                for m2 in ms.values():
                    if m2 is not m and d['internal']:
                        continue
                    for f in m2.fns.values():
                        u.run(m2, f, lambda x: mentions(x, g), ('glo', g))
                if bad:
                    m2, f, i, why = bad[0]
                    ck.fail(rule, cfg, f.name, loc(m2, f, i), '%s: %s' % (g, why))
                else:
                    ck.ok(rule, max(1, u.n))
        if not seen:
            raise Broken('no global variables found')
        if cfg == 'plain':
            for g in ('dummy_stats', 'static_storage_pos', 'static_storage_buffer'):
                if [1 for m in ms.values() if g in m.globals and not m.globals[g]['ext'] and m.globals[g]['tls']]:
                    ck.ok('variables of the library are per thread')


def callers(ms):
    out = {}
    for m in ms.values():
        for f in m.fns.values():
            for b in f.order:
                for i in f.blocks[b]:
                    if i.op == 'call' and i.a[1][0] == 'glo':
                        out.setdefault(i.a[1][1], set()).add(f.name)
    return out


def stores(m, f, kinds=('store',)):
    """(instruction, struct, field index): plain writes into named structs"""
    defs = {i.res: i for b in f.order for i in f.blocks[b] if i.res}

    def trace(v, d=0):
        rs = [v[1]] if isinstance(v, tuple) and len(v) == 2 and v[0] == 'loc' else []
        out = []
        for r in rs:
            i = defs.get(r)
            if i is None or d > 8:
                continue
            if i.op == 'getelementptr':
                ty = i.a[0]
                idx = [x[1][1] for x in i.a[1][2:] if x[1][0] == 'int']
                name = (getattr(ty, 'name', None) or '').replace('%struct.', '')
                if name:
                    out.append((name, idx[0] if idx else None))
                out += trace(i.a[1][0][1], d + 1)
            elif i.op in ('phi', 'select', 'bitcast'):
                for r2 in regs(i.a, set()):
                    out += trace(('loc', r2), d + 1)
        return out
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == 'store':
                for s in trace(i.a[2]):
                    yield i, s
            elif i.op == 'call' and i.a[1][0] == 'glo' and i.a[1][1].startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset', 'memcpy', 'memset', 'memmove')):
                for s in trace(i.a[2][0][1]):
                    yield i, s


def during(name, roots, call, seen=()):
    """name runs only as part of one of the roots"""
    if name in roots:
        return True
    cs = call.get(name, ()) if name not in seen else ()
    return bool(cs) and all(during(c, roots, call, seen + (name,)) for c in cs)


def rule_shared(ck):
    rule = 'what threads share changes by atomic operations only'
    for cfg in ('plain', 'asan'):
        ms = mods(cfg)
        call = callers(ms)
        n = dict.fromkeys(CREATION, 0)
        for m in ms.values():
            for f in m.fns.values():
                for i, (s, k) in stores(m, f):
                    roots = CREATION.get(s)
                    if roots is None:
                        continue
                    n[s] += 1
                    if during(f.name, roots, call):
                        ck.ok(rule)
                    else:
                        ck.fail(rule, cfg, f.name, loc(m, f, i), 'struct %s is written outside creation and destruction: %s' % (s, i.text.strip()[:70]))
                for b in f.order:
                    for i in f.blocks[b]:
                        if i.op == 'call' and i.a[1][0] == 'glo':
                            c = i.a[1][1]
                            if c in UNSAFE:
                                ck.fail('only functions safe for threads are called', cfg, f.name, loc(m, f, i), c)
                            elif not any(c in x.fns for x in ms.values()) and not c.startswith('llvm.'):
                                ck.ok('only functions safe for threads are called')
        if not all(n.values()):
            raise Broken('anchor missing: no initialisation of %s' % ', '.join(x for x in n if not n[x]))


def rule_view(ck):
    """a read view is read without touching what the writer changes"""
    rule = 'reading a view touches nothing that changes'
    ms = mods('plain')
    call = callers(ms)
    # fields of the matras written after its creation
    later = {}
    for m in ms.values():
        for f in m.fns.values():
            for i, (s, k) in stores(m, f):
                if s == 'matras' and not during(f.name, ('matras_create',), call):
                    later.setdefault(k, loc(m, f, i))
    I = ck.interp('plain', unit='headers')
    M, V, idv = arg('matras', 'matras'), arg('view', 'matras_view'), arg('id', bits=32)
    nx = I.entry(V + I.offsetof('matras_view', 'next_view')[0], 8, True)
    reads = []
    I.on_load = [lambda I, st, a, size, ins: reads.append((st, a))]
    mm = ms['headers']
    ty = [t for t in mm.types if t.lstrip('%') == 'struct.matras'][0]
    fields = [(mm.field_off(mm.types[ty], k)[0], k) for k in range(len(mm.types[ty].el))]

    def pre(I, st):
        st.facts.add_ge(nx - 4096)
        for k, (lo, hi) in dict(shift1=(0, 31), shift2=(0, 31)).items():
            o, n = I.offsetof('matras', k)
            st.facts.add_ge(C(hi) - I.entry(M + o, n))
    r = ck.run(I, 'matras_view_get', [M, V, idv], pre=pre)
    for p in r.rets:
        p.need(not p.changed(), 'reading a view writes nothing', '')
    n = 0
    for st, a in reads:
        d = st.n(a) - M
        if not d.is_const():
            continue
        n += 1
        k = max(x for x in fields if x[0] <= d.c)[1]
        if k in later:
            ck.fail(rule, 'plain', 'matras_view_get', r.where, 'field %d of struct matras, written at %s' % (k, later[k]))
        else:
            ck.ok(rule)
    if not n or not reads:
        raise Broken('matras_view_get: no reads seen')
    if not later:
        raise Broken('no writes to struct matras found')


prop('N01', 'other', 'global variables, plain writes to shared structures and reads through views, over every function of both builds', [rule_globals, rule_shared, rule_view] + PROPS['L01']['rules'] + PROPS['Q01']['rules'] + PROPS['A01']['rules'], min_obligations=100)
