"""The memory-checking build: output and input buffers."""
import itertools
from . import prop, PROPS
from ..contract import *
from .. import models
from .checked import rule_obuf_known, use, payload, header, no_asserts, LIM

BIG = models.BIG


class Obuf:
    """pos: index of the last vector; null: no vector allocated yet (pos 0)"""

    def __init__(self, ck, pos, null=False, unit='obuf_asan'):
        self.ck, self.pos, self.null = ck, pos, null
        self.I, self.A = use(ck, unit)
        I = self.I
        I.unroll_open = True
        I.unroll_max = 40
        self.B = arg('obuf', 'obuf')
        off = I.offsetof
        self.iov, n = off('obuf', 'iov')
        self.max = n // 16 - 1
        self.cap, n = off('obuf', 'capacity')
        if n // 8 != self.max:
            raise Broken('anchor changed: capacity and iov of struct obuf (memory-checking build) do not fit')
        self.ob, self.ol = off('iovec', 'iov_base')[0], off('iovec', 'iov_len')[0]
        e = lambda f: I.entry(self.B + off('obuf', f)[0], off('obuf', f)[1])
        self.start, self.used0, self.pos0, self.res0 = e('start_capacity'), e('used'), e('pos'), e('reserved')

    def a(self, what, i):
        return self.B + (self.cap + 8 * i if what == 'cap' else self.iov + 16 * i + (self.ob if what == 'base' else self.ol))

    def e0(self, what, i):
        return self.I.entry(self.a(what, i), 8, what == 'base')

    def now(self, p, what, i):
        return p.n(self.I.rd(p.st, self.a(what, i), 8))

    def get(self, p, f):
        return p.n(p.f(self.B, 'obuf', f))

    def pre(self, I, st, reserved=False):
        st.facts.add_ge(self.start - 1)
        st.facts.add_ge(C(1 << 30) - self.start)
        I.learn_eq(st, self.pos0 - self.pos)
        I.learn_eq(st, self.res0 - (1 if reserved else 0))
        st.facts.add_ge(C(1 << 60) - self.used0)
        n = self.pos + (not self.null)
        for i in range(self.max):
            c, l, b = (self.e0(x, i) for x in ('cap', 'len', 'base'))
            if i < n:
                st.facts.add_ge(c - 1)
                st.facts.add_ge(C(BIG) - c)
                st.facts.add_ge(b - 4096)
                st.facts.add_ge(l)
                st.facts.add_ge(c - l)
                st.facts.add_ge(self.used0 - l)
            elif i < n + 3:
                for x in (c, l, b):
                    I.learn_eq(st, x)
        assert not st.dead

    def frame(self, p):
        p.frame(field_pred(p.I, self.B, 'obuf', 'pos', 'used', 'capacity', 'iov', 'reserved'), 'only the vectors and totals change')

    def ipos(self, p):
        v = self.get(p, 'pos')
        if not p.need(v.is_const() and 0 <= v.c < self.max, 'the position stays inside the vector', '%r' % (v,)):
            return None
        return v.c


def shapes(ck, top):
    """positions: without any vector, with a vector of its own for each request
    (in front) and with growing vectors (behind)"""
    ps = range(top) if ck.tier == 'thorough' else (0, 1, 94, 95, 96, 97, top - 2, top - 1)
    return [(0, True)] + [(k, False) for k in sorted(set(ps)) if k < top]


def access(p, lo, n, room_end):
    """the bytes [lo, lo + n) are accessible and the rest up to room_end is not"""
    ps = p.evs('poison')
    p.need(all(p.ge(e.a[0], lo + n) or p.ge(lo, e.a[0] + e.a[1]) for e in ps), 'allocated bytes are accessible', lambda: '%r' % (ps,))
    p.need(all(p.ge(room_end, e.a[0] + e.a[1]) for e in ps), 'only memory of the buffer is made inaccessible', lambda: '%r' % (ps,))
    p.need(hides(p, lo + n, room_end), 'bytes that are not allocated are inaccessible', lambda: '%r' % (ps,))


def rule_obuf_grow(ck):
    size = arg('size', lo=0, hi=U64 - 1)
    top = Obuf(ck, 0).max
    for fn, unit in (('obuf_reserve', 'obuf_asan'), ('obuf_alloc', 'obuf_asan'), ('obuf_reserve_cb', 'headers'), ('obuf_alloc_cb', 'headers'), ('obuf_dup', 'obuf_asan')):
        seen = {}
        if unit == 'headers':
            # thin wrappers: the functions they call are contracts
            wrapper(ck, fn, size)
            continue
        alloc = fn != 'obuf_reserve'
        for k, null in shapes(ck, top):
            cx = Obuf(ck, k, null)
            I = cx.I
            I.unroll_open = False
            data = arg('data', ptr=True)
            r = ck.run(I, fn, [cx.B, size] if fn != 'obuf_dup' else [cx.B, data, size], pre=cx.pre)
            for i in I.loop_seen:
                for p, pairs in iterations(r, i):
                    p.need(any(p.ge(b, h + 1) and p.ge(C(U64 - 1), b) for h, b in pairs.values()), 'the search for a capacity ends', lambda: '%r' % (pairs,))
            for st, loc in cx.A.seen:
                if k + 1 == top:
                    seen['full'] = 1
                else:
                    ck.fail('legal use is not reported as misuse', 'asan', fn, '%s:%d' % loc, 'an assertion may fail at position %d' % k)
            for p in r.rets:
                q = cx.ipos(p)
                if q is None:
                    continue
                granted(p, cx, q, size, alloc, seen)
                if fn == 'obuf_dup':
                    cps = [e for e in p.evs('memcpy', 'memmove')]
                    dst = p.n(cx.now(p, 'base', q) + cx.now(p, 'len', q) - size)
                    p.need(len(cps) == 1 and p.same(cps[0].a[0], dst) and p.same(cps[0].a[1], data) and p.same(cps[0].a[2], size),
                           'all bytes are appended in order', lambda: '%r' % (cps,))
                    p.need_eq(p.ret, size, 'the number of bytes appended is returned', 'result')
                else:
                    p.need_eq(p.ret, cx.now(p, 'base', q) + cx.now(p, 'len', q) - (size if alloc else ZERO), 'granted memory follows the data', 'result')
            # with a reservation made before
            if null:
                continue
            for legal in (True, False) if alloc else (False,):
                cx = Obuf(ck, k, null)
                I = cx.I

                def pre(I, st):
                    cx.pre(I, st, True)
                    room = cx.e0('cap', k) - cx.e0('len', k)
                    if alloc:
                        st.facts.add_ge(room - size if legal else size - room - 1)
                r = ck.run(I, fn, [cx.B, size] if fn != 'obuf_dup' else [cx.B, data, size], pre=pre, expect_abort=not legal)
                if not legal:
                    for p in r.rets:
                        p.need(False, 'misuse of a reservation is reported', 'no report')
                    if not cx.A.seen:
                        ck.fail('misuse of a reservation is reported', 'asan', fn, r.where, 'no report')
                    continue
                no_asserts(ck, I, cx.A, fn)
                for p in r.rets:
                    p.need(not p.evs('alloc', 'release'), 'an allocation uses the reservation', lambda: '%r' % (p.ev,))
                    if fn != 'obuf_dup':
                        p.need_eq(p.ret, cx.e0('base', k) + cx.e0('len', k), 'an allocation uses the reservation', 'result')
                    p.need_eq(cx.now(p, 'len', k), cx.e0('len', k) + size, 'an allocation uses the reservation', 'iov_len')
                    p.need_eq(cx.get(p, 'pos'), C(k), 'an allocation uses the reservation', 'pos')
                    p.need_eq(cx.get(p, 'used'), cx.used0 + size, 'the size is what was appended', 'used')
                    p.need_eq(cx.get(p, 'reserved'), ZERO, 'a reservation is used once', 'reserved', 8)
                    access(p, cx.e0('base', k) + cx.e0('len', k), size, cx.e0('base', k) + cx.e0('cap', k))
                    p.need_eq(cx.now(p, 'base', k), cx.e0('base', k), 'data stays where it is', 'iov_base')
                    p.need_eq(cx.now(p, 'cap', k), cx.e0('cap', k), 'data stays where it is', 'capacity')
                    others(p, cx, k)
                    cx.frame(p)
        for x in ('new', 'room', 'full'):
            if x not in seen:
                ck.gone('%s: no path of the kind %s' % (fn, x))


def others(p, cx, q):
    for i in range(min(cx.pos + 3, cx.max)):
        if i != q:
            for x in ('base', 'len', 'cap'):
                p.need_eq(cx.now(p, x, i), cx.e0(x, i), 'data stays where it is', '%s[%d]' % (x, i))


def granted(p, cx, q, size, alloc, seen):
    k = cx.pos
    rule = 'each request in front gets a checked allocation of its own'
    p.need(not p.evs('release'), 'memory in use is not released', lambda: '%r' % (p.evs('release'),))
    al = p.evs('alloc')
    base, cap, ln = (cx.now(p, x, q) for x in ('base', 'cap', 'len'))
    if al:
        seen['new'] = 1
        e = al[0]
        want = k if cx.null else k + 1
        p.need(len(al) == 1 and q == want, 'a new vector follows the others', lambda: 'position %d after %d, %r' % (q, k, al))
        p.need(e.a[3].is_const() and e.a[3].c > 0 and e.a[3].c & (e.a[3].c - 1) == 0, 'the alignment asked for is a power of two', lambda: '%r' % (e.a[3],), e)
        if k >= cx.max - 32 and not cx.null:
            # the last vectors must last for whatever is still to come
            p.need_ge(size, cx.e0('cap', k) - cx.e0('len', k) + 1, 'the last vectors are filled before the next is used', 'size')
            p.need_ge(cap, cx.start.scale(1 << (k - (cx.max - 32))), 'the last vectors grow', 'capacity')
        p.need_eq(base, payload(e.a[1]), 'a new vector owns its allocation', 'iov_base')
        p.need_eq(cap, e.a[2], 'the capacity is the room of the allocation', 'capacity')
        before = ZERO
    else:
        seen['room'] = 1
        p.need(not cx.null and q == k, 'without a new vector the position stays', lambda: 'position %d after %d' % (q, k))
        p.need_ge(C(k), C(cx.I.enum('SMALL_OBUF_IOV_CHECKED_MAX') if hasattr(cx.I, 'enum') else 96), rule, 'pos')
        p.need_eq(base, cx.e0('base', q), 'data stays where it is', 'iov_base')
        p.need_eq(cap, cx.e0('cap', q), 'data stays where it is', 'capacity')
        before = cx.e0('len', q)
    p.need_ge(cap, before + size, 'the bytes granted fit into the vector', 'capacity')
    p.need_eq(ln, before + (size if alloc else ZERO), 'data stays where it is', 'iov_len')
    p.need_eq(cx.get(p, 'used'), cx.used0 + (size if alloc else ZERO), 'the size is what was appended', 'used')
    p.need_eq(cx.get(p, 'reserved'), ZERO if alloc else ONE, 'a reservation is remembered', 'reserved', 8)
    un = p.evs('unpoison')
    if not al:
        p.need(any(p.same(e.a[0], base + before) and p.ge(e.a[1], size) for e in un), 'granted bytes are accessible', lambda: '%r' % (un,))
    if alloc:
        access(p, base + before, size, base + cap)
    else:
        ps = p.evs('poison')
        p.need(not ps, 'granted bytes are accessible', lambda: '%r' % (ps,))
    others(p, cx, q)
    cx.frame(p)


def wrapper(ck, fn, size):
    cx = Obuf(ck, 3, False, 'headers')
    I = cx.I
    got, sp = S(fresh('granted', 4096, PTR_MAX, True)), arg('size_ptr', ptr=True)
    cb = fn == 'obuf_reserve_cb'
    req = I.entry(sp, 8) if cb else size

    def m(I, st, v, ins):
        st.event('called', tuple(st.n(x) for x in v), I.loc(ins))
        st2 = st
        return [(st2, got)]
    I.models[fn[:-3]] = m
    r = ck.run(I, fn, [cx.B, sp if cb else size], pre=cx.pre)
    for p in r.rets:
        c = p.evs('called')
        p.need(len(c) == 1 and p.same(c[0].a[0], cx.B) and p.same(c[0].a[1], req), 'the callback asks for the same size', lambda: '%r' % (c,))
        p.need_eq(p.ret, got, 'the callback returns what was granted', 'result')
        if cb:
            p.need_eq(I.rd(p.st, sp, 8), cx.e0('cap', 3) - cx.e0('len', 3), 'the room reported is the room there is', 'size')


def rule_obuf_svp(ck):
    top = Obuf(ck, 0).max
    pos = [p for p in shapes(ck, top) if p[0] < 100 or p[0] == top - 1]
    for fn in ('obuf_rollback_to_svp', 'obuf_reset', 'obuf_destroy'):
        back = fn == 'obuf_rollback_to_svp'
        for k, null in pos:
            for s in sorted({0, k - 1, k - 2, k} & set(range(k + 1))) if back else (0,):
                for first, reserved in itertools.product((True, False) if back and s == 0 else (not back,), (False, True)):
                    # first: a savepoint in front of all data
                    if null and (reserved or not first):
                        continue
                    cx = Obuf(ck, k, null)
                    I = cx.I
                    I.unroll_max = top + 2
                    svp = arg('svp', 'obuf_svp')
                    f0 = lambda f: I.entry(svp + I.offsetof('obuf_svp', f)[0], 8)

                    def pre(I, st):
                        cx.pre(I, st, reserved)
                        if not back:
                            return
                        I.learn_eq(st, f0('pos') - s)
                        st.facts.add_ge(st.n(cx.e0('len', s)) - f0('iov_len'))
                        st.facts.add_ge(cx.used0 - f0('used'))
                        if first:
                            I.learn_eq(st, f0('iov_len'))
                            I.learn_eq(st, f0('used'))
                        elif s == 0:
                            st.facts.add_ge(f0('iov_len') - 1)
                    r = ck.run(I, fn, [cx.B] + ([svp] if back else []), pre=pre)
                    no_asserts(ck, I, cx.A, fn)
                    rule = 'only the data up to the savepoint remains'
                    lo = 0 if first else s + 1
                    for p in r.rets:
                        rel = p.evs('release')
                        n = 0 if null else k + 1 - lo
                        p.need(len(rel) == n, 'vectors behind the savepoint are freed once', lambda: '%d of %d' % (len(rel), n))
                        for i in range(lo, lo + n):
                            p.need(len([e for e in rel if p.same(e.a[1], header(cx.e0('base', i)))]) == 1, 'vectors behind the savepoint are freed once', 'iov[%d]' % i)
                        for i in range(k + 1):
                            for x in ('base', 'cap', 'len'):
                                want = ZERO if i >= lo else f0('iov_len') if i == s and x == 'len' else cx.e0(x, i)
                                p.need_eq(cx.now(p, x, i), want, rule, '%s[%d]' % (x, i))
                        p.need_eq(cx.get(p, 'pos'), C(s), rule, 'pos')
                        p.need_eq(cx.get(p, 'used'), f0('used') if back else ZERO, rule, 'used')
                        p.need_eq(cx.get(p, 'reserved'), ZERO, 'a reservation does not survive', 'reserved', 8)
                        if fn == 'obuf_destroy':
                            p.need_field(cx.B, 'obuf', 'slabc', ZERO, 'a destroyed buffer is recognisable')
                        else:
                            cx.frame(p)
        if back:
            for d in (1, 5):
                cx = Obuf(ck, 3)
                svp = arg('svp', 'obuf_svp')
                r = ck.run(cx.I, fn, [cx.B, svp], pre=lambda I, st: (cx.pre(I, st), I.learn_eq(st, I.entry(svp + I.offsetof('obuf_svp', 'pos')[0], 8) - 3 - d)), expect_abort=True)
                for p in r.rets:
                    p.need(False, 'a savepoint behind the data is reported', 'no report')
    for k, null in pos:
        cx = Obuf(ck, k, null, 'headers')
        I = cx.I
        out = arg('out', 'obuf_svp')
        r = ck.run(I, 'obuf_create_svp', [out, cx.B], pre=cx.pre)
        for p in r.rets:
            for f, want in (('pos', C(k)), ('iov_len', cx.e0('len', k)), ('used', cx.used0)):
                p.need_field(out, 'obuf_svp', f, want, 'a savepoint records the end of the data')
        cx = Obuf(ck, k, null, 'headers')
        for p in ck.run(cx.I, 'obuf_iovcnt', [cx.B], pre=cx.pre).rets:
            p.need_eq(p.ret, C(k if null else k + 1), 'exactly the allocated vectors are exported', 'result', 32)
        cx = Obuf(ck, k, null, 'headers')
        for p in ck.run(cx.I, 'obuf_size', [cx.B], pre=cx.pre).rets:
            p.need_eq(p.ret, cx.used0, 'the size is what was appended', 'result')
        if not null:
            cx = Obuf(ck, k, null, 'headers')
            svp = arg('svp', 'obuf_svp')
            e = lambda f: cx.I.entry(svp + cx.I.offsetof('obuf_svp', f)[0], 8)
            for p in ck.run(cx.I, 'obuf_svp_to_ptr', [cx.B, svp], pre=lambda I, st: (cx.pre(I, st), I.learn_eq(st, e('pos') - k))).rets:
                p.need_eq(p.ret, cx.e0('base', k) + e('iov_len'), 'a savepoint names a place in the data', 'result')
    cx = Obuf(ck, 0)
    cache, cap = arg('cache', 'slab_cache'), arg('start', lo=1, hi=1 << 30)
    for p in ck.run(cx.I, 'obuf_create', [cx.B, cache, cap]).rets:
        for f, v in (('slabc', cache), ('start_capacity', cap), ('pos', ZERO), ('used', ZERO)):
            p.need_field(cx.B, 'obuf', f, v, 'a new buffer holds nothing')
        p.need_eq(cx.get(p, 'reserved'), ZERO, 'a new buffer holds nothing', 'reserved', 8)
        for i in (0, 1, top - 1):
            for x in ('cap', 'len', 'base'):
                p.need_eq(cx.now(p, x, i), ZERO, 'a new buffer holds nothing', '%s[%d]' % (x, i))
        for x in ('len', 'base'):
            p.need_eq(cx.now(p, x, top), ZERO, 'a new buffer holds nothing', '%s[%d]' % (x, top))


for pid, rules in (('O01', [rule_obuf_grow]), ('O03', [rule_obuf_svp, rule_obuf_known])):
    PROPS[pid]['rules'] = PROPS[pid]['rules'] + rules
