"""Input buffer: the unread bytes survive every reallocation, positions stay in
order, memory is taken and given back exactly once."""
from . import prop
from ..contract import *
from .. import models

BIG = models.BIG
FIELDS = ('buf', 'rpos', 'wpos', 'end')


class Ctx:
    """mode 'none': no memory held; 'held': buf <= rpos <= wpos <= end"""

    def __init__(self, ck, mode, unit='headers', cfg='plain'):
        self.ck, self.mode, self.cfg = ck, mode, cfg
        self.B = arg('ibuf', 'ibuf')
        self.I = I = ck.interp(cfg, models.CACHE, models.POISON, unit=unit)
        e = lambda f, ptr=True: I.entry(self.B + I.offsetof('ibuf', f)[0], 8, ptr)
        self.cache, self.start = e('slabc'), e('start_capacity', False)
        self.o = {f: e(f) for f in FIELDS}
        self.r, self.w, self.c = (arg(x, lo=0, hi=BIG) for x in ('rpos_off', 'wpos_off', 'capacity'))
        self.hdr = models.slabsizeof(I)

    def pre(self, I, st):
        f = st.facts
        f.add_ge(self.start - 1)
        f.add_ge(C(BIG) - self.start)
        if self.mode == 'none':
            for x in FIELDS:
                I.learn_eq(st, st.n(self.o[x]))
            for x in (self.r, self.w, self.c):
                I.learn_eq(st, st.n(x))
        else:
            b = self.o['buf']
            f.add_ge(b - 4096)
            f.add_ge(self.w - self.r)
            f.add_ge(self.c - self.w)
            f.add_ge(self.c - 1)
            for x, y in (('rpos', self.r), ('wpos', self.w), ('end', self.c)):
                I.learn_eq(st, self.o[x] - b - y)
        assert not st.dead

    def now(self, p):
        return {f: p.n(p.f(self.B, 'ibuf', f)) for f in FIELDS}

    def frame(self, p, rule='only the positions change'):
        p.frame(field_pred(p.I, self.B, 'ibuf', *FIELDS), rule)


def judge_data(p, cx):
    """unread bytes are where rpos says; -> dict of the fields at the end, or
    None when nothing changed because memory was refused"""
    I = p.I
    v = cx.now(p)
    used = cx.w - cx.r
    cps = p.evs('memcpy', 'memmove')
    new, rel = p.evs('alloc'), p.evs('release')
    p.need_ge(v['rpos'], v['buf'], 'the positions stay in order', 'rpos')
    p.need_ge(v['end'], v['wpos'], 'the positions stay in order', 'wpos')
    p.need_eq(v['wpos'] - v['rpos'], used, 'the amount of unread data is kept', 'wpos - rpos')
    cx.frame(p)
    if not cps and not new:
        for f in FIELDS:
            p.need_eq(v[f], cx.o[f], 'without moving data nothing changes', f)
        p.need(not rel, 'memory in use is not released', '')
        return v
    for e in cps:
        accessible(p, cx, p.n(e.a[0]), p.n(e.a[0] + e.a[2]), e, what='target of a copy')
        accessible(p, cx, p.n(e.a[1]), p.n(e.a[1] + e.a[2]), e, what='source of a copy')
    moved = not p.same(v['rpos'], cx.o['rpos'])
    if moved and not p.is0(used):
        ok = len(cps) == 1 and p.same(cps[0].a[0], v['rpos']) and p.same(cps[0].a[1], cx.o['rpos']) and p.same(cps[0].a[2], used)
        p.need(ok, 'moving the buffer moves exactly the unread bytes', lambda: '%r' % cps, cps[0] if cps else None)
        if ok and not new:
            p.need(cps[0].kind == 'memmove' or p.ge(cx.r, used), 'overlapping bytes are moved safely', '', cps[0])
    else:
        p.need(not cps or p.is0(p.n(cps[0].a[2])) and len(cps) == 1 or p.same(cps[0].a[2], used), 'moving the buffer moves exactly the unread bytes', lambda: '%r' % cps)
    if not new:
        p.need(not rel and p.same(v['buf'], cx.o['buf']) and p.same(v['end'], cx.o['end']), 'memory in use is not released', '')
        return v
    if not p.need(len(new) == 1 and new[0].a[0] in ('slab_get', 'slab_get_large') and p.same(new[0].a[2], cx.cache), 'memory comes from the cache of the buffer', lambda: '%r' % new):
        return v
    s = new[0].a[1]
    p.need_eq(v['buf'], s + cx.hdr, 'the buffer is the room behind the slab header', 'buf')
    p.need_ge(s + p.n(p.f(s, 'slab', 'size')), v['end'], 'the buffer ends inside its slab', 'end')
    p.need_eq(v['end'], s + p.n(p.f(s, 'slab', 'size')), 'the whole slab is used', 'end')
    if cx.mode == 'held':
        ok = len(rel) == 1 and rel[0].a[0] == 'slab_put' and p.same(rel[0].a[1], cx.o['buf'] - cx.hdr)
        p.need(ok, 'the old buffer is returned once', lambda: '%r' % rel)
        if ok:
            put = p.evs('slab_put')[0]
            p.need(p.same(put.a[1], cx.cache), 'memory returns to the cache of the buffer', '', put)
            if cps:
                p.need(p.ev.index(cps[0]) < p.ev.index(rel[0]), 'data is copied before its memory is returned', '', rel[0])
    else:
        p.need(not rel, 'the old buffer is returned once', '')
    return v


def accessible(p, cx, lo, hi, upto=None, rule='unread data and granted room are accessible', what=''):
    """memory-checking build: no byte of [lo, hi) is marked inaccessible at the
    event upto (at the end).  On entry only the unread data is known to be
    accessible."""
    if cx.cfg != 'asan' or p.ge(lo, hi):
        return True
    evs = p.ev if upto is None else p.ev[:p.ev.index(upto)]
    ok = [(cx.o['rpos'], cx.o['wpos'])]
    for e in evs:
        if e.kind == 'alloc':
            ok.append((e.a[1], e.a[1] + p.n(p.f(e.a[1], 'slab', 'size'))))
        elif e.kind == 'unpoison':
            ok.append((e.a[0], e.a[0] + e.a[1]))
        elif e.kind == 'poison':
            a, b = e.a[0], e.a[0] + e.a[1]
            p.need(p.ge(a, hi) or p.ge(lo, b) or p.same(a, b), rule, lambda: '%s: [%r, %r) hit by %r' % (what, lo, hi, e), e)
    at = covered(p, lo, hi, ok)
    return p.need(p.ge(at, hi), rule, lambda: '%s: [%r, %r), accessible up to %r' % (what, lo, hi, at))


def hidden(p, cx, lo, hi, rule):
    """memory-checking build: [lo, hi) is marked inaccessible"""
    if cx.cfg == 'asan':
        p.need(hides(p, lo, hi), rule, lambda: '%r, expected [%r, %r)' % (p.evs('poison'), lo, hi))


def rule_grow(ck, cfg='plain'):
    size = arg('size', lo=0, hi=U64 - 1)
    for mode in ('none', 'held'):
        for fn in ('ibuf_reserve', 'ibuf_alloc', 'ibuf_reserve_slow', 'ibuf_reserve_cb', 'ibuf_alloc_cb'):
            cx = Ctx(ck, mode, 'ibuf' if fn == 'ibuf_reserve_slow' else 'headers', cfg)
            I = cx.I
            sp = arg('size_ptr', ptr=True)
            req = I.entry(sp, 8) if fn == 'ibuf_reserve_cb' else size

            def pre(I, st):
                cx.pre(I, st)
                if fn == 'ibuf_reserve_slow':
                    st.facts.add_ge(size - (cx.c - cx.w) - 1)
            # a size taken from memory is an unsigned word
            r = ck.run(I, fn, [cx.B, sp if fn == 'ibuf_reserve_cb' else size], pre=pre)
            seen = set()
            for p in r.rets:
                want = req
                if fn == 'ibuf_reserve_cb':
                    want = cx.start if p.is0(req) else req
                    p.need_eq(I.rd(p.st, sp, 8), p.n(p.f(cx.B, 'ibuf', 'end')) - p.n(p.f(cx.B, 'ibuf', 'wpos')), 'the room reported is the room there is', 'size')
                    p.st.dirty = {k: x for k, x in p.st.dirty.items() if k[0] + k[1] != sp}
                if p.is0(p.ret) and not (mode == 'none' and p.is0(want)):
                    seen.add('null')
                    p.no_effects('a refused request changes nothing')
                    p.need(not p.evs('alloc', 'release', 'memcpy', 'memmove'), 'a refused request changes nothing', '')
                    p.need(p.evs('allocfail') or p.ge(want, C(1 << 47)), 'refused only when memory is', '')
                    continue
                if fn in ('ibuf_alloc', 'ibuf_alloc_cb'):
                    # the write position has moved past the allocation
                    v0 = p.n(p.f(cx.B, 'ibuf', 'wpos'))
                    p.need_eq(v0, p.n(p.ret) + want, 'an allocation appends exactly its bytes', 'wpos')
                    p.need_ge(p.f(cx.B, 'ibuf', 'end'), v0, 'the bytes granted fit into the buffer', 'end')
                    I.store(p.st, cx.B + I.offsetof('ibuf', 'wpos')[0], 8, v0 - want)
                v = judge_data(p, cx)
                accessible(p, cx, v['rpos'], v['wpos'], what='unread data')
                accessible(p, cx, p.n(p.ret), p.n(p.ret) + want, what='granted room')
                if fn in ('ibuf_alloc', 'ibuf_alloc_cb'):
                    hidden(p, cx, p.n(p.ret) + want, v['end'], 'bytes that are not allocated are inaccessible')
                p.need_eq(p.ret, v['wpos'], 'granted memory follows the unread data', 'result')
                p.need_ge(v['end'] - p.n(p.ret), want, 'the bytes granted fit into the buffer', 'end')
                seen.add('new' if p.evs('alloc') else 'move' if p.evs('memmove', 'memcpy') else 'room')
                for e in p.evs('alloc'):
                    p.need_ge(e.a[3], want + cx.w - cx.r, 'enough memory is requested', 'slab size', ev=e)
                    # a fresh buffer only when the old one cannot hold the data
                    p.need_ge(want + cx.w - cx.r, cx.c + 1, 'memory is requested only when the buffer is too small', '', ev=e)
            growth_ends(r)
            for k in ('null', 'new') + (('move',) if mode == 'held' else ()):
                if k not in seen:
                    ck.gone('%s/%s: no path of the kind %s' % (fn, mode, k))


def growth_ends(r):
    for i in r.I.loop_seen:
        for p, pairs in iterations(r, i):
            p.need(any(p.ge(b, h + 1) and p.ge(C(U64 - 1), b) for h, b in pairs.values()), 'the search for a capacity ends', lambda: '%r' % (pairs,))


def rule_shrink(ck, cfg='plain'):
    for mode in ('none', 'held'):
        cx = Ctx(ck, mode, 'ibuf', cfg)
        I = cx.I
        r = ck.run(I, 'ibuf_shrink', [cx.B], pre=cx.pre)
        seen = set()
        for p in r.rets:
            used = cx.w - cx.r
            v = cx.now(p)
            rel = p.evs('release')
            if p.is0(used) and not p.evs('alloc'):
                if mode == 'held':
                    p.need(len(rel) == 1 and rel[0].a[0] == 'slab_put' and p.same(rel[0].a[1], cx.o['buf'] - cx.hdr) and p.same(p.evs('slab_put')[0].a[1], cx.cache), 'an empty buffer gives its memory back', lambda: '%r' % rel)
                else:
                    p.need(not rel, 'an empty buffer gives its memory back', lambda: '%r' % rel)
                for f in FIELDS:
                    p.need_eq(v[f], ZERO, 'an empty buffer gives its memory back', f)
                cx.frame(p)
                seen.add('empty')
                continue
            v = judge_data(p, cx)
            accessible(p, cx, v['rpos'], v['wpos'], what='unread data')
            if p.evs('alloc'):
                hidden(p, cx, v['wpos'], v['end'], 'bytes that are not allocated are inaccessible')
            want = cx.start if p.ge(cx.start, used) else used if p.ge(used, cx.start) else None
            if not p.need(want is not None, 'shrinks to what the data needs', 'start capacity and data not compared'):
                continue
            if p.evs('alloc'):
                seen.add('new')
                e = p.evs('alloc')[0]
                p.need_ge(e.a[3], used, 'enough memory is requested', 'slab size', ev=e)
                p.need_eq(e.a[3], want, 'shrinks to what the data needs', 'slab size', ev=e)
            else:
                seen.add('stay')
                f = p.evs('allocfail')
                a, b = (S(opaque('real_size', (p.n(cx.cache), p.n(x)), 0, BIG)) for x in (cx.c, want))
                p.need(f or p.same(a, b), 'memory in excess is given back', 'no reason to keep the buffer')
        for k in ('empty',) + (('new', 'stay') if mode == 'held' else ()):
            if k not in seen:
                ck.gone('ibuf_shrink/%s: no path of the kind %s' % (mode, k))


def rule_positions(ck, cfg='plain'):
    n = arg('bytes', lo=0, hi=BIG)
    for mode in ('none', 'held'):
        for fn, delta in (('ibuf_discard', dict(wpos=-1)), ('ibuf_consume', dict(rpos=1)), ('ibuf_truncate', None), ('ibuf_consume_before', None),
                          ('ibuf_reset', None), ('ibuf_destroy', None), ('ibuf_reinit', None), ('ibuf_used', None), ('ibuf_unused', None), ('ibuf_capacity', None), ('ibuf_pos', None)):
            cx = Ctx(ck, mode, 'ibuf' if fn in ('ibuf_destroy', 'ibuf_reinit') else 'headers', cfg)
            I = cx.I

            def pre(I, st):
                cx.pre(I, st)
                st.facts.add_ge(st.n(cx.w - cx.r - n))
            a = [cx.B]
            if fn in ('ibuf_discard', 'ibuf_consume', 'ibuf_truncate'):
                a.append(n)
            if fn == 'ibuf_consume_before':
                a.append(cx.o['rpos'] + n)
            if fn == 'ibuf_consume_before' and mode == 'none':
                continue
            r = ck.run(I, fn, a, pre=pre)
            for p in r.rets:
                v = cx.now(p)
                exp = dict(cx.o)
                rule = '%s moves the positions as promised' % fn
                if fn == 'ibuf_discard':
                    exp['wpos'] = cx.o['wpos'] - n
                elif fn in ('ibuf_consume', 'ibuf_consume_before'):
                    exp['rpos'] = cx.o['rpos'] + n
                elif fn == 'ibuf_truncate':
                    exp['wpos'] = cx.o['rpos'] + n
                elif fn == 'ibuf_reset':
                    exp['rpos'] = exp['wpos'] = cx.o['buf']
                elif fn == 'ibuf_reinit':
                    exp = {f: ZERO for f in FIELDS}
                elif fn == 'ibuf_used':
                    p.need_eq(p.ret, cx.w - cx.r, rule, 'result')
                elif fn == 'ibuf_unused':
                    p.need_eq(p.ret, cx.c - cx.w, rule, 'result')
                elif fn == 'ibuf_capacity':
                    p.need_eq(p.ret, cx.c, rule, 'result')
                elif fn == 'ibuf_pos':
                    p.need_eq(p.ret, cx.r, rule, 'result')
                rel = p.evs('release')
                if fn in ('ibuf_destroy', 'ibuf_reinit') and mode == 'held':
                    p.need(len(rel) == 1 and rel[0].a[0] == 'slab_put' and p.same(rel[0].a[1], cx.o['buf'] - cx.hdr) and p.same(p.evs('slab_put')[0].a[1], cx.cache), 'the buffer returns its memory once', lambda: '%r' % rel)
                else:
                    p.need(not rel, 'memory in use is not released', lambda: '%r' % rel)
                p.need(not p.evs('alloc', 'memcpy', 'memmove'), rule, 'allocates or copies')
                if fn not in ('ibuf_destroy', 'ibuf_reinit'):
                    accessible(p, cx, v['rpos'], v['wpos'], what='unread data')
                    if fn in ('ibuf_discard', 'ibuf_truncate'):
                        hidden(p, cx, v['wpos'], cx.o['wpos'], 'discarded bytes are inaccessible')
                    elif fn == 'ibuf_reset':
                        hidden(p, cx, cx.o['rpos'], cx.o['wpos'], 'discarded bytes are inaccessible')
                    elif fn in ('ibuf_consume', 'ibuf_consume_before'):
                        hidden(p, cx, cx.o['rpos'], v['rpos'], 'consumed bytes are inaccessible')
                if fn != 'ibuf_destroy':
                    for f in FIELDS:
                        p.need_eq(v[f], exp[f], rule, f)
                    p.frame(field_pred(I, cx.B, 'ibuf', *FIELDS), rule) if fn != 'ibuf_reinit' else None
                    p.need_field(cx.B, 'ibuf', 'slabc', cx.cache, rule)
                    p.need_field(cx.B, 'ibuf', 'start_capacity', cx.start, rule)
    cx = Ctx(ck, 'none', 'ibuf', cfg)
    cache, cap = arg('cache', 'slab_cache'), arg('start', lo=1, hi=BIG)
    r = ck.run(cx.I, 'ibuf_create', [cx.B, cache, cap])
    for p in r.rets:
        for f in FIELDS:
            p.need_field(cx.B, 'ibuf', f, ZERO, 'a new buffer holds nothing')
        p.need_field(cx.B, 'ibuf', 'slabc', cache, 'a new buffer holds nothing')
        p.need_field(cx.B, 'ibuf', 'start_capacity', cap, 'a new buffer holds nothing')


def rule_grow_checked(ck):
    rule_grow(ck, 'asan')


def rule_shrink_checked(ck):
    rule_shrink(ck, 'asan')


def rule_positions_checked(ck):
    rule_positions(ck, 'asan')


prop('I01', 'other', 'containment and data movement on every path of reserve/alloc/shrink (slab cache replaced by its contract)', [rule_grow, rule_shrink, rule_grow_checked, rule_shrink_checked], min_obligations=100)
prop('I02', 'other', 'effects of every position-moving and lifecycle function of the input buffer', [rule_positions, rule_positions_checked], min_obligations=80)
