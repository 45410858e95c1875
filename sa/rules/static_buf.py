from . import prop
from ..contract import *
from ..models import bundle

SIZE = None


def setup(ck, cfg):
    I = ck.interp(cfg, unit='headers')
    pos, buf = I.glob('static_storage_pos'), I.glob('static_storage_buffer')
    m = mods(cfg)
    size = None
    for u in m.values():
        g = u.globals.get('static_storage_buffer')
        if g and g['ty'] is not None:
            size = u.sizeof(g['ty'])
            if not g['tls']:
                ck.fail('thread-local storage', cfg, 'static_storage_buffer', 'small/static.c', 'buffer is shared between threads')
            else:
                ck.ok('thread-local storage')
        g = u.globals.get('static_storage_pos')
        if g and not g['tls']:
            ck.fail('thread-local storage', cfg, 'static_storage_pos', 'small/static.c', 'position is shared between threads')
        elif g:
            ck.ok('thread-local storage')
    if size is None:
        raise Broken('anchor missing: static_storage_buffer')
    return I, pos, buf, size


def pre(pos, size):
    def f(I, st):
        p0 = I.entry(pos, 8)
        st.facts.add_ge(C(size) - p0)
    return f


def check_static(ck):
    for cfg in ('plain',):
        I, pos, buf, N = setup(ck, cfg)
        n = arg('size')
        al = arg('alignment', lo=1, hi=1 << 20)
        def pre2(I, st):
            pre(pos, N)(I, st)
            st.ghost[('pow2', next(iter(al.syms())))] = True
        for fn, args, aligned, alloc in (('static_reserve', [n], False, False),
                                         ('static_alloc', [n], False, True),
                                         ('static_aligned_reserve', [n, al], True, False),
                                         ('static_aligned_alloc', [n, al], True, True)):
            r = ck.run(I, fn, args, pre=pre2)
            r.count('paths', len(r.rets), 2)
            p0 = I.entry(pos, 8)
            for p in r.rets:
                p1 = I.rd(p.st, pos, 8)
                p.need_ge(C(N), p1, 'position stays inside the buffer', 'new position')
                p.frame(lambda a: (a - pos).is_const() and (a - pos).c == 0, 'only the position is written')
                if p.is0(p.ret):
                    # refused: only when the request cannot fit at all
                    req = n + al - 1 if aligned else n
                    p.need_ge(req, C(N + 1), 'refuses only what cannot fit', 'request')
                    p.need_eq(p1, p0, 'a refused request changes nothing', 'position')
                    continue
                off = p.n(p.ret) - buf
                p.need_ge(off, 0, 'result lies inside the buffer', 'result')
                p.need_ge(C(N), off + n, 'size bytes fit behind the result', 'end of result')
                p.need_ge(C(N), n, 'an oversized request yields NULL', 'granted size')
                if alloc:
                    p.need_eq(p1, off + n, 'position advances past the allocation', 'position')
                else:
                    p.need(p.same(p1, p0) or p.is0(p1), 'reserve keeps or rewinds the position',
                           lambda: 'position %r' % (p1,))
                    if not aligned:
                        p.need_eq(off, p1, 'reserved bytes start at the position', 'result')
                    else:
                        p.need_ge(off, p1, 'reserved bytes start at or after the position', 'result')
                if aligned:
                    p.need(I.aligned_to(p.st, p.n(p.ret), p.n(al)), 'result is aligned as requested',
                           lambda: 'result %r' % (p.ret,))
                # rewinding is only done when the tail is too short
                start = off
                if not aligned and p.is0(off):
                    pass
                elif not aligned:
                    p.need_eq(off, p0, 'bytes continue at the old position', 'result')
        r = ck.run(I, 'static_reset', [], pre=pre2)
        for p in r.rets:
            p.need_eq(I.rd(p.st, pos, 8), ZERO, 'reset rewinds to the start', 'position')


prop('B01', 'other', 'abstract interpretation of every path of the static buffer API; '
     'bounds of the result and of the position proved for every size, alignment and position',
     [check_static], min_obligations=30)
