from . import prop
from ..contract import *
from .. import models

K = 65536


def setup(ck, head):
    I = ck.interp('plain', unit='headers')
    I.volatile_addr = lambda st, a: (st.n(a) - head).is_const() and 0 <= (st.n(a) - head).c < 8

    def shared(I, st, addr, size):
        if size != 8:
            return None
        T = fresh('top', 0, PTR_MAX - 1 - models.BIG, True)
        cnt = S(fresh('aba', 0, K - 1))
        st.ghost[('align', T.id)] = C(K)
        v = S(T) + cnt
        st.ghost[('obs', v)] = (S(T), cnt)
        return v
    I.shared_hook = shared
    return I


def obs_parts(I, st, v):
    v = st.n(v)
    for k, x in st.ghost.items():
        if isinstance(k, tuple) and k[0] == 'obs' and st.n(k[1]) == v:
            return st.n(x[0]), st.n(x[1])
    return None


def check_lifo(ck):
    head = arg('head', 'lf_lifo')
    el = arg('elem', ptr=True)
    eid = next(iter(el.syms()))

    def pre(I, st):
        st.ghost[('align', eid)] = C(K)
        st.facts.add_ne(el - head)

    # ---- push
    I = setup(ck, head)
    rec = {}

    def on_cas(I, st, addr, old, new, ins):
        st.ghost[('cas',)] = (I.rd(st, el, 8), old, new)
    I.on_cas = on_cas
    r = ck.run(I, 'lf_lifo_push', [head, el], pre=pre)
    for p in r.rets:
        cs = p.evs('cas', 'rmw')
        p.need(not p.evs('astore'), 'the stack top is only replaced atomically', 'plain store to the top')
        if not p.need(len(cs) == 1 and cs[0].kind == 'cas', 'one atomic replacement per operation', lambda: '%d' % len(cs)):
            continue
        e = cs[0]
        link, old, new = p.n(p.st.ghost[('cas',)])
        ob = obs_parts(I, p.st, old)
        if not p.need(ob is not None, 'the comparison uses one observation of the top', lambda: 'compares with %r' % (old,), e):
            continue
        T, c = ob
        p.need_eq(I.aligndown(p.st, p.n(link), C(K), 64), T, 'the pushed element links to the observed top before it is published',
                  'link', ev=e)
        d = p.n(new) - el
        p.need_eq(d, I.urem(p.st, c + 1, C(K), 64), 'each push advances the reuse counter by one', 'counter', ev=e)
        p.need(p.st.facts.ge0(d) and p.st.facts.ge0(C(K - 1) - d), 'the new top is the pushed element', lambda: 'top %r' % (new,), e)
        p.need_eq(p.ret, head, 'returns the stack', 'result')
        p.frame(lambda a: (p.n(a) - el).is_const() or (p.n(a) - head).is_const(), 'writes only the link and the top')
    r.count('push', len(r.rets))
    # ---- pop
    I = setup(ck, head)
    I.elem_reads = []
    r = ck.run(I, 'lf_lifo_pop', [head])
    n = 0
    for p in r.rets:
        cs = p.evs('cas', 'rmw')
        p.need(not p.evs('astore'), 'the stack top is only replaced atomically', 'plain store to the top')
        if p.is0(p.ret):
            last = [e for e in p.evs('aload', 'casfail')]
            ob = None
            for k, o in p.st.ghost.items():
                if isinstance(k, tuple) and k[0] == 'obs' and p.is0(o[0]):
                    ob = o
            p.need(not cs, 'an empty stack is left alone', 'top replaced, then NULL returned')
            p.need(ob is not None, 'NULL only when the observed stack is empty', 'no observation with an empty top')
            continue
        n += 1
        if not p.need(len(cs) == 1 and cs[0].kind == 'cas', 'one atomic replacement per operation', lambda: '%d' % len(cs)):
            continue
        e = cs[0]
        old, new = p.n(e.a[1]), p.n(e.a[2])
        ob = obs_parts(I, p.st, old)
        if not p.need(ob is not None, 'the comparison uses one observation of the top', lambda: 'compares with %r' % (old,), e):
            continue
        T, c = ob
        p.need_eq(p.ret, T, 'returns the observed top', 'result')
        link = I.rd(p.st, T, 8)
        nt = I.aligndown(p.st, p.n(link), C(K), 64)
        d = p.n(new) - p.n(nt)
        c = p.n(c)
        p.need(p.same(d, c) or p.same(d, I.urem(p.st, c + 1, C(K), 64)),
               'the new top is the link of the popped element, with the reuse counter kept',
               lambda: 'top %r, link %r' % (new, link), e)
        p.need(p.differ(T, ZERO), 'never returns an element that is not there', 'result may be NULL element')
    r.count('pop', n)
    # ---- is_empty
    I = setup(ck, head)
    r = ck.run(I, 'lf_lifo_is_empty', [head])
    for p in r.rets:
        obs = [obs_parts(I, p.st, e.a[1]) for e in p.evs('aload')]
        if not p.need(len(obs) == 1 and obs[0] is not None, 'emptiness is judged on one observation', ''):
            continue
        T, c = obs[0]
        ret = p.ret if isinstance(p.ret, Lin) else None
        if ret is None:
            a = I.decide(p.st, p.n(p.ret))
            for s in I.assume(p.st.copy(), p.n(p.ret)):
                p.need(s.facts.zero(s.n(T)), 'empty is reported only without elements', lambda: 'result %r' % (p.ret,))
            for s in I.assume(p.st.copy(), p.n(p.ret).neg()):
                p.need(s.facts.nonzero(s.n(T)), 'a stack without elements is reported empty, whatever the counter',
                       lambda: 'result %r' % (p.ret,))
    r.count('is_empty', len(r.rets))
    I = ck.interp('plain', unit='headers')
    r = ck.run(I, 'lf_lifo_init', [head])
    for p in r.rets:
        p.need_eq(I.rd(p.st, head, 8), ZERO, 'a new stack is empty', 'top')


prop('L01', 'other', 'transition check of the lock-free stack: every read of the top yields an arbitrary '
     '(element, counter) pair; the successful compare-and-swap is checked against the observation it depends on',
     [check_lifo], min_obligations=12)
