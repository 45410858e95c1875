"""Rule modules; PROPS maps property id -> spec."""
PROPS = {}


def prop(pid, level, explanation, rules, **kw):
    PROPS[pid] = dict(level=level, explanation=explanation, rules=rules, **kw)


from . import quota, static_buf, lessor, lifo, arena, slabcache, mempool, small, smallclass, region, lsregion, ibuf, obuf, matras, rlist, util, checked, checkedbuf, rbtree, shared  # noqa
