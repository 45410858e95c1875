"""Compile /repo's current sources to LLVM IR (no code of /repo is run)."""
import os, subprocess, sys, tempfile, shutil, atexit
from concurrent.futures import ThreadPoolExecutor
from . import llir

REPO = os.environ.get('SMALL_REPO', '/repo')
CLANG = '/usr/bin/clang'
OPT = '/usr/lib/llvm-18/bin/opt'

SRC = {
    'plain': ['util', 'small_features', 'matras', 'ibuf', 'static', 'slab_arena',
              'slab_cache', 'mempool', 'obuf', 'lsregion', 'region',
              'small_class', 'small'],
    'asan': ['util', 'small_features', 'matras', 'ibuf', 'static',
             'slab_arena_asan', 'slab_cache_asan', 'mempool_asan', 'obuf_asan',
             'lsregion_asan', 'region_asan', 'small_asan'],
}

HDRS = ('quota.h quota_lessor.h lf_lifo.h lifo.h rlist.h slab_arena.h slab_cache.h '
        'slab_list.h mempool.h small.h small_class.h region.h lsregion.h ibuf.h '
        'obuf.h matras.h static.h util.h small_features.h').split()

CONFIG = '''#ifndef TARANTOOL_SMALL_CONFIG_H_INCLUDED
#define TARANTOOL_SMALL_CONFIG_H_INCLUDED
#define TARANTOOL_SMALL_HAVE_MAP_ANON 1
#define TARANTOOL_SMALL_HAVE_MAP_ANONYMOUS 1
#define TARANTOOL_SMALL_HAVE_MADVISE 1
#define TARANTOOL_SMALL_HAVE_MADV_DONTDUMP 1
#define TARANTOOL_SMALL_USE_MADVISE 1
%s
#endif
'''

HDR_TU = '''
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>
#include <unistd.h>
#include <assert.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <pthread.h>
'''


class AnalysisBroken(Exception):
    pass


def scratch():
    d = tempfile.mkdtemp(prefix='smallsa.')
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


def flags(cfg, ndebug, inc):
    # the memory-checking build: poisoning calls are kept as calls
    f = ['-std=gnu99', '-D_GNU_SOURCE', '-DNVALGRIND=1', '-O0', '-g', '-w',
         '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes',
         '-Dinline=__attribute__((used))', '-fno-discard-value-names',
         '-fno-eliminate-unused-debug-types',
         '-I' + inc, '-I%s/include/small' % REPO, '-I%s/third_party' % REPO]
    if ndebug:
        f.append('-DNDEBUG')
    if cfg == 'asan':
        f.append('-DASAN_DEFINE_REGION_MACROS=1')
    return f


NDEBUG = True


def build(cfg='plain', ndebug=None, only=None, extra_tu=None):
    """-> {unit: Module}.  extra_tu: {name: C text} compiled with the same flags"""
    if ndebug is None:
        ndebug = NDEBUG
    d = scratch()
    inc = os.path.join(d, 'inc')
    os.mkdir(inc)
    with open(os.path.join(inc, 'small_config.h'), 'w') as fh:
        fh.write(CONFIG % ('#define ENABLE_ASAN 1' if cfg == 'asan' else ''))
    units = []
    for s in SRC[cfg]:
        if only is None or s in only:
            units.append((s, os.path.join(REPO, 'small', s + '.c')))
    htu = os.path.join(d, 'headers.c')
    with open(htu, 'w') as fh:
        fh.write(HDR_TU + '#include "small_config.h"\n')
        for h in HDRS:
            if os.path.exists(os.path.join(REPO, 'include/small', h)):
                fh.write('#include "%s"\n' % h)
    units.append(('headers', htu))
    for n, txt in (extra_tu or {}).items():
        p = os.path.join(d, n + '.c')
        with open(p, 'w') as fh:
            fh.write(txt)
        units.append((n, p))
    fl = flags(cfg, ndebug, inc)

    def one(u):
        name, path = u
        if not os.path.exists(path):
            raise AnalysisBroken('source file %s is gone' % path)
        a, b = os.path.join(d, name + '.a.ll'), os.path.join(d, name + '.ll')
        r = subprocess.run([CLANG] + fl + ['-S', '-emit-llvm', path, '-o', a],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('cannot compile %s (%s):\n%s' % (path, cfg, r.stderr[-2000:]))
        r = subprocess.run([OPT, '-S', '-passes=sroa,mem2reg', a, '-o', b],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('opt failed on %s: %s' % (path, r.stderr[-2000:]))
        m = llir.Module(b)
        m.unit = name
        os.unlink(a)
        os.unlink(b)
        return name, m
    with ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(one, units))
    return res
