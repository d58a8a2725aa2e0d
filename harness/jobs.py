# The symbolic-execution jobs of every property: harness, container family, build configuration, bounds.
# A job is one translation unit over /repo's headers, explored exhaustively within its bounds.
import os
HERE = os.path.dirname(os.path.abspath(__file__))
NEON = ['-I' + os.path.join(HERE, 'neonstub')]
FOREIGN = ['-I' + os.path.join(HERE, 'foreign'), '-include', os.path.join(HERE, 'foreign', 'foreign.h')]
UB = ['-fsanitize=undefined', '-fsanitize-trap=undefined', '-fno-sanitize=vptr,function,object-size']
# build configurations: standard, defines, extra flags
CFG = {
    'dbg':    ('c++17', ['TPP_DEBUG'], []),                                       # internal assertions on, split buffers, SSE2
    'rel':    ('c++17', ['NDEBUG'], []),                                          # assertions become assumptions, combined buffer, SSE2
    'dbg20':  ('c++20', ['TPP_DEBUG'], []),
    'rel20':  ('c++20', ['NDEBUG'], ['-mssse3']),                                 # SSSE3 empty match
    'port':   ('c++17', ['TPP_DEBUG', 'TPP_NO_SIMD'], []),                        # portable 8 byte blocks
    'portrel': ('c++20', ['NDEBUG', 'TPP_NO_SIMD'], []),
    'neon':   ('c++17', ['TPP_DEBUG', 'TPP_NO_SIMD', 'TPP_HAS_NEON'], NEON),      # NEON code path over a semantic stub of its intrinsics
    # compilers that are neither GNU-like nor (but for the second) x86: see foreign/foreign.h
    'gen':    ('c++17', ['TPP_DEBUG', 'TPP_NO_SIMD', 'VF_FOREIGN=1'], FOREIGN),
    'gensse': ('c++20', ['NDEBUG', 'VF_FOREIGN=2'], FOREIGN),
    'msc':    ('c++17', ['NDEBUG', 'TPP_NO_SIMD', 'VF_FOREIGN=3'], FOREIGN),      # the Visual C++ branches, bit scans restated
    'ub':     ('c++17', ['TPP_DEBUG'], UB),
    'ubrel':  ('c++20', ['NDEBUG'], UB),
}
SW, ST, DE = 1, 2, 3
FN = {SW: 'sparse', ST: 'stable', DE: 'dense'}
SHAPE = dict(EMPTY=0, ONE=1, THREE=2, SEVEN=3, FULL15=4, WRAP31=5, TOMB31=6, BIG63=7, CLEARED=8, TOMB=9, SAT31=10, CHAIN=11, RECL31=12, RECYC=13)
def shapes(s): return ','.join(str(SHAPE[x]) for x in s.split())

def j(src, cfg, tag='', fam=None, ord=None, map=None, hb=16, flags=(), **kw):
    std, defs, fl = CFG[cfg]; d = list(defs); n = src.split('.')[0]
    if fam is not None: d.append('FAM=%d' % fam); n += '_' + FN.get(fam, 'f%d' % fam)
    if ord is not None: d.append('ORD=%d' % ord); n += '_ord' if ord else ''
    if map is not None: d.append('MAP=%d' % map); n += '_map' if map else '_set'
    if hb != 64: d.append('HBITS=%d' % hb)
    opt = {}
    for k, v in kw.items():
        if k in ('time', 'query_ms', 'max_steps', 'internal'): opt[k] = v
        elif k in ('SHAPES', 'SRC', 'DST'): d.append('%s=%s' % (k, shapes(v)))
        elif v is True: d.append(k)
        else: d.append('%s=%s' % (k, v))
    n += ('_' + tag if tag else '') + '_' + cfg
    return dict(name=n, src=src, std=std, defs=d, flags=fl + list(flags), **opt)

def multi(mode, cfg, map, ks=2, tag='', **kw):
    return j('multi.cpp', cfg, ('m%d_k%d' % (mode, ks)) + ('_' + tag if tag else ''), map=map, MODE=mode, KS=ks, **kw)

FM = [(o, m) for o in (0, 1) for m in (0, 1)]
ALLF = [(f, o, m) for f in (SW, ST, DE) for o in (0, 1) for m in (0, 1)]
def rot(seq, cfgs):  # spread configurations over the variants
    return [(x, cfgs[i % len(cfgs)]) for i, x in enumerate(seq)]

# ---------------------------------------------------------------- dictionary behaviour
def dictionary(fam):
    def f(tier):
        big = 'FULL15 WRAP31 TOMB31 SAT31'
        q = [j('dict.cpp', c, 'd2', fam, o, m, SHAPES='EMPTY ONE THREE', DEPTH=2, NS=2, OPS=4) for (o, m), c in rot(FM, ['dbg', 'rel', 'rel20', 'dbg'])]
        q += [j('dict.cpp', c, 'deep1', fam, o, m, SHAPES='SEVEN TOMB CHAIN', DEPTH=2, NS=1, OPS=8) for (o, m), c in rot(FM, ['rel', 'dbg', 'dbg20', 'rel'])]
        q += [j('dict.cpp', 'dbg', 'big', fam, 0, 1, SHAPES=big + ' BIG63', DEPTH=1, NS=1, OPS=8, SYM_FIRST=1), j('dict.cpp', 'rel', 'big', fam, 1, 0, SHAPES=big, DEPTH=1, NS=1, OPS=8)]
        q += [j('dict.cpp', 'dbg', 'hist', fam, 0, 1, SHAPES='EMPTY', DEPTH=4, NS=2 if fam != DE else 1, OPS=4)]
        if fam != DE: q += [j('dict.cpp', c, 'recl', fam, o, m, SHAPES='RECL31', DEPTH=1, NS=1, OPS=4) for o, m, c in ((0, 0, 'rel'), (1, 1, 'dbg'))] + [j('dict.cpp', 'rel', 'recyc', fam, 1, 0, SHAPES='RECYC', DEPTH=1, NS=1, OPS=2)]
        if fam == DE: q += [j('dict.cpp', 'dbg', 'mlf', fam, 0, 0, SHAPES='EMPTY THREE SEVEN', DEPTH=2, NS=1, OPS=8, SYM_MLF=1)]
        if tier == 'thorough':
            q += [j('dict.cpp', c, 'd2ops', fam, o, m, SHAPES='EMPTY ONE THREE', DEPTH=2, NS=2, OPS=8) for (o, m), c in rot(FM, ['dbg', 'rel', 'rel20', 'dbg'])]
            q += [j('dict.cpp', 'dbg', 'big2', fam, 0, 1, SHAPES=big + ' BIG63', DEPTH=2, NS=1, OPS=8), j('dict.cpp', 'rel', 'big2', fam, 1, 0, SHAPES=big, DEPTH=2, NS=1, OPS=8)]
            q += [j('dict.cpp', c, 'seven', fam, o, m, SHAPES='SEVEN TOMB', DEPTH=2, NS=2, OPS=8) for (o, m), c in rot(FM, ['dbg', 'rel'])]
            q += [j('dict.cpp', c, 'h64', fam, o, m, hb=64, SHAPES='EMPTY ONE THREE', DEPTH=2, NS=2, OPS=6) for (o, m), c in rot(FM, ['dbg', 'rel'])]
            q += [j('dict.cpp', c, 'first', fam, o, m, SHAPES='SEVEN SAT31 TOMB31', DEPTH=3, NS=1, OPS=8, SYM_FIRST=1) for (o, m), c in rot(FM, ['rel20', 'dbg'])]
            q += [j('dict.cpp', 'dbg', 'd5', fam, o, 1, SHAPES='EMPTY', DEPTH=5, NS=2, OPS=4) for o in (0, 1)]
            q += [j('dict.cpp', 'dbg', 'n3', fam, o, 0, SHAPES='EMPTY ONE', DEPTH=3, NS=3, OPS=4) for o in (0, 1)]
            if fam != DE: q += [j('dict.cpp', c, 'recl2', fam, o, m, SHAPES='RECL31', DEPTH=2, NS=1, OPS=8, RECL_MIX=12) for (o, m), c in rot(FM, ['rel', 'dbg', 'port'])] + [j('dict.cpp', c, 'reclfirst', fam, o, m, SHAPES='RECL31', DEPTH=1, NS=1, OPS=8, SYM_FIRST=1, RECL_MIX=24) for (o, m), c in rot(FM, ['dbg', 'rel'])] + [j('dict.cpp', c, 'recyc2', fam, o, m, SHAPES='RECYC', DEPTH=2, NS=1, OPS=8) for (o, m), c in rot(FM, ['dbg', 'rel', 'neon'])]
            if fam == DE: q += [j('dict.cpp', 'rel', 'mlf', fam, 1, 1, SHAPES='EMPTY THREE SEVEN FULL15', DEPTH=2, NS=1, OPS=8, SYM_MLF=1)]
        return q
    return f

def c04(tier):
    q = [multi(0, c, m, k, DEPTH=2) for (m, k), c in rot([(0, 2), (1, 2), (0, 3), (1, 3)], ['dbg', 'rel', 'rel20', 'dbg20'])]
    q += [multi(m, c, mp) for (m, mp), c in rot([(1, 1), (2, 0), (3, 1), (4, 0), (6, 1), (8, 0), (10, 1), (10, 0)], ['dbg', 'rel'])]
    q += [multi(5, 'dbg', 1, RN=20), multi(7, 'dbg', 1, NB=2), multi(9, 'rel', 0), multi(11, 'dbg', 1, HETERO=1)]
    if tier == 'thorough':
        q += [multi(0, c, m, 2, tag='d3', DEPTH=3) for m, c in ((0, 'dbg'), (1, 'rel'))] + [multi(7, 'dbg', 0, NB=3), multi(5, 'rel', 0, RN=70)]
        q += [multi(m, c, mp, 3) for (m, mp), c in rot([(1, 0), (2, 1), (3, 0), (4, 1), (6, 0), (8, 1), (9, 1), (10, 0)], ['rel20', 'dbg'])]
    return q

def order(tier):
    q = [j('order.cpp', c, '', f, 1, m, NS=1) for (f, m), c in rot([(f, m) for f in (SW, ST, DE) for m in (0, 1)], ['dbg', 'rel', 'rel20'])]
    q += [j('order.cpp', c, 'recl', f, 1, m, NS=1, SHAPES='RECL31', DEPTH=1) for f, m, c in ((SW, 1, 'dbg'), (ST, 0, 'rel'))]
    if tier == 'thorough':
        q += [j('order.cpp', c, 'ns2', f, 1, m, NS=2) for (f, m), c in rot([(f, m) for f in (SW, ST, DE) for m in (0, 1)], ['dbg', 'rel'])]
        q += [j('order.cpp', c, 'first', f, 1, m, SYM_FIRST=1, SHAPES='THREE SEVEN TOMB SAT31 FULL15') for (f, m), c in rot([(f, m) for f in (SW, ST, DE) for m in (0, 1)], ['rel', 'dbg'])]
        q += [j('order.cpp', 'dbg', 'd3', f, 1, 0, DEPTH=3, NS=1, SHAPES='EMPTY THREE TOMB') for f in (SW, ST, DE)]
    return q

def every(src, cfgs, tier, q=None, t=None, fams=(SW, ST, DE), ords=(0, 1), maps=(0, 1), **kw):
    v = [(f, o, m) for f in fams for o in ords for m in maps]
    r = [j(src, c, '', f, o, m, **dict(kw, **(q or {}))) for (f, o, m), c in rot(v, cfgs)]
    if tier == 'thorough': r += [j(src, c, 'deep', f, o, m, **dict(kw, **(t or {}))) for (f, o, m), c in rot(v, cfgs[1:] + cfgs[:1])]
    return r

def iters(tier):
    q = every('iter.cpp', ['dbg', 'rel', 'port', 'rel20', 'dbg20'], tier, q=dict(NS=1), t=dict(NS=2, SHAPES='EMPTY THREE TOMB SEVEN'))
    q += [j('iter.cpp', 'dbg', 'big', f, o, 1, NS=1, SHAPES='WRAP31 TOMB31 BIG63 SAT31') for f, o in ((SW, 0), (SW, 1), (ST, 0), (DE, 0), (DE, 1))]
    return q

ASAL = dict(USE_SALLOC=1)
def copy(tier):
    q = every('copy.cpp', ['dbg', 'rel', 'rel20', 'dbg'], tier, q=dict(NS=1), t=dict(NS=2))
    q += [j('copy.cpp', 'rel', 'big', f, o, 1, NS=1, SRC='WRAP31 TOMB31', DST='SEVEN TOMB31') for f, o in ((SW, 1), (ST, 0), (DE, 1))]
    q += [multi(1, 'rel', 1, 2)]
    return q
def move(tier):
    q = every('move.cpp', ['rel', 'dbg', 'dbg20', 'rel'], tier, q=dict(NS=1), t=dict(NS=2))
    q += [j('move.cpp', c, 'alloc', f, o, m, NS=1, USE_SALLOC=1, SRC='EMPTY ONE TOMB', DST='ONE CLEARED') for (f, o, m), c in rot([(SW, 0, 1), (SW, 1, 0), (ST, 0, 0), (ST, 1, 1), (DE, 0, 1), (DE, 1, 0)], ['dbg', 'rel'])]
    q += [multi(2, 'rel', 1, 2)]
    return q
def swap(tier):
    q = every('swap.cpp', ['dbg', 'rel', 'rel20'], tier, q=dict(NS=1), t=dict(NS=2))
    q += [multi(3, 'rel', 1, 2)]
    q += [j('functor.cpp', c, 'stateful', f, o, m, RN=8, ONLY_FORM=16) for (f, o, m), c in rot([(SW, 0, 1), (SW, 1, 0), (ST, 0, 0), (ST, 1, 1), (DE, 0, 1), (DE, 1, 0)], ['rel', 'dbg', 'rel20'])]
    return q
def clear(tier):
    q = every('clear.cpp', ['rel', 'dbg', 'rel20', 'dbg20'], tier, q=dict(NS=1), t=dict(NS=2))
    q += [multi(4, 'dbg', 1, 2)]
    if tier == 'thorough': q += [j('clear.cpp', 'dbg', 'big', f, o, 1, NS=1, SRC='WRAP31 TOMB31 SAT31 BIG63', REFILL=20) for f in (SW, ST, DE) for o in (0, 1)]
    return q
def rehash(tier):
    v = [(SW, 0, 1), (SW, 1, 0), (ST, 0, 0), (ST, 1, 1), (DE, 0, 1), (DE, 1, 0)]
    q = [j('rehash.cpp', c, 'tab', f, o, m, NS=1, NMAX=0, FEW=1, SRC='TOMB') for (f, o, m), c in rot(v, ['dbg', 'rel', 'rel20'])]
    q += [j('rehash.cpp', c, 'ctor', f, o, m, NS=1, CTOR=1) for (f, o, m), c in rot(v, ['rel', 'dbg'])]
    q += [j('rehash.cpp', 'dbg', 'mlf', DE, 0, 1, NS=1, NMAX=12, SYM_MLF=1, SRC='TOMB')]
    q += [j('rehash.cpp', c, 'all', f, o, m, NS=1, NMAX=36, SRC='THREE') for (f, o, m), c in rot([(SW, 0, 0), (ST, 0, 1), (DE, 0, 0)], ['rel', 'dbg'])]
    q += [multi(5, 'dbg', 0, RN=12)]
    if tier == 'thorough':
        q += [j('rehash.cpp', c, 'n70', f, o, m, NS=2, NMAX=70, SRC='EMPTY ONE SEVEN TOMB') for (f, o, m), c in rot(v, ['dbg', 'rel'])]
        q += [j('rehash.cpp', c, 'big', f, o, m, NS=1, NMAX=0, SRC='WRAP31 TOMB31 SAT31 BIG63') for (f, o, m), c in rot(v, ['dbg', 'rel'])]
        q += [j('rehash.cpp', c, 'ctor200', f, o, m, NS=1, NMAX=200, CTOR=1) for (f, o, m), c in rot(v, ['dbg', 'rel'])]
        q += [j('rehash.cpp', 'rel', 'mlf70', DE, 1, 0, NS=1, NMAX=70, SYM_MLF=1)]
    return q
def erase(tier):
    q = every('erase.cpp', ['dbg', 'rel', 'rel20', 'dbg20'], tier, q=dict(NS=1, SRC='THREE TOMB'), t=dict(NS=1, SRC='ONE SEVEN CHAIN'))
    q += [j('erase.cpp', 'rel', 'big', f, o, 1, NS=1, SRC=s) for f, o, s in ((SW, 0, 'SEVEN'), (ST, 1, 'SEVEN'), (DE, 0, 'SEVEN CHAIN'), (DE, 1, 'SEVEN'))]
    q += [multi(10, 'rel', 1), multi(10, 'dbg', 0, 3)]
    if tier == 'thorough': q += [j('erase.cpp', c, 'big', f, o, m, NS=1, SRC='FULL15 SAT31') for (f, o, m), c in rot(ALLF, ['rel', 'dbg'])] + [j('erase.cpp', c, 'ns2', f, o, m, NS=2, SRC='ONE TOMB') for (f, o, m), c in rot(ALLF, ['dbg', 'rel'])]
    return q
def addr(tier):
    q = [j('addr.cpp', c, '', ST, o, m, NS=1) for (o, m), c in rot(FM, ['dbg', 'rel', 'rel20'])]
    q += [j('addr.cpp', 'rel', 'two', ST, o, 1, NS=1, STEPS=2, SRC='ONE THREE' if o else 'ONE TOMB') for o in (0, 1)]
    q += [j('addr.cpp', 'dbg', 'big', ST, o, 0, NS=1, SRC=s) for o, s in ((0, 'FULL15'), (1, 'CHAIN'))] + [j('addr.cpp', c, 'recl', ST, o, m, NS=1, SRC='RECL31', OPS=1, RECL_MIX=12) for o, m, c in ((0, 1, 'rel'), (1, 0, 'dbg'))]
    if tier == 'thorough': q += [j('addr.cpp', 'dbg', 'recl2', ST, o, m, NS=1, SRC='RECL31 RECYC', OPS=2, STEPS=2) for o, m in FM] + [j('addr.cpp', 'dbg', 'sat', ST, o, m, NS=1, SRC='SAT31 TOMB31 WRAP31') for o, m in FM] + [j('addr.cpp', 'dbg', 'deep', ST, o, m, NS=2, STEPS=2, SRC='THREE SEVEN TOMB') for o, m in FM]
    return q
def node(tier):
    q = [j('node.cpp', c, '', ST, o, m, NS=1, SRC='EMPTY TOMB' if (o + m) % 2 else 'THREE') for (o, m), c in rot(FM, ['dbg', 'rel', 'rel20', 'dbg'])]
    q += [j('node.cpp', c, 'alloc', ST, o, m, NS=1, USE_SALLOC=1, SRC='EMPTY ONE' if tier != 'thorough' else 'EMPTY THREE TOMB') for (o, m), c in rot(FM, ['dbg', 'rel'])]
    if tier == 'thorough': q += [j('node.cpp', c, 'all', ST, o, m, NS=1) for (o, m), c in rot(FM, ['rel', 'dbg', 'dbg', 'rel20'])] + [j('node.cpp', c, 'ns2', ST, o, m, NS=2) for (o, m), c in rot(FM, ['rel', 'dbg'])] + [j('node.cpp', 'dbg', 'big', ST, o, m, NS=1, SRC='FULL15 SAT31 CHAIN') for o, m in FM]
    return q
def merge(tier):
    q = [j('merge.cpp', c, '', ST, o, m, NS=1, SRC='EMPTY ONE') for (o, m), c in rot(FM, ['dbg', 'rel', 'rel20', 'dbg'])]
    q += [j('merge.cpp', c, 'otherhash', ST, o, m, NS=1, OTHER_HASH=1, SRC='ONE') for (o, m), c in rot([(0, 0), (1, 1)], ['rel', 'dbg'])]
    if tier == 'thorough': q += [j('merge.cpp', c, 'all', ST, o, m, NS=1) for (o, m), c in rot(FM, ['rel', 'dbg', 'dbg', 'rel20'])] + [j('merge.cpp', c, 'ns2', ST, o, m, NS=2) for (o, m), c in rot(FM, ['rel', 'dbg'])] + [j('merge.cpp', c, 'otherhash2', ST, o, m, NS=2, OTHER_HASH=1, SRC='EMPTY THREE') for (o, m), c in rot(FM, ['rel', 'dbg'])]
    return q
def life(tier):
    q = every('life.cpp', ['dbg', 'rel', 'rel20', 'dbg'], tier, q=dict(NS=1, SHAPES='TOMB'), t=dict(NS=2, DEPTH=2))
    q += [j('life.cpp', c, 'recl', f, o, 1, NS=1, DEPTH=1, OPS=4, SHAPES='RECL31') for f, o, c in ((SW, 0, 'dbg'), (ST, 1, 'rel'))]
    if tier == 'thorough': q += [j('life.cpp', 'dbg', 'd3', f, o, m, NS=1, DEPTH=3, SHAPES='EMPTY THREE') for f, o, m in ALLF]
    return q
PROP = dict(POCCA=1, POCMA=1, SOCCC=1)
def alloc(tier):
    v = [(SW, 0, 1), (SW, 1, 0), (ST, 0, 0), (ST, 1, 1), (DE, 0, 1), (DE, 1, 0)]
    sm = dict(NS=1, SRC='TOMB', DST='ONE')
    q = [j('alloc.cpp', c, 'fixed', f, o, m, **sm) for (f, o, m), c in rot(v, ['dbg', 'rel'])]
    q += [j('alloc.cpp', c, 'prop', f, o, m, ONLY='0,4,5', **sm, **PROP) for (f, o, m), c in rot(v, ['rel', 'dbg'])]
    q += [j('alloc.cpp', c, 'swap', f, o, m, POCS=1, ONLY='6', **sm) for (f, o, m), c in rot(v, ['rel20', 'dbg'])]
    if tier == 'thorough':
        for n, p in (('fixed', {}), ('prop', PROP), ('swap', dict(POCS=1)), ('all', dict(POCS=1, **PROP))):
            q += [j('alloc.cpp', c, n + '_deep', f, o, m, NS=1, **p) for (f, o, m), c in rot([(f, 1 - o, m) for f, o, m in v], ['dbg', 'rel'])]
    return q
def exc(tier):
    q = []
    for (f, o, m), c in rot(ALLF, ['dbg', 'rel', 'rel20']): q.append(j('except.cpp', c, '', f, o, m, NS=1, SRC='TOMB'))
    q += [j('except.cpp', c, 'grow0', f, o, m, NS=1, SRC='EMPTY SEVEN', FORMS=9) for (f, o, m), c in rot(ALLF, ['rel', 'dbg'])]
    if tier == 'thorough':
        q += [j('except.cpp', c, 'all', f, o, m, NS=1) for (f, o, m), c in rot(ALLF, ['rel', 'dbg'])]
        q += [j('except.cpp', c, 'grow', f, o, m, NS=1, SRC='FULL15 SAT31 CHAIN', FORMS=11) for (f, o, m), c in rot(ALLF, ['dbg', 'rel'])]
        q += [j('except.cpp', c, 'ns2', f, o, m, NS=2, SRC='EMPTY ONE') for (f, o, m), c in rot(ALLF, ['rel', 'dbg'])]
    return q
def mapins(tier):
    q = [j('mapins.cpp', c, '', f, o, NS=1) for (f, o), c in rot([(f, o) for f in (SW, ST, DE) for o in (0, 1)], ['dbg', 'rel', 'rel20'])]
    q += [j('mapins.cpp', 'dbg', 'big', f, 0, NS=1, SHAPES='FULL15 SAT31 CHAIN') for f in (SW, ST, DE)]
    if tier == 'thorough': q += [j('mapins.cpp', c, 'all', f, o, NS=2, SHAPES='ONE THREE SEVEN FULL15 WRAP31 SAT31 CHAIN CLEARED') for (f, o), c in rot([(f, o) for f in (SW, ST, DE) for o in (0, 1)], ['rel', 'dbg'])]
    return q
def access(tier):
    q = [j('access.cpp', c, '', f, o, NS=1) for (f, o), c in rot([(f, o) for f in (SW, ST, DE) for o in (0, 1)], ['rel', 'dbg', 'rel20'])]
    q += [j('access.cpp', c, 'two', f, o, NS=2, SHAPES='ONE') for (f, o), c in rot([(SW, 0), (ST, 1), (DE, 0)], ['dbg', 'rel'])]
    q += [j('access.cpp', 'dbg', 'big', f, 0, NS=1, SHAPES='FULL15 SAT31 CHAIN') for f in (SW, ST, DE)]
    if tier == 'thorough': q += [j('access.cpp', c, 'all', f, o, NS=2, SHAPES='THREE FULL15 WRAP31 SAT31 CHAIN') for (f, o), c in rot([(f, o) for f in (SW, ST, DE) for o in (0, 1)], ['dbg', 'rel'])]
    return q
def hetero(tier):
    q = every('hetero.cpp', ['dbg', 'rel', 'rel20'], tier, q=dict(NS=1), t=dict(NS=2))
    q += [multi(11, c, m, k, HETERO=1) for (m, k), c in rot([(0, 2), (1, 3)], ['rel20', 'dbg'])]
    return q
def kernels(tier):
    q = [j('kernels.cpp', c, hb=64, internal=1) for c in ('dbg', 'rel', 'dbg20', 'rel20', 'port', 'portrel', 'neon', 'gen', 'gensse', 'msc')]
    q += [j('bits.cpp', c, hb=64, internal=1) for c in ('dbg', 'gen', 'msc')]
    q += [j('dict.cpp', c, 'same', f, 0, 1, SHAPES='SEVEN TOMB' if f == SW else 'EMPTY CHAIN', DEPTH=2, NS=1, OPS=8) for f in (SW, ST) for c in ('dbg', 'rel20', 'port', 'neon')]
    q += [j('dict.cpp', c, 'same', f, 0, 0, SHAPES='WRAP31 SAT31' if c == 'portrel' else 'WRAP31 TOMB31 SAT31', DEPTH=1, NS=1, OPS=8) for f in (SW, ST) for c in ('portrel', 'rel20', 'neon')]
    q += [j('iter.cpp', c, 'same', SW, 0, 1, NS=1) for c in ('port', 'neon', 'rel20')] + [j('churn.cpp', c, 'same', SW, 0, 0, NS=1, ROUNDS=30) for c in ('port', 'neon')]
    q += [j('dict.cpp', c, 'foreign', f, 0, 1, SHAPES='ONE SEVEN WRAP31', DEPTH=1, NS=1, OPS=8) for c, f in (('gen', SW), ('gensse', ST), ('msc', SW))]
    q += [j('dict.cpp', 'port', 'recl', SW, 0, 1, SHAPES='RECL31', DEPTH=1, NS=1, OPS=1)]
    if tier == 'thorough':
        q += [j('dict.cpp', c, 'ns2', f, o, 1, SHAPES='EMPTY THREE TOMB', DEPTH=2, NS=2, OPS=6) for f in (SW, ST) for o in (0, 1) for c in ('port', 'neon', 'rel20')]
        q += [j('rehash.cpp', c, 'same', f, 0, 1, NS=1, NMAX=0) for f in (SW, ST) for c in ('port', 'neon')]
        q += [j('dict.cpp', c, 'recl', f, 0, 1, SHAPES='RECL31 RECYC', DEPTH=1, NS=1, OPS=4) for f in (SW, ST) for c in ('port', 'neon', 'portrel')]
    return q
def equal(tier):
    q = every('equal.cpp', ['dbg', 'rel', 'rel20'], tier, q=dict(NS=1), t=dict(NS=2))
    q += [multi(7, 'rel20', 0, NB=2)]
    return q
def churn(tier):
    q = []
    for (f, o, m, p), c in rot([(f, o, m, p) for p in (0, 1, 2) for f in (SW, ST, DE) for (o, m) in ((0, 0), (1, 1))], ['dbg', 'rel', 'rel20', 'dbg20']):
        q.append(j('churn.cpp', c, 'p%d' % p, f, o, m, NS=1, PATTERN=p, ROUNDS=60, LIVE=(6, 12, 26)[(p + f) % 3], **(dict(FORM_ITER=1) if (p + o) % 2 else {})))
    if tier == 'thorough':
        q += [j('churn.cpp', c, 'long%d_%d' % (p, l), f, 0, 0, NS=1, PATTERN=p, ROUNDS=300, LIVE=l, SYM_EVERY=40) for (f, p, l), c in rot([(f, p, l) for f in (SW, ST, DE) for p in (0, 1, 2) for l in (6, 13, 27, 40)], ['dbg', 'rel', 'port'])]
    return q
def hint(tier): return every('hint.cpp', ['dbg', 'rel', 'rel20', 'dbg20'], tier, q=dict(NS=1), t=dict(NS=2))
def bulk(tier):
    q = every('bulk.cpp', ['rel', 'dbg', 'rel20', 'dbg20'], tier, q=dict(NS=1), t=dict(NS=2, LEN=4, SHAPES='EMPTY SEVEN TOMB FULL15'))
    q += [multi(9, 'dbg', 1)]
    return q
def alias(tier):
    q = every('alias.cpp', ['dbg', 'rel', 'rel20'], tier, q=dict(NS=1), t=dict(NS=2))
    return q
def bucket(tier):
    q = [j('bucket.cpp', c, '', DE, o, m) for (o, m), c in rot(FM, ['dbg', 'rel', 'rel20', 'dbg20'])] + [j('bucket.cpp', 'dbg', 'mlf', DE, 0, 1, SYM_MLF=1, NS=1)]
    q += [multi(8, c, m, k) for (m, k), c in rot([(0, 2), (1, 3)], ['rel', 'dbg20'])]
    if tier == 'thorough': q += [j('bucket.cpp', c, 'big', DE, o, m, SHAPES='FULL15 WRAP31 TOMB31 SAT31', NS=1) for (o, m), c in rot(FM, ['rel', 'dbg'])]
    return q
def proxy(tier):
    q = []
    for std in ('c++17', 'c++20'):
        for f in (1, 3, 4):
            for o in ((0, 1) if f != 4 else (0,)):
                for less in (0, 1):
                    d = ['TPP_DEBUG', 'FAM=%d' % f, 'ORD=%d' % o] + (['ONLY_LESS'] if less else [])
                    q.append(dict(name='proxy_f%d_o%d_l%d_%s' % (f, o, less, std[3:]), src='proxy.cpp', std=std, defs=d, flags=[]))
    return q
def safety(tier):
    q = [j('dict.cpp', c, 'ub', f, o, m, SHAPES='EMPTY TOMB SAT31' if (o + m) % 2 else 'THREE CHAIN', DEPTH=2, NS=1, OPS=8) for (f, o, m), c in rot(ALLF, ['ub', 'ubrel'])]
    q += [j('life.cpp', c, 'ub', f, o, m, NS=1, DEPTH=1) for (f, o, m), c in rot(ALLF, ['ubrel', 'ub', 'ub'])]
    q += [j('rehash.cpp', 'ub', 'ub', f, 0, 1, NS=1, NMAX=36, SRC='ONE') for f in (SW, ST, DE)]
    q += [j('node.cpp', 'ubrel', 'ub', ST, 1, 1, NS=1, SRC='EMPTY THREE'), j('copy.cpp', 'ubrel', 'ub', SW, 1, 1, NS=1), j('copy.cpp', 'ub', 'ub', DE, 0, 1, NS=1), j('erase.cpp', 'ubrel', 'ub', DE, 1, 0, NS=1, SRC='THREE'), j('erase.cpp', 'ub', 'ub', SW, 0, 0, NS=1, SRC='TOMB')]
    q += [multi(0, 'ub', 1, 2, tag='ub', DEPTH=2), multi(8, 'ubrel', 0, 2, tag='ub')]
    q += [j('iterlaw.cpp', 'ubrel', 'ub', f, o, 1, NS=1) for f, o in ((SW, 0), (SW, 1), (DE, 0), (DE, 1))]
    if tier == 'thorough':
        q += [j('dict.cpp', c, 'ubdeep', f, o, m, SHAPES='SEVEN FULL15 WRAP31 BIG63', DEPTH=2, NS=1, OPS=8) for (f, o, m), c in rot(ALLF, ['ubrel', 'ub'])]
        q += [j('life.cpp', c, 'ubdeep', f, o, m, NS=1, DEPTH=2) for (f, o, m), c in rot(ALLF, ['ub', 'ubrel'])]
        q += [j('move.cpp', 'ub', 'ub', f, o, 1, NS=1) for f in (SW, ST, DE) for o in (0, 1)] + [j('hint.cpp', 'ub', 'ub', f, o, 1, NS=1) for f in (SW, ST, DE) for o in (0, 1)]
    return q
def functor(tier):
    v = [(SW, 0, 1), (SW, 1, 0), (ST, 0, 0), (ST, 1, 1), (DE, 0, 1), (DE, 1, 0)]
    sm = {} if tier == 'thorough' else dict(RN=8)
    q = [j('functor.cpp', c, '', f, o, m, **sm) for (f, o, m), c in rot(v, ['dbg', 'rel', 'rel20'])]
    q += [j('functor.cpp', c, 'samefn', f, o, m, SAMEFN=1, **sm) for (f, o, m), c in rot([(SW, 0, 0), (ST, 1, 0), (DE, 0, 0)], ['rel', 'dbg20'])]
    q += [j('functor.cpp', c, '', 4, None, m, **sm) for m, c in ((0, 'dbg'), (1, 'rel'))]
    if tier == 'thorough': q += [j('functor.cpp', c, 'symf2', f, 1 - o, m, SYMF=2) for (f, o, m), c in rot(v, ['rel', 'dbg'])]
    return q
def eraseif(tier):
    q = every('eraseif.cpp', ['dbg', 'rel', 'rel20'], tier, q=dict(NS=1), t=dict(NS=2, SHAPES='EMPTY SEVEN TOMB FULL15'))
    q += [multi(6, 'rel', 0), multi(6, 'dbg', 1, 3)]
    return q
def iterlaw(tier):
    q = every('iterlaw.cpp', ['dbg', 'rel', 'rel20', 'dbg20'], tier, q=dict(NS=1), t=dict(NS=1, SHAPES='FULL15 SAT31 CHAIN'))
    return q

B = 'Hash values of the NS symbolic keys are arbitrary %d-bit numbers (HBITS) except in h64 jobs (64 bit); keys with fixed hashes fill the starting layouts named by SHAPES / SRC / DST (empty, 1, 3, 7, 14, 28, 36 elements; shared tags, one probe chain, wrap-around, deleted slots, saturated, cleared). DEPTH / STEPS bound the number of symbolic operations after the layout. Per-job parameters are in coverage.jobs.' % 16
OUTSIDE = 'More symbolic keys, longer symbolic histories, tables above about 128 buckets, hash bits above HBITS, element types other than the instrumented ones, custom pointer types; thread interleavings (containers are not synchronised).'
ASSUME = ['clang 18 -O1 translates the headers to LLVM IR correctly; the executor (engine/) implements that IR and z3 is sound. Sampled paths are re-run natively on every run and every counterexample is replayed natively before it is reported.',
          'operator new succeeds (failures are injected through the allocator in C18); hash and comparison functors are deterministic and consistent.']

def P(f, **kw): return dict(jobs=f, bounds=kw.pop('bounds', B), **kw)
PROPS = {
    'C01': P(dictionary(SW), covers=['end', 'large']), 'C02': P(dictionary(ST), covers=['end', 'large']), 'C03': P(dictionary(DE), covers=['end', 'large']),
    'C04': P(c04), 'C05': P(order, covers=['end']), 'C06': P(iters, covers=['end']), 'C07': P(copy, covers=['end']), 'C08': P(move, covers=['end']), 'C09': P(swap, covers=['end']),
    'C10': P(clear, covers=['end']), 'C11': P(rehash, covers=['end']), 'C12': P(erase, covers=['end']), 'C13': P(addr, covers=['end']), 'C14': P(node, covers=['end']), 'C15': P(merge, covers=['end']),
    'C16': P(life, covers=['end']), 'C17': P(alloc, covers=['end']), 'C18': P(exc, covers=['end'], assume=['Moving an element does not throw (elements whose move constructor may throw are outside).']),
    'C19': P(mapins, covers=['end']), 'C20': P(access, covers=['end']), 'C21': P(hetero, covers=['end']), 'C22': P(kernels, covers=['end'], bounds='Control block operations: all 2^128 / 2^64 blocks of valid control bytes, all tags. Container jobs: ' + B, assume=['The NEON code path runs over harness/neonstub/arm_neon.h, which restates the ACLE semantics of the intrinsics used; the generic (no-intrinsics) and Visual C++ branches are selected on this host by harness/foreign/, with _BitScanForward/_BitScanReverse restated there.']),
    'C23': P(equal, covers=['end']), 'C24': P(churn, covers=['end'], bounds='Churn of 60 (thorough 300) rounds with 6, 12, 26 (40) live elements, three hash patterns, one key with symbolic hash joining and leaving every SYM_EVERY rounds; every path is run to its end under a step limit of 3 million instructions. ' + B),
    'C25': P(hint, covers=['end']), 'C26': P(bulk, covers=['end']), 'C27': P(alias, covers=['end']), 'C28': P(bucket, covers=['end']), 'C29': P(proxy, covers=['end'], bounds='All 32-bit keys and values of two elements.'),
    'C30': P(safety, covers=['end'], assume=['Undefined behaviour is what -fsanitize=undefined traps plus what the executor detects itself: out-of-bounds and use-after-free accesses, branches on uninitialised values, reached unreachable.']),
    'C31': P(functor, covers=['end']), 'C32': P(eraseif, covers=['end']), 'C33': P(iterlaw, covers=['end']),
}
