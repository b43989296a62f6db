"""Workloads: what the library is run on to decide each property.

A workload is a function (run factory, generator) -> Run.  It only chooses
calls; outcomes are judged by TLC against spec/Library.tla.
"""
from __future__ import annotations

import functools
import itertools
import json
import math
import operator
import os
import random
from fractions import Fraction

import rene.exact as ex
from rene.enums import Relation
from bind import (Embedding, N, Run, Stop, X, affine_embedding,
                  colliding_embedding, similarity_embedding)
from geo import (Gen, assemble, drop_collinear, in_ring, orient, remap,
                 ring_edges, simple_ring)

SIZES = [2, 3, 3, 4, 4, 5, 6, 6, 8, 10, 16]


_current = None


def current():
    """The run being recorded."""
    return _current


def start(emb):
    global _current
    _current = Run(emb)
    return _current


class Env:
    """Randomness, sizes and the embedding of one session."""

    def __init__(self, rng, embed=.3, sizes=SIZES, kind='affine'):
        self.rng = rng
        self.n = rng.choice(sizes)
        self.g = Gen(rng, self.n)
        if rng.random() >= embed:
            e = Embedding()
        elif kind == 'affine':
            e = affine_embedding(rng)
        elif kind == 'oriented':
            e = affine_embedding(rng, orientation=True)
        elif kind == 'diagonal':
            e = affine_embedding(rng, diagonal=True)
        else:
            e = similarity_embedding(rng)
        self.run = start(e)

    def shaped(self):
        return self.g.any('PPQ')

    def linear(self):
        return self.g.any('SMMCC')


def big_ring(e, lo=10, hi=24):
    g = Gen(e.rng, 16)
    return g.ring(lo, hi)


def far(e, dims):
    """Operands that may be near each other in some parts only."""
    g = Gen(e.rng, 16)
    if e.rng.random() < .75:
        a, b = g.spread(dims)
    else:
        a, = g.spread(dims[:1])
        b = g.any('SMC' if dims[1] == 1 else 'PQ')
    if e.rng.random() < .3:
        b = g.abut(a, b)
    return a, b


def crowd(r, p=.1):
    """A generator of values with many parts."""
    g = Gen(r, 16)
    g.huge = r.random() < p
    return g


def shaped_pair(e):
    r, g = e.rng, e.g
    k = r.random()
    if k < .03:
        return tuple(crowd(r).large((2, 2)))
    if k < .05:
        g = Gen(r, 16)
        a = ('P', (big_ring(e),)) if r.random() < .6 else g.mpoly()
        b = ('P', (big_ring(e),)) if r.random() < .6 else g.poly()
        return a, b
    if k < .14:
        return far(e, (2, 2))
    a = e.shaped()
    if k < .5:
        return a, g.related(a, (2,))
    if k < .53:
        return a, ('E', ())
    if k < .56:
        return ('E', ()), a
    return a, e.shaped()


def linear_pair(e):
    r, g = e.rng, e.g
    k = r.random()
    if k < .03:
        return tuple(crowd(r).large((1, 1)))
    if k < .06:
        g = Gen(r, r.choice([8, 16]))
        return g.mseg(6, 16), g.mseg(6, 16)
    if k < .16:
        return far(e, (1, 1))
    if k < .22 and k >= .19:
        ab = Gen(r, r.choice([4, 8, 16])).covered()
        if ab:
            return ab if r.random() < .6 else ab[::-1]
    if k < .19:
        p = g.pencil()
        a, b = g.to_mseg(p), ('S', p[-1])
        if a is not None and r.random() < .5:
            a = ('S', r.choice(p))
            b = g.to_mseg(p[1:])
        if a is not None and b is not None:
            return a, b
    a = e.linear()
    if k < .6:
        return a, g.related(a, (1,))
    if k < .63:
        return a, ('E', ())
    if k < .66:
        return ('E', ()), a
    return a, e.linear()


def mixed_pair(e):
    """(linear, shaped)"""
    r, g = e.rng, e.g
    k = r.random()
    if k < .03:
        return tuple(crowd(r).large((1, 2)))
    if k < .06:
        g = Gen(r, 16)
        return (g.mseg(4, 12), ('P', (big_ring(e),))
                if r.random() < .5 else g.mpoly())
    if k < .2:
        if r.random() < .5:
            return far(e, (1, 2))
        b, a = far(e, (2, 1))
        return a, b
    if k < .5:
        b = e.shaped()
        return g.related(b, (1,)), b
    if k < .75:
        a = e.linear()
        return a, g.related(a, (2,))
    return e.linear(), e.shaped()


def large(e, kinds):
    """One value with many parts; the environment becomes as large."""
    r = e.rng
    e.n = 16
    e.g = g = crowd(r, .05)
    k = r.choice(kinds)
    if k == 'S':
        return ('P', (big_ring(e),))
    return (g.large_shaped(kinds=k) if k in 'PQ'
            else g.large_linear(kinds=k))


def put(run, *gs):
    return [run.new(g) for g in gs]


# -- C01, C02, C03: Boolean operations

def ops_shaped(rng):
    e = Env(rng)
    a, b = shaped_pair(e)
    x, y = put(e.run, a, b)
    ids = e.run.pair(x, y, rel=False)
    if rng.random() < .35:
        e.run.pair(y, x, rel=False, ops=rng.sample(
            ['and', 'or', 'sub', 'xor'], 2))
    if rng.random() < .15:
        z, = put(e.run, e.g.related(a, (2,)))
        e.run.pair(rng.choice(list(ids.values())), z, rel=False)
    return e.run


def ops_linear(rng):
    e = Env(rng)
    a, b = linear_pair(e)
    x, y = put(e.run, a, b)
    ids = e.run.pair(x, y, rel=False)
    if rng.random() < .35:
        e.run.pair(y, x, rel=False)
    if rng.random() < .2:
        z, = put(e.run, e.g.related(a, (1,)))
        e.run.pair(rng.choice(list(ids.values())), z, rel=False)
    return e.run


def ops_mixed(rng):
    e = Env(rng)
    a, b = mixed_pair(e)
    x, y = put(e.run, a, b)
    ids = e.run.pair(x, y, rel=False, ops=('and', 'sub'))
    e.run.pair(y, x, rel=False, ops=('and',))
    if rng.random() < .2:
        z, = put(e.run, e.g.related(b, (2,)))
        i = ids[rng.choice(['and', 'sub'])]
        if e.run.objects[i - 1] is not None:
            e.run.pair(i, z, rel=False, ops=('and', 'sub'))
    return e.run


# -- C04: results are valid values of the library

def closure(rng):
    e = Env(rng)
    k = rng.random()
    if k < .5:
        a, b = shaped_pair(e)
        ops = ('and', 'or', 'sub', 'xor')
    elif k < .8:
        a, b = linear_pair(e)
        ops = ('and', 'or', 'sub', 'xor')
    else:
        a, b = mixed_pair(e)
        ops = ('and', 'sub') if a[0] != 'S' else ('and',)
    x, y = put(e.run, a, b)
    ids = list(e.run.pair(x, y, ops=ops, rel=False).values())
    for i in ids:
        e.run.is_valid(i)
    if rng.random() < .5:
        e.run.usable(*ids)
        z, = put(e.run, e.g.related(a if k < .8 else b,
                                    (1,) if .5 <= k < .8 else (2,)))
        i = rng.choice(ids)
        b2 = ('and', 'sub') if k >= .8 else ('and', 'or', 'sub', 'xor')
        if e.run.values[i - 1]['t'] == 'S' and k >= .8:
            b2 = ('and',)
        for j in e.run.pair(i, z, ops=b2, rel=False).values():
            e.run.is_valid(j)
    return e.run


# -- C05: nested expressions

def tree(rng, xs, depth, ops):
    if depth == 0 or rng.random() < .12:
        return {'o': 'x', 'x': rng.choice(xs)}
    return {'o': rng.choice(ops), 'l': tree(rng, xs, depth - 1, ops),
            'r': tree(rng, xs, depth - 1, ops)}


def evaluate(run, t):
    if t['o'] == 'x':
        return t['x']
    a, b = evaluate(run, t['l']), evaluate(run, t['r'])
    if run.objects[a - 1] is None:
        return a
    if run.objects[b - 1] is None:
        return b
    return run.raw(t['o'], a, b)


def expressions(rng):
    e = Env(rng, sizes=[2, 3, 4, 4, 6, 6, 8])
    ops = ['and', 'or', 'sub', 'xor']
    k = rng.random()
    if k < .6:
        a = e.shaped()
        gs = [a, e.g.related(a, (2,)), e.shaped()]
        if rng.random() < .3:
            gs.append(e.g.related(rng.choice(gs), (2,)))
    elif k < .85:
        a = e.linear()
        gs = [a, e.g.related(a, (1,)), e.linear()]
        if rng.random() < .3:
            gs = [('S', s) for s in e.g.pencil()[:4]] + gs[:1]
    else:
        a, b = mixed_pair(e)
        gs = [a, b, e.g.related(b, (2,))]
    if rng.random() < .05 and k < .85:
        gs.append(('E', ()))
    xs = put(e.run, *gs)
    for _ in range(2):
        if k < .85:
            t = tree(rng, xs, rng.choice([2, 2, 3, 3, 4]), ops)
            if t['o'] == 'x':
                continue
        else:
            t = {'o': 'x', 'x': xs[0]}
            if gs[0][0] == 'S':
                t = {'o': 'and', 'l': t, 'r': {'o': 'x', 'x': xs[1]}}
            else:
                for y in rng.choice([xs[1:], xs[:0:-1]]):
                    t = {'o': rng.choice(['and', 'sub']), 'l': t,
                         'r': {'o': 'x', 'x': y}}
                    if len(t) and rng.random() < .3:
                        break
            # a segment cannot be subtracted a polygon from: stop there
        try:
            i = evaluate(e.run, t)
        except Stop:
            continue
        if k >= .85 and e.run.values[i - 1]['t'] == 'X' \
                and any(s['a'] == 'raw' and s['op'] == 'sub'
                        and e.run.values[s['x'] - 1]['t'] == 'S'
                        for s in e.run.steps):
            continue
        e.run.tree(t, i)
    return e.run


# -- C06, C07: relations

def any_pair(e):
    if e.rng.random() < .2:
        return far(e, e.rng.choice([(1, 1), (1, 2), (1, 2), (2, 1), (2, 1),
                                    (2, 2)]))
    k = e.rng.random()
    if k < .35:
        a, b = shaped_pair(e)
    elif k < .65:
        a, b = linear_pair(e)
    else:
        a, b = mixed_pair(e)
    if e.rng.random() < .1:
        b = Gen(e.rng, 16).abut(a, b)
    return (a, b) if k < .65 or e.rng.random() < .5 else (b, a)


def relations(rng):
    e = Env(rng)
    for _ in range(3):
        a, b = any_pair(e)
        x, y = put(e.run, a, b)
        e.run.pair(x, y, ops=())
    return e.run


def relation_spelling(rng):
    """Complement, and independence of how the operands are spelled."""
    e = Env(rng)
    a, b = any_pair(e)
    x, y = put(e.run, a, b)
    e.run.rel(x, y)
    e.run.rel(y, x)
    for _ in range(3):
        u, v = put(e.run, e.g.respell(a), e.g.respell(b))
        e.run.rel(u, v)
        e.run.rel(v, u)
    e.run.rel(x, x)
    x2, = put(e.run, e.g.respell(a))
    e.run.rel(x, x2)
    return e.run


# -- C08: location of points

def vertices(g):
    t, c = g
    if t in ('S', 'C'):
        return list(c)
    if t in ('M', 'P'):
        return [p for s in c for p in s]
    if t == 'MP':
        return [p for q in c for s in q for p in s]
    return []


def probes(e, g, count):
    """Points to locate: vertices, points on edges and their lines, at the
    level of vertices, near edges, and anywhere."""
    r, n = e.rng, e.n
    vs = vertices(g) or [(0, 0)]
    es = e.g.edges(g) or [((0, 0), (1, 1))]
    out = []
    from fractions import Fraction as F
    for _ in range(count):
        k = r.randrange(8)
        if k == 0:
            p = r.choice(vs)
        elif k <= 2:
            a, b = r.choice(es)
            m, q = r.randint(-2, 8), r.choice([2, 3, 4, 6])
            p = (a[0] + F((b[0] - a[0]) * m, q), a[1] + F((b[1] - a[1]) * m, q))
            if k == 2:
                p = (p[0] + F(r.randint(-1, 1), 64), p[1])
        elif k == 3:
            p = (r.randint(-1, n + 1), r.choice(vs)[1])
        elif k == 4:
            p = (r.choice(vs)[0], F(r.randint(-2, 2 * n + 2), 2))
        elif k == 5:
            p = (F(r.randint(-2, 2 * n + 2), 2), F(r.randint(-2, 2 * n + 2), 2))
        elif k == 6:
            a, b = r.choice(vs), r.choice(vs)
            p = (F(a[0] + b[0], 2), F(a[1] + b[1], 2))
        else:
            p = e.g.pt()
        if all(-16 <= v <= 32 for v in p):
            out.append(p)
    return out


def locations(rng):
    e = Env(rng)
    for _ in range(2):
        g = e.g.any('SMCPPPQQ' + ('E' if rng.random() < .1 else ''))
        if rng.random() < .06:
            g = large(e, 'SPQMC')
        x, = put(e.run, g)
        e.run.locs(x, probes(e, g, 14))
        if rng.random() < .3:
            h = e.g.related(g, (2,) if g[0] in ('P', 'MP') else (1,))
            y, = put(e.run, h)
            z = e.run.raw(rng.choice(['and', 'or', 'sub', 'xor']), x, y)
            if e.run.objects[z - 1] is not None:
                e.run.locs(z, probes(e, g, 6) + probes(e, h, 6))
    return e.run


# -- C09: validity

def bent(e):
    """A vertex sequence that may not make a valid contour."""
    r, g = e.rng, e.g
    k = r.randrange(7)
    if k == 0:
        return [g.pt() for _ in range(r.randint(3, 7))]
    ring = list(g.ring())
    i = r.randrange(len(ring))
    if k == 1:      # repeated vertex
        ring.insert(r.randrange(len(ring)), ring[i])
    elif k == 2:    # collinear vertex
        a, b = ring[i - 1], ring[i]
        s = g.subline((a, b))[0]
        ring.insert(i, s)
    elif k == 3:    # any vertex moved
        ring[i] = g.pt()
    elif k == 4:    # vertices swapped
        j = r.randrange(len(ring))
        ring[i], ring[j] = ring[j], ring[i]
    elif k == 5:    # vertex on a farther edge
        a, b = ring[i - 1], ring[i]
        ring.insert(r.randrange(len(ring)), g.subline((a, b))[0])
    return ring


def heap_of_segments(e):
    """Many segments in a small place, mostly allowed to be together."""
    r = e.rng
    w, h = r.randint(1, 5), r.choice([0, 1, 2, 3, 4])
    segs = []
    for _ in range(r.randint(4, 18)):
        a, b = ((r.randint(0, w), r.randint(0, h)) for _ in range(2))
        if a != b and (r.random() < .3 or not any(
                meet_badly((a, b), s) for s in segs)):
            segs.append((a, b))
    while len(segs) < 2:
        segs.append(((0, 0), (len(segs) + 1, h)))
    return ('M', tuple(segs))


def meet_badly(s, t):
    (a, b), (c, d) = sorted(s), sorted(t)
    signs = [orient(*p) for p in ((a, b, c), (a, b, d), (c, d, a), (c, d, b))]
    if not any(signs):
        return max(a, c) < min(b, d)
    touch = [p for p, i in zip((c, d, a, b), signs) if not i]
    if touch:
        return (len(touch) == 1 and signs[0] * signs[1] <= 0
                and signs[2] * signs[3] <= 0)
    return signs[0] != signs[1] and signs[2] != signs[3]


def validity(rng):
    e = Env(rng)
    for _ in range(6):
        k = rng.randrange(6)
        if k <= 1:
            x = e.run.new(('C', tuple(bent(e))))
        elif k == 5:
            x = e.run.new(heap_of_segments(e))
        elif k == 2:
            x = e.run.new(e.g.mseg())
        elif k == 3:
            x = e.run.new(e.g.anymseg())
        else:
            x = e.run.new(e.g.contour())
        e.run.valid(x)
    if rng.random() < .05:
        t, c = g = large(e, 'MC')
        e.run.valid(e.run.new(g))
        c = list(c)
        i, j = rng.sample(range(len(c)), 2)
        if rng.random() < .5:
            c[i], c[j] = c[j], c[i]
        else:
            c[i] = e.g.pt() if t == 'C' else e.g.seg()[1]
        e.run.valid(e.run.new((t, tuple(c))))
    return e.run


# -- C10: equality, hashing, order, representation

def respelled_value(e, g):
    """Equal to g, or slightly different."""
    r = e.rng
    if r.random() < .15:        # of the same structure
        n = e.n
        return e.g.respell(remap(g, r.choice([
            lambda p: (n - p[0], p[1]), lambda p: (p[0], n - p[1]),
            lambda p: (n - p[0], n - p[1]), lambda p: (p[1], p[0]),
            lambda p: (p[0] + 1, p[1]), lambda p: (p[0], p[1] + 1)])))
    k = r.random()
    if k < .55:
        return e.g.respell(g)
    t, c = g
    if t == 'C' and len(c) > 3 and k < .75:
        ring = list(c)
        i = r.randrange(len(ring) - 1)
        ring[i], ring[i + 1] = ring[i + 1], ring[i]
        return ('C', tuple(ring))
    if t == 'P' and len(c) > 1 and k < .8:
        return ('P', c[:-1])
    if t == 'P' and k < .85:
        return ('C', c[0])
    if t == 'MP' and k < .75:
        return ('MP', c[:-1]) if len(c) > 2 else ('P', c[0])
    if t == 'MP' and k < .85:
        return ('P', c[0])
    if t == 'M' and k < .75 and len(c) > 2:
        return ('M', c[:-1])
    if t == 'S' and k < .75:
        return ('S', (c[0], e.g.other(c[0])))
    return e.g.related(g, (1, 2)) if t != 'E' else g


def siblings(e, g):
    """Values with as many parts, all of them but one the same."""
    r = e.rng
    if g[0] == 'P' and r.random() < .7:
        for _ in range(9):
            if len(g[1]) > 2:
                break
            b, hs = Gen(r, 16).holed()
            g = ('P', (b, *hs))
    t, c = g
    first = 1 if t == 'P' else 0
    if t not in ('P', 'MP', 'M') or len(c) < 3:
        return g, respelled_value(e, g)
    i, j = r.sample(range(first, len(c)), 2)
    return tuple(e.g.respell((t, c[:k] + c[k + 1:])) for k in (i, j))


def box_of(e):
    r = e.rng
    return ('B', tuple(sorted(r.randint(0, 3) for _ in range(2)))
            + tuple(sorted(r.randint(0, 3) for _ in range(2))))


def equality(rng):
    e = Env(rng, kind='diagonal')
    if rng.random() < .25:
        e.run = start(colliding_embedding(rng))
    for _ in range(3):
        a = (e.g.any('SMCPPQQE') if rng.random() > .02
             else large(e, 'MCPQ'))
        b = respelled_value(e, a)
        if rng.random() < .2:
            a, b = siblings(e, a)
        x, y = put(e.run, a, b)
        e.run.eq(x, y)
        e.run.eq(y, x)
        e.run.eq(x, x)
        e.run.repr(x)
    p = e.g.pt()
    q = rng.choice([e.g.pt(), (p[0], e.g.pt()[1]), (e.g.pt()[0], p[1]), p])
    x, y = put(e.run, ('PT', p), ('PT', q))
    e.run.eq(x, y)
    e.run.cmp(x, y)
    e.run.cmp(y, x)
    e.run.repr(x)
    x, y = put(e.run, box_of(e), box_of(e))
    e.run.eq(x, y)
    e.run.eq(x, x)
    e.run.repr(y)
    a, b = (linear_pair(e) if rng.random() < .5 else shaped_pair(e))
    x, y = put(e.run, a, b)
    z = e.run.raw(rng.choice(['and', 'or', 'sub', 'xor']), x, y)
    if e.run.objects[z - 1] is not None:
        e.run.repr(z)
        e.run.eq(z, z)
        e.run.eq(z, x)
    return e.run


# -- C11: views

def views(rng):
    e = Env(rng, embed=.1)
    for t, w in (('C', 'vertices'), ('C', 'segments'), ('M', 'segments'),
                 ('P', 'holes'), ('MP', 'polygons')):
        g = {'C': e.g.contour, 'M': e.g.mseg, 'P': e.g.poly,
             'MP': e.g.mpoly}[t]()
        if rng.random() < .03:
            g = large(e, {'MP': 'Q'}.get(t, t))
        if t == 'P' and len(g[1]) < 2 and rng.random() < .8:
            for _ in range(20):
                g = e.g.poly()
                if len(g[1]) > 2:
                    break
        if rng.random() < .15 and t == 'C':
            g = ('C', tuple(bent(e)))
            if w == 'segments' and any(g[1][i] == g[1][i - 1]
                                       for i in range(len(g[1]))):
                g = e.g.contour()
        k = rng.random()
        h = g if k < .4 else (e.g.respell(g) if k < .7 else
                              {'C': e.g.contour, 'M': e.g.mseg,
                               'P': e.g.poly, 'MP': e.g.mpoly}[t]())
        x, y = put(e.run, g, h)
        e.run.view(x, y, w, rng)
    return e.run


# -- C12: boxes

def all_boxes():
    spans = [(a, b) for a in range(4) for b in range(a, 4)]
    return [('B', u + v) for u in spans for v in spans]


def boxes(rng):
    """Bounding boxes of geometries; relations of boxes."""
    e = Env(rng, kind='diagonal')
    ids = []
    for _ in range(3):
        g = e.g.any('SMCPQ') if rng.random() > .03 else large(e, 'MCPQ')
        x, = put(e.run, g)
        ids.append(e.run.bbox(x))
    for a in ids:
        for b in ids:
            if a != b:
                e.run.box(a, b)
    x, y = put(e.run, box_of(e), box_of(e))
    e.run.box(x, y)
    bad = ('B', tuple(rng.randint(0, 2) for _ in range(4)))
    e.run.valid(e.run.new(bad))
    a, b = any_pair(e)
    x, y = put(e.run, a, b)
    z = e.run.raw('and', x, y)
    if e.run.objects[z - 1] is not None and e.run.values[z - 1]['t'] != 'E':
        e.run.bbox(z)
    return e.run


def boxes_exhaustive(index):
    """All the pairs of boxes with a given first one, by order type."""
    bs = all_boxes()
    run = start(Embedding())
    x = run.new(bs[index])
    run.valid(x)
    for b in bs:
        run.box(x, run.new(b))
    return run


# -- C13: contours

def contours(rng):
    e = Env(rng, kind='oriented', embed=.4)
    for _ in range(4):
        k = rng.random()
        g = (e.g.contour() if k < .9 else ('C', e.g.rot(big_ring(e)))
             if k < .95 else ('C', Gen(rng, 16).large_ring()))
        x, = put(e.run, g)
        e.run.orientation(x)
        y, = put(e.run, ('C', g[1][::-1]))
        e.run.orientation(y)
        e.run.view(x, y, 'segments', rng, count=2)
    return e.run


# -- C14, C15: triangulations

def delaunay(rng):
    e = Env(rng, kind='similarity', embed=.4)
    n = e.n
    k = rng.random()
    m = (rng.randint(3, 14) if k < .8 else rng.randint(12, 30) if k < .98
         else rng.randint(30, 90) if k < .997 else 300)
    if m == 300:
        e.g = Gen(rng, 16)
    if k < .12:      # dense grid
        w, h = rng.randint(1, 4), rng.randint(1, 4)
        ps = [(x, y) for x in range(w + 1) for y in range(h + 1)
              if rng.random() < .85]
    elif k < .2:     # on circles
        ps = [(8 + a, 8 + b) for a, b in
              [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0),
               (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3), (0, 0),
               (7, 1), (1, 7), (-7, -1), (-1, -7)] if rng.random() < .6]
    elif k < .3:     # nearly collinear
        ps = [(x, rng.choice([2, 2, 2, 3])) for x in range(16)
              if rng.random() < .5]
        if rng.random() < .5:
            ps = [(y, x) for x, y in ps]
    else:
        ps = [e.g.pt() for _ in range(m)]
    if rng.random() < .01:
        ps = ps[:rng.randint(0, 2)]
    elif len(ps) < 3:
        ps = ps + [(0, 0), (1, 0), (0, 1)]
    if ps and rng.random() < .2:
        ps = ps + [rng.choice(ps)]
    rng.shuffle(ps)
    e.run.delaunay(ps)
    return e.run


def touching(e):
    """A polygon whose contours touch each other."""
    riddled = e.rng.random() < .4
    for _ in range(40):
        g = ('P', e.g.pack([e.g.riddled()])[0]) if riddled else e.g.poly()
        rs = g[1]
        if len(rs) < 2:
            continue
        if any(in_ring(v, s) == 0 for r in rs for s in rs if r is not s
               for v in r):
            return g
    return e.g.poly()


def constrained(rng):
    e = Env(rng, kind='similarity', embed=.4)
    k = rng.random()
    if k < .35:
        g = touching(e)
    elif k < .45:
        e.n = 16
        g = ('P', (e.g.rot(big_ring(e)),))
    elif k < .6:
        b, hs = Gen(rng, rng.choice([8, 12, 16])).holed(14, 4, 9)
        g = ('P', e.g.pack([(b, hs)])[0])
    elif k < .64:
        g = large(e, 'PS')
    elif k < .66:
        e.n = 16
        g = Gen(rng, 16)
        g = ('P', (g.large_ring(),) if rng.random() < .5
             else g.pack([g.maze(rng.choice([.1, .5, 1.]))])[0])
    else:
        g = e.g.poly()
    x, = put(e.run, g)
    e.run.constrained(x)
    return e.run


# -- C16: trapezoidations

def trapezoidations(rng):
    e = Env(rng)
    k = rng.random()
    if k < .2:
        g = touching(e)
    elif k < .65:
        g = e.g.poly()
    elif k < .7:
        e.n = 16
        g = ('P', (e.g.rot(big_ring(e)),))
    elif k < .74:
        g = large(e, 'PM')
    elif k < .76:
        e.n = 16
        g = Gen(rng, 16)
        g = ('P', (g.large_ring(),) if rng.random() < .5
             else g.pack([g.maze(rng.choice([.1, .5, 1.]))])[0])
    else:
        g = e.g.mseg(2, 8)
    x, = put(e.run, g)
    ps = probes(e, g, 16)
    for seed in (0, rng.randint(1, 50), rng.choice(
            [None, rng.randint(51, 2 ** 32), 2 ** 63 - 1])):
        e.run.trapezoidation(x, seed, ps)
        if e.run.timeouts:
            break
    return e.run


# -- C17: exactness

def exactness(rng):
    k = rng.random()
    kind = 'diagonal' if k >= .7 else 'affine'
    e = Env(rng, embed=1., kind=kind)
    run = e.run
    if k < .4:
        a, b = shaped_pair(e) if rng.random() < .5 else linear_pair(e)
        x, y = put(run, a, b)
        run.pair(x, y)
    elif k < .6:
        a, b = mixed_pair(e)
        x, y = put(run, a, b)
        run.pair(x, y, ops=('and', 'sub'))
    elif k < .7:
        g = e.g.any('SMCPQ')
        x, = put(run, g)
        run.locs(x, probes(e, g, 10))
        if g[0] in 'CM':
            run.valid(x)
        if g[0] in ('P', 'M'):
            run.trapezoidation(x, rng.randint(0, 99), probes(e, g, 6))
    elif k < .8:
        g = e.g.any('SMCPQ')
        x, = put(run, g)
        run.bbox(x)
        run.repr(x)
        y, = put(run, e.g.respell(g))
        run.eq(x, y)
        a, b = shaped_pair(e)
        x, y = put(run, a, b)
        run.pair(x, y)
    else:
        e.run = run = start(similarity_embedding(rng))
        if rng.random() < .5:
            run.delaunay([e.g.pt() for _ in range(rng.randint(4, 12))]
                         + [(0, 0), (0, 1), (1, 0)])
        else:
            x, = put(run, e.g.poly())
            run.constrained(x)
    return run


# -- C18: histories

def read_only(run, rng, x, y):
    """Something else asked about values in the middle of a history."""
    o = run.objects[x - 1]
    k = rng.randrange(5)
    if k == 0 and type(o) is not ex.Empty and run.emb.diagonal:
        run.bbox(x)
    elif k == 1:
        run.eq(x, y)
    elif k == 2:
        run.repr(x)
    elif k == 3 and type(o) is ex.Contour:
        if run.emb.det > 0:
            run.orientation(x)
        run.valid(x)
    elif k == 3 and type(o) is ex.Multisegment:
        run.valid(x)
    elif k == 4:
        w = {ex.Contour: ('vertices', 'segments'),
             ex.Multisegment: ('segments',), ex.Polygon: ('holes',),
             ex.Multipolygon: ('polygons',)}.get(type(o))
        if w:
            run.view(x, x, rng.choice(w), rng, count=5)


class Refused(Exception):
    pass


def failing(run, rng, x):
    """A call that fails, in the middle of a history."""
    o = run.objects[x - 1]
    k = rng.randrange(3)
    from bind import OPS
    if k == 0:
        op = rng.choice(ALL)
        run.raises('TypeError', lambda: OPS[op](o, 5), f'{op} of {x} and 5')
    elif k == 1 and type(o) is not ex.Empty:
        run.raises('TypeError', lambda: o.relate_to(5), f'{x} relate_to 5')
    elif type(o) in (ex.Polygon, ex.Multisegment):
        def refuse():
            raise Refused
        make = (ex.Trapezoidation.from_polygon if type(o) is ex.Polygon
                else ex.Trapezoidation.from_multisegment)
        run.raises('Refused', lambda: make(o, seeder=refuse),
                   f'trapezoidation of {x}, seeder failing')


def histories(rng):
    """Values do not change and calls do not depend on earlier calls."""
    e = Env(rng, sizes=[2, 3, 4, 6, 8])
    run = e.run
    a = e.shaped()
    gs = [a, e.g.related(a, (2,)), e.linear()]
    gs.append(e.g.related(rng.choice(gs), (1,)))
    ids = put(run, *gs)
    made = {i: g for i, g in zip(ids, gs)}
    log = []
    early = rng.random() < .5
    if early:
        run.scramble(rng)
    for _ in range(rng.randint(5, 9)):
        x, y = rng.choice(ids), rng.choice(ids)
        k = rng.randrange(7)
        if rng.random() < .2:
            read_only(run, rng, x, y)
        if rng.random() < .1:
            failing(run, rng, x)
        if k == 6:
            if not run.emb.identity:
                continue
            run.delaunay([e.g.pt() for _ in range(rng.randint(3, 9))]
                         + [(0, 1), (0, 0), (1, 0)], again=True)
        elif k <= 2:
            op = rng.choice(['and', 'or', 'sub', 'xor'])
            z = run.op(op, x, y)
            if run.objects[z - 1] is not None:
                ids.append(z)
            log.append((len(run.steps), 'op', op, x, y))
        elif k == 3:
            run.rel(x, y)
            log.append((len(run.steps), 'rel', None, x, y))
        elif k == 4:
            v = run.values[x - 1]
            if v['t'] == 'P' and all(p[2] == 1 for r in v['c'] for p in r) \
                    and run.emb.identity:
                run.constrained(x, again=True)
            elif v['t'] in ('P', 'M') and x in made and log \
                    and rng.random() < .4:
                run.within(x, rng.randint(0, 9), probes(e, made[x], 4),
                           *rng.choice(log))
            elif v['t'] in ('P', 'M') and x in made:
                run.trapezoidation(x, rng.randint(0, 9),
                                   probes(e, made[x], 4), again=True)
        else:
            run.locs(x, probes(e, rng.choice(gs), 4))
        if rng.random() < .3:
            run.peek(rng.choice(ids))
    run.args()
    if not early:
        run.scramble(rng)
    for i in ids:
        run.peek(i)
    rng.shuffle(log)
    for of, kind, op, x, y in log[:4]:
        u, v = x, y
        if rng.random() < .5:       # the same values built anew
            u = run.new(made[x]) if x in made else x
            v = run.new(made[y]) if y in made else y
        a, b = run.objects[u - 1], run.objects[v - 1]
        from bind import OPS
        r, _ = (run.observe(OPS[op], run.read, a, b) if kind == 'op'
                else run.observe(a.relate_to, run.read_name, b))
        run.again(of, r)
    if rng.random() < .3:
        run.together(log[-4:])
    for i in ids:
        run.peek(i)
    return run


# -- C19: dispatch and errors

class Duck:
    """Looks like every geometry but is none."""

    x = y = min_x = min_y = max_x = max_y = 0
    start = end = border = bounding_box = None
    vertices = segments = holes = polygons = ()

    def __init__(self):
        self.start = self.end = ex.Point(0, 0)

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def is_valid(self):
        return True

    def locate(self, point):
        return None

    def relate_to(self, other):
        return None


def foreigners(run, ids, p):
    """Things which are no geometries, some of them look much the same."""
    c, m, s, q, mq = (run.objects[ids[k] - 1]
                      for k in ('C', 'M', 'S', 'P', 'MP'))
    some = [(5, '5'), (None, 'None'), ('x', "'x'"), (ex.Point(*p), 'Point'),
            (c.bounding_box, 'Box'), (Duck(), 'Duck'), (c.vertices, 'vertices'),
            (m.segments, 'segments'), (c.segments, 'contour segments'),
            (q.holes, 'holes'), (mq.polygons, 'polygons'), ([s], 'list'),
            ((), 'tuple'), (set(), 'set'), (1.5, '1.5'), (True, 'True'),
            (type(c), 'Contour'), (type(ex.Empty()), 'class Empty'),
            (ex.Trapezoidation.from_polygon(q, seeder=lambda: 1),
             'Trapezoidation'),
            (ex.DelaunayTriangulation.from_points(list(c.vertices)),
             'DelaunayTriangulation'),
            (ex.ConstrainedDelaunayTriangulation.from_polygon(q),
             'ConstrainedDelaunayTriangulation'),
            (NotImplemented, 'NotImplemented'), (Ellipsis, 'Ellipsis')]
    return some


def dispatch(rng):
    e = Env(rng, sizes=[3, 4, 6])
    run, g = e.run, e.g
    kinds = {'E': ('E', ()), 'S': g.seg(), 'M': g.mseg(), 'C': g.contour(),
             'P': g.poly(), 'MP': g.mpoly()}
    ids = {k: run.new(v) for k, v in kinds.items()}
    ks = list(kinds)
    for _ in range(4):
        x, y = ids[rng.choice(ks)], ids[rng.choice(ks)]
        run.pair(x, y)
    from bind import OPS
    try:
        strangers = rng.sample(foreigners(run, ids, g.pt()), 4)
    except Exception as error:
        run.add(a='is', w='True', note='foreign things',
                r=X(type(error).__name__))
        return run
    for k in ks:
        o = run.objects[ids[k] - 1]
        for foreign, name in strangers:
            for op, f in OPS.items():
                run.raises('TypeError', lambda: f(o, foreign),
                           f'{k} {op} {name}')
                run.raises('TypeError', lambda: f(foreign, o),
                           f'{name} {op} {k}')
            if k != 'E':
                run.raises('TypeError', lambda: o.relate_to(foreign),
                           f'{k}.relate_to({name})')
            run.add(a='is', w='False', note=f'{k} == {name}',
                    r=run.observe(lambda: o == foreign, run.read_name)[0])
            run.add(a='is', w='True', note=f'{k} != {name}',
                    r=run.observe(lambda: o != foreign, run.read_name)[0])
            run.add(a='is', w='False', note=f'{name} == {k}',
                    r=run.observe(lambda: foreign == o, run.read_name)[0])
    p = [g.pt() for _ in range(2)]
    point = ex.Point(*p[0])
    for op in (operator.lt, operator.le, operator.gt, operator.ge):
        for foreign in (5, None, run.objects[ids['S'] - 1]):
            run.raises('TypeError', lambda: op(point, foreign),
                       f'point {op.__name__} {type(foreign).__name__}')
    for v, name in ((point, 'Point'), (ex.Box(0, 1, 0, 1), 'Box'),
                    (run.objects[ids['C'] - 1].vertices, 'vertices'),
                    (run.objects[ids['C'] - 1].segments, 'segments'),
                    (run.objects[ids['M'] - 1].segments, 'segments'),
                    (run.objects[ids['P'] - 1].holes, 'holes'),
                    (run.objects[ids['MP'] - 1].polygons, 'polygons')):
        for foreign in (5, None, point, [], ex.Empty()):
            same = foreign is v
            run.add(a='is', w=str(same), note=f'{name} == {foreign}',
                    r=run.observe(lambda: v == foreign, run.read_name)[0])
            run.add(a='is', w=str(not same), note=f'{name} != {foreign}',
                    r=run.observe(lambda: v != foreign, run.read_name)[0])
    for m in range(3):
        run.new(('C', tuple(p[:m])), expect='ValueError')
    for m in range(2):
        run.new(('M', kinds['M'][1][:m]), expect='ValueError')
        run.new(('MP', kinds['MP'][1][:m]), expect='ValueError')
    run.new(('C', kinds['C'][1][:3]), expect='')
    seg = run.objects[ids['M'] - 1]
    pol = run.objects[ids['P'] - 1]
    for make, o in ((ex.Trapezoidation.from_multisegment, seg),
                    (ex.Trapezoidation.from_polygon, pol)):
        for seed in (-1, -rng.randint(2, 99), -10 ** 30):
            run.raises('ValueError', lambda: make(o, seeder=lambda: seed),
                       f'seed {seed}')
        for seed in ('a', 1., None, Fraction(1), '1', (), 1j):
            run.raises('TypeError', lambda: make(o, seeder=lambda: seed),
                       f'seed {seed!r}')
    for cls in (ex.Box, ex.Contour, ex.Empty, ex.Multipolygon,
                ex.Multisegment, ex.Point, ex.Polygon, ex.Segment,
                ex.Trapezoidation, ex.DelaunayTriangulation,
                ex.ConstrainedDelaunayTriangulation):
        run.raises('TypeError', lambda: type('Sub', (cls,), {}),
                   f'subclass of {cls.__name__}')
    return run


# -- Behaviours of the abstract machine of spec/Machine.tla

_behaviours = None


def behaviours():
    """The behaviours TLC has generated for this run."""
    global _behaviours
    if _behaviours is None:
        _behaviours = []
        path = os.environ.get('BEHAVIOURS')
        if path:
            with open(path) as f:
                _behaviours = [json.loads(line) for line in f]
    return _behaviours


def merge_sides(rng, sides):
    """Joins some sides at straight corners where nothing else meets."""
    sides = [tuple(map(tuple, s)) for s in sides]
    for p in sorted({p for s in sides for p in s}):
        at = [s for s in sides if p in s]
        if len(at) == 2 and rng.random() < .7:
            q, r = (s[0] if s[1] == p else s[1] for s in at)
            if orient(p, q, r) == 0:
                sides = [s for s in sides if s not in at] + [(q, r)]
    return sides


def value_of_sides(rng, sides):
    sides = merge_sides(rng, sides)
    rng.shuffle(sides)
    sides = [s if rng.random() < .5 else s[::-1] for s in sides]
    if len(sides) == 1:
        return ('S', sides[0])
    if len(sides) >= 3 and rng.random() < .7:
        ring = [*sides[0]]
        rest = sides[1:]
        while rest and ring[0] != ring[-1]:
            nxt = [s for s in rest if ring[-1] in s]
            if len(nxt) != 1:
                break
            rest.remove(nxt[0])
            a, b = nxt[0]
            ring.append(b if a == ring[-1] else a)
        if not rest and ring[0] == ring[-1] and simple_ring(ring[:-1]) \
                and len(drop_collinear(ring[:-1])) == len(ring) - 1:
            return ('C', tuple(ring[:-1]))
    return ('M', tuple(sides))


def value_of_tiles(e, tiles):
    ps = assemble([tuple((x, y) for x, y, _ in t) for t in tiles])
    if ps is None:
        return None
    ps = e.g.pack(ps)
    return ('P', ps[0]) if len(ps) == 1 else ('MP', ps)


def replay(kinds):
    """Replays a behaviour: only the outcomes of the given kinds of actions
    are checked, other operations are carried out without."""
    def run_behaviour(rng, index):
        bs = behaviours()
        e = Env(rng, sizes=[16], embed=.25)
        run = e.run
        if not bs:
            return run
        ids = []
        for st in bs[index % len(bs)]:
            a = st['a']
            if a == 'end':
                break
            if a == 'make':
                if st['k'] == 2:
                    g = value_of_tiles(e, st['s'])
                else:
                    g = value_of_sides(rng, [[p[:2] for p in s]
                                             for s in st['s']])
                i = None
                if g is not None:
                    i = run.new(g)
                    run.denotes(i, st)
                ids.append(i)
                continue
            x = ids[st['x'] - 1]
            y = ids[st['y'] - 1] if 'y' in st else x
            if x is None or y is None or run.objects[x - 1] is None \
                    or run.objects[y - 1] is None:
                if a == 'op':
                    ids.append(None)
                continue
            o, p = run.objects[x - 1], run.objects[y - 1]
            from bind import OPS
            if a == 'op':
                if st['op'] == 'sub' and type(o) is ex.Segment \
                        and type(p) in (ex.Polygon, ex.Multipolygon):
                    a = 'bad'
                    ids.append(None)
                else:
                    i = run.raw(st['op'], x, y)
                    if 'op' in kinds:
                        run.denotes(i, st)
                    ids.append(i)
            if a == 'bad' and 'op' in kinds:
                run.raises('TypeError', lambda: OPS[st['op']](o, p),
                           f"{st['op']} of {x} and {y}")
            elif a == 'relate' and 'relate' in kinds:
                run.add(a='is', w=st['w'], x=x, y=y, note='relate_to',
                        r=run.observe(o.relate_to, run.read_name, p)[0])
            elif a == 'locate' and 'locate' in kinds:
                ps = [(Fraction(q[0], q[2]), Fraction(q[1], q[2]))
                      for q, _ in st['ps']]
                run.found(x, ps, [w for _, w in st['ps']])
        if len(kinds) == 3:
            for i in ids:
                if i is not None:
                    run.peek(i)
        return run
    return run_behaviour


# Which behaviours are replayed for a property, and what of them is checked.
REPLAYS = {'C05': ['op'], 'C06': ['relate'], 'C08': ['locate'],
           'C18': ['op', 'relate', 'locate']}


WORKLOADS = {
    'C01': [(ops_shaped, 1.)],
    'C02': [(ops_linear, 1.)],
    'C03': [(ops_mixed, 1.)],
    'C04': [(closure, 1.)],
    'C05': [(expressions, 1.)],
    'C06': [(relations, 1.)],
    'C07': [(relation_spelling, 1.)],
    'C08': [(locations, 1.)],
    'C09': [(validity, 1.)],
    'C10': [(equality, 1.)],
    'C11': [(views, 1.)],
    'C12': [(boxes, 1.)],
    'C13': [(contours, 1.)],
    'C14': [(delaunay, 1.)],
    'C15': [(constrained, 1.)],
    'C16': [(trapezoidations, 1.)],
    'C17': [(exactness, 1.)],
    'C18': [(histories, 1.)],
    'C19': [(dispatch, 1.)],
}

# -- All the pairs of values of small tilings

def crossed(x, y, h):
    a, b, c, d = ((x, y), (x + 2 * h, y), (x + 2 * h, y + 2 * h),
                  (x, y + 2 * h))
    m = (x + h, y + h)
    return [(a, b, m), (b, c, m), (c, d, m), (d, a, m)]


def halved(x, y, h, rising):
    a, b, c, d = (x, y), (x + h, y), (x + h, y + h), (x, y + h)
    return [(a, b, c), (a, c, d)] if rising else [(a, b, d), (b, c, d)]


def around(m, ring):
    return [(ring[i - 1], ring[i], m) for i in range(len(ring))]


SMALL_TILINGS = {
    'crossed': crossed(0, 0, 1),
    'two': halved(0, 0, 2, True) + halved(2, 0, 2, False),
    'nest': [((0, 0), (9, 0), (4, 2)), ((0, 0), (4, 2), (2, 2)),
             ((0, 0), (2, 2), (0, 9)), ((9, 0), (0, 9), (4, 2)),
             ((4, 2), (0, 9), (2, 2))],
    'strip': crossed(0, 0, 1) + crossed(2, 0, 1),
    'fan': around((2, 2), [(0, 0), (2, 0), (4, 0), (4, 2), (4, 4), (2, 4),
                           (0, 4), (0, 2)]),
    'column': [t for y in range(4) for t in halved(0, y, 1, y % 2)],
    'star': around((4, 4), [(0, 0), (3, 1), (8, 2), (7, 4), (8, 8), (4, 5),
                            (1, 7)]),
    'ladder': [((0, 0), (4, 0), (0, 2)), ((4, 0), (4, 2), (0, 2)),
               ((0, 2), (4, 2), (2, 5)), ((0, 2), (2, 5), (0, 6)),
               ((4, 2), (4, 6), (2, 5)), ((0, 6), (2, 5), (4, 6)),
               ((4, 0), (7, 1), (4, 2)), ((4, 2), (7, 1), (4, 6))],
}


# For enumerations of single values.
LARGER_TILINGS = {
    'board': [t for x in range(2) for y in range(3)
              for t in halved(2 * x, 2 * y, 2, (x + y) % 2)],
    'quilt': crossed(0, 0, 1) + crossed(2, 0, 1) + crossed(0, 2, 1),
    'walls': [t for x in range(6) for t in halved(x, 0, 1, x % 3 == 0)],
    'rings': around((6, 6), [(4, 4), (8, 5), (7, 8), (4, 7)])
    + [((0, 0), (8, 5), (4, 4)), ((0, 0), (12, 1), (8, 5)),
       ((12, 1), (7, 8), (8, 5)), ((12, 1), (12, 12), (7, 8)),
       ((12, 12), (4, 7), (7, 8)), ((12, 12), (1, 11), (4, 7)),
       ((1, 11), (4, 4), (4, 7)), ((1, 11), (0, 0), (4, 4))],
}


def tiling_values(name, k):
    """All the values of dimension k of a tiling."""
    tiles = SMALL_TILINGS.get(name) or LARGER_TILINGS[name]
    if k == 2:
        parts = tiles
    else:
        parts = sorted({tuple(sorted((t[i - 1], t[i]))) for t in tiles
                        for i in range(3)})
    return [[p for j, p in enumerate(parts) if m >> j & 1]
            for m in range(1, 1 << len(parts))]


PER_SESSION = 16
_made = {}


def all_pairs(name, ka, kb, ops, rel):
    """-> (function of the index of a session, number of sessions)"""
    na, nb = (2 ** (len(SMALL_TILINGS[name]) if k == 2 else
                    len({tuple(sorted((t[i - 1], t[i])))
                         for t in SMALL_TILINGS[name] for i in range(3)}))
              - 1 for k in (ka, kb))

    def session(rng, index):
        if (name, ka) not in _made:
            _made[name, ka] = tiling_values(name, ka)
        if (name, kb) not in _made:
            _made[name, kb] = tiling_values(name, kb)
        us, vs = _made[name, ka], _made[name, kb]
        e = Env(rng, sizes=[16], embed=0)

        def put_value(k, s):
            if k == 1:
                return e.run.new(value_of_sides(rng, s))
            ps = assemble(s)
            g = e.g.pack(ps)
            return e.run.new(('P', g[0]) if len(g) == 1 else ('MP', g))

        for n in range(index * PER_SESSION,
                       min((index + 1) * PER_SESSION, na * nb)):
            x = put_value(ka, us[n // nb])
            y = put_value(kb, vs[n % nb])
            os = tuple(o for o in ops if not (
                o == 'sub' and ka == 1 and kb == 2
                and type(e.run.objects[x - 1]) is ex.Segment))
            e.run.pair(x, y, ops=os, rel=rel)
        return e.run

    return session, -(-na * nb // PER_SESSION)


ALL = ('and', 'or', 'sub', 'xor')


INTERVALS = tuple(itertools.combinations(range(4), 2))
SIDES = tuple(itertools.combinations(
    tuple(itertools.product(range(3), range(3))), 2))
NODES = tuple(itertools.product(range(3), range(3)))


def validities(values, count, at):
    """-> (function of the index of a session, number of sessions)

    The validity of each of the values at(0), at(1), ...
    """
    per = 40

    def session(rng, index):
        e = Env(rng, sizes=[3])
        for n in range(index * per, min((index + 1) * per, count)):
            e.run.valid(e.run.new(at(values, n, rng)))
        return e.run

    return session, -(-count // per)


def piled(rng, spans):
    """Segments of a line, by the spans."""
    flip = [rng.random() < .5 for _ in spans]
    return ('M', tuple(((b, b), (a, a)) if f else ((a, a), (b, b))
                       for (a, b), f in zip(spans, flip)))


def powers(values, k):
    def at(values, n):
        out = []
        for _ in range(k):
            n, m = divmod(n, len(values))
            out.append(values[m])
        return out
    return len(values) ** k, at


def piles(k):
    count, at = powers(INTERVALS, k)
    return validities(INTERVALS, count,
                      lambda v, n, rng: piled(rng, at(v, n)))


def rings(k):
    count, at = powers(NODES, k)
    return validities(NODES, count,
                      lambda v, n, rng: ('C', tuple(at(v, n))))


@functools.lru_cache(None)
def _subsets(k):
    return tuple(itertools.combinations(SIDES, k))


def sides(k):
    def at(v, n, rng):
        segs = [p if rng.random() < .5 else p[::-1]
                for p in _subsets(k)[n]]
        rng.shuffle(segs)
        return ('M', tuple(segs))
    return validities(None, math.comb(len(SIDES), k), at)


def spread_over(per, count, do, sizes=(16,)):
    """-> (function of the index of a session, number of sessions)"""
    def session(rng, index):
        e = Env(rng, sizes=list(sizes), embed=0)
        for n in range(index * per, min((index + 1) * per, count)):
            do(e, n)
        return e.run

    return session, -(-count // per)


def value_of_parts(e, k, parts):
    if k == 1:
        return value_of_sides(e.rng, parts)
    ps = e.g.pack(assemble(parts))
    return ('P', ps[0]) if len(ps) == 1 else ('MP', ps)


def half_grid(e, parts, count):
    vs = [v for t in parts for v in t]
    (x0, x1), (y0, y1) = ((min(c), max(c)) for c in zip(*vs))
    r = e.rng
    return ([r.choice(vs) for _ in range(count // 3)]
            + [(Fraction(r.randint(2 * x0 - 1, 2 * x1 + 1), 2),
                Fraction(r.randint(2 * y0 - 1, 2 * y1 + 1), 2))
               for _ in range(count - count // 3)])


def all_located(name, k, per=12):
    """Points located in all the values of a tiling."""
    values = tiling_values(name, k)

    def do(e, n):
        x = e.run.new(value_of_parts(e, k, values[n]))
        e.run.locs(x, half_grid(e, values[n], 20))

    return spread_over(per, len(values), do)


def polygons_of(g):
    return [('P', q) for q in g[1]] if g[0] == 'MP' else [g]


def all_constrained(name):
    """Triangulations of all the polygons of a tiling."""
    values = tiling_values(name, 2)

    def do(e, n):
        for g in polygons_of(value_of_parts(e, 2, values[n])):
            e.run.constrained(e.run.new(g))

    return spread_over(6, len(values), do)


def all_trapezoidations(name, k):
    """Trapezoidations of all the polygons or multisegments of a tiling."""
    values = tiling_values(name, k)

    def do(e, n):
        for g in polygons_of(value_of_parts(e, k, values[n])):
            if g[0] in 'PM':
                x = e.run.new(g)
                for seed in (0, e.rng.randint(1, 99)):
                    e.run.trapezoidation(x, seed,
                                         half_grid(e, values[n], 12))

    return spread_over(6, len(values), do)


def all_delaunay(w, h):
    """Triangulations of all the sets of points of a small grid."""
    nodes = tuple(itertools.product(range(w), range(h)))

    def do(e, n):
        ps = [p for i, p in enumerate(nodes) if n >> i & 1]
        if any(orient(*t) for t in itertools.combinations(ps, 3)):
            e.rng.shuffle(ps)
            e.run.delaunay(ps)

    return spread_over(8, 1 << len(nodes), do, sizes=(4,))


@functools.lru_cache(None)
def simple_rings(k):
    return tuple(r for r in itertools.permutations(NODES, k)
                 if simple_ring(r)
                 and len(drop_collinear(list(r))) == len(r))


@functools.lru_cache(None)
def combs(n):
    """All the sets of non-overlapping intervals of a line 0..n."""
    out = [((), 0)]
    done = []
    while out:
        spans, at = out.pop()
        if spans:
            done.append(spans)
        out.extend((spans + ((a, b),), b)
                   for a in range(at, n) for b in range(a + 1, n + 1))
    return tuple(sorted(done))


def all_combs(n, ops, rel):
    """All the pairs of linear values of the same line."""
    spans = combs(n)

    def do(e, k):
        r = e.rng
        dx, dy = r.choice([(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 3),
                           (-1, 2), (3, -2)])
        x, y = (8 - dx * (n // 2), 8 - dy * (n // 2))

        def val(spans):
            segs = [((x + a * dx, y + a * dy), (x + b * dx, y + b * dy))
                    for a, b in spans]
            segs = [s if r.random() < .5 else s[::-1] for s in segs]
            r.shuffle(segs)
            return ('S', segs[0]) if len(segs) == 1 else ('M', tuple(segs))

        i, j = divmod(k, len(spans))
        e.run.pair(e.run.new(val(spans[i])), e.run.new(val(spans[j])),
                   ops=ops, rel=rel)

    return spread_over(16, len(spans) ** 2, do)


TURNS = tuple((lambda f: lambda p: f(*p))(f) for f in (
    lambda x, y: (x, y), lambda x, y: (2 - x, y), lambda x, y: (x, 2 - y),
    lambda x, y: (2 - x, 2 - y), lambda x, y: (y, x),
    lambda x, y: (2 - y, x), lambda x, y: (y, 2 - x),
    lambda x, y: (2 - y, 2 - x)))


def small_key(v):
    """Spelling of a value over the grid of 3 by 3 nodes."""
    return (v[0], tuple(sorted(tuple(sorted(s)) for s in (
        v[1] if v[0] == 'M' else [v[1]] if v[0] == 'S'
        else ring_edges(v[1][0] if v[0] == 'P' else v[1])))))


@functools.lru_cache(None)
def small_values(kind):
    """All the values of a kind over the grid of 3 by 3 nodes."""
    if kind == 'S':
        return tuple(('S', s) for s in SIDES)
    if kind == 'M':
        return tuple(('M', p) for p in itertools.combinations(SIDES, 2)
                     if Gen._compatible(*p))
    seen = {}
    for r in simple_rings(int(kind[1])):
        v = ('C', r) if kind[0] == 'C' else ('P', (r,))
        seen.setdefault(small_key(v), v)
    return tuple(seen.values())


@functools.lru_cache(None)
def small_firsts(kind):
    """Those of them that differ by more than a symmetry of the grid."""
    seen = {}
    for v in small_values(kind):
        seen.setdefault(min(small_key(remap(v, f)) for f in TURNS), v)
    return tuple(seen.values())


def all_small(first, second, ops, rel, per=16):
    """All the pairs of values over the grid of 3 by 3 nodes (up to its
    symmetries, one of which is taken at random)."""
    us, vs = small_firsts(first), small_values(second)

    def respell(r, v):
        if v[0] == 'S':
            return v if r.random() < .5 else ('S', v[1][::-1])
        if v[0] == 'M':
            segs = [s if r.random() < .5 else s[::-1] for s in v[1]]
            r.shuffle(segs)
            return ('M', tuple(segs))
        q = v[1][0] if v[0] == 'P' else v[1]
        i = r.randrange(len(q))
        q = q[i:] + q[:i]
        q = q if r.random() < .5 else q[::-1]
        return ('P', (q,)) if v[0] == 'P' else ('C', q)

    def do(e, n):
        i, j = divmod(n, len(vs))
        f = e.rng.choice(TURNS)
        k = e.rng.randint(1, 8)
        x, y = (e.run.new(respell(e.rng, remap(
            v, lambda p: tuple(k * c for c in f(p)))))
                for v in (us[i], vs[j]))
        e.run.pair(x, y, ops=ops, rel=rel)

    return spread_over(per, len(us) * len(vs), do)


@functools.lru_cache(None)
def holed_values():
    """Polygons with a small hole, which may touch the border."""
    out = []
    for b in (((0, 0), (4, 0), (4, 4), (0, 4)),
              ((0, 0), (6, 0), (0, 6)),
              ((0, 0), (5, 1), (4, 4), (1, 5)),
              ((0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4))):
        for dx, dy in itertools.product(range(3), range(3)):
            for kind in ('C3', 'C4'):
                for _, h in small_values(kind):
                    h = tuple((x + dx, y + dy) for x, y in h)
                    if Gen(random).hole_ok(b, [], h):
                        out.append((b, h))
    return tuple(sorted(set(out)))


def any_spelling(r, q):
    i = r.randrange(len(q))
    q = q[i:] + q[:i]
    return q if r.random() < .5 else q[::-1]


def all_holed(use, per=8, every=1):
    """All the polygons with a small hole."""
    vs = holed_values()[::every]

    def do(e, n):
        r = e.rng
        b, h = vs[n]
        x = e.run.new(('P', (any_spelling(r, b), any_spelling(r, h))))
        if use == 'constrained':
            e.run.constrained(x)
        else:
            e.run.trapezoidation(x, r.randint(0, 99),
                                 half_grid(e, [b], 12))

    return spread_over(per, len(vs), do)


def all_oriented(k):
    """Orientations of all the contours over a small grid."""
    def do(e, n):
        e.run.orientation(e.run.new(('C', simple_rings(k)[n])))

    return spread_over(24, len(simple_rings(k)), do, sizes=(3,))


def all_respelled(k):
    """Equality of each contour over a small grid with all the contours
    having the same vertices."""
    firsts = [r for r in simple_rings(k) if r == min(
        s for i in range(k) for q in (r[i:] + r[:i],) for s in (
            q, q[:1] + q[:0:-1]))]

    def do(e, n):
        r = firsts[n]
        x = e.run.new(('C', r))
        for q in itertools.permutations(r):
            e.run.eq(x, e.run.new(('C', q)))

    return spread_over(1, len(firsts), do, sizes=(3,))


def all_slices():
    """All the slices and indices of short sequences."""
    rng = random.Random('slices')
    g = Gen(rng, 6)
    made = []
    for t, w, gen in (('C', 'vertices', g.contour), ('C', 'segments', g.contour),
                      ('M', 'segments', g.mseg), ('P', 'holes', g.poly),
                      ('MP', 'polygons', g.mpoly)):
        size = {'holes': lambda v: len(v[1]) - 1}.get(w, lambda v: len(v[1]))
        seen = {}
        while len(seen) < 3:
            v = gen()
            if size(v) <= 5:
                seen.setdefault(size(v), v)
        made += [(v, w) for v in seen.values()]

    def do(e, n):
        g, w = made[n // 12]
        x = e.run.new(g)
        e.run.view_all(x, w, n % 12)

    return spread_over(1, 12 * len(made), do, sizes=(6,))


def all_triples(name):
    """All the expressions of two operations over all the triples."""
    values = tiling_values(name, 2)
    m = len(values)
    kinds = list(itertools.product(ALL, ALL, (0, 1)))

    def do(e, n):
        xs = [e.run.new(value_of_parts(e, 2, values[i]))
              for i in (n % m, n // m % m, n // m // m)]
        x, y, z = ({'o': 'x', 'x': i} for i in xs)
        for o, p, right in kinds:
            t = ({'o': o, 'l': x, 'r': {'o': p, 'l': y, 'r': z}} if right
                 else {'o': o, 'l': {'o': p, 'l': x, 'r': y}, 'r': z})
            e.run.tree(t, evaluate(e.run, t))

    return spread_over(1, m ** 3, do)


def all_closed(name):
    """Validity of the results for all the pairs of shaped values."""
    values = tiling_values(name, 2)
    m = len(values)

    def do(e, n):
        x, y = (e.run.new(value_of_parts(e, 2, values[i]))
                for i in (n % m, n // m))
        for i in e.run.pair(x, y, rel=False).values():
            e.run.is_valid(i)

    return spread_over(16, m * m, do)


@functools.lru_cache(None)
@functools.lru_cache(None)
def enumerations(prop, tier):
    """Workloads that enumerate finite spaces: (function, sessions)."""
    deep = tier != 'quick'
    if prop == 'C12':
        return [(lambda _, i: boxes_exhaustive(i), len(all_boxes()))]
    if prop == 'C09':
        return [piles(4), piles(5), sides(2), sides(3), rings(3), rings(4)
                ] + deep * [piles(6), sides(4), rings(5)]
    if prop == 'C04':
        return [all_closed('crossed'), all_closed('nest')] + deep * [
            all_closed(n) for n in ('two', 'star', 'fan')]
    if prop == 'C05':
        return deep * [all_triples('crossed')]
    if prop == 'C08':
        return [all_located(n, 2) for n in SMALL_TILINGS] + [
            all_located(n, 1) for n in ('crossed', 'two', 'nest')] + deep * [
                all_located(n, 1) for n in ('strip', 'fan', 'star')]
    if prop == 'C10':
        return [all_respelled(3), all_respelled(4)] + deep * [
            all_respelled(5)]
    if prop == 'C11':
        return [all_slices()]
    if prop == 'C13':
        return [all_oriented(3), all_oriented(4)] + deep * [
            all_oriented(5), all_oriented(6)]
    if prop == 'C14':
        return [all_delaunay(3, 3)] + deep * [
            all_delaunay(3, 4), all_delaunay(2, 6), all_delaunay(7, 2),
            all_delaunay(4, 4)]
    if prop == 'C15':
        return [all_constrained(n) for n in SMALL_TILINGS] + [
            all_holed('constrained')] + deep * [
            all_constrained(n) for n in LARGER_TILINGS]
    if prop == 'C16':
        return [all_trapezoidations(n, 2) for n in SMALL_TILINGS] + [
            all_trapezoidations(n, 1) for n in ('crossed', 'two', 'nest')
        ] + [all_holed('trapezoidation', every=1 if deep else 3)] + deep * (
            [all_trapezoidations(n, 2) for n in LARGER_TILINGS]
            + [all_trapezoidations('fan', 1)])
    both = ('and', 'or', 'sub', 'xor')
    if prop == 'C01':
        return [all_small('P3', 'P3', both, False),
                all_small('P3', 'P4', both, False)] + (
            [all_pairs(n, 2, 2, both, False) for n in (
                'fan', 'column', 'star', 'ladder', 'strip')]
            + [all_small(a, b, both, False) for a, b in (
                ('P4', 'P3'), ('P4', 'P4'), ('P3', 'P5'), ('P5', 'P4'))]
            if deep else [all_pairs('crossed', 2, 2, both, False),
                          all_pairs('nest', 2, 2, both, False)])
    if prop == 'C02':
        return [all_combs(4, both, False), all_small('S', 'S', both, False),
                all_small('S', 'M', both, False)] + deep * [
            all_combs(5, both, False), all_small('C3', 'M', both, False),
            all_small('C3', 'C4', both, False),
            all_small('M', 'M', both, False),
            all_pairs('crossed', 1, 1, both, False),
            all_pairs('two', 1, 1, both, False)]
    if prop == 'C03':
        cut, meet = ('and', 'sub'), ('and',)
        return [all_pairs('crossed', 1, 2, cut, False),
                all_small('S', 'P3', meet, False),
                all_small('S', 'P4', meet, False)] + deep * (
            [all_pairs(n, 1, 2, cut, False) for n in ('two', 'nest')]
            + [all_pairs(n, 2, 1, meet, False)
               for n in ('crossed', 'two', 'nest')]
            + [all_small('M', p, cut, False) for p in ('P3', 'P4')]
            + [all_small(a, b, cut, False)
               for a in ('C3', 'C4') for b in ('P3', 'P4')])
    if prop == 'C06':
        return [all_combs(4, (), True)] + [
            all_small(a, b, (), True) for a, b in (
                ('S', 'S'), ('S', 'M'), ('S', 'P3'), ('S', 'P4'),
                ('S', 'C3'), ('S', 'C4'), ('P3', 'P3'), ('P3', 'P4'))
        ] + (
            [all_pairs(n, a, b, (), True)
             for n in ('crossed', 'two', 'nest')
             for a, b in ((1, 1), (1, 2), (2, 1))]
            + [all_pairs(n, 2, 2, (), True)
               for n in ('fan', 'column', 'star', 'ladder', 'strip')]
            + [all_combs(5, (), True)]
            + [all_small(a, b, (), True) for a, b in (
                ('M', 'M'), ('C3', 'M'), ('M', 'P3'), ('M', 'P4'),
                ('C3', 'C4'), ('C4', 'C4'), ('C3', 'P4'), ('C4', 'P4'),
                ('P4', 'P4'), ('P4', 'P5'))]
            if deep else [all_pairs(n, 2, 2, (), True)
                          for n in ('crossed', 'nest')]
            + [all_pairs('crossed', 1, 2, (), True)])
    return []


def enumerated(prop, tier):
    return sum(n for _, n in enumerations(prop, tier))


def make(prop, seed, index):
    """The session number index of a property: a recorded Run."""
    rng = random.Random(f'{prop}/{seed}/{index}')
    tier = os.environ.get('TIER', 'quick')
    enum = enumerations(prop, tier)
    at = index
    if prop in REPLAYS:
        if at < len(behaviours()):
            return replay(REPLAYS[prop])(rng, at)
        at -= len(behaviours())
    if tier != 'quick':         # small spaces first, random ones in between
        enum = sorted(enum, key=lambda e: e[1])
        count = enumerated(prop, tier)
        at = (at // 2 if at % 2 == 0 else count) if at < 2 * count else at
    for fn, count in enum:
        if at < count:
            return fn(rng, at)
        at -= count
    fns = WORKLOADS[prop]
    fn = rng.choices([f for f, _ in fns], [w for _, w in fns])[0]
    return fn(rng)
