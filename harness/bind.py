"""Binding of the steps of spec/Library.tla to the public API of rene.exact.

A Run executes steps on real objects and records them with their outcomes in
the vocabulary of the specification.  Grid points are carried into the plane
the library sees by an exactly invertible affine map (the embedding), and
every coordinate read back is carried to the grid again; what does not come
back to a representable point becomes <<0, 0, 0>>, which the specification
accepts nowhere.
"""
from __future__ import annotations

import random
import re
import signal
import sys
import threading
from fractions import Fraction as F
from math import gcd

import rene.enums
import rene.exact as ex
import rithm.fraction
from rithm.integer import Int

RF = rithm.fraction.Fraction
BAD_POINT = [0, 0, 0]
SCALE_LIMIT = 1024
CALL_SECONDS = 12.


class CallTimeout(BaseException):
    pass


def _on_alarm(_signum, _frame):
    raise CallTimeout


signal.signal(signal.SIGVTALRM, _on_alarm)


class Stop(Exception):
    """The rest of the session depends on a value that does not exist."""


class Embedding:
    """(x, y) -> ((a x + b y) / q + e, (c x + d y) / q + f)"""

    def __init__(self, a=1, b=0, c=0, d=1, q=1, e=0, f=0, numbers='int'):
        self.m = tuple(F(v) / q for v in (a, b, c, d))
        self.t = (F(e), F(f))
        self.numbers = numbers
        self.count = 0
        self.identity = (self.m == (1, 0, 0, 1) and self.t == (0, 0))
        a, b, c, d = self.m
        self.det = a * d - b * c
        self.diagonal = b == c == 0 and a > 0 and d > 0
        self.inv = (d / self.det, -b / self.det, -c / self.det, a / self.det)

    def describe(self):
        return {'m': [str(v) for v in self.m], 't': [str(v) for v in self.t],
                'numbers': self.numbers}

    @classmethod
    def from_description(cls, s):
        a, b, c, d = map(F, s['m'])
        return cls(a, b, c, d, 1, F(s['t'][0]), F(s['t'][1]), s['numbers'])

    def scalar(self, v):
        v = F(v)
        numbers = self.numbers
        if numbers == 'mixed':      # another kind every time
            self.count += 1
            numbers = ('int', 'fraction', 'float', 'stdlib',
                       'integer')[self.count * 7 % 31 % 5]
        if numbers == 'float' and abs(v) < 2 ** 1000 \
                and F(float(v)) == v:
            return float(v)
        if v.denominator == 1 and numbers != 'fraction':
            return Int(v.numerator) if numbers == 'integer' else v.numerator
        return (RF(v.numerator, v.denominator)
                if numbers != 'stdlib' else v)

    def forward(self, p):
        x, y = p
        if self.identity and self.numbers == 'int' and type(x) is int:
            return x, y
        a, b, c, d = self.m
        return (self.scalar(a * x + b * y + self.t[0]),
                self.scalar(c * x + d * y + self.t[1]))

    def back(self, x, y):
        """Values of the library -> [X, Y, D] on the grid."""
        x, y = to_f(x), to_f(y)
        if not self.identity:
            x, y = x - self.t[0], y - self.t[1]
            a, b, c, d = self.inv
            x, y = a * x + b * y, c * x + d * y
        dx, dy = x.denominator, y.denominator
        g = dx * dy // gcd(dx, dy)
        X, Y = x.numerator * (g // dx), y.numerator * (g // dy)
        if g > SCALE_LIMIT or abs(X) > 64 * g or abs(Y) > 64 * g:
            return list(BAD_POINT)
        return [X, Y, g]

    def back_axis(self, v, axis):
        """One coordinate under a diagonal embedding -> [n, d]."""
        v = (to_f(v) - self.t[axis]) / self.m[0 if axis == 0 else 3]
        if v.denominator > SCALE_LIMIT or abs(v) > 64:
            return [0, 0]
        return [v.numerator, v.denominator]


def to_f(v):
    return F(int(v.numerator), int(v.denominator))


IDENTITY = Embedding()


def colliding_embedding(rng):
    """Different coordinates that have the same hash."""
    # hash(-1) == hash(-2), hash(x + prime) == hash(x)
    prime = 2 ** 61 - 1
    if rng.random() < .5:
        return Embedding(e=-rng.randint(1, 9), f=-rng.randint(1, 9),
                         numbers=rng.choice(['int', 'int', 'mixed']))
    e, f = (rng.choice([0, 5, -prime, -3]) for _ in range(2))
    return Embedding(prime, 0, 0, prime, 1, e, f,
                     rng.choice(['int', 'int', 'fraction', 'mixed']))


def affine_embedding(rng, orientation=False, diagonal=False):
    """A random embedding; orientation: preserve it."""
    if rng.random() < .15:
        return colliding_embedding(rng)
    k = rng.randrange(10)
    numbers = rng.choice(['int', 'fraction', 'stdlib', 'float', 'integer',
                          'mixed'])
    if k < 2:
        return Embedding(numbers=numbers)
    big = rng.choice([3, 10 ** 6 + 3, 2 ** 53 + 1, 10 ** 30 + 57,
                      10 ** 200 + 9])
    q = rng.choice([1, 1, 2, 3, 7, 2 ** 20, 10 ** 9 + 7, 10 ** 170,
                    2 ** 600])
    e, f = (rng.choice([0, 0, 1, -7, 10 ** 20 + 1, -(2 ** 64) - 3,
                        F(1, 3), F(-10 ** 12, 11)]) for _ in range(2))
    if diagonal:
        return Embedding(rng.choice([1, 2, big]), 0, 0,
                         rng.choice([1, 3, big]), q, e, f, numbers)
    if k == 2:      # swap or turn axes
        m = rng.choice([(0, 1, 1, 0), (0, -1, 1, 0), (0, 1, -1, 0),
                        (-1, 0, 0, -1), (-1, 0, 0, 1), (1, 0, 0, -1)])
    elif k == 3:
        m = (1, rng.choice([1, -1, 17, big]), 0, 1)
    elif k == 4:
        m = (1, 0, rng.choice([1, -1, 17, big]), 1)
    elif k == 5:
        m = (big, 0, 0, 1)
    elif k == 6:
        m = (big, 0, 0, big)
    else:
        while True:
            m = tuple(rng.randint(-5, 5) for _ in range(4))
            if m[0] * m[3] != m[1] * m[2]:
                break
    if orientation and m[0] * m[3] < m[1] * m[2]:
        m = (m[1], m[0], m[3], m[2])
    return Embedding(*m, q, e, f, numbers)


def similarity_embedding(rng):
    """Scaling, turn, mirroring and shift: keeps circles."""
    if rng.random() < .15:
        return colliding_embedding(rng)
    k = rng.randrange(6)
    numbers = rng.choice(['int', 'fraction', 'stdlib', 'float', 'integer',
                          'mixed'])
    if k < 2:
        return Embedding(numbers=numbers)
    while True:
        a, b = rng.randint(-4, 4), rng.randint(-4, 4)
        if (a, b) != (0, 0):
            break
    s = rng.choice([1, 1, 10 ** 20 + 39, 10 ** 160 + 7])
    a, b = a * s, b * s
    m = (a, -b, b, a) if rng.random() < .5 else (a, b, b, -a)
    q = rng.choice([1, 1, 3, 2 ** 20, 10 ** 9 + 7, 10 ** 110])
    e, f = (rng.choice([0, 1, -10 ** 20, F(1, 3)]) for _ in range(2))
    return Embedding(*m, q, e, f, numbers)


def N(name):
    return {'t': 'N', 'c': name}


def X(name):
    return {'t': 'X', 'c': name}


OPS = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b,
       'sub': lambda a, b: a - b, 'xor': lambda a, b: a ^ b}


class Run:
    def __init__(self, emb=IDENTITY):
        self.emb = emb
        self.objects = []
        self.values = []
        self.steps = []
        self.timeouts = 0
        self.sources = []       # the lists values were built from
        self.given = []         # with what they contained
        self.made = len(emb.numbers)        # counts the sequences given

    # -- calls

    def call(self, fn, *args):
        """-> (value, None) or (None, exception outcome)"""
        signal.setitimer(signal.ITIMER_VIRTUAL, CALL_SECONDS)
        try:
            try:
                return fn(*args), None
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except CallTimeout:
            self.timeouts += 1
            return None, X('Timeout')
        except Exception as e:
            return None, X(type(e).__name__)

    def observe(self, fn, read, *args):
        """Outcome of a call: what was returned, as read, or raised."""
        v, x = self.call(fn, *args)
        if x is not None:
            return x, None
        r, x = self.call(read, v)
        return (r, v) if x is None else (X('Unreadable'), None)

    # -- encoding

    def grid(self, p):
        x, y = p
        if type(x) is int and type(y) is int:
            return [x, y, 1]
        x, y = F(x), F(y)
        g = x.denominator * y.denominator // gcd(x.denominator, y.denominator)
        return [int(x * g), int(y * g), g]

    def encode(self, g):
        t, c = g
        if t in ('S', 'C'):
            return {'t': t, 'c': [self.grid(p) for p in c]}
        if t in ('M', 'P'):
            return {'t': t, 'c': [[self.grid(p) for p in s] for s in c]}
        if t == 'MP':
            return {'t': t, 'c': [[[self.grid(p) for p in r] for r in q]
                                  for q in c]}
        if t == 'PT':
            return {'t': t, 'c': self.grid(c)}
        if t == 'B':
            return {'t': t, 'c': [[F(v).numerator, F(v).denominator]
                                  for v in c]}
        return {'t': t, 'c': []}

    def point(self, p):
        return ex.Point(*self.emb.forward(p))

    def source(self, values, view=None):
        """A sequence to build a value from: a list, a tuple or a view."""
        values = list(values)
        self.made += 1
        kind = (self.made * 2654435761 >> 9) % 6
        if kind == 0:
            return tuple(values)
        if kind == 1 and view is not None:
            try:
                return view(values)
            except ValueError:      # too few of them
                return values
        self.sources.append(values)
        self.given.append((values, list(values)))
        return values

    def args(self):
        """Are the lists given to calls as they were given?"""
        for now, was in self.given:
            ids = {}
            w, r = ([ids.setdefault(id(v), len(ids)) for v in vs]
                    for vs in (was, now))
            if r != w or not self.steps or self.steps[-1]['a'] != 'args':
                self.add(a='args', w=w, r=r)

    def contour(self, r):
        return ex.Contour(self.source(
            (self.point(p) for p in r), lambda v: ex.Contour(v).vertices))

    def polygon(self, q):
        b = self.contour(q[0])
        return ex.Polygon(b, self.source(
            (self.contour(h) for h in q[1:]),
            lambda v: ex.Polygon(b, v).holes))

    def build(self, g):
        t, c = g
        if t == 'E':
            return ex.Empty()
        if t == 'PT':
            return self.point(c)
        if t == 'S':
            return ex.Segment(self.point(c[0]), self.point(c[1]))
        if t == 'M':
            return ex.Multisegment(self.source(
                (ex.Segment(self.point(a), self.point(b)) for a, b in c),
                lambda v: ex.Multisegment(v).segments))
        if t == 'C':
            return self.contour(c)
        if t == 'P':
            return self.polygon(c)
        if t == 'MP':
            return ex.Multipolygon(self.source(
                (self.polygon(q) for q in c),
                lambda v: ex.Multipolygon(v).polygons))
        if t == 'B':
            x0, y0 = self.emb.forward((c[0], c[2]))
            x1, y1 = self.emb.forward((c[1], c[3]))
            return ex.Box(x0, x1, y0, y1)
        raise ValueError(t)

    def read_point(self, p):
        assert type(p) is ex.Point
        return self.emb.back(p.x, p.y)

    def read_ring(self, c):
        assert type(c) is ex.Contour
        return [self.read_point(p) for p in c.vertices]

    def read_polygon(self, p):
        assert type(p) is ex.Polygon
        return [self.read_ring(p.border), *map(self.read_ring, p.holes)]

    def read_segment(self, s):
        assert type(s) is ex.Segment
        return [self.read_point(s.start), self.read_point(s.end)]

    def read(self, v):
        """An object of the library -> a value of the specification."""
        t = type(v)
        if t is ex.Empty:
            return {'t': 'E', 'c': []}
        if t is ex.Point:
            return {'t': 'PT', 'c': self.read_point(v)}
        if t is ex.Segment:
            return {'t': 'S', 'c': self.read_segment(v)}
        if t is ex.Multisegment:
            return {'t': 'M', 'c': [self.read_segment(s) for s in v.segments]}
        if t is ex.Contour:
            return {'t': 'C', 'c': self.read_ring(v)}
        if t is ex.Polygon:
            return {'t': 'P', 'c': self.read_polygon(v)}
        if t is ex.Multipolygon:
            return {'t': 'MP', 'c': [self.read_polygon(p)
                                     for p in v.polygons]}
        if t is ex.Box:
            b = self.emb.back_axis
            return {'t': 'B', 'c': [b(v.min_x, 0), b(v.max_x, 0),
                                    b(v.min_y, 1), b(v.max_y, 1)]}
        return X('Unknown' + t.__name__)

    @staticmethod
    def read_name(v):
        if type(v) is bool:
            return N(str(v))
        if isinstance(v, (rene.enums.Location, rene.enums.Orientation,
                          rene.enums.Relation)):
            return N(v.name)
        return X('Unknown' + type(v).__name__)

    @staticmethod
    def read_int(v):
        return {'t': 'I', 'c': int(v)} if isinstance(v, int) \
            and abs(v) < 2 ** 30 else X('NotInt')

    def read_list(self, v):
        return {'t': 'L', 'c': [self.read(x) for x in v]}

    # -- the state machine's steps

    def _produce(self, r, v):
        self.objects.append(v)
        self.values.append(r)
        return len(self.objects)

    def add(self, **step):
        self.steps.append(step)
        return step['r'] if 'r' in step else None

    def new(self, g, expect=''):
        r, v = self.observe(self.build, self.read, g)
        self.add(a='new', g=self.encode(g), r=r)
        i = self._produce(r, v)
        if v is None and not expect:
            raise Stop(self)
        return i

    def usable(self, *ids):
        if any(self.objects[i - 1] is None for i in ids):
            raise Stop(self)

    def op(self, op, x, y):
        self.usable(x, y)
        r, v = self.observe(OPS[op], self.read, self.objects[x - 1],
                            self.objects[y - 1])
        self.add(a='op', op=op, x=x, y=y, r=r)
        return self._produce(r, v)

    def raw(self, op, x, y):
        """An intermediate operation: recorded, decided by a later tree."""
        self.usable(x, y)
        r, v = self.observe(OPS[op], self.read, self.objects[x - 1],
                            self.objects[y - 1])
        self.add(a='raw', op=op, x=x, y=y, r=r)
        return self._produce(r, v)

    def pair(self, x, y, ops=('and', 'or', 'sub', 'xor'), rel=True, rev=True):
        self.usable(x, y)
        a, b = self.objects[x - 1], self.objects[y - 1]
        st = {'a': 'pair', 'x': x, 'y': y}
        ids = {}
        for o in ('and', 'or', 'sub', 'xor'):
            if o in ops:
                st[o], v = self.observe(OPS[o], self.read, a, b)
                ids[o] = self._produce(st[o], v)
        if rel:
            st['rel'], _ = self.observe(a.relate_to, self.read_name, b)
            if rev:
                st['rev'], _ = self.observe(b.relate_to, self.read_name, a)
        self.steps.append(st)
        return ids

    def rel(self, x, y):
        self.usable(x, y)
        r, _ = self.observe(self.objects[x - 1].relate_to, self.read_name,
                            self.objects[y - 1])
        self.add(a='rel', x=x, y=y, r=r)

    def tree(self, e, x):
        """Value x is that of the expression e."""
        self.add(a='tree', e=e, x=x, r=self.values[x - 1])

    def locs(self, x, points, via=None, **extra):
        """Locate points in a value (or in an object made of it)."""
        self.usable(x)
        o = self.objects[x - 1] if via is None else via
        rs, ins = [], []
        for p in points:
            q = self.point(p)
            rs.append(self.observe(o.locate, self.read_name, q)[0])
            ins.append(self.observe(lambda: q in o, self.read_name)[0])
            if self.timeouts:
                break
        points = points[:len(rs)]
        self.add(a='locs', x=x, ps=[self.grid(p) for p in points],
                 r=rs, ins=ins, **extra)

    def denotes(self, x, st):
        """Value x denotes the abstract value of the machine's step."""
        self.add(a='denotes', x=x, k=st['k'], s=st['s'], r=self.values[x - 1])

    def found(self, x, points, wanted):
        """The points lie where the abstract machine says."""
        o = self.objects[x - 1]
        rs = []
        for p in points:
            q = self.point(p)
            rs.append(self.observe(o.locate, self.read_name, q)[0])
            if self.timeouts:
                break
        self.add(a='found', x=x, ps=[self.grid(p) for p in points[:len(rs)]],
                 w=wanted[:len(rs)], r=rs)

    def complement(self, name):
        r, _ = self.observe(lambda: rene.enums.Relation[name].complement,
                            self.read_name)
        self.add(a='complement', w=name, r=r)

    def valid(self, x):
        self.usable(x)
        r, _ = self.observe(self.objects[x - 1].is_valid, self.read_name)
        self.add(a='valid', x=x, r=r)

    def is_valid(self, x):
        """The library's validity of a value, which must hold."""
        o = self.objects[x - 1]
        if o is None:
            return
        cs = []
        if type(o) in (ex.Contour, ex.Multisegment):
            cs = [o]
        elif type(o) is ex.Polygon:
            cs = [o.border, *o.holes]
        elif type(o) is ex.Multipolygon:
            cs = [c for p in o.polygons for c in (p.border, *p.holes)]
        for c in cs:
            r, _ = self.observe(c.is_valid, self.read_name)
            self.add(a='isvalid', x=x, r=r)

    def eq(self, x, y):
        self.usable(x, y)
        a, b = self.objects[x - 1], self.objects[y - 1]
        f = self.read_name
        self.add(a='eq', x=x, y=y, r={
            'eq': self.observe(lambda: a == b, f)[0],
            'qe': self.observe(lambda: b == a, f)[0],
            'ne': self.observe(lambda: a != b, f)[0],
            'hash': self.observe(lambda: hash(a) == hash(b), f)[0]})

    def cmp(self, x, y):
        self.usable(x, y)
        a, b = self.objects[x - 1], self.objects[y - 1]
        f = self.read_name
        self.add(a='cmp', x=x, y=y, r={
            'lt': self.observe(lambda: a < b, f)[0],
            'le': self.observe(lambda: a <= b, f)[0],
            'gt': self.observe(lambda: a > b, f)[0],
            'ge': self.observe(lambda: a >= b, f)[0]})

    def peek(self, x):
        if self.objects[x - 1] is None:
            return
        r, _ = self.observe(lambda: self.objects[x - 1], self.read)
        self.add(a='peek', x=x, r=r)

    def scramble(self, rng):
        """The caller reuses the lists it has built values from."""
        for s in self.sources:
            k = rng.randrange(4)
            if k == 0:
                s.clear()
            elif k == 1:
                s.reverse()
            elif k == 2 and s:
                s.pop(rng.randrange(len(s)))
            elif s:
                s.append(s[0])
        self.sources = []
        self.given = []
        for o in self.objects:      # and the lists it was given
            for w in ('vertices', 'segments', 'holes', 'polygons'):
                if o is not None and hasattr(o, w):
                    given = self.call(lambda: getattr(o, w)[:])[0]
                    if isinstance(given, list):
                        given.clear()
        self.add(a='scramble')

    def again(self, of, r):
        self.add(a='again', of=of, r=r)

    def repr(self, x):
        self.usable(x)
        ns = {'Fraction': RF, 'Int': getattr(rithm, 'Int', int)}
        ns.update({n: getattr(ex, n) for n in (
            'Box', 'Contour', 'Empty', 'Multipolygon', 'Multisegment',
            'Point', 'Polygon', 'Segment')})
        r, _ = self.observe(lambda: eval(repr(self.objects[x - 1]), ns),
                            self.read)
        self.add(a='repr', x=x, r=r)
        ns['Q'] = F

        def parsed():
            text = re.sub(r'(-?\d+)/(\d+)', r'Q(\1, \2)',
                          str(self.objects[x - 1]))
            return eval(text, ns)

        r, _ = self.observe(parsed, self.read)
        self.add(a='str', x=x, r=r)

    def orientation(self, x):
        self.usable(x)
        r, _ = self.observe(lambda: self.objects[x - 1].orientation,
                            self.read_name)
        self.add(a='orientation', x=x, r=r)

    def bbox(self, x):
        self.usable(x)
        r, v = self.observe(lambda: self.objects[x - 1].bounding_box,
                            self.read)
        self.add(a='bbox', x=x, r=r)
        return self._produce(r, v)

    def box(self, x, y):
        self.usable(x, y)
        a, b = self.objects[x - 1], self.objects[y - 1]
        self.add(a='box', x=x, y=y, r={
            m: self.observe(getattr(a, m), self.read_name, b)[0]
            for m in ('covers', 'within', 'encloses', 'enclosed_by',
                      'equals_to', 'disjoint_with', 'touches', 'overlaps',
                      'relate_to')})

    def view(self, x, y, w, rng, count=14):
        self.usable(x, y)
        o, p = self.objects[x - 1], self.objects[y - 1]
        (v, ex_), (u, ey) = (self.call(getattr, o, w), self.call(getattr, p, w))
        if ex_ is not None or ey is not None:
            self.add(a='is', w='True', r=X('NoView'))
            return
        cut = {}
        for name in ('sx', 'sy'):       # slices are views, too
            if rng.random() < .25:
                i, j = ([] if rng.random() < .4 else [rng.randint(-5, 5)]
                        for _ in range(2))
                k = [] if rng.random() < .4 else [
                    rng.choice([1, -1, -1, 2, -2])]
                at = slice(*(b[0] if b else None for b in (i, j, k)))
                w2, x2 = self.call(lambda: (v if name == 'sx' else u)[at])
                if x2 is not None:
                    self.add(a='is', w='True', r=X('NoSlice'))
                    return
                cut[name] = {'i': i, 'j': j, 'k': k}
                if name == 'sx':
                    v = w2
                else:
                    u = w2
        n, _ = self.call(len, v)
        n = n if isinstance(n, int) else 0
        q = []

        def put(m, fn, read, **args):
            q.append({'m': m, **args, 'r': self.observe(fn, read)[0]})

        put('len', lambda: len(v), self.read_int)
        put('iter', lambda: list(v), self.read_list)
        put('reversed', lambda: list(reversed(v)), self.read_list)
        for name, fn in (('eq', lambda: v == u), ('ne', lambda: v != u),
                         ('hasheq', lambda: hash(v) == hash(u))):
            put(name, fn, self.read_name)
        lo = -n - 2
        hi = n + 2

        def bound(p_none=.25):
            return [] if rng.random() < p_none else [rng.randint(lo, hi)]

        def dec(b):
            return b[0] if b else None

        pool = list(v) + list(u)
        pool = pool + [o] if pool else [None]
        for _ in range(count):
            m = rng.randrange(6)
            i, j = bound(), bound()
            if m == 0:
                k = rng.randint(lo, hi)
                put('get', lambda: v[k], self.read, i=k)
            elif m <= 2:
                k = [] if rng.random() < .3 else [rng.choice(
                    [1, 1, -1, 2, -2, 3, -3, 0])]
                put('slice', lambda: v[dec(i):dec(j):dec(k)], self.read_list,
                    i=i, j=j, k=k)
            else:
                e = rng.choice(pool)
                if e is None:
                    continue
                ev = self.read(e)
                if m == 3:
                    put('count', lambda: v.count(e), self.read_int, v=ev)
                elif m == 4:
                    put('contains', lambda: e in v, self.read_name, v=ev)
                else:
                    if not i and j:
                        i = [0]
                    put('index', lambda: v.index(e, *i, *j), self.read_int,
                        v=ev, i=i, j=j)
        self.add(a='view', x=x, y=y, w=w, q=q, **cut)

    def view_all(self, x, w, part):
        """A twelfth of all the slices and searches of a sequence."""
        v, e = self.call(getattr, self.objects[x - 1], w)
        n, _ = self.call(len, v)
        if e is not None or not isinstance(n, int):
            self.add(a='is', w='True', r=X('NoView'))
            return
        some = [[]] + [[i] for i in range(-n - 2, n + 3)]
        todo = [('slice', i, j, k) for i in some for j in some
                for k in [[]] + [[k] for k in (-3, -2, -1, 0, 1, 2, 3)]]
        todo += [('index', i, j, k) for i in some for j in some
                 for k in range(n) if i or not j]
        todo += [('get', i, None, None) for i in range(-n - 2, n + 2)]

        def dec(b):
            return b[0] if b else None

        q = []
        for m, i, j, k in todo[part::12]:
            if m == 'slice':
                r = self.observe(lambda: v[dec(i):dec(j):dec(k)],
                                 self.read_list)[0]
                q.append({'m': m, 'i': i, 'j': j, 'k': k, 'r': r})
            elif m == 'get':
                q.append({'m': m, 'i': i,
                          'r': self.observe(lambda: v[i], self.read)[0]})
            else:
                o, _ = self.call(lambda: v[k])
                if o is None:
                    continue
                r = self.observe(lambda: v.index(o, *i, *j), self.read_int)[0]
                q.append({'m': m, 'v': self.read(o), 'i': i, 'j': j, 'r': r})
        self.add(a='view', x=x, y=x, w=w, q=q)

    # -- triangulations

    def _mesh(self, make, again=False):
        t, x = self.call(make)
        if x is not None:
            return x
        if again:       # what is done to a result does not reach the next
            for w in ('triangles', 'border'):
                given = self.call(lambda: getattr(t, w))[0]
                if isinstance(given, list):
                    given.clear()
        tris, x = self.call(lambda: [[self.read_point(p) for p in c.vertices]
                                     for c in t.triangles])
        if x is not None:
            return x
        border, _ = self.observe(lambda: t.border, self.read)
        return {'t': 'T', 'c': tris, 'b': border}

    def delaunay(self, points, again=False):
        ps = [self.point(p) for p in points]
        if again:
            self.given.append((ps, list(ps)))
        r = self._mesh(lambda: ex.DelaunayTriangulation.from_points(ps),
                       again)
        self.add(a='delaunay', ps=[self.grid(p) for p in points], r=r)

    def constrained(self, x, again=False):
        self.usable(x)
        r = self._mesh(
            lambda: ex.ConstrainedDelaunayTriangulation.from_polygon(
                self.objects[x - 1]), again)
        self.add(a='constrained', x=x, r=r)

    def together(self, log):
        """Calls made before are made again, by threads at one time."""
        jobs = []
        for of, kind, op, x, y in log:
            a, b = self.objects[x - 1], self.objects[y - 1]
            jobs.append((of, (OPS[op], a, b) if kind == 'op'
                         else (a.relate_to, b),
                         self.read if kind == 'op' else self.read_name))
        outcomes = [X('Nothing')] * len(jobs)

        def work(k):
            _, (fn, *args), read = jobs[k]
            try:
                outcomes[k] = read(fn(*args))
            except Exception as e:
                outcomes[k] = X(type(e).__name__)

        threads = [threading.Thread(target=work, args=(k,), daemon=True)
                   for k in range(len(jobs))]
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join(3 * CALL_SECONDS)
        finally:
            sys.setswitchinterval(interval)
        for (of, _, _), r in zip(jobs, outcomes):
            self.again(of, r)

    def trapezoidation(self, x, seed, points, again=False):
        """seed: an int or None for the library's own choice."""
        self.usable(x)
        o = self.objects[x - 1]
        make = (ex.Trapezoidation.from_polygon if type(o) is ex.Polygon
                else ex.Trapezoidation.from_multisegment)
        t, e = self.call(lambda: make(o) if seed is None
                         else make(o, seeder=lambda: seed))
        if e is not None:
            self.add(a='is', w='True', r=e,
                     note=f'trapezoidation of {x} with seed {seed}')
            return None
        h, _ = self.observe(lambda: t.height, self.read_int)
        self.add(a='is', w='True',
                 r=N(str(h['t'] == 'I' and h['c'] >= 1)), height=h['c'])
        if seed is not None and again:
            u, _ = self.call(lambda: make(o, seeder=lambda: seed))
            self.add(a='is', w='True', note='height of another one', r=N(str(
                u is not None and self.observe(
                    lambda: u.height, self.read_int)[0] == h)))
        self.locs(x, points, via=t, seed=str(seed))
        return t

    def within(self, x, seed, points, of, kind, op, a, b):
        """A trapezoidation whose seeder makes an earlier call again."""
        o = self.objects[x - 1]
        make = (ex.Trapezoidation.from_polygon if type(o) is ex.Polygon
                else ex.Trapezoidation.from_multisegment)
        a, b = self.objects[a - 1], self.objects[b - 1]
        inner = []

        def seeder():
            r = OPS[op](a, b) if kind == 'op' else a.relate_to(b)
            inner.append((self.read if kind == 'op' else self.read_name)(r))
            return seed

        t, e = self.call(lambda: make(o, seeder=seeder))
        self.again(of, inner[0] if inner else e or X('NotCalled'))
        if t is not None:
            self.locs(x, points, via=t, seed=str(seed))

    def raises(self, w, fn, note):
        _, x = self.call(fn)
        self.add(a='raises', w=w, r=x if x is not None else N('Nothing'),
                 note=note)
