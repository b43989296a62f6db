"""mkdemo.py REPLAY: a demonstration of the step a replay file is about, as a
program whose expectations are what the library in /repo does now.

    PYTHONPATH=/repo /opt/venv/bin/python tools/mkdemo.py REPLAY > demo.py
"""
import json
import sys
from fractions import Fraction as F

from rene.exact import *  # noqa

OPS = {'and': '&', 'or': '|', 'sub': '-', 'xor': '^'}


def num(n, d):
    f = F(n, d)
    return str(f.numerator) if f.denominator == 1 \
        else f'F({f.numerator}, {f.denominator})'


def pt(c):
    return f'Point({num(c[0], c[2])}, {num(c[1], c[2])})'


def seg(s):
    return f'Segment({pt(s[0])}, {pt(s[1])})'


def ring(r):
    return 'Contour([' + ', '.join(map(pt, r)) + '])'


def poly(q):
    return f'Polygon({ring(q[0])}, [{", ".join(map(ring, q[1:]))}])'


def src(v):
    t, c = v['t'], v['c']
    if t == 'E':
        return 'Empty()'
    if t == 'PT':
        return pt(c)
    if t == 'S':
        return seg(c)
    if t == 'M':
        return 'Multisegment([' + ', '.join(map(seg, c)) + '])'
    if t == 'C':
        return ring(c)
    if t == 'P':
        return poly(c)
    if t == 'MP':
        return 'Multipolygon([' + ', '.join(map(poly, c)) + '])'
    if t == 'B':
        return 'Box(' + ', '.join(num(*b) for b in c) + ')'
    raise ValueError(t)


def main():
    d = json.load(open(sys.argv[1]))
    heap = []
    out = ['from rithm.fraction import Fraction as F',
           'from rene.enums import *', 'from rene.exact import *', '']
    for i, s in enumerate(d['steps'], 1):
        if i == d['step']:
            break
        if s['a'] in ('new', 'op', 'raw', 'bbox'):
            heap.append(s['r'])
        elif s['a'] == 'pair':
            heap += [s[o] for o in ('and', 'or', 'sub', 'xor') if o in s]
    a = s['a']
    from rithm.fraction import Fraction
    import rene.enums as en
    ns = dict(globals(), F=Fraction, **{n: getattr(en, n) for n in (
        'Location', 'Orientation', 'Relation')})

    def let(name, v):
        out.append(f'{name} = {v}')
        exec(out[-1], ns)

    if a in ('new',):
        let('x', src(s['g']))
        return print('\n'.join(out))
    let('x', src(heap[s['x'] - 1]))
    if 'y' in s:
        let('y', src(heap[s['y'] - 1]))
    exprs = []
    if a == 'pair':
        exprs = [f'x {OPS[o]} y' for o in OPS if o in s]
        exprs += ['x.relate_to(y)'] if 'rel' in s else []
        exprs += ['y.relate_to(x)'] if 'rev' in s else []
    elif a in ('op', 'raw'):
        exprs = [f'x {OPS[s["op"]]} y']
    elif a == 'rel':
        exprs = ['x.relate_to(y)']
    elif a in ('locs', 'found'):
        if 'seed' in s:
            k = '' if s['seed'] == 'None' \
                else f', seeder=lambda: {s["seed"]}'
            m = 'polygon' if heap[s['x'] - 1]['t'] == 'P' else 'multisegment'
            let('t', f'Trapezoidation.from_{m}(x{k})')
            exprs = [f't.locate({pt(p)})' for p in s['ps']]
        else:
            exprs = [f'x.locate({pt(p)})' for p in s['ps']]
    elif a in ('valid', 'isvalid'):
        exprs = ['x.is_valid()']
    elif a == 'orientation':
        exprs = ['x.orientation']
    elif a == 'bbox':
        exprs = ['x.bounding_box']
    elif a == 'eq':
        exprs = ['x == y', 'hash(x) == hash(y)']
    elif a == 'box':
        exprs = [f'x.{m}(y)' for m in s['r']]
    elif a == 'constrained':
        let('t', 'ConstrainedDelaunayTriangulation.from_polygon(x)')
        exprs = ['len(t.triangles)', 't.border']
    else:
        raise ValueError(a)
    for e in exprs:
        v = eval(e, ns)
        want = ('Relation.' + v.name if type(v) is en.Relation else
                'Location.' + v.name if type(v) is en.Location else
                'Orientation.' + v.name if type(v) is en.Orientation
                else repr(v).replace('Fraction(', 'F('))
        out.append(f'assert {e} == {want}, {e}')
    print('\n'.join(out))


main()
