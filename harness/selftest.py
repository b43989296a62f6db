"""Is the judge to be trusted?

    selftest.py [SESSIONS]

1. The Java evaluators agree with the TLA+ definitions they stand for: sessions
   of every property, as recorded and corrupted, are judged with and without
   them, and the same clauses must be reported.
2. Corrupted outcomes are rejected: for every action, outcomes are replaced by
   slightly different ones, and the corruptions that are accepted are counted.
3. The two semantics agree on all the values of small tilings (MC_Tilings).
4. MC_Tilings notices when the semantics are changed.
"""
from __future__ import annotations

import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

import check

PROPS = [f'C{k:02}' for k in range(1, 20)]
NAMES = [['INTERIOR', 'BOUNDARY', 'EXTERIOR'],
         ['True', 'False'],
         ['CLOCKWISE', 'COUNTERCLOCKWISE', 'COLLINEAR'],
         ['COMPONENT', 'COMPOSITE', 'COVER', 'CROSS', 'DISJOINT', 'ENCLOSED',
          'ENCLOSES', 'EQUAL', 'OVERLAP', 'TOUCH', 'WITHIN']]


def corrupt_value(rng, v):
    """A value slightly different from v."""
    v = copy.deepcopy(v)
    t, c = v['t'], v['c']
    if t == 'N':
        for ns in NAMES:
            if c in ns:
                v['c'] = rng.choice([n for n in ns if n != c])
                return v
        return {'t': 'N', 'c': 'other'}
    if t == 'I':
        v['c'] += rng.choice([-1, 1])
        return v
    if t == 'X':
        v['c'] = 'OtherError'
        return v
    if t == 'E':
        return {'t': 'S', 'c': [[0, 0, 1], [3, 1, 1]]}
    if t == 'L':
        if not c:
            v['c'] = [{'t': 'PT', 'c': [0, 0, 1]}]
        elif rng.random() < .5:
            c.pop(rng.randrange(len(c)))
        else:
            i = rng.randrange(len(c))
            c[i] = corrupt_value(rng, c[i])
        return v
    if t in ('PT',):
        c[rng.randrange(2)] += c[2]
        return v
    if t == 'B':
        i = rng.randrange(4)
        c[i] = [c[i][0] + c[i][1], c[i][1]]
        return v
    if t == 'T':
        if c and rng.random() < .5:
            c.pop(rng.randrange(len(c)))
        elif c and rng.random() < .5:
            i = rng.randrange(len(c))
            c.append(c[i])
        elif v['b']['t'] == 'C':
            v['b'] = corrupt_value(rng, v['b'])
        return v
    k = rng.randrange(3)
    if k == 0 and t in ('M', 'P', 'MP') and len(c) > 1:
        c.pop(rng.randrange(len(c)))
        return v
    if k == 1 and t == 'C' and len(c) > 3:
        c.pop(rng.randrange(len(c)))
        return v
    part = v['c']
    while part and isinstance(part[0][0], list):
        part = rng.choice(part)
    p = rng.choice(part)
    p[rng.randrange(2)] += rng.choice([-1, 1]) * p[2]
    return v


def corruptible(st):
    """Places of outcomes in a step."""
    a = st['a']
    if a in ('raw', 'scramble'):
        return []
    if a == 'denotes':      # the value itself was corrupted then
        return [('s', i) for i in range(len(st['s']))]
    if a == 'pair':
        return [(k,) for k in ('and', 'or', 'sub', 'xor', 'rel', 'rev')
                if k in st]
    if a in ('locs', 'found'):
        return [(k, i) for k in ('r', 'ins') if k in st
                for i in range(len(st[k]))]
    if a in ('eq', 'cmp', 'box'):
        return [('r', m) for m in st['r'] if m != 'hash']
    if a == 'view':
        return [('q', i, 'r') for i, q in enumerate(st['q'])
                if q['m'] != 'hasheq']
    if a == 'tree':
        return [('r',)]
    return [('r',)]


def corrupted(rng, line):
    s = json.loads(line)
    # only the last step is changed: the heap stays what it was
    n = rng.randrange(len(s['s']))
    s['s'] = s['s'][:n + 1]
    st = s['s'][n]
    places = corruptible(st)
    if not places:
        return None
    place = rng.choice(places)
    at = st
    for k in place[:-1]:
        at = at[k]
    old = at[place[-1]]
    if st['a'] == 'denotes':
        at.pop(place[-1])
        return 'denotes', json.dumps(s, separators=(',', ':')) + '\n'
    if st['a'] == 'tree':
        s['s'][n]['e'] = {'o': 'xor', 'l': st['e'], 'r': {'o': 'x', 'x': 1}}
        return 'tree', json.dumps(s, separators=(',', ':')) + '\n'
    new = corrupt_value(rng, old)
    if new == old:
        return None
    at[place[-1]] = new
    what = st['a'] + (':' + str(place[0]) if st['a'] == 'pair' else '')
    if st['a'] == 'view':
        what += ':' + st['q'][place[1]]['m']
    return what, json.dumps(s, separators=(',', ':')) + '\n'


def judge(lines, work, pure):
    path = os.path.join(work, 'trace.ndjson')
    with open(path, 'w') as f:
        f.writelines(lines)
    out = check.tlc('Trace', 'Trace.cfg', work, [('TRACE', path)], pure=pure,
                    seconds=3000)
    assert 'No error has been found' in out, out[-3000:]
    return sorted((int(s), int(p), c) for s, p, c in check.BAD.findall(out))


MODELS = [('fan', 2, 2), ('strip', 2, 2), ('column', 2, 2), ('crossed', 1, 1),
          ('crossed', 1, 2), ('crossed', 2, 1), ('two', 1, 2), ('two', 2, 1),
          ('nest', 1, 2), ('nest', 2, 1), ('nest', 2, 2)]

# Changes of the semantics that MC_Tilings must notice.
TWISTS = [
    ('Semantics.tla', 'f1 \\subseteq f2 THEN "COMPONENT"',
     'f1 \\subseteq f2 THEN "ENCLOSED"', ('strip', 2, 2)),
    ('Semantics.tla', 'IF in THEN (IF meet THEN "ENCLOSED" ELSE "WITHIN")',
     'IF in THEN "ENCLOSED"', ('nest', 1, 2)),
    ('Semantics.tla', '(seq[i] \\in RA) # (seq[(i % n) + 1] \\in RA)}) >= 4',
     '(seq[i] \\in RA) # (seq[(i % n) + 1] \\in RA)}) >= 2',
     ('crossed', 1, 1)),
    ('Semantics.tla', '[] op = "xor" -> x # y', '[] op = "xor" -> x \\/ y',
     ('strip', 2, 2)),
    ('Geometry.tla', 'IN  <<u, u # bounding>>', 'IN  <<u, ~u>>',
     ('strip', 2, 2)),
    ('Tilings.tla', 'IF A \\subseteq B THEN "COMPONENT" ELSE "ENCLOSED"',
     '"ENCLOSED"', ('strip', 2, 2)),
]


def model(work, spec, name, ka, kb, pure=False):
    config = os.path.join(work, 'mc.cfg')
    with open(config, 'w') as f:
        f.write(f'INIT Init\nNEXT Next\nCONSTANTS Name = "{name}" KA = {ka} '
                f'KB = {kb}\nINVARIANTS OpsAgree RelationsAgree Laws '
                'LocationsAgree\nCHECK_DEADLOCK FALSE\n')
    old, check.SPEC = check.SPEC, spec
    try:
        return check.tlc('MC_Tilings', config, work, pure=pure, seconds=3000)
    finally:
        check.SPEC = old


def main():
    count = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    rng = random.Random(1)
    work = tempfile.mkdtemp(prefix='rene-selftest-')
    failed = False
    try:
        lines, kinds = [], []
        for prop in PROPS:
            behaviours = check.generate(prop, 'quick', 1, work)
            ls, _ = check.record(prop, 'quick', 77, 0, count // 2, work, 600,
                                 behaviours)
            more, _ = check.record(prop, 'quick', 77, 1000, 1000 + count // 2,
                                   work, 600, behaviours)
            ls += more
            for line in ls:
                lines.append(line)
                kinds.append(None)
                for _ in range(6):
                    c = corrupted(rng, line)
                    if c:
                        kinds.append(c[0])
                        lines.append(c[1])
        fast = judge(lines, work, False)
        slow = judge(lines, work, True)
        same = fast == slow
        failed |= not same
        print(f'{len(lines)} sessions: evaluators and definitions '
              + ('agree' if same else 'DIFFER'))
        if not same:
            print(sorted(set(fast) ^ set(slow))[:10])
        bad = {s for s, _, _ in fast}
        clean = [i for i, k in enumerate(kinds) if k is None and i + 1 in bad]
        failed |= bool(clean)
        print(f'{sum(k is None for k in kinds)} recorded sessions, '
              f'{len(clean)} rejected')
        table = {}
        for i, k in enumerate(kinds):
            if k is not None:
                t = table.setdefault(k, [0, 0, None])
                t[0] += 1
                if i + 1 in bad:
                    t[1] += 1
                else:
                    t[2] = i
        for k, (n, m, i) in sorted(table.items()):
            note = ''
            if i is not None:
                last = json.loads(lines[i])['s'][-1]
                note = ' e.g. ' + json.dumps(last)[:300]
            print(f'  corrupted {k}: {m} of {n} rejected{note}')
        for name, ka, kb in MODELS:
            out = model(work, check.SPEC, name, ka, kb)
            ok = 'No error has been found' in out
            failed |= not ok
            n = check.STATES.findall(out)
            print(f'MC_Tilings {name} {ka} {kb}: '
                  f'{"agree" if ok else "DIFFER"} {n[-1] if n else ""}')
        for file, old, new, *configs in TWISTS:
            spec = os.path.join(work, 'spec')
            shutil.rmtree(spec, ignore_errors=True)
            shutil.copytree(check.SPEC, spec)
            path = os.path.join(spec, file)
            text = open(path).read()
            assert text.count(old) == 1, old
            with open(path, 'w') as f:
                f.write(text.replace(old, new))
            seen = any('is violated' in model(work, spec, *c, pure=True)
                       for c in configs)
            failed |= not seen
            print(f'twist {new!r}: {"noticed" if seen else "NOT NOTICED"}')
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if failed else 0


if __name__ == '__main__':
    sys.exit(main())
