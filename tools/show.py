"""show.py REPLAY...: the operands of the step a replay file is about."""
import json
import sys


def pts(c):
    if c and isinstance(c[0], int):
        return f'({c[0]},{c[1]})' if c[2] == 1 else f'({c[0]},{c[1]})/{c[2]}'
    return '[' + ' '.join(map(pts, c)) + ']' if isinstance(c, list) else str(c)


def val(v):
    return f"{v['t']} {pts(v['c'])}"


for f in sys.argv[1:]:
    d = json.load(open(f))
    print(f, d['clause'], 'session', d['session'], 'step', d['step'])
    if d['embedding']['m'] != ['1', '0', '0', '1']:
        print('  ', d['embedding'])
    heap = []
    for i, s in enumerate(d['steps'], 1):
        if i == d['step']:
            for k in ('x', 'y'):
                if k in s:
                    print('  ', k, '=', val(heap[s[k] - 1]))
            for k, v in s.items():
                if isinstance(v, dict) and 't' in v:
                    print('  ', s['a'], k, '->', val(v))
                elif k not in ('x', 'y', 'a'):
                    print('  ', s['a'], k, str(v)[:300])
            break
        if s['a'] in ('new', 'op', 'raw', 'bbox'):
            heap.append(s['r'])
        elif s['a'] == 'pair':
            heap += [s[o] for o in ('and', 'or', 'sub', 'xor') if o in s]
