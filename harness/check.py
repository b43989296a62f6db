"""Decides a property: records sessions of calls of the library in /repo and
lets TLC judge them against spec/Trace.tla.

    check.py PROPERTY [--tier quick|thorough] [--seed N] [--sessions N]
    check.py PROPERTY --replay FILE

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Anything else is a failure of the check itself.
"""
from __future__ import annotations

import argparse
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('RENE_REPO', '/repo')
TLA = '/opt/veriftools/tla'
JARS = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
PYTHON = '/opt/venv/bin/python'
CORES = 8
KNOWN = os.path.join(VERIF, 'known_findings.txt')

# Sessions per tier, sized to about 40 s and 10 min.
COUNTS = json.load(open(os.path.join(HERE, 'counts.json')))
CHUNK = 1500
LIMIT = {'quick': 420., 'thorough': 840.}   # seconds for all of a check
MODULES = ('Geometry', 'Semantics', 'Meshes')


class Broken(Exception):
    """The check itself failed."""


def java_classes():
    """Compile the evaluators of the specification's hot operators."""
    sources = sorted(glob.glob(os.path.join(SPEC, 'java', '*.java')))
    digest = hashlib.sha256(b''.join(open(s, 'rb').read()
                                     for s in sources)).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', 'classes-' + digest)
    if not os.path.isdir(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.dirname(out))
        r = subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', tmp,
                            *sources], capture_output=True, text=True)
        if r.returncode:
            raise Broken('javac: ' + r.stderr)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    return out


TILINGS = ['board', 'slats', 'quilt', 'skew', 'fan', 'strip', 'column',
           'two']
REPLAYED = {'C05', 'C06', 'C08', 'C18'}


def generate(prop, tier, seed, work):
    """Behaviours of spec/Machine.tla, generated by TLC for replay."""
    if prop not in REPLAYED:
        return None
    count = 60 if tier == 'quick' else 600
    ps = []
    for k, name in enumerate(TILINGS):
        config = os.path.join(work, f'{name}.cfg')
        with open(os.path.join(SPEC, 'Behaviours.cfg')) as f:
            text = f.read().replace('"board"', f'"{name}"')
        if tier != 'quick':
            text = text.replace('Depth = 12', 'Depth = 20')
        with open(config, 'w') as f:
            f.write(text)
        depth = re.search(r'Depth = (\d+)', text)[1]
        meta = tempfile.mkdtemp(dir=work)
        out = open(os.path.join(meta, 'out'), 'w+')
        ps.append((subprocess.Popen(
            ['java', '-XX:+UseSerialGC', '-Xmx2g', '-Xss16m',
             '-Djava.io.tmpdir=' + meta, '-cp', java_classes() + ':' + JARS,
             'tlc2.TLC', '-simulate', f'num={count}', '-depth',
             str(int(depth) + 2), '-seed', str(1000 * seed + k),
             '-workers', '1', '-metadir', meta, '-config', config,
             'Behaviours.tla'], cwd=SPEC, stdout=out,
            stderr=subprocess.STDOUT), out))
    end = time.monotonic() + LIMIT[tier] / 3
    path = os.path.join(work, 'behaviours.ndjson')
    with open(path, 'w') as f:
        for p, out in ps:
            try:
                p.wait(max(1., end - time.monotonic()))
                late = False
            except subprocess.TimeoutExpired:   # a busy machine: fewer
                p.kill()
                p.wait()
                late = True
            out.seek(0)
            o = out.read()
            runs = [line for line in o.splitlines()
                    if line.startswith('"RUN ') and line.endswith('"')]
            if len(runs) != count and not late:
                raise Broken('behaviours were not generated: ' + o[-1500:])
            f.writelines(json.loads(line)[4:] + '\n' for line in runs)
            f.write('[]\n' * (count - len(runs)))
            out.close()
    return path


def environment(tier, behaviours=None):
    return dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1',
                PYTHONHASHSEED='0', BEHAVIOURS=behaviours or '', TIER=tier)


def enumerated(prop, tier):
    """Number of the sessions that enumerate a finite space."""
    r = subprocess.run(
        [PYTHON, '-c', 'import sessions; '
         f'print(sessions.enumerated({prop!r}, {tier!r}))'],
        cwd=HERE, env=environment(tier), capture_output=True, text=True)
    if r.returncode:
        raise Broken('the library cannot be imported: ' + r.stderr[-1500:])
    return int(r.stdout)


def record(prop, tier, seed, first, stop, work, seconds, behaviours=None):
    """Sessions first..stop-1, as recorded by CORES processes."""
    env = environment(tier, behaviours)
    ps = []
    for k in range(CORES):
        out = os.path.join(work, f'{first}-{k}.ndjson')
        ps.append((out, subprocess.Popen(
            [PYTHON, os.path.join(HERE, 'worker.py'), prop, str(seed),
             str(first + k), str(stop), str(CORES), out, str(seconds)],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            text=True)))
    lines, timeouts = [], 0
    for out, p in ps:
        o, e = p.communicate()
        if p.returncode:
            raise Broken(f'recording ended with {p.returncode}: {e[-2000:]}')
        timeouts += json.loads(o.splitlines()[-1])['timeouts']
        with open(out) as f:
            lines += [line for line in f if line.strip()]
        os.unlink(out)
    return lines, timeouts


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')
BAD = re.compile(r'<<"BAD", (\d+), (\d+), "([^"]*)">>')


def tlc(module, config, work, env=(), workers=CORES, args=(), pure=False,
        seconds=800):
    meta = tempfile.mkdtemp(dir=work)
    cp = JARS if pure else java_classes() + ':' + JARS
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx12g', '-Xss16m',
           '-Djava.io.tmpdir=' + meta, '-cp', cp,
           'tlc2.TLC', '-workers', str(workers), '-metadir', meta, *args,
           '-config', config, module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **dict(env)),
                           capture_output=True, text=True, timeout=seconds)
    except subprocess.TimeoutExpired:
        raise Broken('TLC did not finish')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.stdout


def judge(lines, work):
    """-> ([(line number, step, clause)], states generated, distinct)"""
    path = os.path.join(work, 'trace.ndjson')
    lines = list(lines)
    bads = []
    where = list(range(len(lines)))
    while True:
        with open(path, 'w') as f:
            f.writelines(lines[i] for i in where)
        out = tlc('Trace', 'Trace.cfg', work, [('TRACE', path)])
        found = [(where[int(s) - 1], int(p), c)
                 for s, p, c in BAD.findall(out)]
        if 'Model checking completed. No error has been found.' in out:
            bads += found
            break
        # An outcome the specification cannot even evaluate.
        m = re.findall(r'sess = (\d+)', out)
        q = re.findall(r'pos = (\d+)', out)
        if not m:
            raise Broken('TLC failed:\n' + out[-3000:])
        bads.append((where[int(m[-1]) - 1], int(q[-1]) + 1,
                     'outcome-not-a-value'))
        del where[int(m[-1]) - 1]
        if not where or len(bads) > 5:
            return bads + found, 0, 0
    generated, distinct = map(int, STATES.findall(out)[-1])
    expected = sum(len(json.loads(lines[i])['s']) + 1 for i in where)
    if not bads and distinct != expected:
        raise Broken(f'{distinct} states, {expected} expected')
    return bads, generated, distinct


def signature(session, step):
    """Identifies a failure: the inputs up to the step and the step."""
    s = json.loads(session)['s'][:step]
    keep = [{k: v for k, v in t.items() if k not in ('r', 'ins')} for t in s]
    return hashlib.sha256(json.dumps([keep, s[-1].get('r')], sort_keys=True)
                          .encode()).hexdigest()[:16]


def known():
    """property -> {signature: description} of unrepaired defects."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) input=(\S+) (.*)', line)
            if m:
                out.setdefault(m[1], {})[m[2]] = m[3].strip()
    return out


def brief(step, limit=600):
    s = json.dumps(step, separators=(',', ':'))
    return s if len(s) <= limit else s[:limit] + '...'


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--build', action='store_true')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--sessions', type=int)
    p.add_argument('--replay')
    a = p.parse_args()
    if a.build:
        print(java_classes())
        return 0
    prop, tier, seed = a.prop, a.tier, a.seed
    start = time.monotonic()
    work = tempfile.mkdtemp(prefix=f'rene-{prop}-')
    try:
        return run(prop, tier, seed, a, start, work)
    except Broken as e:
        print(f'CHECK-FAILED property={prop} {e}')
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, a, start, work):
    first, total = 0, a.sessions or COUNTS[prop][tier]
    chunk = CHUNK
    if a.replay:
        what = json.load(open(a.replay))
        seed, first, tier = what['seed'], what['session'], what['tier']
        total, chunk = first + 1, 1
    java_classes()
    behaviours = generate(prop, tier, seed, work)
    if a.sessions is None and not a.replay:
        total += enumerated(prop, tier)
        if behaviours:
            total += sum(1 for _ in open(behaviours))
    findings = known().get(prop, {})
    generated = distinct = judged = steps = timeouts = 0
    kinds, samples, violations, hits = {}, [], [], []
    spent = [0., 0.]
    while first < total and not violations:
        left = LIMIT[tier] - (time.monotonic() - start)
        if left < 30:
            if judged:
                break
            left = 90.      # whatever took so long, judge some
        stop = min(first + chunk, total)
        t0 = time.monotonic()
        lines, t = record(prop, tier, seed, first, stop, work, left / 2,
                          behaviours)
        timeouts += t
        t1 = time.monotonic()
        bads, g, d = judge(lines, work)
        spent[0] += t1 - t0
        spent[1] += time.monotonic() - t1
        generated += g
        distinct += d
        judged += len(lines)
        for line in lines:
            session = json.loads(line)
            steps += len(session['s'])
            for st in session['s']:
                kinds[st['a']] = kinds.get(st['a'], 0) + 1
        if len(samples) < 3 and lines:
            s = json.loads(lines[0])
            samples.append({'session': s['id'], 'embedding': s['e'],
                            'steps': [brief(t, 300) for t in s['s'][:3]]})
        for i, step, clause in sorted(bads):
            sig = signature(lines[i], step)
            if sig in findings:
                hits.append((sig, findings[sig]))
                continue
            violations.append((lines[i], step, clause, sig))
        first = stop
    for sig, what in sorted(set(hits)):
        print(f'KNOWN-FINDING: property={prop} {what}')
    if a.replay is None:
        evidence(prop, tier, seed, start, generated, distinct, judged, steps,
                 kinds, samples, violations)
    if not judged:
        raise Broken('nothing was judged')
    print(f'{prop}: {judged} sessions of {steps} steps judged, '
          f'{distinct} states, {time.monotonic() - start:.1f} s '
          f'(recording {spent[0]:.1f}, judging {spent[1]:.1f})')
    if not violations:
        return 0
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    seen = {}
    for line, step, clause, sig in violations:
        seen.setdefault(clause, []).append((line, step, sig))
    for clause, cases in sorted(seen.items(), key=lambda c: -len(c[1]))[:8]:
        line, step, sig = min(cases, key=lambda c: len(c[0]))
        session = json.loads(line)
        path = os.path.join(VERIF, 'replays', f'{prop}-{sig}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier,
                       'input': sig,
                       'session': session['id'], 'step': step,
                       'clause': clause, 'embedding': session['e'],
                       'steps': session['s'][:step]}, f, indent=1)
        print(f'{clause} ({len(cases)} sessions), e.g. step {step} of '
              f'session {session["id"]}: {brief(session["s"][step - 1])}')
        print(f'VIOLATION property={prop} replay={path}')
    return 1


def evidence(prop, tier, seed, start, generated, distinct, judged, steps,
             kinds, samples, violations):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump({
            'property': prop, 'tier': tier, 'seed': seed,
            'level': 'model_checking',
            'coverage': {
                'states': distinct,
                'transitions': generated - judged if generated else 0,
                'traces_validated_against_impl': judged,
                'steps_by_action': kinds,
                'steps': steps,
                'samples': samples},
            'assumptions': [
                'TLC evaluates the specification correctly, with the Java '
                'evaluators of spec/java agreeing with the definitions they '
                'stand for (checked by harness/selftest.py)',
                'inputs are grid points 0..16 carried by exactly invertible '
                'affine maps'],
            'violations': len(violations),
            'wall_s': round(time.monotonic() - start, 2)}, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
