#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> [--tier quick|thorough] [--replay FILE] [--target NAME]

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line:
it is broken.  Exit 2: the check itself could not run (for example a build error).
"""
import argparse, json, os, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
sys.dont_write_bytecode = True
import vbuild
from props import PROPS

VERIF = vbuild.VERIF


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
            if line.startswith('finding:') and 'property=%s ' % pid in line:
                out.append(line[len('finding:'):].strip())
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    ap.add_argument('--target')
    ap.add_argument('--scale', type=float)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    seed = int(a.seed) if a.seed.lstrip('-').isdigit() else 1
    spec = PROPS[a.id]
    t0 = time.time()
    try:
        parts = []
        for h in spec['harnesses']:
            b = vbuild.Builder(h.get('flavor', 'asan'))
            parts.append((h, b.harness(h['name'], h.get('sources', ['targets/%s.cpp' % h['name']]) + ['engine/vp.cpp'],
                                       extra_repo=h.get('extra_repo', ()), libs=h.get('libs', ()), defs=h.get('defs', ()))))
            b.close()
    except vbuild.BuildError as e:
        print('BUILD ERROR\n%s' % e)
        return 2
    tb = time.time() - t0
    tmp = os.path.join(vbuild.BUILD, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if a.replay:
        want = None
        for line in open(a.replay):
            if line.startswith('harness='):
                want = line.strip()[8:]
        for h, exe in parts:
            p = subprocess.run([exe, '--replay', a.replay, '--tmp', tmp] + (['--verbose', '1'] if a.verbose else []))
            if p.returncode != 2:
                return p.returncode
        return 2
    results = []
    violation = None
    for h, exe in parts:
        out = os.path.join(tmp, 'sum-%s-%d.json' % (h['name'], os.getpid()))
        scale = a.scale if a.scale else (h.get('thorough_scale', spec.get('thorough_scale', 20)) if a.tier == 'thorough' else 1)
        cap = h.get('cap', 300 if a.tier == 'quick' else 1500)
        cmd = [exe, '--property', a.id, '--seed', str(seed), '--scale', str(scale), '--cap', str(cap), '--workers', str(h.get('workers', 8)),
               '--tier', a.tier, '--out', out, '--replaydir', os.path.join(VERIF, 'replays'), '--tmp', tmp]
        if a.target:
            cmd += ['--target', a.target]
        p = subprocess.run(cmd)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print('CHECK ERROR: harness %s exited with %d' % (h['name'], p.returncode))
            return 2
        r = json.load(open(out))
        os.unlink(out)
        results.append(r)
        if r['violation']:
            violation = r['violation']
            break
    targets = [t for r in results for t in r['targets']]
    ev = {
        'property': a.id, 'tier': a.tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
        'coverage': {
            'evaluations': sum(t['evaluations'] for t in targets),
            'distinct_nontrivial': sum(t['distinct_nontrivial'] for t in targets),
            'rule': ' | '.join('%s: %s' % (t['name'], t['rule']) for t in targets),
            'samples': ['%s: %s' % (t['name'], s) for t in targets for s in t['samples'][:3]],
            'targets': [{k: t[k] for k in ('name', 'evaluations', 'nontrivial', 'distinct_nontrivial', 'discarded', 'corpus', 'labels')} for t in targets],
            'edges_reached': sum(r['edges'] for r in results),
            'unconfirmed_failures': sum(r['unconfirmed'] for r in results),
            'time_cap_reached': any(r['time_cap_reached'] for r in results),
            'build_s': round(tb, 1),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    with open(os.path.join(VERIF, 'evidence', a.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in known_findings(a.id):
        print('KNOWN-FINDING: %s' % k)
    for t in targets:
        print('%-24s cases %8d  non-trivial %8d  distinct %8d  discarded %6d  corpus %5d' % (t['name'], t['evaluations'], t['nontrivial'], t['distinct_nontrivial'], t['discarded'], t['corpus']))
        if a.verbose:
            print('    ', ' '.join('%s=%d' % kv for kv in sorted(t['labels'].items())))
            for s in t['samples'][:2]:
                print('     sample:', s[:400])
    print('%s %s: %d cases, build %.1f s, total %.1f s' % (a.id, a.tier, ev['coverage']['evaluations'], tb, time.time() - t0))
    if violation:
        print('VIOLATION property=%s replay=%s' % (a.id, violation))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
