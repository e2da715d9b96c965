#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_CLAIMED
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def line(pid, p):
    return json.dumps({
        'id': pid, 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in p['mechanism']],
                    'observe_at': list(p['observe']), 'hook_needed': None}}, ensure_ascii=False)


allp = dict(PROPS)
allp.update(NOT_CLAIMED)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid in sorted(allp):
        assert len(allp[pid]['title']) <= 80, pid
        f.write(line(pid, allp[pid]) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [{
        'property': pid, 'quick_cmd': './check.py ' + pid, 'thorough_cmd': './check.py %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid, 'technique': p['technique'], 'level': p.get('level', 'exploration'), 'level_note': p['note'],
    } for pid, p in sorted(PROPS.items())],
    'not_applicable': [{'property': pid, 'reason': p['reason']} for pid, p in sorted(NOT_CLAIMED.items())],
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'claimed', len(NOT_CLAIMED), 'not claimed')


def design():
    rd = lambda n: open(os.path.join(V, 'design', n)).read()
    bugs = {}
    sd = os.path.join(V, 'seeded')
    res = json.load(open(os.path.join(V, 'design', 'caught.json'))) if os.path.exists(os.path.join(V, 'design', 'caught.json')) else {}
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, 'meta.json')))
        bugs.setdefault(m['property'], []).append((b, m, res.get(b, 'not run')))
    o = rd('head.md')
    for pid, p in sorted(allp.items()):
        o += '\n### %s %s\n\n%s\n\n' % (pid, p['title'], p['statement'])
        o += '* **Over:** %s: %s\n' % (', '.join(p['over']), p['text'])
        o += '* **Why the tests cannot settle it:** %s\n' % p['why']
        if pid in NOT_CLAIMED:
            o += '* **Not claimed:** %s\n' % p['reason']
            continue
        o += '* **Anchors:** %s\n' % ', '.join('%s (`%s`)' % tuple(m) for m in p['mechanism'])
        o += '* **How it is decided:** %s\n' % p['note']
        o += '* **Targets:** %s\n' % '; '.join('`targets/%s.cpp`' % h.get('file', h['name']) + (' (%s)' % h['flavor'] if h.get('flavor') else '') for h in p['harnesses'])
        for h in p['harnesses']:
            for n, q, r in targets(h['name']):
                o += '  * `%s`: %s cases in the quick tier; %s\n' % (n, q, r)
        for b, m, r in bugs.get(pid, []):
            o += '* Planted bug `%s`: %s — %s\n' % (b, m['what_it_breaks'], r)
    o += '\n' + rd('tail.md')
    open(os.path.join(V, 'DESIGN.md'), 'w').write(o)


def targets(name):
    import re
    f = os.path.join(V, 'targets', name + '.cpp')
    if not os.path.exists(f):
        return []
    return re.findall(r'^VP_TARGET(?:_NOLEAK)?\((\w+), *(\d+), *"((?:[^"\\\\]|\\\\.)*)"', open(f).read(), re.M)


design()
