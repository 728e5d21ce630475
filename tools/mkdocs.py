"""Writes properties.jsonl and MANIFEST.json (run: /opt/venv/bin/python tools/mkdocs.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = 'deterministic simulation with fault injection'
WRAP, UVIO, HIO, DIO, MASK, PYM = ('aipy/_miriad/miriad_wrap.cpp', 'aipy/_miriad/mir/uvio.c', 'aipy/_miriad/mir/hio.c', 'aipy/_miriad/mir/dio.c',
                                   'aipy/_miriad/mir/maskio.c', 'aipy/miriad.py')
PROPS, CHECKS, NA = [], [], []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, claim=None, na=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, statement
    PROPS.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                              'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': list(observe), 'hook_needed': hook}})
    if claim:
        level, note, how = claim
        CHECKS.append({'property': pid, 'quick_cmd': 'bash run.sh %s quick' % pid, 'thorough_cmd': 'bash run.sh %s thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': DST + ': ' + how, 'level': level, 'level_note': note})
    if na:
        NA.append({'property': pid, 'reason': na})


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': CHECKS, 'not_applicable': NA,
               'notes': 'No hooks in /repo: the seams are the system calls of the extension modules (linked with ld --wrap into a build of their own under /verif/build) and the Python modules the package already imports. See DESIGN.md.'}, f, indent=1)
    f.write('\n')
