#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table of properties."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'pythonbmp/BITMAPlib.py'
NOTE = ('Every recorded call of the sampled histories on the real library is checked by TLC to be exactly the step of the TLA+ '
        'specification (all pixels, palette, header, returned value, error messages, other bitmaps). Assumes the independent '
        'decoder of harness/bmpio.py; histories are sampled, not exhaustive.')
P = []


def prop(id, title, statement, over, text, tests, files, mech, observe, note=NOTE, state=None, claim=True, reason=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, observe=observe, note=note, state=state or [], claim=claim, reason=reason))


import sys; sys.modules["meta"] = sys.modules[__name__]
import meta_props  # noqa: E402,F401


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                 'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['tests'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python harness/setup.py',
         'checks': [], 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claim']],
         'notes': 'TLA+ specification in spec/, checked with TLC; harness/run.py records histories of the real library and validates them.'}
    for p in P:
        if p['claim']:
            m['checks'].append({'property': p['id'],
                                'quick_cmd': '/opt/venv/bin/python harness/run.py %s quick' % p['id'],
                                'thorough_cmd': '/opt/venv/bin/python harness/run.py %s thorough' % p['id'],
                                'technique': 'TLA+ specification; TLC trace validation of recorded histories of the real library',
                                'level': 'model_checking', 'level_note': p['note']})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
