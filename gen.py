#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))

PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=list(observe), state=list(state)))


exec(open(os.path.join(HERE, 'props_text.py')).read())

NA = json.load(open(os.path.join(HERE, 'not_applicable.json')))


def main():
    have = {f[2:-3].upper() for f in os.listdir(os.path.join(HERE, 'engine')) if f.startswith('p_') and f.endswith('.py')}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
        for n in NA:
            f.write(json.dumps(n['record']) + '\n')
    checks = []
    na = [{'property': n['record']['id'], 'reason': n['reason']} for n in NA]
    for p in PROPS:
        if p['id'] in have:
            checks.append({'property': p['id'], 'quick_cmd': f"./check {p['id']} --tier quick",
                           'thorough_cmd': f"./check {p['id']} --tier thorough",
                           'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'check under construction'})
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
