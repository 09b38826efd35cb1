#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = 'src/utils/color_utils.rs'
VN = 'abstract interpretation of MIR into gated value graphs, global value numbering against the defining formula'
NOTE = ('The compiler\'s MIR of /repo is interpreted abstractly (every input an unknown) into a gated value graph; "proved" = the graph normalises to the rule\'s graph over the reals on the whole stated domain, '
        '"agree" = not normalised, but no disagreement under random interpretation of both graphs; a violation needs a concrete valuation of the graphs on which they differ, or a structural mismatch. '
        'Trusts rustc\'s MIR, the models of std in sa/models.py and real arithmetic (rounding below 1e-9 is not judged). ')
P = []
def prop(id, title, statement, text, why, files, mech, over=('inputs',), tech=VN, note='', claimed=True, reason='', state=None, observe=None, level='other'):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': list(over), 'text': text}, why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[{'name': a, 'where': b} for a, b in mech], **({'state': state} if state else {}), **({'observe_at': observe} if observe else {})),
                  _tech=tech, _note=NOTE + note, _claimed=claimed, _reason=reason, _level=level))

exec(open(os.path.join(V, 'tools', 'table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'bash ./dump.sh',
    'checks': [dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                    technique=p['_tech'], level=p['_level'], level_note=p['_note'].strip()) for p in sorted(P, key=lambda p: p['id']) if p['_claimed']],
    'not_applicable': [dict(property=p['id'], reason=p['_reason']) for p in sorted(P, key=lambda p: p['id']) if not p['_claimed']],
    'notes': 'No hooks in /repo: the analysed program is the crate as it is, reached through the probe functions of /verif/harness (never executed, only type-checked and dumped).',
}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(P), 'properties', len(man['checks']), 'claimed')
