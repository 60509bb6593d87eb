"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CF, CV, PP, PR, TR, FI, GM, PO = ('aksharamukha/' + f + '.py' for f in ('ConvertFix', 'Convert', 'PostProcess', 'PreProcess', 'transliterate', 'transliterate_file', 'GeneralMap', 'PostOptions'))
MAPS = 'aksharamukha/ScriptMap'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, level='model_checking', reason=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                           **({'observe_at': observe} if observe else {}), **({'state': state} if state else {})},
                  technique=technique, note=note, level=level, reason=reason))


exec(open(os.path.join(ROOT, 'tools', 'propdata.py'), encoding='utf8').read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf8') as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}, ensure_ascii=False) + '\n')
    man = {'version': 1, 'setup_cmd': './setup.sh',
           'checks': [{'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P if p['technique']],
           'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['technique']],
           'notes': 'Specification in TLA+ (spec/), checked and enumerated with TLC, replayed into the package by harness/.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf8') as f:
        json.dump(man, f, ensure_ascii=False, indent=1)
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']


main()
