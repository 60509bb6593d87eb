"""data/tamil-na.json: the Tamil words known to begin with dental na, as the package lists them at the pinned commit
(reference data for Style.tla; regenerating it from a changed tree would accept the change)."""
import ast, json, os
src = open('/repo/aksharamukha/PostProcess.py', encoding='utf-8').read()
f = next(n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef) and n.name == 'TamilpredictDentaNa')
words = ast.literal_eval(f.body[0].value.func.value).split('\n')
json.dump([[ord(c) for c in w] for w in words], open(os.path.join(os.path.dirname(__file__), '..', 'data', 'tamil-na.json'), 'w'))
print(len(words))
