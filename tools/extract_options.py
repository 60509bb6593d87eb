"""data/options.json: the options of the pinned commit, with the scripts their names mention."""
import inspect, json, os, warnings
warnings.simplefilter('ignore')
from aksharamukha import PostProcess, PreProcess, GeneralMap as GM
scripts = sorted(set(GM.IndicScripts + GM.LatinScripts), key=len, reverse=True)
out = {'scripts': sorted(set(GM.IndicScripts)), 'latin': [x for x in GM.LatinScripts if x.strip()], 'semitic': GM.SemiticScripts, 'iso': list(GM.semiticISO), 'japanese': ['Hiragana', 'Katakana'],
       'loc': sorted(set(GM.LoCScripts))}
for key, mod in (('post', PostProcess), ('pre', PreProcess)):
    o = {}
    for n, f in inspect.getmembers(mod, inspect.isfunction):
        if f.__module__ != mod.__name__: continue
        ps = list(inspect.signature(f).parameters.values())
        if ps and all(p.default is not p.empty for p in ps[1:]):
            o[n] = [s for s in scripts if s.lower() in n.lower()]
    out[key] = o
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data/options.json'), 'w'), indent=1, sort_keys=True)
print(len(out['post']), len(out['pre']), len(out['scripts']), len(out['latin']))
