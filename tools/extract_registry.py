"""One-time transcription aid (NOT used by any check): data/registry.json, the registry of
scripts (ISO 15924 code, languages) and the weights used to choose between several of them."""
import json, sys
from aksharamukha import transliterate as T
d = T._load_data("/yaml/aksharamukha-scripts.yaml"); w = T._load_data("/yaml/wikitra2-data.yaml")
out = []
for s, v in d.items():
    langs = [l.strip() for l in v.get('lang', '').split(',') if l.strip()]
    cw = w.get(v['script'], {})
    out.append({'name': s, 'code': v['script'], 'langs': langs,
                'people': cw[langs[0]]['population'] if langs and langs[0] in cw else 0,
                'used': len(cw) if v['script'] in w else 1})
G = T.GeneralMap
json.dump({'scripts': out, 'names': G.IndicScripts + G.LatinScripts, 'codes': G.SemiticScripts}, open(sys.argv[1], 'w'), ensure_ascii=False, indent=0)
