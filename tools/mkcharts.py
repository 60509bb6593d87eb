"""data/charts.json (glyph strings) -> build/charts.json (code points, for TLC)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def ints(g): return [0] if g is None else [ord(c) for c in g]
def convert(src=os.path.join(ROOT, 'data/charts.json')):
    out = {}
    for s, d in json.load(open(src, encoding='utf-8')).items():
        out[s] = [[ints(g) for g in (['', *d[k]] if k == 'M' else d[k])] for k in 'VMCAHNSDO']
        out[s][1][0] = [0]
    return out
if __name__ == '__main__':
    json.dump(convert(), open(sys.argv[1], 'w'))
