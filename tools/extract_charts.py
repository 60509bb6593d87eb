"""One-time transcription aid (NOT used by any check).

Writes data/charts.json: for every script the specification covers, its letter
chart in the canonical letter order, as glyph strings.  It was run once against
the pinned commit 7c1b3c1 and the result reviewed (tools/review_charts.py compares
it with the Unicode character names); from then on data/charts.json is part of
the specification and is never regenerated by the checks.

kinds (index order):
  V 19 independent vowels: a aa i ii u uu r rr l ll e ai o au | short e, short o | candra e, candra o | ae(long)
  M 18 dependent vowel signs for V[1..18]
  C 50 consonants: 33 basic | lla(llla) zha rra nna | 8 nukta | 5 prenasalised
  A 3  candrabindu anusvara visarga
  H virama   N nukta   S avagraha danda double-danda   D 10 digits   O om
U+02BD (and 02BE/02BF) inside a glyph is the repository's "approximation mark":
the letter is an approximation; the mark is dropped at the end of spelling.
"""
import importlib, json, sys
from aksharamukha import GeneralMap as G

def chart(s):
    m = importlib.import_module(G.ScriptPath(s))
    def take(groups):
        out = []
        for name, n in groups:
            L = getattr(m, name)
            out += [L[i] if i < len(L) else None for i in range(n)]
        return out
    d = {
        'V': take([('VowelMap', 14), ('SouthVowelMap', 2), ('ModernVowelMap', 2), ('SinhalaVowelMap', 1)]),
        'M': take([('VowelSignMap', 13), ('SouthVowelSignMap', 2), ('ModernVowelSignMap', 2), ('SinhalaVowelSignMap', 1)]),
        'C': take([('ConsonantMap', 33), ('SouthConsonantMap', 4), ('NuktaConsonantMap', 8), ('SinhalaConsonantMap', 5)]),
        'A': take([('AyogavahaMap', 3)]),
        'H': take([('ViramaMap', 1)]), 'N': take([('NuktaMap', 1)]),
        'S': take([('SignMap', 3)]), 'D': take([('NumeralMap', 10)]), 'O': take([('OmMap', 1)]),
    }
    return d

out = {}
for s in sorted(set(G.IndicScripts + G.LatinScripts)):
    if s in ('Hebrew', 'RomanSemitic', 'Inter'): continue
    try: out[s] = chart(s)
    except Exception as e: print(s, repr(e)[:100], file=sys.stderr)
with open(sys.argv[1], 'w') as f:
    f.write('{\n' + ',\n'.join('%s: {\n%s\n}' % (json.dumps(s), ',\n'.join(' "%s": %s' % (k, json.dumps(v, ensure_ascii=False)) for k, v in d.items())) for s, d in out.items()) + '\n}\n')
