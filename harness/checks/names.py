"""Naming scripts and recognising them: Names.tla and Detect.tla replayed into the package."""
import json, random
from core import *
import core, tlc

REG = json.load(open(os.path.join(ROOT, 'data', 'registry.json')))
LANGUAGES = {'Hindi': 'hi', 'Marathi': 'mr', 'Nepali': 'ne', 'Tamil': 'ta', 'Telugu': 'te', 'Kannada': 'kn', 'Malayalam': 'ml', 'Gujarati': 'gu', 'Odia': 'or', 'Bangla': 'bn', 'Assamese': 'as', 'Punjabi': 'pa',
             'Sinhala': 'si', 'Burmese': 'my', 'Thai': 'th', 'Lao': 'lo', 'Khmer': 'km', 'Tibetan': 'bo', 'Javanese': 'jv', 'Balinese': 'ban', 'Buginese': 'bug', 'Sanskrit': 'sa', 'Pali': 'pi', 'English': 'en', 'Latin': 'la', 'Urdu': 'ur',
             'Russian': 'ru', 'Mongolian': 'mn', 'Konkani': 'kok', 'Maithili': 'mai', 'Bhojpuri': 'bho', 'Santali': 'sat', 'Tulu': 'tcy', 'Sindhi': 'sd', 'Kashmiri': 'ks', 'Dogri': 'doi', 'Manipuri': 'mni', 'Sundanese': 'su',
             'Newari': 'new', 'Lepcha': 'lep', 'Limbu': 'lif', 'Shan': 'shn', 'Mon': 'mnw', 'Ahom': 'aho', 'Makasar': 'mak', 'Rejang': 'rej', 'Divehi': 'dv', 'Rohingya': 'rhg'}
SCHEMES = ['IAST', 'HK', 'iso', 'Itrans', 'Velthuis', 'SLP1', 'WX', 'IPA', 'titus']
STRANGE = ['zz', 'qqqq', 'xx-Deva', 'hi-Taml', 'Deva-hi', 'hi-', '-Deva', 'Devanagari', 'सं', 'ta-Qqqq', '']
codes = lambda s: [ord(c) for c in s]
ANCHOR = {'default': 'Devanagari', 'script_code': 'Gran', 'lang_code': 'ta', 'lang_name': 'Tamil'}
KEEP = {'default': 'Devanagari', 'script_code': 'Grantha', 'lang_code': 'Tamil', 'lang_name': 'Tamil'}
SAMPLE = 'काकी गङ्गा त्रिपुरं १२३ नमः ।'
SEM = {'Arab': 'كتاب مدرسة', 'Arab-Fa': 'کتاب چشمه', 'Hebr': 'שָׁלוֹם', 'Syre': 'ܟܬܒܐ', 'Syrn': 'ܟܬܵܒܵܐ', 'Syrj': 'ܟܬܳܒܳܐ', 'Phnx': '𐤀𐤁𐤂', 'Ugar': '𐎀𐎁'}


def job():
    return {'scripts': [dict(r, name=codes(r['name']), code=codes(r['code']), langs=[codes(l) for l in r['langs']]) for r in REG['scripts']],
            'names': [codes(n) for n in REG['names']], 'codes': [codes(n) for n in REG['codes']], 'languages': [[codes(n), codes(l)] for n, l in LANGUAGES.items()],
            'schemes': [codes(n) for n in SCHEMES], 'strange': [codes(n) for n in STRANGE if n]}


_T = {}


def sample(script):
    """A text in the script."""
    if script not in _T:
        _T[script] = SEM.get(script) or process('Devanagari', script, SAMPLE)
    return _T[script]


def asked(a):
    """One name, said as source and as target: (got, want) pairs."""
    way, said, meant, opts = a
    out = []
    if not meant:
        for s, t in ((said, ANCHOR[way]), (ANCHOR[way], said)):
            r = process(s, t, SAMPLE, param=way)
            out.append(('an error', 'an error' if isinstance(r, tuple) else r))
        return out
    for nativize in (False, True):
        t = sample(meant)
        kw = dict(nativize=nativize, **(opts or {}))
        out.append((process(meant, KEEP[way], t, **kw), process(said, ANCHOR[way], t, param=way, **kw)))
        t = sample(KEEP[way])
        out.append((process(KEEP[way], meant, t, **kw), process(ANCHOR[way], said, t, param=way, **kw)))
        out.append((process(meant, meant, t, **kw), process(said, said, t, param=way, **kw)))
    return out


def detected(a):
    """One text: (want, got) pairs for each way of asking, in one process."""
    txt, script, pre, way = a
    import aksharamukha.transliterate as T
    out = []
    if hasattr(T, 'auto_detect'):
        out.append((script, call(T.auto_detect, txt)))
    t = {'default': 'Grantha', 'script_code': 'Gran', 'lang_code': 'hi', 'lang_name': 'Hindi'}
    n = {'default': 'Grantha', 'script_code': 'Grantha', 'lang_code': 'Devanagari', 'lang_name': 'Devanagari'}
    # (script, target) -> the text comes through with what is detected
    out.append((process(script, n[way], txt, pre_options=[pre] if pre else []), process('autodetect', t[way], txt, param=way)))
    return out


# the names of their characters begin with something else than the name of the script; recognised all the same
OWN = ['Devanagari', 'Gujarati', 'Gurmukhi', 'Kannada', 'Malayalam', 'Oriya', 'Sinhala', 'Tamil', 'Telugu', 'Balinese', 'Javanese', 'Khmer', 'Tibetan', 'Brahmi', 'Grantha', 'Sharada', 'Newa', 'Tirhuta', 'Kaithi', 'Modi', 'Takri', 'Chakma',
       'Lepcha', 'Limbu', 'Sundanese', 'Buginese', 'Rejang', 'Tagalog', 'Saurashtra', 'Mongolian', 'Ahom', 'Bhaiksuki', 'Khojki', 'Khudawadi', 'Mahajani', 'Multani', 'Dogra', 'Siddham', 'Soyombo', 'Kharoshthi', 'Cham', 'Makasar', 'Kawi', 'Marchen',
       'MeeteiMayek', 'MasaramGondi', 'GunjalaGondi', 'HanifiRohingya', 'DivesAkuru', 'OldPersian', 'Santali', 'SoraSompeng', 'SylotiNagri', 'TaiTham', 'WarangCiti', 'ZanabazarSquare', 'RussianCyrillic', 'Wancho', 'Mro', 'Avestan', 'Nandinagari',
       'Hanunoo', 'Buhid', 'Tagbanwa', 'Thaana', 'BatakKaro']
FAMILIES = ['Bengali', 'Lao', 'Myanmar', 'Thai', 'Syriac', 'Arabic', 'Latin']


def names(pid):
    c = Check(pid)
    rnd = random.Random(c.seed)
    charts = json.load(open(tlc.charts_path()))
    own = [s for s in OWN if s in charts and any(len(g) == 1 and g[0] for g in charts[s][2])]
    c.cov['scripts recognised'] = len(own)
    rnd.shuffle(own)
    n = 6 if c.thorough else 5
    pairs = [(own[i], own[(i + 1) % len(own)]) for i in range(0, len(own), 1 if c.thorough else 2)]
    jobs = [('Names', job())] + [('Detect', {'first': '', 'second': '', 'family': f, 'length': n if f != 'Latin' else 4}) for f in FAMILIES] \
        + [('Detect', {'first': p, 'second': q, 'family': '', 'length': 4}) for p, q in pairs]
    res = tlc.run_many(jobs, parallel=8)
    for _, st in res:
        c.stats(st)
    # -- names
    rows = res[0][0]
    opts = [None, {'post_options': ['RemoveDiacritics']}, {'post_options': ['indicNumerals'], 'pre_options': ['RemoveVedic'][:0]}]
    todo = [(w, text(s), text(m), rnd.choice(opts)) for w, s, m in rows]
    got = pmap(asked, todo, 8)
    for (w, s, m, o), pairs_ in zip(todo, got):
        for k, (want, g) in enumerate(pairs_):
            c.expect(want, g, way=w, said=s, meant=m, options=o, role=k)
        c.count(len(pairs_))
    c.sample({'ways': 4, 'names said': len(todo), 'not known': sum(not m for _, _, m, _ in todo)})
    # -- texts
    todo = []
    for (mod, j), (rows, _) in zip(jobs[1:], res[1:]):
        rows = rnd.sample(rows, min(len(rows), (6000 if c.thorough else 1500) if j['family'] else (400 if c.thorough else 150)))
        for q, script, pre in rows:
            t = ''.join(map(text, q))
            todo.append((t * rnd.choice([1, 1, 1, 3]), script, pre, rnd.choice(list(ANCHOR))))
    todo += [(x, 'Zyyy', '', w) for x in ('', '\n', '\n\n\t') for w in ANCHOR]
    got = pmap(detected, todo, 50)
    for (t, s, p, w), pairs_ in zip(todo, got):
        for k, (want, g) in enumerate(pairs_):
            c.expect(want, g, way=w, text=t, script=s, option=p, role=k)
        c.count(len(pairs_))
    c.assumptions += ['Ties between scripts are left open. Scripts that share all of their characters with another one (Ranjana, romanizations of libraries, Kham Tai Tham) are not recognised.',
                      'The registry (codes, languages, number of speakers) is data taken from the repository at the pinned commit.']
    c.findings(lambda k: None)
    c.finish()
