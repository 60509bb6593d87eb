"""Whole documents (Document.tla) and arbitrary texts (AnyText.tla) replayed into the package."""
import random, string
from core import *
import core, tlc
from checks.session import OPT, SAMPLE, texts, load_tables

SPACED = {'Ugar', 'Kaithi', 'OldPersian', 'Tibetan', 'TibetanLoC', 'Khojki', 'PhagsPa', 'Bhaiksuki', 'Ranjana'}    # write something else between words
# options about the whole text, its spaces or its sentences
WIDE = {'KhmerWordSplit', 'segmentBurmeseSyllables', 'segmentShanSyllables', 'segmentThamSyllabes', 'SoyomboFinals', 'SoyomboSpaceTscheg', 'ZanzabarSpaceTsheg', 'capitalizeSentence',
        'ranjanawartu', 'ranjanalantsa', 'removeSegmentSpacesBurmese', 'shvanakhall', 'KhojkiRetainSpace', 'BhaiksukiRetainSpace', 'KaithiRetainSpace', 'removetddash', 'UrduShortNotShown', 'SoyomboSyllabize', 'TibetanSyllabize', 'MongolianSyllabize', 'joinVowelConsIAST', 'joinVowelConsISO',
        'default', 'ISO259Target', 'ISO259Source', 'HebrewSBLTarget', 'tradOrtho', 'vtobJapanese', 'verticalKana', 'verticalSiddham', 'tokushuon'}
LINES = ['\n', '\n\n', '\r\n']
MARKS = [' ', '\t', ' 中 ', ' 😀 ', ' = ']


def convert_one(job):
    s, t, x, kw = job
    return process(s, t, x, **kw)


def document(pid):
    c = Check(pid)
    load_tables()
    rnd = random.Random(c.seed)
    tx = {s: sorted({w for x in xs for w in (x.split() if s in SAMPLE else [x]) if ' ' not in w and '|' not in w}) for s, xs in texts(c, 'CCCCCMMMMHHAAVVDS').items()}
    (rows, st), = tlc.run_many([('Document', {'words': 3, 'separators': 2, 'cells': 6 if c.thorough else 5})])
    c.stats(st)
    docs = [r[0] for r in rows if not any(a == b == ['s', 2] for a, b in zip(r[0], r[0][1:]))]   # some options tidy doubled spaces
    targets = OPT['scripts'] + OPT['latin'] + OPT['japanese'] + OPT['semitic'] + OPT['iso']
    combos = []
    sources = [s for s in tx if s not in OPT['japanese']]
    for s in sources:
        for t in targets:
            if not (s == 'Tamil' and t == 'IPA') and t != 'PhagsPa':
                for _ in range(4 if c.thorough else 1):
                    combos.append((s, t, {'nativize': rnd.random() < .5}))
    for key, opts in (('post_options', OPT['post']), ('pre_options', OPT['pre'])):
        for o, named in opts.items():
            if o in WIDE:
                continue
            for _ in range(12 if c.thorough else 3):
                s, t = rnd.choice(sources), rnd.choice(targets)
                if key == 'post_options' and named: t = rnd.choice(named)
                if key == 'pre_options' and any(x in tx for x in named): s = rnd.choice([x for x in named if x in tx])
                if not (s == 'Tamil' and t == 'IPA') and t != 'PhagsPa':
                    combos.append((s, t, {'nativize': rnd.random() < .5, key: [o]}))
    plan, single = [], {}
    for s, t, kw in combos:
        ws = [rnd.choice(tx[s]) for _ in range(3)]
        for d in rnd.sample(docs, 2):
            seps = [rnd.choice(LINES), rnd.choice(LINES if t in SPACED or s in SPACED else MARKS)]
            if s in SPACED:
                ws = [w.replace('་', '') or w for w in ws]
            cells = [ws[x[1] - 1] if x[0] == 'w' else seps[x[1] - 1] for x in d]
            plan.append((s, t, kw, cells, d))
            for w in cells:
                if w in ws:
                    single[(s, t, json.dumps(kw, sort_keys=True), w)] = None
    keys = sorted(single)
    for k, r in zip(keys, pmap(convert_one, [(s, t, w, json.loads(kw)) for s, t, kw, w in keys], 50)):
        single[k] = r
    outs = list(pmap(convert_one, [(s, t, ''.join(cells), kw) for s, t, kw, cells, _ in plan], 50))
    for (s, t, kw, cells, d), o in zip(plan, outs):
        k = json.dumps(kw, sort_keys=True)
        parts = [single[(s, t, k, w)] if x[0] == 'w' else w for x, w in zip(d, cells)]
        if all(isinstance(p, str) for p in parts):
            want = ''.join(parts)
            if o != want:
                c.violation(source=s, target=t, options=kw, text=''.join(cells), want=want, got=o)
            c.count()
    # long documents
    for s, t, kw in rnd.sample(combos, 400 if c.thorough else 60):
        ws = [rnd.choice(tx[s]) for _ in range(40)]
        parts = [process(s, t, w, **kw) for w in ws]
        o = process(s, t, '\n'.join(ws), **kw)
        if all(isinstance(p, str) for p in parts):
            if o != '\n'.join(parts):
                c.violation(source=s, target=t, options=kw, text='\n'.join(ws), want='\n'.join(parts), got=o)
            c.count()
    c.sample({'document': plan[0][3], 'to': plan[0][1], 'answer': outs[0]})
    c.assumptions += ['words are made of the letters of the source script; a | in the text, which changes what . means in six Latin schemes, is not used',
                      'options about spaces, sentences or the whole text are left out, and so are the spaces of scripts that write something else between words']
    c.finish()


# classes of characters: letters, marks, joiners, punctuation, controls, private and internal characters, astral, unpaired surrogates
CLASSES = [list('कাકకಕമகක'), list('aeiouAIUkgcjtdnmrls'), list('āīṃḥśṣṇñṛ'), ['\u0301', '\u0325', '\u0331', '\u0303', '\u030d'], ['\u094d', '\u0bcd', '\u1039', '\u17d2', '\u0f84', '\u0ecd', '\U00011046'],
           ['ा', 'ி', 'ே', 'េ', 'ေ', 'เ', 'ꦺ'], ['\u200c', '\u200d', '\ufeff', '\u034f', '\u200b'], ['\x00', '\x07', '\x1b', '\t', '\r', '\n', '\u2028'], list('.|।॥།'), list('()[]{}'), list('\\^$*+?#'),
           list('\'"`~<>&;:,!@%=-_/'), ['\ue000', '\uf000', '\U000f0005', '\U000f2001', '\U0010ffff', '\ufffe'], ['\ud800', '\udc00'], list('01९௧๙𑁢'), ['ʾ', 'ʿ', '\u02be', '\u05cc', '\u05cd', '●', '┃', '│'],
           list('אبܐދ𐤀'), ['漢', '😀', 'é', 'か', 'カ', 'ー'], ['ॐ', 'ௐ', 'ༀ', 'ꣳ', 'ᳵ', 'ꣴ'], ['ˇ', 'ˆ', 'ʰ', 'ᵛ', '´', '˝', 'ʻ']]


SIGNS = list(string.punctuation + ' \n\r\t09AZ') + ['\u200c', '\u200d', '\ufeff', '।', '॥', '०', '९', 'ा', '्', '़', 'ं', '॑', 'ऽ', 'ॐ', 'ā', 'ṃ', 'ṛ', '\u0301', '\u0325', 'ʾ', '●', '\uf000', '\U0010ffff', '\ud800', '漢', 'か', 'ー', 'ا', 'ב',
                                                            '\u17d2', '\u1039', 'เ', '་', '་།', '\u0bcd', 'ஃ', '²', 'ʼ', 'ˇ', 'k', 'h', 'kh', 'om', 'ṃ', '\\m+', '{}', '()', '##', '[]', '..']
LETTERS = ['क', 'ka', 'க', 'ක', 'ก', 'ཀ', 'ب']


def swept(job):
    s, t, xs, kw = job
    return [(x, o) for x in xs for o in [process(s, t, x, **kw)] if not isinstance(o, str)]


def sweep(c, rnd, names):
    """Every sign on its own, after a letter, before one, between two signs: for every option, source and target."""
    n = len(SIGNS)
    (rows, st), = tlc.run_many([('AnyText', {'classes': n + 1, 'length': 2, 'pumps': [1]})])
    c.stats(st)
    rows = [r[0] for r in rows]
    near = [r for r in rows if len(r) == 1 or n + 1 in r]
    jobs = []
    def add(s, t, **kw):
        if not (s == 'Tamil' and t == 'IPA'):
            l = rnd.choice(LETTERS[:2] if s in OPT['latin'] or s == 'Devanagari' else LETTERS)
            qs = near + rnd.sample(rows, min(len(rows), 1500 if c.thorough else 20))
            jobs.append((s, t, [''.join(l if i > n else SIGNS[i - 1] for i in q) for q in qs], dict(kw, nativize=rnd.random() < .5)))
    for t in names:
        add(rnd.choice(['Devanagari', 'Devanagari', rnd.choice(names)]), t)
    for s in names:
        add(s, rnd.choice(names))
    for key, opts in (('post_options', OPT['post']), ('pre_options', OPT['pre'])):
        for o in opts:
            if o != 'KhmerWordSplit':
                s, t = 'Devanagari', rnd.choice(names)
                if key == 'post_options' and opts[o]: t = rnd.choice(opts[o])
                if key == 'pre_options': s = rnd.choice(opts[o] or names)
                add(s, t, **{key: [o]})
    for (s, t, xs, kw), bad in zip(jobs, pmap(swept, jobs, 2)):
        for x, o in bad:
            c.violation(source=s, target=t, options=kw, text=x.encode('utf8', 'backslashreplace').decode(), want='a text', got=o)
        c.count(len(xs))
    return sum(len(j[2]) for j in jobs)


def totality(pid):
    c = Check(pid)
    load_tables()
    rnd = random.Random(c.seed)
    pumps = [1, 700]
    (rows, st), = tlc.run_many([('AnyText', {'classes': len(CLASSES), 'length': 4 if c.thorough else 3, 'pumps': pumps})])
    c.stats(st)
    names = OPT['scripts'] + OPT['latin'] + OPT['japanese'] + OPT['semitic'] + OPT['iso']
    po, pr = sorted(OPT['post']), sorted(x for x in OPT['pre'] if x != 'KhmerWordSplit')
    spell = lambda q: ''.join(rnd.choice(CLASSES[i - 1]) for i in q)
    rows.sort(key=json.dumps)
    short = [r[0] for r in rows if r[1] == 1]; long = [r[0] for r in rows if r[1] != 1 and len(r[0]) <= 2]
    pairs = [(s, t) for s in names for t in names if not (s == 'Tamil' and t == 'IPA')]
    rnd.shuffle(pairs)
    jobs = []
    for k, (s, t) in enumerate(pairs):
        jobs.append((s, t, spell(short[k % len(short)]), {'nativize': k % 2 == 0}))
        if c.thorough:
            jobs.append((s, t, spell(rnd.choice(short)), {'nativize': k % 2 == 1, 'post_options': rnd.sample(po, 2), 'pre_options': rnd.sample(pr, 1)}))
    for t in names:
        jobs.append((rnd.choice(OPT['scripts']), t, '', {'nativize': rnd.random() < .5}))
    for key, opts in (('post_options', OPT['post']), ('pre_options', OPT['pre'])):
        for o in opts:
            if o == 'KhmerWordSplit':
                continue
            for _ in range(60 if c.thorough else 8):
                s, t = rnd.choice(pairs)
                if key == 'post_options' and opts[o] and rnd.random() < .7: t = rnd.choice(opts[o])
                if key == 'pre_options' and opts[o] and rnd.random() < .7: s = rnd.choice(opts[o])
                if not (s == 'Tamil' and t == 'IPA'):
                    jobs.append((s, t, spell(rnd.choice(short)), {'nativize': rnd.random() < .5, key: [o]}))
    big = []
    for s in names:
        for _ in range(8 if c.thorough else 1):
            t = rnd.choice(names)
            if not (s == 'Tamil' and t == 'IPA') and 'Khmer' not in s:
                big.append((s, t, spell(rnd.choice(long)) * pumps[-1], {'nativize': rnd.random() < .5}))
    for t in names:
        for _ in range(4 if c.thorough else 1):
            s = rnd.choice(OPT['scripts'])
            if not (s == 'Tamil' and t == 'IPA') and 'Khmer' not in s:
                big.append((s, t, rnd.choice('9१1') * rnd.choice([8, 20, 400, 5000]) + ' ' + spell(rnd.choice(long)) * 300, {'nativize': rnd.random() < .5}))
    for (s, t, x, kw), o in zip(jobs + big, pmap(convert_one, jobs + big, 20)):
        if not isinstance(o, str):
            c.violation(source=s, target=t, options=kw, text=x[:60].encode('utf8', 'backslashreplace').decode(), length=len(x), want='a text', got=o)
        c.count()
    n = sweep(c, rnd, names)
    c.sample({'texts': len(jobs) + n, 'long texts': len(big), 'first': [jobs[0][0], jobs[0][1], jobs[0][2].encode('utf8', 'backslashreplace').decode()]})
    c.assumptions += ['an answer within 60 s counts as an answer; Tamil to IPA, which asks a web service, and KhmerWordSplit, which loads a language model, are left out']
    c.finish()
