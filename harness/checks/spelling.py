"""Spelling and reading: behaviours of Writer.tla and Walk.tla replayed into the converter."""
import random
from core import *
import tlc

INDIAN = 'Bengali Assamese Gurmukhi GurmukhiLoC Kannada Malayalam Sinhala Tamil Telugu Gujarati Oriya TamilExtended TamilGrantha Grantha Sharada'.split()
HISTORIC = 'Mahajani Ahom Multani Khudawadi ZanabazarSquare Khojki Bhaiksuki Kaithi Saurashtra Brahmi Dogra Modi Newa Siddham Takri Tirhuta DivesAkuru Kawi Soyombo Marchen Kharoshthi'.split()
MINORITY = 'MeeteiMayek BatakSima BatakKaro BatakManda BatakPakpak BatakToba Cham Lepcha Sundanese Rejang Balinese Javanese Tagbanwa Tagalog Hanunoo Buhid Buginese Makasar MasaramGondi GunjalaGondi Chakma Limbu LimbuLoC'.split()
SEA = 'Khmer KhmerLoC Burmese Mon KhamtiShan TaiLaing Shan ShanLoC TaiTham LaoTham ThamLoC LueTham KhuenTham Thai KhomThai LaoPali Tibetan TibetanLoC'.split()
RARE = 'Nandinagari Pallava Vatteluttu GranthaPandya GranthaGrantamil SiddhamDevanagari TamilBrahmi SylotiNagri Ranjana BengaliRaBa OldPersian Thaana WarangCiti HanifiRohingya Mongolian Avestan'.split()
LATIN = 'IAST Itrans IASTPali RomanReadable ISO HK ISOPali RomanColloquial Titus Velthuis RomanKana IPA SLP1 WX BarahaNorth Aksharaa RussianCyrillic Ariyaka BarahaSouth Wancho TolongSiki SoraSompeng Mro Santali'.split()
ROMAN = ['C','CM','CA','gmA','CH','V','VA','VV','kV','kHC','CHk','gHg','gg','wC','VC','VkHg','SS','DD','Cx','kmx','kAx','kxA','wmV','kHkHk','kmkH','O','DC','CD','bC','Cb','Vb','bV','Sb','SC','VS','AC','xS','vxS','kxSw']
ROMAN_DEEP = ['CHC','CC','CMA','VVV','CVV','CMV','CMx','gHgm','gmgH','kHkHks','CxA','gHgV']
GROUPS = {'indian': INDIAN, 'historic': HISTORIC, 'minority': MINORITY, 'sea': SEA, 'rare': RARE}

# plans: sequences of letter classes (Job.tla) enumerated exhaustively
FULL = ['C','CM','CA','CMA','CH','V','VA','VV','CV','CHC','CC','gHgHg','VC','VCH','SS','DD','wmXgH','CX','gHgm','CS','gmgH','kHkHk','kHkHks','O','DC','CD','DDD','_C','C_','V_','_V','S_']
DEEP = ['CHCM', 'gHgHgH', 'gHgHgm', 'CMC', 'VCV', 'gHgmgH', 'gHgA', 'gHgHr', 'kHkHkHk', 'CHC_', '_CHC']
CORE = ['C','CM','CA','CMA','CH','V','VA','CHC','gHgm','gmgH','kHkHks','VCH','CV','DD','SS']
INDIC_SOURCES = 'Bengali Telugu Kannada Gujarati Oriya Sinhala Brahmi Javanese Balinese Tirhuta Newa Takri Kaithi'.split()
PRENASAL = {2002045 + i for i in range(5)}
ALPHABETS = {'WarangCiti', 'HanifiRohingya', 'Mongolian', 'Avestan'}
VEDIC = {0x951, 0x952, 0x1cda, 0xa8f3, 0xa8f4}
LOTTERY = 'CCCCCMMMMHHHHAAVVDSO_'
FOREIGN = {0x20, 0x2c, 0x3b, 0x28, 0x3d, 0x41, 0x7a, 0x4e2d}


def plans(ps): return [list(p) for p in ps]


def behaviours(c, scripts, walks, pl, length=(3, 14), lottery=LOTTERY):
    ss = ['Devanagari'] + [s for s in scripts if s != 'Devanagari']
    return many(c, [ss], walks, pl, length, lottery)[0]


def many(c, groups, walks, pl, length=(3, 14), lottery=LOTTERY):
    """For each group of scripts (the first one writes the texts): (scripts, rows)."""
    jobs = []
    for ss in groups:
        jobs.append(('Writer', {'scripts': ss, 'plans': plans(pl)}))
        if walks:
            jobs.append(('Walk', {'scripts': ss, 'walks': walks, 'length': list(length), 'lottery': list(lottery), 'seed': c.seed}))
    res = tlc.run_many(jobs)
    out = []
    for ss in groups:
        rows = []
        for _ in range(2 if walks else 1):
            r, st = res.pop(0)
            c.stats(st); rows = rows + r
        out.append((ss, rows))
    return out


def check_pair(c, s, t, ks, kt, rows, mode):
    """One conversion job: the texts spelled in s, to be spelled in t."""
    sel = [r for r in rows if r[1][ks] and r[1][kt] and (mode == 'single' or 10 not in r[0])]
    return (s, t, [text(r[1][ks]) for r in sel], {}, mode), sel, kt


def run_jobs(c, todo):
    res = convert_jobs([j for j, _, _ in todo])
    for (j, sel, kt), out in zip(todo, res):
        for r, x, o in zip(sel, j[2], out):
            if text(r[1][kt]) != o:
                c.violation(source=j[0], target=j[1], letters=' '.join(map(tok, r[0])), text=x, want=text(r[1][kt]), got=o, mode=j[4])
        c.count(len(sel))
        if sel and len(c.cov['samples']) < 12:
            i = len(sel) // 2
            c.sample('%s %r -> %s %r' % (j[0], j[2][i], j[1], out[i]))


def forward(c, scripts, walks, pl):
    rnd = random.Random(c.seed)
    ss, rows = behaviours(c, scripts, walks, pl)
    todo = []
    for k, s in enumerate(ss):
        if k:
            todo.append(check_pair(c, 'Devanagari', s, 0, k, rows, 'bulk'))
            todo.append(check_pair(c, 'Devanagari', s, 0, k, rnd.sample(rows, min(len(rows), 3000 if c.thorough else 350)), 'single'))
        # from other scripts, among the texts legible there
        leg = [r for r in rows if r[2][k]]
        others = [i for i in range(1, len(ss)) if i != k]
        for i in (others if c.thorough else rnd.sample(others, min(4, len(others)))):
            mine = [r for r in leg if not VEDIC & set(r[0])] if ss[i] in ALPHABETS else leg   # accents are moved for Devanagari only
            todo.append(check_pair(c, s, ss[i], k, i, rnd.sample(mine, min(len(mine), 3000 if c.thorough else 1500)), 'bulk'))
    run_jobs(c, todo)


def known(k):
    return process(k['source'], k['target'], k['input'])


def _group(name):
    def run(pid):
        c = Check(pid)
        forward(c, GROUPS[name], 60000 if c.thorough else 3000, FULL + DEEP if c.thorough else [x for x in FULL if x != 'gHgHg'])
        c.assumptions += ['letters are composed as Alphabet.tla MayFollow says; other code point orders are not spelled',
                          'letter charts (data/charts.json) are the reference for stand-alone letters']
        c.findings(known)
        c.finish()
    return run


indian, historic, minority, sea, rare = (_group(g) for g in ('indian', 'historic', 'minority', 'sea', 'rare'))


def reading(pid):
    c = Check(pid)
    todo = []
    for ss, rows in many(c, [['Devanagari'] + g for g in GROUPS.values()], 30000 if c.thorough else 1500, FULL if c.thorough else CORE):
        for k, s in enumerate(ss):
            leg = [r for r in rows if r[2][k]]
            todo.append(check_pair(c, s, 'Devanagari', k, 0, leg, 'bulk'))
            todo.append(check_pair(c, s, 'Devanagari', k, 0, random.Random(c.seed).sample(leg, min(len(leg), 2000 if c.thorough else 200)), 'single'))
    run_jobs(c, todo)
    c.assumptions += ['only texts Legible.tla calls legible in the script are required to read back']
    c.findings(known)
    c.finish()


def roman(pid):
    """Indic text into the Latin and other alphabetic schemes."""
    c = Check(pid)
    rnd = random.Random(c.seed)
    todo = []
    parts = [LATIN[i::4] for i in range(4)]
    others = [rnd.sample(INDIC_SOURCES, 2) for _ in parts]
    for (ss, rows), src in zip(many(c, [['Devanagari'] + o + p for o, p in zip(others, parts)], 20000 if c.thorough else 1200,
                                    ROMAN + (ROMAN_DEEP if c.thorough else []), lottery='CCCCCMMMMHHHHAAVVDSOxb'), others):
        for k in range(3, len(ss)):
            todo.append(check_pair(c, 'Devanagari', ss[k], 0, k, rows, 'bulk'))
            todo.append(check_pair(c, 'Devanagari', ss[k], 0, k, rnd.sample(rows, min(len(rows), 3000 if c.thorough else 350)), 'single'))
            for j in (1, 2):
                leg = [r for r in rows if r[2][j] and not (VEDIC | PRENASAL) & set(r[0])]
                todo.append(check_pair(c, ss[j], ss[k], j, k, rnd.sample(leg, min(len(leg), 3000 if c.thorough else 1500)), 'bulk'))
    run_jobs(c, todo)
    c.assumptions += ['letters are composed as Alphabet.tla MayFollow says', 'letter charts (data/charts.json) are the reference for stand-alone letters']
    c.findings(known)
    c.finish()


READABLE = 'IAST Itrans HK ISO Velthuis SLP1 WX IASTPali Titus RussianCyrillic ISOPali BarahaNorth IPA BarahaSouth Aksharaa RomanReadable Ariyaka RomanColloquial TolongSiki RomanKana Santali Mro Wancho'.split()
TYPED = ['c','v','va','cv','vv','kc','ck','ct','tv','wt','kvx','kvax','kkw','wk','ss','sv','cs','dd','kd','wd','ks','ts']
TYPED_DEEP = ['cc','cva','vc','tc','cwk','kkwk','vs','cd','*s','*d','kwtk','kwkw']
TARGETS = INDIAN + HISTORIC + [x for x in MINORITY if x != 'GunjalaGondi'] + SEA


def latin(pid):
    """Latin and other alphabetic schemes into Indic scripts."""
    c = Check(pid)
    rnd = random.Random(c.seed)
    todo, jobs = [], []
    parts = [READABLE[i::4] for i in range(4)]
    groups = [['Devanagari'] + rnd.sample(TARGETS, 4 if c.thorough else 2) for p in parts]
    for p, t in zip(parts, groups):
        jobs.append(('Typist', {'scripts': t + p, 'schemes': p, 'render': len(t), 'joiners': 1, 'plans': plans(TYPED + (TYPED_DEEP if c.thorough else []))}))
    for (rows, st), p, t in zip(tlc.run_many(jobs), parts, groups):
        c.stats(st)
        for s in p:
            mine = [r for r in rows if r[3] == s]
            for k, x in enumerate(t):
                if s.startswith('Baraha') and x.startswith('Tamil'):
                    continue
                r = [r for r in mine if r[2][k] and (k == 0 or 95 not in r[0])]   # `_` separates in Devanagari
                for mode in ('bulk', 'single') if k == 0 else ('bulk',):
                    if mode == 'single':
                        r = rnd.sample(r, min(len(r), 3000 if c.thorough else 300))
                    todo.append(((s, x, [text(q[0]) for q in r], {}, mode), [(q[1], {0: q[2][k]}) for q in r], 0))
    groups = [['Devanagari'] + rnd.sample(TARGETS, 2) + p for p in parts]
    for ss, rows in many(c, groups, 20000 if c.thorough else 600, ['gmgH'] + (['kHkHks', 'kmkmk'] if c.thorough else []), lottery='CCCCCMMMMHHAVVDSb'):
        for k in range(3, len(ss)):
            leg = [r for r in rows if r[2][k] and not PRENASAL & set(r[0])]
            for j in range(3):
                if not (ss[k].startswith('Baraha') and ss[j].startswith('Tamil')):
                    todo.append(check_pair(c, ss[k], ss[j], k, j, leg, 'bulk'))
    run_jobs(c, todo)
    c.assumptions += ['only Latin texts with one segmentation into the letters of the scheme (Reader.tla: Torn, Trap) are required to be read so',
                      'letter charts (data/charts.json) are the reference for stand-alone letters']
    c.findings(known)
    c.finish()
