"""Styles: nativized spelling and spellings asked for by name (Style.tla)."""
import random
from core import *
import tlc
from checks.spelling import *

TAMIL_NA = json.load(open(os.path.join(ROOT, 'data', 'tamil-na.json')))
STYLED = [s for s in INDIAN + HISTORIC + MINORITY + SEA + RARE + LATIN]
NPLANS = ['C','CM','CA','CMA','CH','V','VA','CV','CHC','CC','VCH','SS','CD','CX','gHgm','kmkH','kHkHs','_C','C_','V_','_V','S_','SC','kmkA','kMx','kAk','kmAk','Crr','kAkAw','gxg','Vxg','wnHknHk','MM']
RICH = 'Tamil Ahom Multani Khojki Saurashtra Modi Telugu Malayalam Chakma MeeteiMayek Limbu Sundanese Bengali Kannada Avestan Thaana Nandinagari WarangCiti Oriya Assamese Gurmukhi Sinhala Tibetan'.split()
SIMPLE = ['CM','CA','CHC','V','VA','kmkH','gHgs','SS','CX','_C','C_','wnHkw']


def style(s, native=True, *options): return {'script': s, 'native': native, 'options': list(options)}


def many_styles(c, groups, walks, length=(3, 14), lottery=LOTTERY):
    """groups of (scripts, styles, plans) -> [(scripts, styles, rows)]; rows have the styled texts in column 3."""
    jobs = []
    for ss, st, pl in groups:
        more = {'scripts': ss, 'judged': 2, 'styles': st, 'words': TAMIL_NA if any(x['script'] == 'Tamil' for x in st) else []}
        jobs.append(('Writer', dict(more, plans=plans(pl))))
        if walks:
            jobs.append(('Walk', dict(more, walks=walks, length=list(length), lottery=list(lottery), seed=c.seed)))
    res = tlc.run_many(jobs)
    out = []
    for ss, st, pl in groups:
        rows = []
        for _ in range(2 if walks else 1):
            r, s = res.pop(0)
            c.stats(s); rows = rows + r
        out.append((ss, st, rows))
    return out


def styled(c, src, x, ks, i, rows, mode='bulk', options=None):
    sel = [r for r in rows if r[1][ks] and r[3][i] and (mode == 'single' or 10 not in r[0])]
    kw = {'nativize': x['native'], 'post_options': options if options is not None else x['options']}
    return (src, x['script'], [text(r[1][ks]) for r in sel], kw, mode), sel, i, x


def run_styled(c, todo):
    res = convert_jobs([j for j, *_ in todo])
    for (j, sel, i, x), out in zip(todo, res):
        for r, t, o in zip(sel, j[2], out):
            if text(r[3][i]) != o:
                c.violation(source=j[0], target=j[1], style=x['options'], nativize=x['native'], post_options=j[3]['post_options'],
                            letters=' '.join(map(tok, r[0])), text=t, want=text(r[3][i]), got=o, mode=j[4])
        c.count(len(sel))
        if sel and len(c.cov['samples']) < 12:
            k = len(sel) // 2
            c.sample('%s %r -> %s %s%r: %r' % (j[0], j[2][k], j[1], 'nativized ' if x['native'] else '', x['options'], out[k]))


def nativized(pid):
    c = Check(pid)
    rnd = random.Random(c.seed)
    rest = [s for s in STYLED if s not in RICH]
    both = [(RICH[i::4], NPLANS + (DEEP if c.thorough else [])) for i in range(4)] + [(rest[i::4], SIMPLE + (NPLANS if c.thorough else [])) for i in range(4)]
    groups = [(['Devanagari', 'Telugu'] + [s for s in g if s != 'Telugu'], [style(s) for s in g], pl) for g, pl in both]
    todo = []
    for ss, st, rows in many_styles(c, groups, 20000 if c.thorough else 1000):
        leg = [r for r in rows if r[2][1] and not (VEDIC | PRENASAL) & set(r[0])]
        for i, x in enumerate(st):
            todo.append(styled(c, 'Devanagari', x, 0, i, rows))
            todo.append(styled(c, 'Devanagari', x, 0, i, rnd.sample(rows, min(len(rows), 3000 if c.thorough else 300)), 'single'))
            if x['script'] != 'Telugu':
                todo.append(styled(c, 'Telugu', x, 1, i, rnd.sample(leg, min(len(leg), 3000 if c.thorough else 1000))))
    run_styled(c, todo)
    c.findings(known)
    c.finish()


OPTIONS = {
 'Gujarati': 'RetainGujaratiDanda',
 'RussianCyrillic': 'CyrillicPali',
 'IPA': 'IPARemoveCross AnusvaraToNasalIPA',
 'Thai': 'ThaiVisargaSaraA',
 'KhuenTham': 'ThamShiftMaiKangLai ThamTallAOthers',
 'Dogra': 'DograShaKha',
 'Ahom': 'AhomClosed removePaliAhom', 'Balinese': 'BalineseArchaicJNA BalineseAvowels BalineseMoveRepha', 'Javanese': 'JavaneseArchaicJNA JavaneseAvowels JavaneseMoveRepha',
 'Bengali': 'BengaliConjunctVB BengaliIntervocalicDDA BengaliOldRA BengaliSwitchYaYYa BengaliYYA khandatabatova',
 'Bhaiksuki': 'BhaiksukiRetainSpace', 'Kaithi': 'KaithiRetainSpace', 'Chakma': 'ChakmaVowelsIndependent ChakmaGemination ChakmaEnableAllConjuncts ChakmaPali',
 'Devanagari': 'DevanagariACandra DevanagariAVowels DevanagariAnusvara DevanagariPrishtamatra jainomDevangari LimbuDevanagariConvention',
 'DivesAkuru': 'DivesAkuruHomoOrganNasal UseAlternateYA DivesAkuruAlternateIndVowels', 'Grantha': 'GranthaOldau GranthaPrakrit',
 'Gurmukhi': 'GurmukhiCandrabindu GurmukhiTippiBindu GurmukhiTippiGemination GurmukhiYakaash RetainGurmukhiNumerals',
 'Kannada': 'KannadaNakaraPollu KannadaNotRepha KannadaSpacingCandrabindu RetainKannadaNumerals RetainKannadaDanda', 'Kawi': 'KawiAltAiAU KawiArchaicJNA KawiDecomposedVowel KawiMoveRepha',
 'KhamtiShan': 'KhamtiShanRa KhamiShanMyanmarNumerals', 'Khojki': 'KhojkiQa KhojkiRRI KhojkiRetainSpace', 'Limbu': 'LimburemoveHistorical LimbuSpellingSaI',
 'Malayalam': 'MalayalamAnusvaraNasal MalayalamCircVirama MalayalamLineVirama MalayalamremoveHistorical archaicAIAU dotReph historicChillu MalayalamPrakrit RephaDoubleMalayalam RetainMalayalamNumerals RetainMalayalamDanda',
 'Marchen': 'MarchenSanskritPalatals', 'MeeteiMayek': 'MeeteiMayekremoveHistorical', 'Modi': 'ModiRemoveLong', 'Nandinagari': 'NandinagariPrishtamatra',
 'Newa': 'NewaDisableRepha NewaMurmurConsonants NewaSpecialTa', 'Oriya': 'OriyaVa OriyaVaAlt OriyaYYA', 'Saurashtra': 'SaurashtraHaru',
 'Siddham': 'UseAlternateI1 UseAlternateI2 UseAlternateII UseAlternateU UseAlternateVSU UseAlternateVSUU', 'Sinhala': 'SinhalaChandrbinduAnusvara SinhalaConjuncts SinhalaPali',
 'Soyombo': 'SoyomboInitials SoyomboSanskritPalatals SoyomboSpaceTscheg', 'Sundanese': 'SundaneseRemoveHistoric SundaneseHistoricConjuncts', 'Takri': 'TakriArchaicKha TakriRemoveGemination',
 'Tamil': 'TamilGranthaVisarga TamilOmDisable TamilRemoveApostrophe TamilRemoveNumbers TamilSubScript RemoveDiacritics TamilSHADisable TamilDisableSHA TamilAddFirstVarga MedievalTamilOrthography FinalNNa ContextualLLa RetainTamilNumerals RetainTamilDanda',
 'TamilExtended': 'TamilStyleUUCore TamilStyleUUOther TamilExtendedAnusvara', 'Telugu': 'TeluguArasunnaChandrabindu TeluguNakaraPollu TeluguRemoveAeAo TeluguRemoveNukta TeluguReph TeluguTamilRra RetainTeluguNumerals RetainTeluguDanda',
 'Thaana': 'ThaanaRemoveHistorical', 'Tibetan': 'TibetanRemoveVirama TibetanSanskritPalatals TibetanNada TibetanTsheg', 'LueTham': 'UseAlternateo1 ThamTallADisable TaiThamMoveNnga', 'TaiTham': 'UseAlternateo2 UseAlternateo1 ThamTallADisable TaiThamO TaiThamHighNga TaiThamMoveNnga ThamTallAOthers ThamShiftMaiKangLai',
 'ZanabazarSquare': 'ZanabazarSanskritPalatals ZanabazarSquareAiAu ZanabazarSquareContextual ZanabazarSquareMongolianFinal ZanzabarSpaceTsheg',
 'IAST': 'IASTPali RemoveDiacritics Dot2Dandas RomanLoCSasha NasalTilde', 'ISO': 'RemoveDiacritics inherentAO mDotAboveToBelow mDotBelowToAbove noLongEO AnusvaratoNasalASTISO NasalTilde SinhalaSannakaNasalization RomanLoCVaWa RomanLoCChandrabindu RomanLoCLaUnderscoreDoubleDot RomanLoCSLaDotLaUnderscore HindiMarathiRomanLoCFix MalayalamNTA MalayalamTTNTA', 'RomanReadable': 'RomanReadableLongEO', 'Itrans': 'readableItrans swapEe Dot2Pipes',
}
# these choose fonts, or belong to the source: they change no text
FONTS = '''devanagaribalbodh devanagarijain devanagarinepali devanagariuttara granthafinal granthaserif kawitan olddogra oldtamilortho siddhamBija sundapura
 tibetandbumed tradOrtho PhagsPaSeal PhagsPaTib PhoneticMapping AmbigousTamilOrthography ChakmaAVowels verticalSiddham LatinPipes'''.split()
LATE = ['romanNumerals', 'indicNumerals', 'romanFullStop']
OPLANS = ['wwHkHk','wwHkm','C','CM','CA','CH','V','VA','CHC','SS','DD','CX','O','gHgm','kHkHks','_C','C_','Crr','kMx','VS','kAk']


def anycase(rnd, o):
    return rnd.choice([o, o.lower(), o.upper(), o.swapcase()])


def optional(pid):
    c = Check(pid)
    rnd = random.Random(c.seed)
    every = sorted(set(' '.join(OPTIONS.values()).split()))
    names = sorted(OPTIONS, key=lambda s: -len(OPTIONS[s].split()))
    groups = []
    for i in range(6):
        g, st = names[i::6], []
        for s in g:
            own = OPTIONS[s].split()
            for o in own:
                for native in ((False, True) if c.thorough else (rnd.random() < .3,)):
                    st.append(style(s, native, o))
            for _ in range((8 if c.thorough else 2) if len(own) > 1 else 1):
                some = rnd.sample(own, rnd.randint(min(2, len(own)), min(4, len(own)))) + rnd.sample(LATE, rnd.randint(0, 2)) + [rnd.choice(FONTS)] + [rnd.choice(every)]
                st.append(style(s, rnd.random() < .4, *rnd.sample(some, len(some))))
            st.append(style(s, False, rnd.choice(LATE)))
        groups.append((['Devanagari', 'Telugu'] + [s for s in g if s not in ('Devanagari', 'Telugu')], st, OPLANS + (['CMA', 'CHCM', 'CC', 'gHgHgm'] if c.thorough else [])))
    todo = []
    for ss, st, rows in many_styles(c, groups, 10000 if c.thorough else 600):
        leg = [r for r in rows if r[2][1] and not (VEDIC | PRENASAL) & set(r[0])]
        for i, x in enumerate(st):
            asked = [o if o in ('RemoveDiacritics',) else anycase(rnd, o) for o in x['options']]
            if x['script'] != 'Devanagari':
                todo.append(styled(c, 'Devanagari', x, 0, i, rows, 'bulk', asked))
                todo.append(styled(c, 'Devanagari', x, 0, i, rnd.sample(rows, min(len(rows), 2000 if c.thorough else 60)), 'single', asked))
            if x['script'] != 'Telugu':
                todo.append(styled(c, 'Telugu', x, 1, i, rnd.sample(leg, min(len(leg), 3000 if c.thorough else 600)), 'bulk', asked))
    run_styled(c, todo)
    c.findings(known)
    c.finish()
