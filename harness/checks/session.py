"""The library in use: histories and schedules of Session.tla / Rounds.tla replayed into the package."""
import json, multiprocessing as mp, os, random, subprocess, sys, threading
from core import *
import core, tlc

OPT = json.load(open(os.path.join(ROOT, 'data', 'options.json')))
SAMPLE = {'Arab': 'كتاب مدرسة ٱلسَّلَامُ', 'Arab-Fa': 'کتاب چشمه', 'Arab-Ur': 'کِتَابْ ڈاکٹَر', 'Arab-Pa': 'کِتَابْ ݨَ', 'Hebr': 'שָׁלוֹם כְּתָב', 'Hebrew': 'שָׁלוֹם כְּתָב', 'Thaa': 'ދިވެހި', 'Thaana': 'ދިވެހި',
          'Urdu': 'کِتَابْ ڈاکٹَر', 'Shahmukhi': 'کِتَابْ ݨَ', 'Syrn': 'ܟܬܵܒܵܐ ܡܲܠܟܵܐ', 'Syrj': 'ܟܬܳܒܳܐ ܡܰܠܟܳܐ', 'Syre': 'ܟܬܒܐ ܡܠܟܐ', 'Latn': 'šālōm kitāb', 'Phnx': '𐤀𐤁𐤂𐤃', 'Ugar': '𐎀𐎁𐎂', 'Hiragana': 'さくら がっこう', 'Katakana': 'サクラ ガッコー'}
SOURCES = ['Devanagari', 'Tamil', 'Malayalam', 'Bengali', 'Gurmukhi', 'Telugu', 'Thai', 'Burmese', 'Javanese', 'Khmer', 'Tibetan', 'Itrans', 'IAST', 'HK', 'ISO']
MORE = ['Assamese', 'Kannada', 'Sinhala', 'Oriya', 'Gujarati', 'Balinese', 'Limbu', 'Shan', 'TaiTham', 'Lepcha', 'Chakma', 'MeeteiMayek', 'Brahmi', 'Grantha']
LOC = ['Burmese', 'Shan', 'Khmer', 'TaiTham', 'Tamil', 'Malayalam', 'Kannada', 'Sinhala', 'Telugu', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'Gurmukhi', 'Tibetan', 'Limbu']


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))


def texts(c, lottery='CCCCCMMMMHHAAVVDS_', more=True):
    """Texts for each source script, as the spelling machine writes them."""
    from checks import spelling
    out = {}
    for grp in [SOURCES[:8], ['Devanagari'] + SOURCES[8:]] + ([['Devanagari'] + MORE[:7], ['Devanagari'] + MORE[7:]] if more else []):
        ss, rows = spelling.behaviours(c, grp, 60, [], (6, 10), lottery)
        for k, s in enumerate(ss):
            if k or s not in out:
                out.setdefault(s, []).extend(text(r[1][k]) for r in rows if r[1][k])
    for s, x in SAMPLE.items():
        out[s] = [x]
    return out


def call_pool(c):
    rnd = random.Random(c.seed)
    tx = texts(c)
    pick = lambda s: ' '.join(rnd.sample(tx[s], min(3, len(tx[s]))))
    pool, seen = [], set()
    def add(s, t, **kw):
        if s == 'Tamil' and t == 'IPA' or s not in tx:
            return                                    # asks a web service
        pool.append((s, t, pick(s), kw))
    def both(s, t, nativize, **opts):
        """The same call with options and, half the time, without them."""
        add(s, t, nativize=nativize, **opts)
        if t == 'RomanLoC' or rnd.random() < .4:
            add(s, t, nativize=nativize)
    every = OPT['scripts'] + OPT['latin'] + OPT['japanese']
    for t in every:
        for n in (True, False):
            add(rnd.choice(SOURCES), t, nativize=n)
    for t in OPT['semitic'] + OPT['iso'] + ['Thaana', 'Urdu', 'Hebrew', 'Shahmukhi']:
        add(rnd.choice(['Hebr', 'Arab', 'Devanagari', 'Syrn', 'Latn', 'Arab-Fa', 'Phnx', 'Urdu']), t, nativize=rnd.random() < .5)
    for s in SAMPLE:
        add(s, rnd.choice(['Devanagari', 'Tamil', 'IAST', 'Latn', 'Hebr', 'Arab']), nativize=rnd.random() < .5)
    for o, ts in OPT['post'].items():
        if o in ('default', 'ISO259Target'):
            continue
        t = rnd.choice(ts or every)
        s = rnd.choice(SOURCES)
        both(s, t, nativize=rnd.random() < .3, post_options=[o])
    for s in LOC:
        both(s, 'RomanLoC', nativize=True, post_options=[rnd.choice(['capitalizeSentence', 'mDotAboveToBelow', 'AnusvaratoNasalASTISO'])])
        both('ISO', s, nativize=True, post_options=[rnd.choice(['capitalizeSentence', 'indicNumerals', 'romanNumerals'])])
        pool.append(('RomanLoC', s, pick('ISO'), {'nativize': True}))
        pool.append(('RomanLoC', s, pick('ISO'), {'nativize': True, 'post_options': ['romanNumerals'], 'pre_options': ['RomanLoCChandrabindu']}))
    for o, ss in OPT['pre'].items():
        s = rnd.choice([x for x in ss if x in tx] or SOURCES)
        both(s, rnd.choice(every), nativize=rnd.random() < .3, pre_options=[o])
    for a, b in (('hi', 'ta'), ('sa-Deva', 'bn'), ('ml', 'en'), ('pa-Guru', 'ur')):
        pool.append((a, b, pick('Devanagari'), {'param': 'lang_code'}))
    for a, b in (('Deva', 'Taml'), ('Deva', 'Latn'), ('autodetect', 'Knda')):
        pool.append((a, b, pick('Devanagari'), {'param': 'script_code'}))
    for a, b in (('Hindi', 'Tamil'), ('Sanskrit', 'Bengali')):
        pool.append((a, b, pick('Devanagari'), {'param': 'lang_name'}))
    for s in ('Devanagari', 'Tamil', 'Thai', 'Burmese'):
        pool.append(('autodetect', 'IAST', pick(s), {'nativize': False}))
    rnd.shuffle(pool)
    n = len(pool)
    while not is_prime(n):
        n -= 1
    return pool[:n]


def make(call):
    """One call, with argument lists of its own: (answer, arguments left as they were)."""
    s, t, x, kw = call
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    before = json.dumps(kw, sort_keys=True)
    r = process(s, t, x, **{'nativize': True, **kw})
    return r, json.dumps(kw, sort_keys=True) == before


def shared(call, lists):
    """The same call, with argument lists the client keeps using."""
    s, t, x, kw = call
    kw = {k: (lists.setdefault(tuple(v), list(v)) if isinstance(v, list) else v) for k, v in kw.items()}
    return process(s, t, x, **{'nativize': True, **kw})


POOL = []


def fresh(i):
    return make(POOL[i])


def history(order):
    lists = {}
    return [(i, shared(POOL[i], lists)) for i in order]


def new_processes(f, xs, chunk=1):
    with mp.get_context('fork').Pool(NJOBS, maxtasksperchild=1) as p:
        return p.map(f, xs, chunk)


def other_seed(calls, seed):
    code = ('import sys, json; sys.path[:0] = %r; import checks.session as S\n'
            'calls = json.load(sys.stdin)\n'
            'json.dump([S.make(c)[0] for c in calls], sys.stdout)') % [os.path.join(ROOT, 'harness')]
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], input=json.dumps(calls), capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED=str(seed)), timeout=600)
    if r.returncode:
        return None, r.stderr[-500:]
    return json.loads(r.stdout), None


# -- schedules: two or three clients, switching inside calls
class Turns:
    """Runs clients in turn, as a schedule says: [(client, lines to run, or None: to the end)]."""
    def __init__(self, schedule, root):
        self.schedule, self.root, self.at, self.cond, self.done = list(schedule), root, 0, threading.Condition(), set()
        self.left = self.schedule[0][1] if self.schedule else None
        self.over = False

    def turn(self):
        while self.at < len(self.schedule) and self.schedule[self.at][0] in self.done:
            self.next()
        return self.schedule[self.at][0] if self.at < len(self.schedule) else None

    def next(self):
        self.at += 1
        self.left = self.schedule[self.at][1] if self.at < len(self.schedule) else None
        self.cond.notify_all()

    def wait(self, k):
        while True:
            t = self.turn()
            if t == k or t is None:
                return
            if not self.cond.wait(30):
                self.over = True; return

    def trace(self, k):
        def local(frame, event, arg):
            if event == 'line' and not self.over:
                with self.cond:
                    self.wait(k)
                    if self.left is not None:
                        self.left -= 1
                        if self.left <= 0:
                            self.next()
            return local
        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.root) else None
        return glob

    def run(self, works):
        out = {}
        def body(k):
            sys.settrace(self.trace(k))
            try:
                with self.cond:
                    self.wait(k)
                out[k] = works[k]()
            finally:
                sys.settrace(None)
                with self.cond:
                    self.done.add(k); self.cond.notify_all()
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in works]
        [t.start() for t in ts]; [t.join(120) for t in ts]
        return out


def plain(call):
    """A call without the harness's own interruptions (signals belong to the main thread)."""
    s, t, x, kw = call
    try:
        return _PROCESS(s, t, x, **{'nativize': True, **{k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}})
    except Exception as e:
        return ('!', type(e).__name__ + ': ' + str(e)[:200])


_PROCESS = None


def package_root():
    import aksharamukha
    return os.path.dirname(os.path.abspath(list(aksharamukha.__path__)[0] + '/x'))


def lines_of(call, root):
    n = [0]
    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local
    sys.settrace(lambda f, e, a: local if f.f_code.co_filename.startswith(root) else None)
    try:
        plain(call)
    finally:
        sys.settrace(None)
    return n[0]


def scheduled(job):
    global _PROCESS
    calls, sched, steps = job
    import warnings
    warnings.simplefilter('ignore')
    from aksharamukha import transliterate
    _PROCESS = transliterate.process
    root = package_root()
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for c in calls:
            plain(c)                                          # tables loaded
        n = [lines_of(c, root) for c in calls]
        turns, last = [], len(sched) - 1
        for i, (k, m) in enumerate(sched):
            final = all(k2 != k for k2, _ in sched[i + 1:])
            turns.append((k - 1, None if final else max(1, n[k - 1] * m // steps)))
        res = Turns(turns, root).run({k: (lambda c=c: plain(c)) for k, c in enumerate(calls)})
    return [res.get(k, ('!', 'no answer')) for k in range(len(calls))], sum(n)


def load_tables():
    """Reading the YAML tables takes a second: do it before new processes are forked (each has a copy of its own)."""
    t = core._T()
    for f in ('/yaml/aksharamukha-scripts.yaml', '/yaml/wikitra2-data.yaml'):
        call(getattr(t, '_load_data', lambda f: None), f)


def session(pid):
    global POOL
    c = Check(pid)
    load_tables()
    POOL = call_pool(c)
    n = len(POOL)
    rnd = random.Random(c.seed + 7)
    strides = list(range(1, n)) if c.thorough else rnd.sample(range(1, n), 28)
    three = {'calls': 2, 'clients': 3, 'steps': 3, 'switches': 3, 'each': 1}
    two = {'calls': 2, 'clients': 2, 'steps': 9 if c.thorough else 6, 'switches': 3 if c.thorough else 2, 'each': 1}
    small = {'calls': 5, 'clients': 1, 'steps': 1, 'switches': 0, 'each': 4}
    (rounds, st), (s2, st2), (s3, st3), (h, st4) = tlc.run_many([('Rounds', {'calls': n, 'strides': strides}), ('Session', two), ('Session', three), ('Session', small)])
    for s in (st, st2, st3, st4):
        c.stats(s)
    own = new_processes(fresh, range(n))
    for i, (r, kept) in enumerate(own):
        if not kept:
            c.violation(what='an option list passed in was changed', call=POOL[i])
    own = [r for r, _ in own]
    c.count(n, calls=n)
    # hash seeds
    for seed in (1, 2) if c.thorough else (1,):
        a, err = other_seed(POOL, seed)
        if err:
            c.violation(what='no answers with another hash seed', got=err)
        else:
            for i in range(n):
                want = list(own[i]) if isinstance(own[i], tuple) else own[i]
                if a[i] != want:
                    c.violation(what='another answer in a process with hash seed %d' % seed, call=POOL[i], want=want, got=a[i])
            c.count(n)
    # long histories
    orders = {}
    for s, m, i in rounds:
        orders.setdefault(s, {})[m] = i
    orders = [[o[m] for m in sorted(o)] for _, o in sorted(orders.items())]
    # every history of four calls out of five, for related calls
    def related():
        k = rnd.randrange(n)
        same = [i for i in range(n) if i != k and (POOL[i][1] == POOL[k][1] or POOL[i][0] == POOL[k][0])]
        return ([k] + rnd.sample(same, min(4, len(same))) + rnd.sample(range(n), 4))[:5]
    short = sorted({tuple(x[0][0]) for x in h})
    for _ in range(12 if c.thorough else 2):
        r = related()
        orders.append([r[i - 1] for o in short for i in o])
    for order, out in zip(orders, new_processes(history, orders)):
        for k, (i, r) in enumerate(out):
            if r != own[i]:
                c.violation(what='another answer after other calls', call=POOL[i], before=[POOL[j] for j in order[max(0, k - 3):k]], want=own[i], got=r)
        c.count(len(out), histories=1)
    # schedules
    jobs = []
    for rows, k in ((s2, 2), (s3, 3)):
        scheds = sorted({json.dumps([x[0], x[1]]) for x in rows})
        for _ in range(30 if c.thorough else 1):
            picks = scheds if k == 2 else rnd.sample(scheds, min(len(scheds), 60))
            for sc in picks:
                asks, turns = json.loads(sc)
                two_calls = [rnd.randrange(n) for _ in range(2)]
                if rnd.random() < .5:
                    same = [i for i in range(n) if POOL[i][1] == POOL[two_calls[0]][1]]
                    two_calls[1] = rnd.choice(same)
                ids = [two_calls[a[0] - 1] for a in asks]
                jobs.append((ids, turns, (two if k == 2 else three)['steps']))
    if not c.thorough:
        jobs = rnd.sample(jobs, min(len(jobs), 160))
    outs = new_processes(scheduled, [([POOL[i] for i in ids], t, s) for ids, t, s in jobs])
    for (ids, turns, _), (res, lines) in zip(jobs, outs):
        for i, r in zip(ids, res):
            if r != own[i]:
                c.violation(what='another answer next to another client', call=POOL[i], clients=[POOL[j] for j in ids], schedule=turns, want=own[i], got=r)
        c.count(1, schedules=1, scheduled_lines=lines)
    c.sample({'call': POOL[0], 'answer': own[0]})
    c.sample({'schedule': jobs[0][1], 'calls': [POOL[i][:2] for i in jobs[0][0]]})
    c.assumptions += ['clients are threads of one process, switched at lines of the package; switches inside the interpreter or C libraries are not scheduled',
                      'Tamil to IPA, which asks a web service, is not called']
    c.finish()
