"""Shared by all checks: calling the implementation, reporting, evidence."""
import json, multiprocessing as mp, os, sys, time, hashlib, io, contextlib, signal
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NJOBS = min(8, os.cpu_count() or 1)
text = lambda q: ''.join(map(chr, q))
KINDS = 'VMCAHNSDO'


def tok(t):
    if isinstance(t, int) and t >= 2000000:
        k = KINDS[(t - 2000000) // 1000]
        return k if k in 'HNO' else k + str(t % 1000)
    return 'U+%04X' % t if isinstance(t, int) else str(t)


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def call(fn, *a, limit=60, **k):
    """Call into the implementation: its result, or ('!', error)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return fn(*a, **k)
    except Timeout:
        return ('!', 'no answer within %d s' % limit)
    except Exception as e:
        return ('!', type(e).__name__ + ': ' + str(e)[:200])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _T():
    import warnings
    warnings.simplefilter('ignore')
    from aksharamukha import transliterate
    return transliterate


def process(src, tgt, txt, limit=60, **kw):
    kw.setdefault('nativize', False)
    return call(_T().process, src, tgt, txt, limit=limit, **kw)


def _bulk(job):
    src, tgt, texts, kw, mode = job
    if mode == 'single':
        return [process(src, tgt, t, **kw) for t in texts]
    if not texts:
        return []
    o = process(src, tgt, '\n'.join(texts), limit=300, **kw)
    if not isinstance(o, str):
        return [process(src, tgt, t, limit=20, **kw) for t in texts]
    o = o.split('\n')
    if len(o) == len(texts):
        return o
    return [process(src, tgt, t, limit=20, **kw) for t in texts]


def _run1(a):
    f, x = a
    return f(x)


_POOL = None


def pool():
    global _POOL
    if _POOL is None:
        _POOL = mp.get_context('fork').Pool(NJOBS)
    return _POOL


def pmap(f, xs, chunk=1):
    return pool().imap(f, xs, chunk)


def convert_jobs(jobs, split=4000):
    """jobs: (src, tgt, texts, kw, 'bulk'|'single') -> list of result lists."""
    flat = []
    for i, (s, t, xs, kw, mode) in enumerate(jobs):
        n = split if mode == 'bulk' else 100
        for a in range(0, max(1, len(xs)), n):
            flat.append((i, (s, t, xs[a:a + n], kw, mode)))
    res = [[] for _ in jobs]
    for (i, _), r in zip(flat, pmap(_bulk, [j for _, j in flat])):
        res[i].extend(r)
    return res


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.viol = []
        self.nviol = 0
        self.known = [k for k in json.load(open(os.path.join(ROOT, 'known-findings.json')))['findings'] if k['property'] == pid]

    # -- coverage
    def stats(self, st):
        self.cov['states'] += st['states']; self.cov['transitions'] += st['transitions']
    def count(self, n=1, **more):
        self.cov['traces_validated_against_impl'] += n
        for k, v in more.items():
            self.cov[k] = self.cov.get(k, 0) + v
    def sample(self, s):
        if len(self.cov['samples']) < 12:
            self.cov['samples'].append(s if isinstance(s, str) else json.dumps(s, ensure_ascii=False))

    # -- verdicts
    def expect(self, want, got, **where):
        if want == got:
            return True
        self.violation(want=want, got=got, **where)
        return False

    def violation(self, **v):
        self.nviol += 1
        if len(self.viol) < 4000:
            self.viol.append(v)

    def findings(self, run):
        """Replay the listed findings: run(entry) -> what the implementation gives."""
        for k in self.known:
            got = run(k)
            if got == k['want']:
                continue                                  # repaired since
            if got == k['got']:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
            else:
                self.violation(known_finding=k['what'], input=k['input'], want=k['want'], got=got)

    def finish(self):
        global _POOL
        if _POOL is not None:
            _POOL.terminate(); _POOL = None
        self.cov['violations_found'] = self.nviol
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': self.cov, 'wall_s': round(time.time() - self.t0, 1),
              'assumptions': self.assumptions, 'violations': self.nviol}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        if self.nviol:
            d = os.path.join(ROOT, 'build', 'replay'); os.makedirs(d, exist_ok=True)
            p = os.path.join(d, self.pid + '.json')
            json.dump({'property': self.pid, 'violations': self.viol}, open(p, 'w'), ensure_ascii=False, indent=1, default=str)
            for v in self.viol[:5]:
                print('  ' + json.dumps(v, ensure_ascii=False, default=str)[:400])
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            print('%d deviations in %.0f s' % (self.nviol, time.time() - self.t0))
            sys.stdout.flush()
            os._exit(1)
        print('OK property=%s %d states, %d replays, %.0f s' % (self.pid, self.cov['states'], self.cov['traces_validated_against_impl'], time.time() - self.t0))
        sys.stdout.flush()
        os._exit(0)
