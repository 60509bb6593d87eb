"""Run TLC on a job and collect the behaviours it writes."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.path.join(ROOT, 'build')
sys.path.insert(0, os.path.join(ROOT, 'tools'))


def charts_path():
    """build/charts.json, regenerated from data/charts.json."""
    import mkcharts
    os.makedirs(BUILD, exist_ok=True)
    p = os.path.join(BUILD, 'charts.json')
    tmp = p + '.%d.%d' % (os.getpid(), threading.get_ident())
    with open(tmp, 'w') as f:
        json.dump(mkcharts.convert(), f)
    os.replace(tmp, p)
    return p


def _digest(parts):
    h = hashlib.sha256()
    for fn in sorted(os.listdir(SPEC)):
        if fn.endswith(('.tla', '.cfg')):
            h.update(fn.encode()); h.update(open(os.path.join(SPEC, fn), 'rb').read())
    h.update(open(os.path.join(ROOT, 'data/charts.json'), 'rb').read())
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()[:24]


class TLCError(Exception):
    pass


def run_many(jobs, parallel=4):
    """Several runs at once: [(module, job)] -> [(rows, stats)]."""
    from concurrent.futures import ThreadPoolExecutor
    charts_path()
    with ThreadPoolExecutor(parallel) as ex:
        return list(ex.map(lambda a: run(a[0], a[1], workers=max(2, 12 // min(parallel, len(jobs)))), jobs))


def run(module, job=None, cfg=None, timeout=800, extra=(), env=None, workers=8):
    """Model-check `module`; returns (rows, stats).  rows: what the spec wrote."""
    cfg = cfg or module + '.cfg'
    key = _digest([module, cfg, json.dumps(job, sort_keys=True), tuple(extra)])
    cdir = os.path.join(BUILD, 'cache'); os.makedirs(cdir, exist_ok=True)
    outp, statp = os.path.join(cdir, key + '.out'), os.path.join(cdir, key + '.stats')
    if not os.path.exists(statp):
        charts = charts_path()
        work = tempfile.mkdtemp(prefix='tlc', dir=BUILD)
        try:
            out = os.path.join(work, 'out')
            open(out, 'w').close()
            jobf = os.path.join(work, 'job.json')
            json.dump(job, open(jobf, 'w'))
            e = dict(os.environ, JOB=jobf, OUT=out, CHARTS=charts, JAVA_TOOL_OPTIONS='-Xss64m', **(env or {}))
            t = time.time()
            try:
                r = subprocess.run(['tlc', '-workers', str(workers), '-metadir', os.path.join(work, 'st'), '-config', cfg, *extra, module + '.tla'],
                                   cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise TLCError('TLC did not finish in %d s on %s' % (timeout, module))
            m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout.replace(',', '') if False else re.sub(r'(?<=\d),(?=\d{3})', '', r.stdout))
            if 'No error has been found' not in r.stdout or not m:
                raise TLCError('%s: %s' % (module, (r.stdout + r.stderr)[-2500:]))
            stats = {'transitions': int(m[-1][0]), 'states': int(m[-1][1]), 'tlc_s': round(time.time() - t, 1)}
            os.replace(out, outp)
            json.dump(stats, open(statp + '.tmp', 'w')); os.replace(statp + '.tmp', statp)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    rows = []
    with open(outp) as f:
        for line in f:
            rows.append(json.loads(json.loads(line)))
    rows.sort(key=lambda r: json.dumps(r[0]))
    return rows, json.load(open(statp))
