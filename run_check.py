#!/usr/bin/env python3
"""run_check.py <PID> -- decide one property of emil-e/rapidcheck.

  1. TLC model-checks the property's TLA+ specification (small constants).
  2. The C++ driver is built against the sources in /repo's working tree, and
     executed; it logs what the real code did as an ndjson file with one
     scenario per line: {"id":n,"name":s,"cfg":{..},"ev":[{..},..]}.
  3. TLC validates every recorded scenario against the same specification
     (trace spec: one behaviour per scenario; a scenario whose next event no
     action of the specification explains is a deadlock = rejection).

exit 0: held on everything explored; exit 1 + VIOLATION line: rejected, and a
re-run repeated the rejection; any other exit: error of the machinery.
"""
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
SPECS = os.path.join(VERIF, 'specs')
EVID = os.path.join(VERIF, 'evidence')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
NCPU = os.cpu_count() or 4


class Broken(Exception):
    """error of the machinery: neither held nor violated"""


class NotCompiled(Exception):
    """something that has to compile does not"""


def log(*a):
    print(*a, flush=True)


# ----------------------------------------------------------------- building

def tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for root in ('include', 'src', 'extras'):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files) + sorted(extra):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h


def lib_sources():
    src = os.path.join(REPO, 'src')
    out = []
    for d, _, fs in os.walk(src):
        out += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    return sorted(out)


def lib_headers():
    return [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, 'include')) for f in fs]


def run_compile(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode != 0:
        raise Broken('compile failed: %s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-6000:]))


SAN = {
    '': [],
    'asan': ['-fsanitize=address', '-fno-omit-frame-pointer'],
    'asanub': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
    'ub': ['-fsanitize=undefined', '-fno-sanitize-recover=undefined'],
    'tsan': ['-fsanitize=thread'],
}


def build_driver(pid, chk):
    """compile /repo's library and the driver; returns path to the binary"""
    san = chk.get('san', '')
    if san == 'tsan' and any('atomic_thread_fence' in open(f, errors='replace').read() for f in lib_sources() + lib_headers()):
        san = 'asan'   # the thread sanitizer does not understand fences: it would report correct code
    cxx = chk.get('cxx', 'g++')
    flags = [cxx, '-std=c++11', chk.get('opt', '-O1'), '-g1', '-pthread', '-w'] + SAN[san] + [
        '-I' + os.path.join(VERIF, 'drivers'), '-I' + REPO + '/include', '-I' + REPO + '/src'] + chk.get('flags', [])
    if TIER == 'thorough':
        flags.append('-DVT_THOROUGH=1')
    drivers = [os.path.join(VERIF, 'drivers', d) for d in chk['driver']]
    common = sorted(glob.glob(os.path.join(VERIF, 'drivers', '**', '*.h'), recursive=True))
    base = tree_hash([])
    base.update(' '.join(flags).encode())
    libkey = base.hexdigest()[:20]
    dh = hashlib.sha256(libkey.encode())
    for f in common + drivers:
        dh.update(f.encode())
        dh.update(open(f, 'rb').read())
    key = dh.hexdigest()[:20]
    ldir = os.path.join(BUILD, 'lib-' + libkey)
    ddir = os.path.join(BUILD, 'drv-' + key)
    binary = os.path.join(ddir, pid)
    if os.path.exists(binary):
        return binary
    os.makedirs(ldir, exist_ok=True)
    os.makedirs(ddir, exist_ok=True)
    jobs, objs = [], []
    for s in lib_sources():
        o = os.path.join(ldir, os.path.relpath(s, REPO).replace('/', '_') + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((o, flags + ['-c', s]))
    dobjs = []
    for s in drivers:
        o = os.path.join(ddir, os.path.basename(s) + '.o')
        dobjs.append(o)
        jobs.insert(0, (o, flags + ['-c', s]))

    # sources that are there to show that something compiles
    must, not_compiled = [os.path.join(VERIF, 'drivers', d) for d in chk.get('must_compile', [])], []

    def one(j):
        o, cmd = j
        tmp = o + '.tmp%d' % os.getpid()
        try:
            run_compile(cmd + ['-o', tmp])
        except Broken as ex:
            if cmd[-1] not in must:
                raise
            not_compiled.append(str(ex))
            return
        os.rename(tmp, o)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))
    if not_compiled:
        raise NotCompiled(not_compiled[0])
    tmp = binary + '.tmp%d' % os.getpid()
    run_compile(flags + dobjs + objs + chk.get('libs', []) + ['-o', tmp])
    os.rename(tmp, binary)
    return binary


# ------------------------------------------------------------------ running

def run_driver(pid, chk, binary, outdir, seed):
    if os.path.isdir(outdir):
        shutil.rmtree(outdir)
    os.makedirs(outdir)
    san = chk.get('san', '')
    env = {k: v for k, v in os.environ.items() if not k.startswith('RC_')}
    env.update(ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:hard_rss_limit_mb=6000',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99',
               TSAN_OPTIONS='halt_on_error=1:exitcode=99:second_deadlock_stack=1')
    limit = chk.get('mem_gb', 4) << 30

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not san:
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    tmo = chk.get('driver_timeout', 100 if TIER == 'quick' else 900)
    errf = os.path.join(outdir, 'stderr.txt')
    t = time.time()
    with open(errf, 'wb') as ef, open(os.path.join(outdir, 'stdout.txt'), 'wb') as of:
        p = subprocess.Popen([binary, outdir, str(seed), TIER], stdout=of, stderr=ef, stdin=subprocess.DEVNULL,
                             env=env, preexec_fn=pre, cwd=outdir)
        try:
            rc = p.wait(timeout=tmo)
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    err = open(errf, 'rb').read()[-5000:].decode(errors='replace')
    return dict(rc=rc, stderr=err, wall=time.time() - t)


def tlc(module, cfg, name, env=None, workers=None, extra=(), timeout=None, heap='3g', jvm=()):
    meta = os.path.join(BUILD, 'tlc-%s-%d' % (name, os.getpid()))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta] + list(jvm) + ['-cp', JAVA_CP, 'tlc2.TLC',
           '-workers', str(workers or NCPU), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg, *extra, module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as ex:
        rc, out = 'timeout', (ex.stdout or b'').decode(errors='replace')
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    return dict(rc=rc, out=out, generated=gen, distinct=dist, wall=time.time() - t, module=module, cfg=cfg)


def run_mc(pid, chk):
    res = []
    for i, m in enumerate(chk.get('mc', [])):
        if m.get('tier') == 'thorough' and TIER != 'thorough':
            continue
        r = tlc(m['module'], m['cfg'], '%s-mc%d' % (pid, i), workers=m.get('workers', 4), heap=m.get('heap', '3g'),
                timeout=m.get('timeout', 300 if TIER == 'quick' else 3000), extra=m.get('extra', ()))
        if r['rc'] != 0:
            raise Broken('model checking of %s/%s ended with %s:\n%s' % (m['module'], m['cfg'], r['rc'], r['out'][-5000:]))
        if r['distinct'] < m.get('min_states', 1):
            raise Broken('model checking of %s visited only %d states' % (m['cfg'], r['distinct']))
        res.append(r)
    return res


def load_stats(path):
    n, ev, names, acts, tot = 0, 0, {}, {}, 0
    for line in open(path, encoding='utf-8', errors='replace'):
        s = json.loads(line)
        n += 1
        ev += len(s['ev'])
        tot += len(s['ev']) + 2
        names[s['name']] = names.get(s['name'], 0) + 1
        for e in s['ev']:
            acts[e['e']] = acts.get(e['e'], 0) + 1
    return dict(scenarios=n, events=ev, kinds=names, actions=acts, expect_states=tot)


def validate(pid, chk, outdir, tag=''):
    """TLC trace validation of all trace files in outdir -> (ok, info list)"""
    infos = []
    specs = chk['trace']
    jobs = []
    for t in specs:
        for f in sorted(glob.glob(os.path.join(outdir, t.get('file', 'trace') + '*.ndjson'))):
            jobs.append((t, f))
    if not jobs:
        return [dict(verdict='reject', why='driver recorded no trace', file=None, stats=None)]

    def one(j):
        t, f = j
        try:
            st = load_stats(f)
        except Exception as ex:   # truncated line: the driver died while writing
            return dict(verdict='reject', why='trace file is damaged: %r' % ex, file=f, stats=None)
        r = tlc(t['module'], t['cfg'], '%s-%s-%s' % (pid, os.path.basename(f), tag), env={'VTRACE': f},
                workers=t.get('workers', 2 if len(jobs) > 2 else 4), heap=t.get('heap', '3g'),
                timeout=t.get('timeout', 400 if TIER == 'quick' else 3000), jvm=t.get('jvm', ()))
        info = dict(file=f, stats=st, rc=r['rc'], wall=r['wall'], generated=r['generated'], distinct=r['distinct'],
                    out=r['out'], module=t['module'])
        if r['rc'] == 0:
            if not t.get('silent') and r['distinct'] != st['expect_states']:
                raise Broken('%s: TLC visited %d states, the trace has %d' % (f, r['distinct'], st['expect_states']))
            info['verdict'] = 'accept'
        elif r['rc'] in (10, 11, 12, 13, 75, 76, 77):
            info['verdict'] = 'reject'
            sids = re.findall(r'/\\ sid = (\d+)', r['out'])
            info['sid'] = int(sids[-1]) if sids else None
            ls = re.findall(r'/\\ l = (\d+)', r['out'])
            info['l'] = int(ls[-1]) if ls else None
            info['why'] = {10: 'assumption violated', 11: 'no action of the specification explains the next event',
                           12: 'invariant violated'}.get(r['rc'], 'event outside the specification (TLC %s)' % r['rc'])
        else:
            raise Broken('TLC on %s ended with %s:\n%s' % (f, r['rc'], r['out'][-4000:]))
        return info
    with ThreadPoolExecutor(4) as ex:
        infos = list(ex.map(one, jobs))
    return infos


def scenario(path, sid):
    if not path or not sid:
        return None
    for i, line in enumerate(open(path, encoding='utf-8', errors='replace'), 1):
        if i == sid:
            return json.loads(line)
    return None


def attempt(pid, chk, binary, n):
    outdir = os.path.join(BUILD, 'run-%s-%d' % (pid, n))
    d = run_driver(pid, chk, binary, outdir, SEED)
    if d['rc'] != 0:
        last = ''
        pf = os.path.join(outdir, 'progress.txt')
        if os.path.exists(pf):
            last = open(pf, errors='replace').read()
        return dict(ok=False, driver=d, infos=[], outdir=outdir,
                    text='driver ended with %s during scenario: %s\n%s' % (d['rc'], last.strip(), d['stderr']),
                    key=('driver', str(d['rc'])))
    # further drivers, built differently, add their trace files to those of the first
    for k, (x, xbin) in enumerate(chk.get('also_built', [])):
        xdir = outdir + '-x%d' % k
        d2 = run_driver(pid, x, xbin, xdir, SEED)
        if d2['rc'] != 0 and 'unexpected memory mapping' in d2['stderr']:
            raise Broken('the thread sanitizer does not work here: ' + d2['stderr'])
        if d2['rc'] != 0:
            pf = os.path.join(xdir, 'progress.txt')
            last = open(pf, errors='replace').read() if os.path.exists(pf) else ''
            return dict(ok=False, driver=d2, infos=[], outdir=xdir,
                        text='driver %s ended with %s during or after scenario: %s\n%s' % (x['driver'][0], d2['rc'], last.strip(), d2['stderr']),
                        key=('driver', str(d2['rc'])))
        for f in glob.glob(os.path.join(xdir, '*.ndjson')):
            os.rename(f, os.path.join(outdir, os.path.basename(f)))
        shutil.rmtree(xdir, ignore_errors=True)
    infos = validate(pid, chk, outdir, str(n))
    bad = [i for i in infos if i['verdict'] == 'reject']
    if not bad:
        return dict(ok=True, driver=d, infos=infos, outdir=outdir)
    b = bad[0]
    sc = scenario(b['file'], b.get('sid'))
    text = 'trace rejected: %s\nfile=%s scenario=%s event#=%s\n' % (b['why'], b['file'], b.get('sid'), b.get('l'))
    if sc:
        text += 'scenario name: %s\ncfg: %s\n' % (sc['name'], json.dumps(sc['cfg'])[:4000])
        l = b.get('l') or 1
        text += 'next event: %s\n' % (json.dumps(sc['ev'][l - 1])[:3000] if 0 < l <= len(sc['ev']) else '<end of trace>')
        text += 'scenario: %s\n' % json.dumps(sc)[:20000]
    text += '\n--- TLC ---\n' + (b.get('out') or '')[-8000:]
    return dict(ok=False, driver=d, infos=infos, outdir=outdir, text=text, key=('trace',))


def setup():
    """nothing is needed beforehand; checks that the tools are there"""
    for need in (JAVA_CP.split(':')[0], REPO + '/include/rapidcheck.h', SPECS):
        if not os.path.exists(need):
            raise Broken('missing: ' + need)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    return 0


def not_compiled(pid, text, wall):
    """what users write, and must compile, does not; everything else does"""
    ev = dict(property=pid, tier=TIER, seed=SEED, level='model_checking', wall_s=round(wall, 2),
              coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[text[-1500:]], verdict='violated'))
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(EVID, 'replay', pid + '.txt')
    with open(rp, 'w') as f:
        f.write(text)
    log(text[:3000])
    log('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        return setup()
    chk = CHECKS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    try:
        with ThreadPoolExecutor(2) as ex:
            fb = ex.submit(build_driver, pid, chk)
            fm = ex.submit(run_mc, pid, chk)
            binary = fb.result()
            also = [(x, build_driver(pid + '-x%d' % k, x)) for k, x in enumerate(chk.get('also', []))]
            mc = fm.result()
        chk = dict(chk, also_built=also)
        tb = time.time() - t0
        a = attempt(pid, chk, binary, 0)
        violated = None
        if not a['ok']:
            b = None
            for n in (1, 2, 3):
                b = attempt(pid, chk, binary, n)
                if not b['ok']:
                    break
            if b['ok']:
                raise Broken('a rejection did not repeat in three re-runs:\n' + a['text'])
            violated = b
    except NotCompiled as ex:
        return not_compiled(pid, str(ex), time.time() - t0)
    except Broken as ex:
        log('ERROR property=%s %s' % (pid, ex))
        return 2
    wall = time.time() - t0
    infos = (violated or a)['infos']
    st = [i['stats'] for i in infos if i.get('stats')]
    samples = []
    for i in infos[:2]:
        for k in (1, (i['stats'] or {}).get('scenarios', 1)):
            s = scenario(i['file'], k)
            if s:
                samples.append(json.dumps(s)[:1500])
    for m in mc[:1]:
        samples.append('TLC %s %s: %d distinct states' % (m['module'], m['cfg'], m['distinct']))
    kinds, acts = {}, {}
    for s in st:
        for k, v in s['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
        for k, v in s['actions'].items():
            acts[k] = acts.get(k, 0) + v
    cov = dict(states=sum(m['distinct'] for m in mc) + sum(i.get('distinct', 0) for i in infos),
               transitions=sum(m['generated'] for m in mc) + sum(i.get('generated', 0) for i in infos),
               traces_validated_against_impl=sum(s['scenarios'] for s in st),
               samples=samples or ['none'],
               model_states=sum(m['distinct'] for m in mc),
               model_runs=[dict(module=m['module'], cfg=m['cfg'], distinct=m['distinct'], generated=m['generated'], wall_s=round(m['wall'], 2)) for m in mc],
               trace_events=sum(s['events'] for s in st),
               scenario_kinds=kinds, event_kinds=acts,
               build_s=round(tb, 2), driver_s=round(a['driver']['wall'], 2),
               verdict='violated' if violated else 'held')
    ev = dict(property=pid, tier=TIER, seed=SEED, level='model_checking', coverage=cov, wall_s=round(wall, 2))
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if violated:
        rp = os.path.join(EVID, 'replay', pid + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s, VERIF_SEED=%d tier=%s; re-run: VERIF_SEED=%d VERIF_TIER=%s python3 run_check.py %s\n\n' % (pid, SEED, TIER, SEED, TIER, pid))
            f.write(violated['text'])
        log(violated['text'][:3000])
        log('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    log('OK property=%s: model states %d; %d scenarios / %d events of the implementation validated; %.1fs'
        % (pid, cov['model_states'], cov['traces_validated_against_impl'], cov['trace_events'], wall))
    for i in range(0, 4):
        shutil.rmtree(os.path.join(BUILD, 'run-%s-%d' % (pid, i)), ignore_errors=True) if not os.environ.get('VT_KEEP') else None
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception as ex:   # noqa
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
