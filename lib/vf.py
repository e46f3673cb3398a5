"""Common machinery of all checks: build the code under test, run drivers, run TLC, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, '.build'))
SPEC = os.path.join(VERIF, 'spec')
DRIVERS = os.path.join(VERIF, 'drivers')
TLACP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
MODULES = ('api backend board compiler core encryption engine frontend global memory module runtime utils '
           'kernels/common kernels/cpu').split()
DEFS = ('-DBUILDING_TENNIS -DTS_DISABLE_PARALLEL -DTS_USE_PROFILER -DTS_USE_HOOK -DTS_USE_DEBUG_API '
        '-DTS_USE_SIMD -DTS_USE_AVX -DTS_USE_FMA -DTS_USE_OPENMP -mavx2 -mfma -D_GLIBCXX_ASSERTIONS')
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print('[vf]', *a, file=sys.stderr, flush=True)


def sources():
    src = []
    for m in MODULES:
        for d, _, fs in sorted(os.walk(f'{REPO}/src/{m}')):
            src += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.cpp')]
    return src


def flags():
    return f'-std=c++11 -O0 -w -fPIC -fopenmp {DEFS} -DTS_SOLUTION_DIR=\\"{REPO}\\" -I{REPO}/include -I{REPO}/src -I{DRIVERS}'


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def build(drivers=()):
    """Compile /repo's current sources and the named drivers (incremental through ninja). Returns {driver: exe}."""
    os.makedirs(BUILD, exist_ok=True)
    fl = flags()
    L = []
    # the precompiled header is only a speed-up: a source that clashes with it is compiled without it
    L.append(f'''rule cxx
  command = g++ {fl} -include {BUILD}/pch.h -MMD -MF $out.d -c $in -o $out 2>$out.log || g++ {fl} -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule cxxplain
  command = g++ {fl} -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule pch
  command = g++ {fl} -x c++-header $in -MMD -MF $out.d -o $out || touch $out
  depfile = $out.d
  deps = gcc
rule lib
  command = g++ -shared -fopenmp -o $out @$out.rsp -lpthread
  rspfile = $out.rsp
  rspfile_content = $in
rule exe
  command = g++ -fopenmp -o $out $in -L{BUILD} -ltcheck -rdynamic -Wl,-rpath,{BUILD} -lpthread -ldl
''')
    shutil.copyfile(os.path.join(VERIF, 'lib', 'pch.h'), os.path.join(BUILD, 'pch.h.new'))
    write_if_changed(os.path.join(BUILD, 'pch.h'), open(os.path.join(BUILD, 'pch.h.new')).read())
    L.append(f'build {BUILD}/pch.h.gch: pch {BUILD}/pch.h')
    objs = []
    for s in sources():
        o = f'{BUILD}/o/' + s[len(REPO) + 5:].replace('/', '__')[:-4] + '.o'
        objs.append(o)
        L.append(f'build {o}: cxx {s} | {BUILD}/pch.h.gch')
    L.append(f'build {BUILD}/libtcheck.so: lib ' + ' '.join(objs))
    exes = {}
    for d in drivers:
        src = os.path.join(DRIVERS, d + '.cpp')
        o = f'{BUILD}/d/{d}.o'
        exe = f'{BUILD}/d/{d}'
        L.append(f'build {o}: cxx {src} | {BUILD}/pch.h.gch')
        L.append(f'build {exe}: exe {o} | {BUILD}/libtcheck.so')
        exes[d] = exe
    L.append('default ' + ' '.join([f'{BUILD}/libtcheck.so'] + list(exes.values())))
    nf = os.path.join(BUILD, f'build-{"-".join(drivers) or "lib"}.ninja')
    write_if_changed(nf, 'builddir = %s\n' % BUILD + '\n'.join(L) + '\n')
    t = time.time()
    lockf = open(os.path.join(BUILD, '.lock'), 'w')
    import fcntl
    fcntl.flock(lockf, fcntl.LOCK_EX)
    r = subprocess.run(['ninja', '-f', nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lockf.close()
    if r.returncode != 0:
        errs = [x for x in r.stdout.splitlines() if 'error' in x or 'FAILED' in x]
        raise ToolError('build failed:\n' + '\n'.join(x[:400] for x in errs[:20]))
    log(f'build {time.time() - t:.1f}s')
    return exes


class Check:
    def __init__(self, pid, technique_level='model_checking'):
        self.pid = pid
        self.level = technique_level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.out = os.path.join(VERIF, '.out', pid)
        subprocess.run(['rm', '-rf', self.out])
        os.makedirs(self.out, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.viol = []
        self.assumptions = []
        self.known = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- drivers
    def run_driver(self, exe, args, timeout=300, env=None, cwd=None):
        """Returns (rc, stderr tail). rc None: did not end in time."""
        e = dict(os.environ)
        e['MALLOC_PERTURB_'] = '165'
        e['OMP_NUM_THREADS'] = '4'
        e['OMP_WAIT_POLICY'] = 'passive'                   # checks share the processors: no spinning
        if env:
            e.update(env)
        errf = tempfile.TemporaryFile()
        try:
            p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.DEVNULL, stderr=errf,
                               timeout=timeout, env=e, cwd=cwd or self.out)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = None
        errf.seek(0, 2)
        n = errf.tell()
        errf.seek(max(0, n - 4000))
        return rc, errf.read().decode(errors='replace')

    # ---- TLC
    def tlc(self, spec, cfg, consts=None, env=None, workers='auto', timeout=600, extra=(), dump=None, count=True, heap='3g', tag=''):
        """Run TLC on spec/<spec>.tla with spec/<cfg>.cfg. Returns dict(ok, states, distinct, depth, out, kind)."""
        work = tempfile.mkdtemp(prefix=f'tlc_{spec}{tag}_', dir=self.out)
        e = dict(os.environ)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', TLACP,
               'tlc2.TLC', '-metadir', work, '-workers', str(workers), '-noGenerateSpecTE', '-lncheck', 'final',
               '-config', os.path.join(SPEC, cfg + '.cfg')] + list(extra) + [os.path.join(SPEC, spec + '.tla')]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                               timeout=timeout, env=e, cwd=SPEC)
        except subprocess.TimeoutExpired:
            subprocess.run(['rm', '-rf', work])
            raise ToolError(f'TLC on {spec}/{cfg} did not finish in {timeout}s')
        subprocess.run(['rm', '-rf', work])
        out = p.stdout
        r = dict(out=out, rc=p.returncode, ok=p.returncode == 0)
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if m:
            r['states'] = int(m.group(1).replace(',', ''))
            r['distinct'] = int(m.group(2).replace(',', ''))
        else:
            r['states'] = r['distinct'] = 0
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        r['depth'] = int(m.group(1)) if m else 0
        if count:
            self.cov['states'] += r['distinct']
            self.cov['transitions'] += r['states']
        return r

    def model(self, spec, cfg, **kw):
        """Exhaustive check of a design model; any failure is an error of the machinery, not a violation."""
        t = time.time()
        r = self.tlc(spec, cfg, **kw)
        log(f'model {spec}/{cfg}: {r["distinct"]} states, {r["states"]} transitions, {time.time() - t:.1f}s')
        if not r['ok']:
            raise ToolError(f'design model {spec}/{cfg} failed:\n' + r['out'][-4000:])
        if r['distinct'] < 2:
            raise ToolError(f'design model {spec}/{cfg}: vacuous ({r["distinct"]} states)')
        return r

    def validate(self, spec, trace, cfg=None, env=None, timeout=600, heap='3g', tag=''):
        """Is the recorded trace a behaviour of the trace spec? Returns (accepted, index of first refused line, info)."""
        nlines = sum(1 for _ in open(trace))
        if nlines == 0:
            raise ToolError(f'empty trace {trace}')
        e = {'TRACE': trace}
        if env:
            e.update(env)
        r = self.tlc(spec, cfg or spec, env=e, workers=1, timeout=timeout, count=False, heap=heap, tag=tag)
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += r['states']
        if r['ok']:
            return True, nlines, r
        m = re.search(r'REJECTED\D+(\d+)', r['out'])
        if m:
            return False, int(m.group(1)), r
        # evaluation failure (for instance a record whose result has an unexpected form): TLC reports the state reached
        m = re.findall(r'/\\ l = (\d+)', r['out']) or re.findall(r'^l = (\d+)', r['out'], re.M)
        if m and 'behavior up to this point' in r['out'] and 'not completely specified' not in r['out']:
            return False, int(m[-1]), r          # a record of a form the specification has no value for
        raise ToolError(f'TLC failed on {spec} with {trace} (line {m[-1] if m else "?"}):\n' + r['out'][-4000:])

    # ---- violations
    def violate(self, what, replay_files=(), detail=''):
        d = os.path.join(self.out, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f'{self.pid}-{len(self.viol) + 1}.txt')
        with open(p, 'w') as f:
            f.write(what + '\n' + detail + '\n')
            for x in replay_files:
                f.write(f'file: {x}\n')
        self.viol.append((what, p))
        log('VIOLATION:', what)
        log(detail[:700])

    def sample(self, s, limit=4):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(s)

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f'KNOWN-FINDING: property={self.pid} {k}', flush=True)
        for w, p in self.viol[:1]:
            print(f'VIOLATION property={self.pid} replay={p}', flush=True)
        log(f'{self.pid}: {len(self.viol)} violations, {ev["wall_s"]}s')
        sys.exit(1 if self.viol else 0)

    def parallel(self, jobs, n=None):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n or max(2, NCPU - 1)) as ex:
            for f in [ex.submit(j) for j in jobs]:
                f.result()

    # ---- the usual conformance step: drive, validate, confirm
    def conform(self, exe, spec, args, name, timeout=300, cfg=None, env=None, vtimeout=600, tenv=None, expect_lines=1, racy=False):
        """Run the driver, validate its trace. A refusal, crash or hang is reported once it has been repeated.
        racy: the refusal depends on the schedule, so more repetitions are tried. Returns True when accepted."""
        why = []
        for attempt in range(1, (7 if racy else 2) + 1):
            trace = os.path.join(self.out, f'{name}.{attempt}.ndjson')
            rc, err = self.run_driver(exe, [trace] + list(args), timeout=timeout, env=env)
            if rc == 77:
                raise ToolError(f'driver {os.path.basename(exe)} {name} reports an internal error: {err[-1500:]}')
            lines = open(trace, errors='replace').read().splitlines() if os.path.exists(trace) else []
            if rc == 0 and len(lines) < expect_lines:
                raise ToolError(f'driver {name}: only {len(lines)} events')
            if lines:
                try:
                    json.loads(lines[-1])
                except ValueError:          # a half-written last line
                    lines = lines[:-1]
                    open(trace, 'w').write(''.join(x + '\n' for x in lines))
            bad = None
            if rc is None:
                bad = (f'{name}: the code under test did not finish in {timeout}s (hang) after {len(lines)} events', err)
            elif rc != 0:
                bad = (f'{name}: the code under test ended abnormally (exit {rc}) after {len(lines)} events', err)
            if lines:
                ok, at, r = self.validate(spec, trace, cfg=cfg, env=tenv, timeout=vtimeout, tag=name)
                if not ok:
                    rej = lines[at - 1] if 0 < at <= len(lines) else '(end)'
                    info = '\n'.join(x for x in r['out'].splitlines() if 'WHY' in x or 'REJECTED' in x)
                    bad = (f'{name}: event {at} of the recorded trace is not allowed by {spec}: {rej[:1500]}',
                           info + '\n' + (bad[0] if bad else '') + '\n' + err)
            if bad is None:
                if attempt == 1 or attempt == (7 if racy else 2):
                    if why:
                        log(f'{name}: a refusal did not repeat: {why[0][0]}')
                    self.cov['traces_validated_against_impl'] += 1
                    if lines:
                        self.sample(dict(trace=name, events=len(lines), first=lines[0][:300], last=lines[-1][:300]))
                    return True
                continue
            why.append(bad)
            log(f'{name}: attempt {attempt}: {bad[0][:600]}')
            if len(why) == 2:
                break
        if len(why) < 2:
            log(f'{name}: a refusal did not repeat: {why[0][0]}')
            return True
        self.violate(why[-1][0], [trace], why[-1][1])
        return False


def main(pid, body, level='model_checking'):
    c = Check(pid, level)
    try:
        body(c)
        c.finish()
    except ToolError as e:
        if c.viol:
            c.finish()
        print(f'ERROR property={pid}: {e}', file=sys.stderr, flush=True)
        sys.exit(3)
