"""Driver library: building /repo, running TLC, running programs, reporting."""
import fcntl, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
SRC_PARTS = ['Makefile', 'build', 'src', 'bash', 'misc', 'python', 'rstats']
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """something is wrong with the check itself (never a verdict)"""


# ------------------------------------------------------------------ building
def _source_files():
    for part in SRC_PARTS:
        top = os.path.join(REPO, part)
        if os.path.isfile(top):
            yield part
            continue
        for root, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.pyc', '.o')):
                    continue
                yield os.path.relpath(os.path.join(root, f), REPO)


def source_hash():
    h = hashlib.sha256()
    for f in _source_files():
        p = os.path.join(REPO, f)
        h.update(f.encode() + b'\0')
        if os.path.islink(p):
            h.update(os.readlink(p).encode())
        else:
            with open(p, 'rb') as fp:
                h.update(hashlib.sha256(fp.read()).digest())
        h.update(b'x' if os.access(p, os.X_OK) else b'-')
    return h.hexdigest()[:20]


def clean_env(**more):
    env = {k: v for k, v in os.environ.items() if k in ('HOME', 'USER', 'LOGNAME', 'TMPDIR')}
    env.update(HOME=env.get('HOME', '/root'), LANG='C.UTF-8', LC_ALL='C.UTF-8', PATH='/usr/bin:/bin:/usr/sbin:/sbin')
    env.update({k: str(v) for k, v in more.items()})
    return env


def build():
    """Build /repo's working tree outside /repo; returns the directory that holds bin/ and obj/."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = source_hash()
        dst = os.path.join(CACHE, 'build-' + h)
        if os.path.exists(os.path.join(dst, '.ok')):
            os.utime(dst)
            return dst
        old = sorted((d for d in os.listdir(CACHE) if d.startswith('build-')),
                     key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        for f in _source_files():
            d = os.path.join(dst, f)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(os.path.join(REPO, f), d, follow_symlinks=False)
        env = clean_env()
        for cmd in (['make', f'-j{max(4, NCPU)}', '-o', 'check-tools', 'prepare', 'exe'],
                    ['make', '-o', 'check-tools', 'bash', 'rstats', 'python', 'misc']):
            r = subprocess.run(cmd, cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError('building /repo failed:\n' + r.stdout[-3000:])
        open(os.path.join(dst, '.ok'), 'w').close()
        return dst


def mk_flags(bdir):
    """compiler flags of the repository's Makefile (include and library settings)"""
    prog = 'include Makefile\nvf-print:\n\t@echo "INC=$(GDAL_INCLUDES) $(GSL_INCLUDES) $(CURL_INCLUDES) $(OPENCV_INCLUDES) $(PYTHON_INCLUDES)"\n\t@echo "LIB=$(GDAL_LIBS) $(GSL_LIBS) $(CURL_LIBS) $(OPENCV_LIBS) $(PYTHON_LIBS) $(RSTATS_LIBS)"\n'
    r = subprocess.run(['make', '-s', '-f', '-', 'vf-print'], input=prog, cwd=bdir, env=clean_env(), capture_output=True, text=True)
    inc = re.search(r'^INC=(.*)$', r.stdout, re.M).group(1).split()
    lib = re.search(r'^LIB=(.*)$', r.stdout, re.M).group(1).split()
    return inc, lib


def shared_lib(name):
    """compile harness/<name>.c into an interposition library"""
    src = os.path.join(VERIF, 'harness', name + '.c')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    os.makedirs(CACHE, exist_ok=True)
    so = os.path.join(CACHE, f'{name}-{h}.so')
    if not os.path.exists(so):
        tmp = tempfile.mktemp(dir=CACHE)
        r = subprocess.run(['gcc', '-O1', '-g', '-shared', '-fPIC', '-o', tmp, src, '-ldl', '-lpthread'], env=clean_env(), capture_output=True, text=True)
        if r.returncode:
            raise CheckError('harness library does not build:\n' + r.stderr)
        os.replace(tmp, so)
    return so


def program(bdir, name, flags=(), tag=''):
    """compile harness/<name>.c against the objects of the build; None if it does not fit the sources (any more)"""
    src = os.path.join(VERIF, 'harness', name + '.c')
    h = hashlib.sha256(open(src, 'rb').read() + repr(flags).encode()).hexdigest()[:10]
    exe = os.path.join(bdir, 'harness', f'{name}{tag}-{h}')
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    with open(os.path.join(bdir, 'harness', 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lib = os.path.join(bdir, 'harness', 'libforce.a')
        if not os.path.exists(lib):
            objs = [os.path.join(bdir, 'obj', f) for f in sorted(os.listdir(os.path.join(bdir, 'obj'))) if f.endswith('.o')]
            subprocess.run(['ar', 'rcs', lib + '.tmp'] + objs, check=True, env=clean_env())
            os.replace(lib + '.tmp', lib)
            inc, libs = mk_flags(bdir)
            json.dump([inc, libs], open(lib + '.flags', 'w'))
    inc, libs = json.load(open(lib + '.flags'))
    tmp = tempfile.mktemp(dir=os.path.dirname(exe))
    r = subprocess.run(['gcc', '-O1', '-g', '-w', '-fopenmp', *flags, '-I' + os.path.join(bdir, 'src'), *inc, '-o', tmp, src, lib, *libs, '-lstdc++', '-lm'],
                       env=clean_env(), capture_output=True, text=True)
    if r.returncode:
        open(exe + '.log', 'w').write(r.stderr)
        return None
    os.replace(tmp, exe)
    return exe


def limit_files():
    """no runaway output: files of at most 1.5 GB"""
    resource.setrlimit(resource.RLIMIT_FSIZE, (1500 << 20, 1500 << 20))


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.out = ''
        self.cases = []
        self.violated = None   # name of a violated invariant / property / postcondition
        self.coverage = {}


def run_tlc(module, scratch, cfg=None, constants=None, spec=None, init='Init', next='Next', invariants=(), properties=(),
            constraints=(), action_constraints=(), postcondition=None, view=None, env=None, workers=None, deadlock=False, simulate=None,
            depth=None, seed=None, timeout=800, heap='3g', expect_violation=False, extra=()):
    """Run TLC on spec/<module>.tla in a scratch directory. Lines printed by Emit(..) are returned as cases."""
    work = tempfile.mkdtemp(prefix='tlc-', dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), work)
    lines = []
    if spec:
        lines.append('SPECIFICATION ' + spec)
    else:
        lines += ['INIT ' + init, 'NEXT ' + next]
    for k, v in (constants or {}).items():
        lines.append(f'CONSTANT {k} = {tla(v)}' if not (isinstance(v, str) and v.startswith('<-')) else f'CONSTANT {k} {v}')
    lines += ['INVARIANT ' + i for i in invariants]
    lines += ['PROPERTY ' + i for i in properties]
    lines += ['CONSTRAINT ' + i for i in constraints]
    lines += ['ACTION_CONSTRAINT ' + i for i in action_constraints]
    if postcondition:
        lines.append('POSTCONDITION ' + postcondition)
    if view:
        lines.append('VIEW ' + view)
    lines.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
    cfgname = os.path.join(work, 'MC.cfg')
    open(cfgname, 'w').write('\n'.join(lines) + '\n')
    cmd = ['java', '-Djava.io.tmpdir=' + work, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar', 'tlc2.TLC',
           '-config', 'MC.cfg', '-metadir', os.path.join(work, 'meta'), '-workers', str(workers or min(NCPU, 8)), '-noGenerateSpecTE']
    if simulate:
        cmd += ['-simulate', f'num={simulate}']
        if depth:
            cmd += ['-depth', str(depth)]
    if seed is not None:
        cmd += ['-seed', str(seed)]
    cmd += list(extra) + [module + '.tla']
    e = clean_env(**(env or {}))
    e['PATH'] = os.environ.get('PATH', '') + ':' + e['PATH']
    log = os.path.join(work, 'tlc.out')
    try:
        with open(log, 'w') as lf:
            r = subprocess.run(cmd, cwd=work, env=e, stdout=lf, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=limit_files)
    except subprocess.TimeoutExpired:
        raise CheckError(f'TLC timed out on {module}')
    res = TlcResult()
    rest = []
    for line in open(log, errors='replace').read().split('\n'):
        if line.startswith('"@@'):
            res.cases.append(json.loads(json.loads(line)[2:]))
        else:
            rest.append(line)
    res.out = '\n'.join(rest)
    m = re.findall(r'^([\d,]+) states generated, ([\d,]+) distinct states found', res.out, re.M)
    if m:
        res.states, res.distinct = (int(x.replace(',', '')) for x in m[-1])
    else:
        m = re.findall(r'The number of states generated: ([\d,]+)', res.out)
        if m:
            res.states = res.distinct = int(m[-1].replace(',', ''))
    m = re.search(r'(?:Invariant|Action property|Temporal propert\w*|property) (\S+) (?:is|was) violated|(Deadlock) reached|POSTCONDITION|[Pp]ostcondition (\S+)', res.out)
    if r.returncode != 0:
        if m:
            res.violated = next_nonempty(m.groups()) or 'postcondition'
        if not (expect_violation and res.violated):
            keep = os.path.join(CACHE, 'last-tlc-error.txt')
            os.makedirs(CACHE, exist_ok=True)
            open(keep, 'w').write(res.out)
            raise CheckError(f'TLC failed on {module} (rc={r.returncode}), see {keep}:\n' + res.out[-2500:])
    shutil.rmtree(work, ignore_errors=True)
    return res


def next_nonempty(xs):
    for x in xs:
        if x:
            return x
    return None


def tla(v):
    """Python value -> TLA+ expression usable in a configuration file / module"""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=str)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    raise TypeError(v)


# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'vf-{pid}-')
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.assumptions = []
        self.viol = []        # (key, text, data)
        self.known = load_known(pid)
        self.known_hit = {}
        self.notes = {}
        self.missing = []     # products that were looked for and not there, programs that crashed
        self._bdir = None

    # -- running
    @property
    def bdir(self):
        if self._bdir is None:
            self._bdir = build()
        return self._bdir

    @property
    def bin(self):
        return os.path.join(self.bdir, 'bin')

    def tlc(self, module, **kw):
        r = run_tlc(module, self.scratch, **kw)
        self.states += r.distinct
        self.transitions += r.states
        return r

    def dir(self, name='d'):
        return tempfile.mkdtemp(prefix=name + '-', dir=self.scratch)

    def run(self, cmd, timeout=120, env=None, cwd=None, input=None, check_timeout=True, preload=None):
        """Run a program under test. Returns (rc, stdout+stderr)."""
        e = clean_env(OMP_THREAD_LIMIT=64)
        e['PATH'] = self.bin + ':' + e['PATH']
        e.update({k: str(v) for k, v in (env or {}).items()})
        with tempfile.TemporaryFile(dir=self.scratch) as lf:
            p = subprocess.Popen(cmd, cwd=cwd or self.scratch, env=e, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                                 stdout=lf, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=limit_files)
            rc = None
            try:
                p.communicate(input.encode() if isinstance(input, str) else input, timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                rc = 'timeout' if check_timeout else None
            lf.seek(0)
            out = lf.read(64 << 20).decode(errors='replace')
        if rc or p.returncode < 0:
            self.missing.append(f'{os.path.basename(str(cmd[0] if isinstance(cmd, (list, tuple)) else cmd))} ended with {rc or p.returncode}')
        if rc:
            return rc, out
        return p.returncode, out

    # -- bookkeeping
    def count(self, n=1, case=None):
        self.evaluations += n
        if case is not None:
            self.distinct.add(case if isinstance(case, (str, int, tuple)) else json.dumps(case, sort_keys=True, default=str))

    def trace(self, n=1):
        self.traces += n

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def violation(self, key, text, data=None):
        """key: stable identification of what fails (used for known findings and for confirming)"""
        for k, t in self.known:
            if k == key:
                self.known_hit[k] = t
                return
        if sum(1 for v in self.viol if v[0] == key) < 20 and len(self.viol) < 1000:
            self.viol.append((key, text, data))

    def expect(self, ok, key, text, data=None):
        if not ok:
            self.violation(key, text, data)
        return ok

    def coverage(self):
        if self.level == 'model_checking':
            c = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples or ['(none)'])
            if self.evaluations:
                c['comparisons'] = self.evaluations
        else:
            c = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.notes.get('rule', ''), samples=self.samples or ['(none)'])
        c.update({k: v for k, v in self.notes.items() if k != 'rule'})
        return c

    def write_evidence(self, nviol):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick', seed=self.seed, level=self.level,
                  coverage=self.coverage(), assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        tmp = os.path.join(VERIF, 'evidence', f'.{self.pid}.tmp')
        json.dump(ev, open(tmp, 'w'), indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, 'evidence', self.pid + '.json'))


def load_known(pid):
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def guarded(ck, main):
    """run a check; when it stumbles over what the programs left behind, what it had seen until then counts"""
    try:
        main(ck)
    except Exception as e:
        if not ck.viol and ck.missing and not isinstance(e, CheckError):
            ck.violation('broken', f'the check could not go on: {ck.missing[0]} ({type(e).__name__}: {e})')
        if not ck.viol:
            raise
        ck.notes['stopped'] = f'{type(e).__name__}: {e}'


def execute(pid, level, main):
    """Run a check; confirm violations by a second run; report."""
    ck = Check(pid, level)
    rc = 3
    try:
        guarded(ck, main)
        if ck.viol:
            confirmed = []
            for _ in range(2):          # a disagreement counts when it repeats
                ck2 = Check(pid, level)
                ck2._bdir = ck._bdir
                try:
                    guarded(ck2, main)
                finally:
                    shutil.rmtree(ck2.scratch, ignore_errors=True)
                keys2 = {k for k, _, _ in ck2.viol}
                confirmed = [v for v in ck.viol if v[0] in keys2]
                if ck2.viol:
                    break
            if not ck2.viol:
                print(f'note: {len(ck.viol)} disagreement(s) did not repeat: ' + ck.viol[0][1])
                ck.write_evidence(0)
                return 0
            confirmed = confirmed or ck.viol
            rep = os.path.join(VERIF, 'evidence', f'{pid}.replay.json')
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            json.dump(dict(property=pid, seed=ck.seed, tier=ck.tier, violations=[dict(key=k, what=t, data=d) for k, t, d in confirmed[:20]]),
                      open(rep, 'w'), indent=1, default=str)
            ck.write_evidence(len(confirmed))
            shown = set()
            for k, t, d in confirmed:
                if k not in shown:
                    shown.add(k)
                    print(f'  [{k}] {t}')
            print(f'VIOLATION property={pid} replay={rep}')
            rc = 1
        else:
            for k, t in ck.known_hit.items():
                print(f'KNOWN-FINDING: property={pid} {t}')
            ck.write_evidence(0)
            print(f'{pid}: held ({ck.states} states, {ck.traces} traces, {ck.evaluations} comparisons, {time.time() - ck.t0:.1f} s)')
            rc = 0
    except CheckError as e:
        print(f'{pid}: check error: {e}')
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(ck.scratch, ignore_errors=True)
        else:
            print('kept', ck.scratch)
    return rc
