"""Q01: the Level 2 queue processes each queued image once and records it."""
import glob, os, shutil, subprocess, tarfile, time, zipfile
from concurrent.futures import ThreadPoolExecutor
from vf import VERIF, clean_env, shared_lib

LIMIT = 15


class Replay:
    def __init__(self, ck, i, case, nproc):
        self.ck, self.i, self.case, self.nproc = ck, i, case, nproc
        import random
        self.rng = random.Random(f'{ck.seed}-{i}')
        self.err = []

    # -- concrete names for the abstract entries
    def names(self):
        rng, root, n = self.rng, self.root, 8
        fam = ['prefix', 'suffix', 'dot', 'word', 'granule', 'plus', 'archive', 'bracket'][self.i % 8]
        p = [f'{root}/img/LC08_{chr(65 + k)}' for k in range(n)]
        if fam == 'prefix':
            p = [f'{root}/img/LC08', f'{root}/img/LC08_1', f'{root}/img/LC08_12', f'{root}/img/LC0', f'{root}/img/LC08_123'] + p
        elif fam == 'suffix':
            p[1] = root + p[0]
            p[3] = root + p[2]
        elif fam == 'dot':
            p = [f'{root}/img/S2A.SAFE', f'{root}/img/S2AxSAFE', f'{root}/img/S2A-SAFE', f'{root}/img/S2B.SAFE'] + p
        elif fam == 'word':
            p = [f'{root}/img/QUEUED', f'{root}/QUEUED/a', f'{root}/img/DONE', f'{root}/img/x_QUEUED_x', f'{root}/FAIL/y'] + p
        elif fam == 'granule':
            p = [f'{root}/img/S2A.SAFE', f'{root}/img/S2A.SAFE/GRANULE/L1C_A', f'{root}/img/S2A.SAFE/GRANULE/L1C_B'] + p
        elif fam == 'plus':
            p = [f'{root}/img/a+b', f'{root}/img/aab', f'{root}/img/a++b', f'{root}/img/aaab', f'{root}/img/b+'] + p
        elif fam == 'bracket':
            p = [f'{root}/img/a[1]', f'{root}/img/a1', f'{root}/img/a(2)', f'{root}/img/a2', f'{root}/img/a|b'] + p
        if fam in ('prefix', 'suffix', 'dot', 'bracket', 'plus') and rng.random() < 0.5:
            q = p[:5]
            rng.shuffle(q)
            p[:5] = q
        self.fam = fam
        kinds = {}
        for k in range(len(p)):
            kinds[k + 1] = 'dir'
            broken = (k + 1) in self.case['broken']
            if broken or fam == 'archive':
                kinds[k + 1] = rng.choice(['.tar', '.tar.gz', '.zip'])
        # names that are inside other names (granules) must stay folders
        self.path = {k + 1: p[k] + (kinds[k + 1] if kinds[k + 1] != 'dir' else '') for k in range(len(p))}
        self.kind = kinds
        self.key = {k: f'e{k}' for k in self.path}

    def make(self):
        for k, p in self.path.items():
            kind = self.kind[k]
            if kind == 'dir':
                os.makedirs(p, exist_ok=True)
                open(p + '/key', 'w').write(self.key[k])
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            base = os.path.basename(p)[:-len(kind)]
            if k in self.case['broken']:
                open(p, 'w').write('this is not an archive')
                continue
            t = self.ck.dir('ar')
            inner = base + '.SAFE' if kind == '.zip' else ''
            os.makedirs(f'{t}/{inner}', exist_ok=True)
            f = os.path.join(t, inner, 'key')
            open(f, 'w').write(self.key[k])
            if kind == '.zip':
                with zipfile.ZipFile(p, 'w') as z:
                    z.write(f, f'{inner}/key')
            else:
                with tarfile.open(p, 'w:gz' if kind == '.tar.gz' else 'w') as z:
                    z.add(f, 'key')

    def line(self, e, crlf=False):
        sep = self.rng.choice([' ', ' ', '  ', '\t', ' \t '])
        return ('' if self.rng.random() < 0.8 else ' ') + self.path[e[0]] + sep + e[1] + ('' if self.rng.random() < 0.8 else ' ') + ('\r\n' if crlf else '\n')

    def queue(self):
        return [tuple(x.split()) for x in open(self.file).read().split('\n') if x.strip()]

    def wait(self, cond):
        t0 = time.time()
        while not cond():
            if time.time() - t0 > LIMIT or (self.proc and self.proc.poll() is not None):
                return cond()
            time.sleep(0.01)
        return True

    def log(self):
        f = self.ctl + '/log'
        return [x.split() for x in open(f).read().split('\n') if x] if os.path.exists(f) else []

    def append(self, i):
        sh = f'{self.tools}/lockfile-create "$1" && printf "%s QUEUED\\n" "$2" >> "$1" && {self.tools}/lockfile-remove "$1"'
        subprocess.run(['bash', '-c', sh, 'append', self.file, self.path[i]], env=clean_env(), timeout=60)

    def start(self):
        e = clean_env(VF_CTL=self.ctl, LD_PRELOAD=self.so, VF_SLOW_NAME='queue.txt', VF_SLOW_US=60000, SHELL='/bin/bash', HOME=self.root)
        e['PATH'] = self.tools + ':' + e['PATH']
        self.proc = subprocess.Popen([self.bin + '/force-level2', self.prm], env=e, stdin=subprocess.DEVNULL, stdout=open(self.root + '/out.log', 'a'),
                                     stderr=subprocess.STDOUT, start_new_session=True, cwd=self.root)

    def end(self):
        try:
            self.proc.wait(LIMIT)
        except subprocess.TimeoutExpired:
            self.err.append(('hang', 'force-level2 does not terminate'))
            self.kill()
        self.proc = None

    def kill(self):
        try:
            os.killpg(self.proc.pid, 9)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def execute(self):
        ck = self.ck
        self.root = ck.dir(f'q{self.i}')
        self.bin, self.tools, self.ctl = self.root + '/bin', self.root + '/tools', self.root + '/ctl'
        for d in (self.bin, self.tools, self.ctl, self.root + '/level2', self.root + '/temp', self.root + '/logs', self.root + '/prov'):
            os.makedirs(d)
        for f in os.listdir(ck.bin):
            if f != 'force-l2ps':
                os.symlink(f'{ck.bin}/{f}', f'{self.bin}/{f}')
        h = VERIF + '/harness/'
        shutil.copy(h + 'l2ps-standin', self.bin + '/force-l2ps')
        for f in ('lockfile-create', 'lockfile-remove'):
            shutil.copy(h + f, self.tools + '/' + f)
        self.so = shared_lib('slow')
        self.file, self.prm = self.root + '/queue.txt', self.root + '/l2.prm'
        self.proc = None
        self.names()
        self.make()
        hist = self.case['hist']
        init = hist[0][1]
        crlf = self.i % 5 == 4
        open(self.file, 'w', newline='').write(''.join(self.line(e, crlf) for e in init))
        open(self.prm, 'w').write('++PARAM_LEVEL2_START++\n' + ''.join(f'{k} = {v}\n' for k, v in (
            ('FILE_QUEUE', self.file), ('DIR_LEVEL2', self.root + '/level2'), ('DIR_LOG', self.root + '/logs'), ('DIR_PROVENANCE', self.root + '/prov'),
            ('DIR_TEMP', self.root + '/temp'), ('NPROC', self.nproc), ('NTHREAD', 1), ('PARALLEL_READS', 'FALSE'), ('DELAY', 0), ('TIMEOUT_ZIP', 30))) + '++PARAM_LEVEL2_END++\n')
        expect_starts, run, loose = [], -1, set()
        logpos = 0
        self.starts = []
        events = hist[1:]
        for n, (ev, i) in enumerate(events):
            nxt = events[n + 1][0] if n + 1 < len(events) else ''
            if ev == 'take':
                self.start()
                expect_starts.append([])
                run_len0 = len(self.log())
                synced = False
                if nxt == 'append':            # a new entry arrives while the queue is being normalised
                    time.sleep(self.rng.uniform(0.02, 0.35))
            elif ev == 'start':
                expect_starts[-1].append(i)
                synced = synced or i not in loose
                if i not in loose and not self.wait(lambda: ['start', self.key[i]] in [x[:2] for x in self.log()[run_len0:]]):
                    self.err.append(('not-started', f'queued image {self.path[i]} is never processed'))
                    break
            elif ev in ('ok', 'bad'):
                if i not in self.case['broken'] and i not in loose:
                    open(f'{self.ctl}/release-{self.key[i]}', 'w').write('0' if ev == 'ok' else '1')
            elif ev == 'append':
                if self.proc and not synced:   # before or after the snapshot: cannot be told from outside
                    loose.add(i)
                    open(f'{self.ctl}/release-{self.key[i]}', 'w').write('0')
                self.append(i)
            elif ev == 'end':
                self.end()
                lg = self.log()[run_len0:]
                self.starts.append([x[1] for x in lg if x[0] == 'start'])
                for f in glob.glob(self.ctl + '/release-*'):
                    if not any(f.endswith('-' + self.key[x]) for x in loose):
                        os.remove(f)
                self.at_end(lg, loose)
                if self.err:
                    break
        if self.proc:
            self.kill()
        if not self.err:
            for n, want in enumerate(expect_starts):
                got = sorted(x for x in self.starts[n] if not any(self.key[y] == x for y in loose))
                w = sorted(self.key[x] for x in want if x not in loose)
                if got != w:
                    self.err.append(('starts', f'run {n + 1}: processor started for {got}, expected {w}'))
            q, want = self.queue(), [(self.path[e[0]], e[1]) for e in self.case['queue']]
            ok = len(q) == len(want)
            for k in range(min(len(q), len(want))):
                e = self.case['queue'][k][0]
                if q[k][0] != want[k][0] or not (q[k][1:] == want[k][1:] or (e in loose and len(q[k]) == 2 and q[k][1] in ('QUEUED', 'DONE', 'FAIL'))):
                    ok = False
            if not ok and not (loose and sorted(x[0] for x in q) == sorted(x[0] for x in want) and self.order_only(q, want, loose)):
                self.err.append(('queue', f'queue file ({self.fam} names) differs'))
                self.diff = dict(got=q, want=want)
            left = os.listdir(self.root + '/temp')
            if left:
                self.err.append(('temp', f'temporary files are left: {left}'))
            for k, p in self.path.items():
                if not os.path.exists(p):
                    self.err.append(('input', f'input {p} disappeared'))
        return self

    def order_only(self, q, want, loose):
        names = {self.path[x] for x in loose}
        return [x for x in q if x[0] not in names] == [x for x in want if x[0] not in names]

    def at_end(self, lg, loose):
        run = 0
        for x in lg:
            run += 1 if x[0] == 'start' else -1
            if run > self.nproc:
                self.err.append(('slots', f'more than {self.nproc} images are processed at the same time'))
                return


def main(ck):
    inv = ['StartedOnce', 'OnlyQueued', 'SlotsRespected', 'Recorded', 'BrokenNeverStart']
    ck.tlc('Queue2', spec='Spec', view='View', invariants=inv, properties=['NoLineLost', 'OthersUntouched'],
           constants=dict(Ids={1, 2, 3, 4}, MaxLen=3, Nproc=3 if ck.thorough else 2, Appends=1, Runs=2, Locked=True, BrokenSets='<- MC_Broken'))
    # the lock is needed: without it the specification loses lines
    r = ck.tlc('Queue2', spec='Spec', view='View', properties=['NoLineLost'], expect_violation=True,
               constants=dict(Ids={1, 2, 3}, MaxLen=2, Nproc=2, Appends=1, Runs=1, Locked=False, BrokenSets='<- MC_Broken'))
    if not r.violated:
        raise RuntimeError('the unlocked variant should lose lines')
    cases = []
    want = 160 if ck.thorough else 40
    for nproc in (1, 2, 3):
        r = ck.tlc('Queue2', invariants=['EmitFinal'], simulate=200, depth=80, seed=ck.seed * 10 + nproc, workers=4,
                   constants=dict(Ids={1, 2, 3, 4, 5, 6}, MaxLen=5, Nproc=nproc, Appends=1, Runs=2, Locked=True, BrokenSets='<- MC_Broken2'))
        pool = {}
        for c in r.cases:
            if sum(1 for e in c['hist'] if e[0] == 'start') >= 2:
                pool[str(c)] = c
        pool = [pool[k] for k in sorted(pool)]
        ck.rng.shuffle(pool)
        # prefer histories in which jobs overlap and entries arrive during a run
        pool.sort(key=lambda c: -interest(c))
        k = (want // 3 + 1) * 2
        pick = pool[:k // 2] + ck.rng.sample(pool[k // 2:], min(k // 2, len(pool) - k // 2))
        ck.rng.shuffle(pick)
        cases += [(c, nproc) for c in pick[:want // 3 + 1]]
    ck.bdir
    with ThreadPoolExecutor(10) as ex:
        reps = list(ex.map(lambda a: Replay(ck, a[0], a[1][0], a[1][1]).execute(), enumerate(cases)))
    for r in reps:
        ck.trace()
        ck.count(len(r.case['hist']), case=str(r.case))
        for k, t in r.err:
            ck.violation(f'{k}', t, dict(history=r.case['hist'][1:], initial=[(r.path[e[0]], e[1]) for e in r.case['hist'][0][1]], nproc=r.nproc, **getattr(r, 'diff', {})))
    ck.sample(dict(initial=reps[0].case['hist'][0][1], events=reps[0].case['hist'][1:], final=reps[0].case['queue'], nproc=reps[0].nproc))


def interest(c):
    h = [e[0] for e in c['hist']]
    s = 0
    run = 0
    for a, b in zip(h, h[1:]):
        if a == 'start':
            run += 1
        if a == 'record':
            run -= 1
        s += run >= 2
        s += 2 * (a == 'take' and b == 'append')
        s += 2 * (a in ('ok', 'bad') and b in ('ok', 'bad'))
    return s
