"""C01: parameter files are read exactly as documented or refused."""
import json, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import vf
from mods import World, content
from cube import prm_text, Raster, SKEL

CONTRACT = json.load(open(os.path.join(os.path.dirname(os.path.abspath(vf.__file__)), 'contract.json')))
BIG = 2000000000
HUGE = 20000000  # as a number; times 100 still fits
PAIRS = {'X_TILE_RANGE': 2, 'Y_TILE_RANGE': 2, 'CHUNK_SIZE': 2, 'DATE_RANGE': 2, 'DOY_RANGE': 2, 'DOY_SCORE': 3, 'DOY_STATIC': 3, 'HARMONIC_FIT_RANGE': 2, 'TILE_SIZE': 2}
EXISTS = {'DIR_LOWER', 'DIR_HIGHER', 'DIR_PROVENANCE', 'DIR_MODEL', 'DIR_LIBRARY', 'FILE_POINTS', 'FILE_FEATURES', 'DIR_LEVEL2', 'DIR_TEMP', 'DIR_LOG'}
NULL_OR_EXISTS = {'DIR_MASK', 'FILE_TILE', 'FILE_OUTPUT_OPTIONS', 'FILE_ENDMEM', 'FILE_PYTHON', 'FILE_RSTATS', 'DIR_LSP', 'DIR_COARSE', 'FILE_DEM', 'DIR_WVPLUT', 'DIR_AOD', 'DIR_COREG_BASE', 'FILE_AOI'}
# where the sentence in the template is wrong or says too little
OTHER = {'LSM_KERNEL_SHAPE': 'Character. Valid values: {SQUARE,CIRCLE}', 'SENSORS_LOWRES': 'Character list.', 'LSP_THRESHOLD': 'Float. Valid range: [0,365]', 'LSP_START': 'Integer. Valid range: [1,766500]',
         'LSM_MIN_PATCHSIZE': 'Integer. Valid range: [0,...', 'ORIGIN_LON': 'Double. Valid range: [-180,180]', 'ORIGIN_LAT': 'Double. Valid range: [-90,90]', 'HARMONIC_MODES': 'Integer. Valid range: [1,3]',
         'MAX_CLOUD_COVER_FRAME': 'Float. Valid range: ]0,100]', 'MAX_CLOUD_COVER_TILE': 'Float. Valid range: ]0,100]', 'SVM_KFOLD': 'Integer. Valid range: [1,...', 'SMA_ENDMEMBER': 'Integer. Valid range: [0,...',
         'CHUNK_SIZE': 'Double. Valid range: ]0,...', 'RESPONSE_VARIABLE': 'Integer. Valid range: [1,...'}
# parameters whose value does not matter for the small runs below, so that any valid value must be accepted
FREE = {'TSA': ['MOVING_MAX', 'RBF_SIGMA', 'RBF_CUTOFF', 'HARMONIC_MODES', 'INT_DAY', 'POL_START_THRESHOLD', 'POL_MID_THRESHOLD', 'POL_END_THRESHOLD', 'TREND_CONF', 'TREND_TAIL', 'STANDARDIZE_POL', 'STANDARDIZE_FOLD',
                'PYTHON_TYPE', 'RSTATS_TYPE', 'SMA_SUM_TO_ONE', 'SMA_ENDMEMBER', 'HARMONIC_TREND', 'POL_ADAPTIVE', 'CHANGE_PENALTY', 'DATE_IGNORE_LANDSAT_7', 'HARMONIC_FIT_RANGE', 'X_TILE_RANGE', 'Y_TILE_RANGE', 'NTHREAD_READ', 'STREAMING'],
        'LEVEL3': ['DREQ', 'HREQ', 'VREQ', 'LSP_NODATA', 'LSP_1ST_YEAR', 'LSP_START', 'LSP_THRESHOLD', 'YEAR_NUM', 'Y_FACTOR', 'USE_CLOUDY', 'USE_HAZY', 'OFF_SEASON'],
        'ML': ['ML_CONVERGENCE', 'FEATURE_EXCLUDE'], 'TXT': ['FEATURE_EXCLUDE'], 'CSO': ['MONTH_STEP']}


class Par:
    def __init__(self, name, typ):
        self.name = name
        typ = OTHER.get(name, typ or '')
        self.lo, self.hi, self.values, self.kind = -BIG, BIG, [], 'text'
        self.open_lo = self.open_hi = False
        self.n = PAIRS.get(name, 0 if 'list' in typ or name in ('PROJECTION', 'BASE_COARSE', 'FEATURE_WEIGHTS') else 1)
        m = re.search(r'([\[\]])(-?[\d.]+),(-?[\d.]+|\.\.\.|[A-Z_]+)([\[\]]?)', typ)
        if name in EXISTS or (name == 'FILE_RESPONSE' and False):
            self.kind = 'exists'
        elif name in NULL_OR_EXISTS:
            self.kind = 'null or exists'
        elif name == 'BASE_MASK':
            self.kind = 'null or base'
        elif typ.startswith('Date'):
            self.kind = 'date'
        elif m and typ.startswith(('Integer', 'Float', 'Double')):
            self.kind = 'int' if typ.startswith('Integer') else 'real'
            self.lo, self.open_lo = round(float(m[2]) * 100), m[1] == ']'
            if re.match(r'-?\d', m[3]):
                self.hi, self.open_hi = round(float(m[3]) * 100), m[4] == '['
        elif '{' in typ and typ.endswith('}') and '...' not in typ and not name.startswith(('PROJECTION', 'FEATURE_W', 'REQUIRE')):
            self.kind = 'enum'
            for v in typ[typ.index('{') + 1:-1].split(','):
                self.values += [f'Q{i:02d}' for i in range(1, 100)] if v == 'Q01-Q99' else [v]
        elif name in ('FOLD_TYPE', 'POL', 'SCREEN_QAI'):
            self.kind = 'part'      # the value in use is valid, nonsense is not

    def number(self, v):
        return str(v // 100) if self.kind == 'int' else f'{v / 100:.2f}'

    def good(self, rng):
        """valid values"""
        n = self.n or rng.randrange(1, 5)
        if self.kind in ('int', 'real'):
            unit = 100 if self.kind == 'int' else 1
            lo, hi = self.lo + unit * self.open_lo, min(self.hi - unit * self.open_hi, HUGE if self.kind == 'real' else HUGE)
            if self.name.endswith('_THRESHOLD') and self.name.startswith('POL'):
                lo, hi = 1, 99
            pick = lambda: rng.choice([lo, hi, lo + (hi - lo) // unit // 2 * unit])
            return [self.number(pick()) for _ in range(n)]
        if self.kind == 'enum':
            return [rng.choice(self.values) for _ in range(n)]
        if self.kind == 'date':
            return [rng.choice(['1900-01-01', '2099-12-31', '2000-02-28', '1999-10-05', '2018-07-31']) for _ in range(n)]
        return None

    def bad(self, rng, kinds):
        """(what, values) that are no valid value"""
        out = []
        n = self.n or 2
        mid = self.good(rng) or []
        def one(what, v):
            vals = (mid + mid + mid + mid)[:n] if mid else [v] * n
            vals[rng.randrange(len(vals))] = v
            out.append((what, vals))
        if self.kind in ('int', 'real'):
            if self.lo > -BIG:
                one('too low', self.number(self.lo - 100))
                if self.kind == 'real' and not self.open_lo:
                    one('a bit too low', f'{(self.lo - 1) / 100:.2f}')
            if self.hi < BIG:
                one('too high', self.number(self.hi + 100))
            one('no number', rng.choice(['abc', 'TRUE', 'x5', '--']))
            v = (mid[0] if mid else '5')
            one('trailing characters', v + rng.choice(['x', 'm', ',', '%']))
            if self.kind == 'int':
                one('fraction', v + '.5')
        if self.kind in ('enum', 'part'):
            one('unknown', rng.choice(['FOO', 'XTRUE', 'Q', '12']))
            if self.kind == 'enum':
                one('lower case', rng.choice(self.values).lower() if not rng.choice(self.values).isdigit() else 'foo')
                one('prefix', self.values[0] + 'X')
        if self.kind == 'date':
            for v in ('2018-13-01', '2018-00-10', '2018-05-32', '2018-05-00', '1850-01-01', '2150-01-01', 'today', '2018-1'):
                one('wrong date', v)
        if self.kind in ('exists', 'null or exists'):
            one('does not exist', '/nonexistent/place')
            if self.kind == 'exists':
                one('does not exist', 'NULL')
        if self.kind == 'null or base':
            one('path', '/a/b.tif')
            one('no extension', 'mask')
        if self.n > 1 and mid:
            out.append(('too few', mid[:-1]))
            out.append(('too many', mid + mid[:1]))
        return out

    def row(self, used):
        return dict(name=list(self.name), kind=self.kind if self.kind not in ('part',) else 'enum', lo=self.lo, hi=self.hi, n=self.n, values=[list(v) for v in (self.values or used)])


def file_lines(text):
    return [ln for ln in text.splitlines() if ln.strip()]


class Base:
    """A valid file of a module and how to try one."""

    def __init__(self, ck, world, name, module, text, cmd):
        self.ck, self.world, self.name, self.module, self.cmd = ck, world, name, module, cmd
        lines = file_lines(text)
        self.head, self.tail = lines[0], lines[-1]
        self.lines = lines[1:-1]
        self.pars = {n: Par(n, t) for n, t in CONTRACT[module]}

    def value(self, name):
        for ln in self.lines:
            if ln.split(' =')[0] == name:
                return ln.split(' = ', 1)[1].split() if ' = ' in ln else []
        return []

    def text(self, lines, eol='\n'):
        return eol.join([self.head] + lines + [self.tail]) + eol

    def replace(self, name, new):
        """all lines, those of a parameter replaced by new ones"""
        out, done = [], False
        for ln in self.lines:
            if ln.split(' =')[0].strip() == name:
                if not done:
                    out += new
                done = True
            else:
                out.append(ln)
        return out


class HL(Base):
    def attempt(self, text, keep=False):
        d = self.ck.dir('try')
        for s in ('out', 'prov'):
            os.makedirs(f'{d}/{s}')
        open(d + '/p.prm', 'w', newline='').write(text.replace('@OUT@', d + '/out').replace('@PROV@', d + '/prov').replace('@HERE@', d))
        rc, log = self.ck.run([self.ck.bin + '/' + self.cmd, d + '/p.prm'], timeout=120)
        files = sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
        files = [f for f in files if f != 'p.prm']
        tifs = [f'{d}/{f}' for f in files if f.endswith('.tif')]
        res = dict(rc=rc, log=log[-600:], files=files, accept=rc == 0 and bool(files))
        if rc == 0 and tifs:
            meta = Raster(tifs[0]).meta
            res['shown'] = next((v for v in meta.values() if 'NTHREAD_READ: ' in v), '')
        if keep:
            res['content'] = {f[len(d):]: (Raster(f).data.tobytes(), tuple(Raster(f).names)) for f in tifs}
        if not isinstance(rc, int) or rc < 0 or rc >= 128:
            res['crash'] = True
        shutil.rmtree(d, ignore_errors=True)
        return res


class L2(Base):
    """The image does not exist: a valid file gets as far as the complaint about the image."""

    def __init__(self, *a):
        super().__init__(*a)
        self.usual = None

    def attempt(self, text, keep=False):
        d = self.ck.dir('try')
        open(d + '/p.prm', 'w', newline='').write(text)
        img = self.world.cube.path + '/LC08_L1TP_195023_20180110_20180119_01_T1'
        rc, log = self.ck.run([self.ck.bin + '/force-l2ps', img, d + '/p.prm'], timeout=60)
        shutil.rmtree(d, ignore_errors=True)
        log = re.sub(r'/[^\s]*try[^\s]*', '', log)
        if self.usual is None:
            self.usual = log
            if self.attempt(self.text(self.lines[1:]))['accept']:
                raise vf.CheckError('force-l2ps says the same of a valid and of an incomplete file: ' + log[-300:])
        res = dict(rc=rc, log=log[-400:], files=[], accept=log == self.usual)
        if not isinstance(rc, int) or rc < 0 or rc >= 128:
            res['crash'] = True
        return res


def bases(ck, w):
    R = w.runs()
    small = dict(X_TILE_RANGE='0 0', Y_TILE_RANGE='0 0', NTHREAD_READ=1, NTHREAD_COMPUTE=1, NTHREAD_WRITE=1, PRETTY_PROGRESS='FALSE', DIR_LOWER=w.cube.path, DIR_HIGHER='@OUT@', DIR_PROVENANCE='@PROV@')
    out = []
    for name, key in (('TSA', 'TSA'), ('LEVEL3', 'BAP'), ('CSO', 'CSO'), ('TXT', 'TXT'), ('LSM', 'LSM'), ('ML', 'ML'), ('LIB', 'LIB'), ('UDF', 'UDF-pixel'), ('CFIMP', 'CFI')):
        module, p, feat = R[key]
        p = dict(p)
        if key == 'TSA':
            p = dict(w.ard, INDEX='NDVI RED', INTERPOLATE='NONE', OUTPUT_STM='TRUE', STM='MIN Q50 NUM')
        text = prm_text(module, {k: v if isinstance(v, list) else str(v) for k, v in {**w.common, **p, **small}.items()}, features=feat)
        out.append(HL(ck, w, name, module, text, 'force-higher-level'))
    pts = w.file('points.csv', ''.join(f'{x:.2f} {y:.2f} {c}\n' for x, y, c in w.points(30)))
    smp = dict(FILE_POINTS=pts, FILE_SAMPLE='@OUT@/sample.csv', FILE_RESPONSE='@OUT@/response.csv', FILE_COORDINATES='@OUT@/coordinates.csv', PROJECTED='TRUE')
    out.append(HL(ck, w, 'SMP', 'SMP', prm_text('SMP', {k: str(v) for k, v in {**w.common, **small, **smp}.items()}, features=w.features), 'force-higher-level'))
    m = w.model()
    out.append(HL(ck, w, 'TRAIN', 'TRAIN', prm_text('TRAIN', dict(FILE_FEATURES=m + '/f.txt', FILE_RESPONSE=m + '/r.txt', FILE_MODEL='@OUT@/m.xml', FILE_LOG='@OUT@/m.log', ML_METHOD='RFC', PERCENT_TRAIN='100',
                                                                RANDOM_SPLIT='FALSE', RF_NTREE='3', RF_DT_MAXDEPTH='3', RF_FEATURE_IMPORTANCE='FALSE')), 'force-train'))
    d = ck.dir('l2')
    l2 = dict(SKEL['LEVEL2'], DIR_LEVEL2=d, DIR_TEMP=d, DIR_LOG=d, DIR_PROVENANCE=d)
    out.append(L2(ck, w, 'LEVEL2', 'LEVEL2', '++PARAM_LEVEL2_START++\n' + ''.join(f'{k} = {v}\n' for k, v in l2.items()) + '++PARAM_LEVEL2_END++\n', 'force-l2ps'))
    return out


def spell(rng, name, words):
    """one way to write a line"""
    g = lambda: ' ' * rng.randrange(0, 4)
    s = g() + name + g() + '=' + g() + (' ' * rng.randrange(1, 3)).join(words) + g()
    if rng.random() < 0.4:
        s += '#' + rng.choice(['', ' comment', f' {name} = 99', ' = 1', '# 2'])
    return s


def main(ck):
    rng = ck.rng
    w = World(ck, seed=ck.seed, ncol=8, nrow=6, tiles=((0, 0),))
    B = bases(ck, w)
    with ThreadPoolExecutor(8) as ex:
        first = list(ex.map(lambda b: b.attempt(b.text(b.lines), keep=True), B))
    for b, r in zip(B, first):
        ck.expect(r['accept'], 'valid file', f"a complete valid file of {b.name} is refused: {r['log']}", r)
    # the templates name every documented parameter, once
    for m, rows in CONTRACT.items():
        fn = ck.dir('template') + '/t.prm'
        rc, log = ck.run([ck.bin + '/force-parameter', fn, m])
        names = [ln.split('=')[0].strip() for ln in open(fn) if '=' in ln and not ln.startswith('#')] if os.path.exists(fn) else []
        ck.count(1)
        for n, _ in rows:
            ck.expect(names.count(n) == 1 or (n in ('INPUT_FEATURE', 'FILE_MODEL') and n in names), 'template', f'the template of {m} has {names.count(n)} lines {n}: {log[-200:]}')
    tries = []      # base, what, par, text, job
    paths = {p for b in B for ln in b.lines for p in ln.split() if '/' in p and '@' not in p and os.path.exists(p)}

    def add(b, what, name, lines, new, table, eol='\n'):
        rows = []
        given = []
        for n in table:
            p = b.pars[n]
            rows.append(p.row(b.value(n)))
            if n != name:
                given.append(dict(name=list(n), words=[list(v) for v in b.value(n)]))
        job = dict(table=rows, given=given, lines=[list(s) for s in new], paths=[list(p) for p in sorted(paths | {'@OUT@', '@PROV@'})] if any(r['kind'].endswith('exists') for r in rows) else [[]])
        tries.append((b, what, name, b.text(lines, eol), job))

    share = 1.0 if ck.thorough else 0.25
    for b in B:
        names = [n for n in b.pars if b.value(n) and n not in ('INPUT_FEATURE',) and not (n == 'FILE_MODEL' and b.module == 'ML')]
        for n in names:
            p = b.pars[n]
            near = rng.sample(names, min(3, len(names)))
            table = sorted({n, *near, *[o for o in names if o != n and (o.startswith(n) or n.startswith(o))][:2]})
            muts = [('missing', []), ('empty', [n + ' =']), ('only a comment', [f'{n} = # {" ".join(b.value(n))}']), ('commented out', [f'# {n} = {" ".join(b.value(n))}']),
                    ('another name', [f'X{n} = {" ".join(b.value(n))}', f'{n}X = {" ".join(b.value(n))}'])]
            muts = [rng.choice(muts)] if not ck.thorough else muts
            wrong = p.bad(rng, None)
            if wrong and not ck.thorough:
                wrong = rng.sample(wrong, min(len(wrong), 2 if b.name in ('TSA', 'LEVEL3') or len(wrong) > 4 else 1))
            for what, vals in wrong:
                muts.append((f'{what}: {" ".join(vals)}', [spell(rng, n, vals)]))
            for what, new in muts:
                if what.split(':')[0] in ('missing', 'empty', 'only a comment', 'commented out', 'another name') and rng.random() > share:
                    continue
                add(b, what, n, b.replace(n, new), new, table)
        for n in FREE.get(b.module, []):
            p = b.pars[n]
            for _ in range(6 if ck.thorough else 1):
                vals = p.good(rng)
                if n in ('X_TILE_RANGE', 'Y_TILE_RANGE'):
                    vals = rng.choice([['-999', '9999'], ['0', '9999'], ['-999', '0']])
                if n == 'NTHREAD_READ':
                    vals = [rng.choice(['1', '3'])]
                if n == 'INT_DAY':
                    vals = [rng.choice(['1', '365', '20'])]
                if n == 'YEAR_NUM':
                    vals = [rng.choice(['0', '3'])]
                new = [spell(rng, n, vals)]
                add(b, 'valid: ' + ' '.join(vals), n, b.replace(n, new), new, [n])
    fn = ck.dir('jobs') + '/j.json'
    with open(fn, 'w') as f:
        for t in tries:
            f.write(json.dumps(t[4]) + '\n')
    r = ck.tlc('Params', spec='Spec', properties=['Kept'], constants=dict(Strict=True), env=dict(JOBS=fn))
    loose = ck.tlc('Params', spec='Spec', constants=dict(Strict=False), env=dict(JOBS=fn))
    want = {c['i'] - 1: c for c in r.cases}
    differ = sum(want[c['i'] - 1]['accept'] != c['accept'] for c in loose.cases)
    if differ == 0:
        raise vf.CheckError('no file tells a sloppy reader of numbers from an exact one')
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: t[0].attempt(t[3]), tries))
    for k, ((b, what, n, text, job), got) in enumerate(zip(tries, res)):
        ck.count(1)
        exp = want[k]
        data = dict(module=b.name, parameter=n, what=what, text=text, got=got)
        if got.get('crash'):
            ck.violation('crash', f'{b.name}: {n} {what}: crash ({got["rc"]}): {got["log"][-200:]}', data)
            continue
        ck.expect(got['accept'] == exp['accept'], 'accept' if exp['accept'] else 'refuse',
                  f'{b.name}: {n} {what}: {"accepted" if got["accept"] else "refused"}, expected {"accepted" if exp["accept"] else "refused"}: {got["log"][-250:]}', data)
        if not exp['accept']:
            ck.expect(not got['files'], 'output', f'{b.name}: {n} {what}: refused, but there is output {got["files"][:3]}', data)
        elif got['accept'] and 'shown' in got and b.pars[n].kind in ('int', 'real', 'date'):
            vals = [''.join(x) for x in exp['words'][[''.join(t['name']) for t in job['table']].index(n)]]
            m = re.search(r'(?:^|, )' + n + r': ([^,]*)', got['shown'])
            seen = m[1].split() if m else None
            ok = seen is not None and len(seen) == len(vals) and all(a == v if b.pars[n].kind == 'date' else abs(float(a) - float(v)) <= 1e-5 * max(1, abs(float(v))) for a, v in zip(seen, vals))
            ck.expect(ok, 'value', f'{b.name}: {n} = {vals}, but the value in use is {seen}', data)
    ck.notes['refused'] = sum(not c['accept'] for c in r.cases)
    ck.notes['told apart from a sloppy reader'] = differ

    # all ways to write one line
    lines = ck.tlc('ParamLines', spec='Spec', invariants=['Tell', 'NoComment'], constants=dict(MaxLen=5))
    group = {}
    for c in lines.cases:
        group.setdefault((c['what'], c['n']), []).append(''.join(c['line']))
    b = B[0]
    picks = []
    for (what, n), ls in sorted(group.items()):
        if what == 'open' or n > 2:
            continue
        ls.sort()
        for s in rng.sample(ls, min(len(ls), 300 if ck.thorough else 40)):
            picks.append((what, n, s.replace('NAME', 'MOVING_MAX')))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: b.attempt(b.text(b.replace('MOVING_MAX', [t[2]]))), picks))
    for (what, n, s), got in zip(picks, res):
        ck.count(1)
        m = re.search(r'MOVING_MAX: ([^,]*)', got.get('shown', ''))
        ok = (got['accept'] and m and m[1] == '7' * n) if what == 'set' else not got['accept'] and not got['files']
        ck.expect(ok, 'line', f'line {s!r} means {what}, but the file is {"accepted" if got["accept"] else "refused"}, value {m and m[1]}: {got["log"][-200:]}', dict(line=s, what=what, got=got))

    # order, comments, blank lines and line ends do not matter
    shown = []
    for b, f in zip(B, first):
        for _ in range(4 if ck.thorough else 1):
            ls = list(b.lines)
            feats = [ln for ln in ls if ln.startswith(('INPUT_FEATURE', 'FILE_MODEL'))]
            rng.shuffle(ls)
            it = iter(feats)
            ls = [next(it) if ln in feats else ln for ln in ls]     # features and models are numbered in the order of the file
            out = []
            for ln in ls:
                name, _, v = ln.partition(' = ')
                while rng.random() < 0.2:
                    out.append(rng.choice(['', '   ', '# a comment', f'# {name} = 5', '#', '  # x']))
                out.append(spell(rng, name, v.split()) if v.split() else ln)
            shown.append((b, f, b.text(out, rng.choice(['\n', '\r\n']))))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: t[0].attempt(t[2], keep=True), shown))
    for (b, f, text), got in zip(shown, res):
        ck.count(1)
        ck.expect(got['accept'], 'order', f'{b.name}: the same parameters in another order or spelling are refused: {got["log"][-250:]}', dict(text=text))
        if got['accept'] and b.name not in ('TRAIN', 'LEVEL2'):
            ck.expect(got['files'] == f['files'] and got['content'] == f['content'], 'same', f'{b.name}: the same parameters in another order or spelling give other products', dict(text=text))

    # a value may contain an equal sign
    odd = ck.dir('odd') + '/a=b'
    os.symlink(w.cube.path, odd)
    b = B[0]
    got = b.attempt(b.text(b.replace('DIR_LOWER', [f'DIR_LOWER = {odd}'])))
    ck.expect(got['accept'], 'equal sign', f'a path with an equal sign is not used as written: {got["log"][-250:]}', got)
    # features
    for b in B:
        if b.name in ('TXT', 'LIB', 'SMP', 'ML'):
            for bad in ('F1.tif', 'F1.tif 0', 'F1.tif -1', 'F1.tif x', 'F1 1', 'a/F1.tif 1', '', 'F1.tif 1 2.5'):
                if not ck.thorough and rng.random() < 0.5:
                    continue
                keep = [ln for ln in b.lines if not ln.startswith('INPUT_FEATURE')]
                got = b.attempt(b.text(keep + [f'INPUT_FEATURE = {w.features[0]}', f'INPUT_FEATURE = {bad}']))
                ck.count(1)
                ck.expect(not got['accept'] and not got['files'] and not got.get('crash'), 'feature', f'{b.name}: INPUT_FEATURE = {bad} is not refused ({got["rc"]}): {got["log"][-200:]}', got)
