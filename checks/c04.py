"""C04: the provenance table names every product and its sources once."""
import csv, glob, json, os, re
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import gated, vf
from cube import Cube, Run, NODATA, Raster, tile_name, write_raster
import level2

NX, NY, RES = 12, 8, 10
HEADER = ['file', 'origin', 'mode', 'creation']
STAMP = r'\d{4}-?\d\d-?\d\d[T ]\d\d:?\d\d:?\d\d.*'


def tables(d):
    return sorted(f for f in glob.glob(d + '/**/provenance*', recursive=True) if os.path.isfile(f) and not f.endswith('.lock'))


def parse(ck, d, what):
    """lines of the tables of a directory: (file, set of origins, mode); None if they are no tables"""
    out = []
    for f in tables(d):
        text = open(f).read()
        ck.expect(text.endswith('\n'), 'table', f'{what}: the last line of the table is not finished: {text[-80:]!r}')
        rows = list(csv.reader(text.splitlines()))
        if not ck.expect(rows and rows[0] == HEADER, 'header', f'{what}: the table starts with {rows[:1]}'):
            return None
        for r in rows[1:]:
            if not ck.expect(len(r) == 4 and r != HEADER, 'columns', f'{what}: line {r} of the table is not one of a product'):
                return None
            o = r[1].split(';')
            ck.expect(len(set(map(os.path.normpath, o))) == len(o), 'origin-twice', f'{what}: {r[0]} names a source twice: {r[1]}')
            ck.expect(bool(re.match(STAMP, r[3])), 'time', f'{what}: creation time {r[3]!r}')
            out.append((os.path.normpath(r[0]), frozenset(map(os.path.normpath, o)), r[2]))
    return out


# ---------------------------------------------------------------- concurrent writers
def model(ck):
    inv, pr = ['WellFormed', 'LinesKept'], ['OnlyGrows', 'AllEnd']
    for n, k in ((2, 3), (3, 2)) if ck.thorough else ((2, 2), (3, 1)):
        ck.tlc('ProvTable', spec='Spec', invariants=inv, properties=pr, constants=dict(Procs=set(range(1, n + 1)), Lines=k, Way='locked'))
    for way in ('open', 'early', 'fresh', 'brief'):
        ck.tlc('ProvTable', spec='Spec', invariants=inv, constants=dict(Procs={1, 2}, Lines=1, Way=way), expect_violation=True)


def abstract(text, known):
    """table as << owner, number >> per line"""
    if text is None:
        return []
    out = []
    lines = text.split('\n')
    last = lines.pop()
    for ln in lines:
        if ln == ','.join(HEADER):
            out.append([0, 0])
            continue
        r = next(csv.reader([ln]), [])
        k = known.get((os.path.basename(r[0]), frozenset(map(os.path.basename, r[1].split(';'))))) if len(r) == 4 else None
        out.append(list(k) if k and r[2] == 'create' and re.match(STAMP, r[3]) else [-2, 0])
    if last:
        out.append([-1, 0])
    return out


def play(ck, prov, cmds, known, own, sched):
    w = gated.World('provenance_', cmds, prov)
    steps = []

    def look(k):
        f = tables(prov)
        steps.append(dict(p=k, ended=0 if w.alive(k) else 1, table=abstract(open(f[-1]).read() if f else None, known)))

    try:
        w.run(sched, look)
        rcs, logs, ops = [q.rc for q in w.procs], [w.output(q.k)[-200:] for q in w.procs], max(len(q.ops) for q in w.procs)
    except gated.Stuck as e:
        rcs, logs, ops = ['stuck'], [str(e)], 0
    finally:
        w.close()
    left = [os.path.basename(f) for f in glob.glob(prov + '/*.lock')]
    return dict(steps=steps, own=own, sched=sched, rcs=rcs, logs=logs, ops=ops, left=left)


def race(ck):
    src = ck.dir('q')
    for k in range(1, 4):
        write_raster(f'{src}/2020010{k}_LEVEL2_LND08_QAI.tif', np.zeros((2, 3), 'int16') + k, nodata=1, res=RES, ulx=4000000, uly=3000000)
    cso = Cube(ck.dir('cso'), 4, 4, RES)
    for d in ('20200110', '20200210'):
        cso.ard(0, 0, d, 'LND08', np.full((6, 4, 4), 100), np.zeros((4, 4), 'int16'))
    over = dict(X_TILE_RANGE='0 0', Y_TILE_RANGE='0 0', RESOLUTION=RES, CHUNK_SIZE='40 40', SENSORS='LND08', DATE_RANGE='2020-01-01 2020-12-31', YEAR='', MONTH_STEP=12, CSO='NUM MIN',
                PRETTY_PROGRESS='FALSE', NTHREAD_READ=1, NTHREAD_COMPUTE=1, NTHREAD_WRITE=1)
    del over['YEAR']

    def inflate(k, prov):
        return [ck.bin + '/force-qai-inflate', f'{src}/2020010{k}_LEVEL2_LND08_QAI.tif', prov]

    def higher(prov, out):
        from cube import prm_text
        p = ck.dir('p') + '/p.prm'
        open(p, 'w').write(prm_text('CSO', {a: str(b) for a, b in dict(over, DIR_LOWER=cso.path, DIR_HIGHER=out, DIR_PROVENANCE=prov).items()}))
        return [ck.bin + '/force-higher-level', p]

    known = {(f'2020010{k}_LEVEL2_LND08_QIM.tif', frozenset({f'2020010{k}_LEVEL2_LND08_QAI.tif'})): (k, 1) for k in (1, 2, 3)}
    # what one run of each kind adds
    m = 0
    prov, out = ck.dir('alone'), ck.dir('o')
    rc, log = ck.run(higher(prov, out))
    names = sorted({os.path.basename(f) for f in glob.glob(out + '/X*/*.tif')})
    if rc != 0 or len(names) != 2:
        raise vf.CheckError(f'CSO run: {rc} {names} {log[-300:]}')
    qais = frozenset(f'{d}_LEVEL2_LND08_QAI.tif' for d in ('20200110', '20200210'))
    khigh = dict(known)
    for n, f in enumerate(names, 1):
        khigh[(f, qais)] = (2, n)
    todo = []
    with ThreadPoolExecutor(6) as ex:
        m = 6
        scheds = [[(1, a), (2, b), (1, None), (2, None)] for a in range(m + 1) for b in range(m + 1)]
        if not ck.thorough:
            scheds = [s for s in scheds if s[0][1] + s[1][1] > 0][::2]
        scheds += [[(ck.rng.choice((1, 2)), ck.rng.randrange(1, 3)) for _ in range(14)] for _ in range(40 if ck.thorough else 6)]
        for s in scheds:
            p = ck.dir('race')
            todo.append(ex.submit(play, ck, p, [inflate(k, p) for k in (1, 2)], known, [1, 1], s))
        for _ in range(60 if ck.thorough else 12):
            p = ck.dir('race')
            s = [(ck.rng.randrange(1, 4), ck.rng.randrange(1, 4)) for _ in range(18)]
            todo.append(ex.submit(play, ck, p, [inflate(k, p) for k in (1, 2, 3)], known, [1, 1, 1], s))
        for _ in range(30 if ck.thorough else 8):
            p = ck.dir('race')
            s = [(ck.rng.randrange(1, 3), ck.rng.randrange(1, 5)) for _ in range(20)]
            todo.append(ex.submit(play, ck, p, [inflate(1, p), higher(p, ck.dir('ro'))], {k: v for k, v in khigh.items() if v != (2, 1) or k in khigh and 'QIM' not in k[0]}, [1, 2], s))
        out = [t.result() for t in todo]
    full = [t for t in out if t['steps']]
    fn = ck.dir('tr') + '/t.json'
    with open(fn, 'w') as f:
        for t in full:
            f.write(json.dumps(dict(own=t['own'], steps=t['steps'])) + '\n')
    r = ck.tlc('ProvTableTrace', spec='Spec', env=dict(TRACES=fn))
    got = {c['i'] - 1: c for c in r.cases}
    for i, t in enumerate(full):
        ck.count()
        ck.trace()
        v = got.get(i)
        if v is None:
            raise vf.CheckError('trace missing')
        ck.expect(v['ok'], 'concurrent', f"{len(t['own'])} writers under schedule {t['sched']}: the table is {v['why']} after step {v['at']} ({t['steps'][v['at'] - 1]})", t)
        ck.expect(all(x == 0 for x in t['rcs']), 'exit', f"{len(t['own'])} writers under schedule {t['sched']}: exit {t['rcs']}: {t['logs']}", t)
        ck.expect(not t['left'], 'lock', f"{len(t['own'])} writers under schedule {t['sched']} leave {t['left']}", t)
    if sum(len(t['steps']) for t in full) < 4 * len(full):
        raise vf.CheckError('the processes are not stopped at their file operations')
    ck.notes['interleavings'] = f'{len(full)}, up to {max(t["ops"] for t in out)} operations on the table per process'


# ---------------------------------------------------------------- histories of higher-level runs
TILES = [(0, 0), (1, 0), (0, 1)]
DATES = ['20180110', '20180210', '20180310', '20180410']
UDF = '''
import numpy as np
def forcepy_init(dates, sensors, bandnames):
    return ['n']
def forcepy_pixel(inarray, outarray, dates, sensors, bandnames, nodata, nproc):
    outarray[0] = (inarray[:, 0, 0, 0] != nodata).sum()
'''


class World:
    def __init__(self, ck):
        self.ck = ck
        deep = ck.dir('w') + '/' + '/'.join('lower-level-data-' + 'x' * 30 for _ in range(2))
        os.makedirs(deep)
        self.cube = Cube(deep, NX, NY, RES)
        self.images = {}
        for n, (x, y) in enumerate(TILES):
            ids = []
            for k, d in enumerate(DATES):
                for s, sensor in enumerate(('LND08', 'SEN2A')):
                    if ck.rng.random() < 0.75:
                        self.cube.ard(x, y, d, sensor, np.full((6 if s == 0 else 10, NY, NX), 100 * (k + 1)), np.zeros((NY, NX), 'int16'))
                        ids.append((d, sensor))
            self.images[(x, y)] = ids
            for f, nb in (('F1.tif', 3), ('F2.tif', 2), ('F3.tif', 1)):
                self.cube.image(x, y, f, np.full((nb, NY, NX), 500, 'int16'))
        self.masks = Cube(ck.dir('m'), NX, NY, RES)
        self.udf = ck.dir('u') + '/u.py'
        open(self.udf, 'w').write(UDF)

    def mask(self, name, cx, cy, pattern, edge):
        """pattern: tile -> list of 0/1 per chunk (row by row), or None for no mask file; no pixel closer than edge to a border"""
        for t, pat in pattern.items():
            if pat is None:
                continue
            a = np.zeros((NY, NX), 'int16')
            ny, nx = NY // cy, NX // cx
            for k, v in enumerate(pat):
                r, c = k // nx * cy, k % nx * cx
                if v:
                    a[r + self.ck.rng.randrange(edge, cy - edge), c + self.ck.rng.randrange(edge, cx - edge)] = 1
            write_raster(f'{self.masks.path}/{tile_name(*t)}/{name}', a, nodata=NODATA, res=RES, ulx=self.masks.ul(*t)[0], uly=self.masks.ul(*t)[1], dtype=1)


KINDS = {
    'CSO': ('CSO', dict(MONTH_STEP=2, CSO='NUM MIN AVG'), None, 'QAI'),
    'TSA': ('TSA', dict(INDEX='NDVI', OUTPUT_TSS='TRUE', OUTPUT_STM='TRUE', STM='AVG MAX', INTERPOLATE='NONE'), None, 'BOA'),
    'UDF': ('UDF', dict(FILE_PYTHON=None, PYTHON_TYPE='PIXEL', OUTPUT_PYP='TRUE'), None, 'BOA'),
    'TXT': ('TXT', dict(TXT_RADIUS=10, TXT_ITERATION=1, TXT='DIL ERO'), ['F1.tif 1 3', 'F2.tif 2', 'F1.tif 2'], 'FTR'),
    'TXT1': ('TXT', dict(TXT_RADIUS=10, TXT_ITERATION=1, TXT='OPN'), ['F3.tif 1'], 'FTR'),
}


def plan(ck, w, n):
    """a history: runs into two outputs and one table"""
    rng = ck.rng
    runs = []
    for k in range(rng.choice((2, 3)) if n else 3):
        kind = rng.choice(['CSO', 'TSA', 'UDF', 'TXT', 'TXT1']) if n > 1 else ('CSO', 'TSA', 'TXT')[k]
        cx, cy = rng.choice([(12, 8), (6, 8)] if KINDS[kind][2] else [(12, 8), (12, 4), (12, 2), (6, 4), (4, 2)])
        nc = (NX // cx) * (NY // cy)
        tiles = rng.sample(TILES, rng.choice((1, 2, 3)))
        pat = None
        if rng.random() < 0.75:
            pat = {t: ([rng.choice((0, 0, 1)) for _ in range(nc)] if rng.random() < 0.9 else None) for t in TILES}
            if n < 4 and k < 2:
                for t in tiles:
                    pat[t] = [0] * (nc - 1) + [1] if nc > 1 else [1]
        lo, hi = sorted((rng.randrange(4), rng.randrange(4)))
        sensors = rng.choice((['LND08'], ['SEN2A'], ['LND08', 'SEN2A']))
        runs.append(dict(kind=kind, cx=cx, cy=cy, nc=nc, tiles=tiles, pat=pat, dates=(lo, hi), sensors=sensors, explode=rng.random() < 0.4, sub=rng.random() < 0.3,
                         threads=rng.choice((1, 4)), out=rng.choice((1, 1, 2))))
    if n % 2 == 1:      # the same run again
        runs.append(dict(runs[0], pat=None if runs[0]['pat'] is None else {t: (None if p is None else p[::-1]) for t, p in runs[0]['pat'].items()}))
    return runs


def sources(w, run, t):
    kind = KINDS[run['kind']]
    if kind[3] == 'FTR':
        return [dict(id=f'{w.cube.path}/{tile_name(*t)}/{f}', sel=1) for f in sorted({x.split()[0] for x in kind[2]})] + \
               [dict(id=f'{w.cube.path}/{tile_name(*t)}/{f}', sel=0) for f in ('F1.tif', 'F2.tif', 'F3.tif') if f not in {x.split()[0] for x in kind[2]}]
    lo, hi = run['dates']
    return [dict(id=f'{w.cube.path}/{tile_name(*t)}/{d}_LEVEL2_{s}_{kind[3]}.tif', sel=int(s in run['sensors'] and DATES[lo] <= d <= DATES[hi])) for d, s in w.images[t]]


def names(ck, w, run, t):
    """file names of the products of a tile: those of an undisturbed run in a single chunk"""
    key = (run['kind'], run['explode'], run['sub'], tuple(run['dates']), tuple(run['sensors']), t)
    cache = w.__dict__.setdefault('names', {})
    if not any(s['sel'] for s in sources(w, run, t)):
        return []
    if key not in cache:
        d = ck.dir('ref')
        rc, log = execute(ck, w, dict(run, cx=NX, cy=NY, nc=1, tiles=[t], pat=None), d, ck.dir('refp'), 'ref')
        top = f'{d}/{tile_name(*t)}/'
        cache[key] = sorted(f[len(top):] for f in glob.glob(top + '**/*', recursive=True) if os.path.isfile(f) and not f.endswith(('.lock', '.xml', '.hdr')))
        if rc != 0 or not cache[key]:
            raise vf.CheckError(f'{run["kind"]}: exit {rc}, products {cache[key]}: {log[-300:]}')
    return cache[key]


def execute(ck, w, run, out, prov, tag):
    module, p, feat, _ = KINDS[run['kind']]
    over = dict(p, X_TILE_RANGE='0 1', Y_TILE_RANGE='0 1', RESOLUTION=RES, CHUNK_SIZE=f'{run["cx"] * RES} {run["cy"] * RES}', OUTPUT_EXPLODE=str(run['explode']).upper(),
                OUTPUT_SUBFOLDERS=str(run['sub']).upper(), NTHREAD_WRITE=run['threads'])
    if run['kind'] == 'UDF':
        over['FILE_PYTHON'] = w.udf
    if feat is None:
        lo, hi = run['dates']
        iso = lambda d: f'{d[:4]}-{d[4:6]}-{d[6:]}'
        over.update(TARGET_SENSOR='SEN2L' if run['sensors'] == ['SEN2A'] else 'LNDLG', SENSORS=' '.join(run['sensors']), DATE_RANGE=f'{iso(DATES[lo])} {iso(DATES[hi])}')
    fn = f'{ck.dir("tl")}/tiles.txt'
    open(fn, 'w').write(f'{len(run["tiles"])}\n' + ''.join(tile_name(*t) + '\n' for t in run['tiles']))
    over['FILE_TILE'] = fn
    if run['pat'] is not None:
        w.mask(f'{tag}.tif', run['cx'], run['cy'], run['pat'], 2 if feat else 0)
        over.update(DIR_MASK=w.masks.path, BASE_MASK=f'{tag}.tif')
    r = Run(ck, module, w.cube.path, over, out=out, prov=prov, features=feat)
    return r.rc, r.log


def histories(ck):
    w = World(ck)
    jobs, plans = [], {}
    for n in range(40 if ck.thorough else 10):
        runs = plan(ck, w, n)
        plans[f'h{n}'] = runs
        jobs.append(dict(id=f'h{n}', runs=[dict(nc=r['nc'], out=r['out'], tiles=[dict(name=tile_name(*t), files=names(ck, w, r, t), mask=[0] * r['nc'] if r['pat'] and r['pat'][t] is None else (r['pat'][t] if r['pat'] else [1] * r['nc']),
                                           src=sources(w, r, t)) for t in r['tiles']]) for r in runs]))
    fn = ck.dir('j') + '/jobs.json'
    open(fn, 'w').write(''.join(json.dumps(x) + '\n' for x in jobs))
    inv = ['OncePerFile', 'NothingMissing']
    res = ck.tlc('Provenance', spec='Spec', invariants=inv, constants=dict(Way='first'), env=dict(JOBS=fn))
    ck.tlc('Provenance', spec='Spec', invariants=inv, constants=dict(Way='corner'), env=dict(JOBS=fn), expect_violation=True)
    want = {c['id']: c for c in res.cases}

    def one(h):
        runs = plans[h]
        outs, prov = {1: ck.dir('o1'), 2: ck.dir('o2')}, ck.dir('pv')
        before = []
        for k, r in enumerate(runs, 1):
            what = f'history {h}, run {k} ({r["kind"]}, chunks {r["cx"]}x{r["cy"]}, mask {r["pat"]}, tiles {r["tiles"]}, explode {r["explode"]})'
            rc, log = execute(ck, w, r, outs[r['out']], prov, f'{h}r{k}')
            if not ck.expect(rc == 0, 'exit', f'{what}: exit {rc}: {log[-300:]}'):
                return
            now = parse(ck, prov, what)
            if now is None:
                return
            if not ck.expect(now[:len(before)] == before, 'history', f'{what}: earlier lines of the table changed'):
                return
            got = now[len(before):]
            before = now
            exp = [(f'{outs[r["out"]]}/{l["tile"]}/{l["file"]}', frozenset(map(os.path.normpath, l['src'])), l['mode']) for group in want[h]['lines'] for l in group if l['run'] == k]
            ck.count(len(exp))
            missing = sorted(f for f, _, _ in set(exp) if f not in [g[0] for g in got])
            extra = sorted(g[0] for g in got if g[0] not in [e[0] for e in exp])
            if not (ck.expect(not missing, 'missing', f'{what}: no line for {missing[:3]} ({len(missing)} of {len(exp)})')
                    and ck.expect(not extra, 'extra', f'{what}: a line for {extra[:3]}')
                    and ck.expect(len(got) == len(exp), 'twice', f'{what}: {len(got)} lines for {len(exp)} files')):
                continue
            d = {e[0]: e for e in exp}
            for g in got:
                e = d[g[0]]
                ck.expect(g[1] == e[1], 'sources', f'{what}: {os.path.relpath(g[0], outs[r["out"]])} names {len(g[1])} sources instead of {len(e[1])}: '
                          f'missing {sorted(map(os.path.basename, e[1] - g[1]))[:4]}, too many {sorted(map(os.path.basename, g[1] - e[1]))[:4]}')
                ck.expect(g[2] == e[2], 'mode', f'{what}: {g[0]} is called {g[2]}, expected {e[2]}')
                ck.expect(os.path.exists(g[0]), 'no-file', f'{what}: the file of line {g[0]} does not exist')
        ck.trace()

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, plans))
    ck.sample(dict(history='h0', expected=want['h0']['lines'][:1]))
    ck.notes['histories'] = len(plans)


# ---------------------------------------------------------------- Level 2
def level2_lines(ck):
    rng = ck.rng
    scen = []
    for k in range(4 if ck.thorough else 2):
        imgs = []
        for _ in range(3):
            ny, nx = rng.randrange(5, 8), rng.randrange(5, 8)
            imgs.append(level2.image(rng.randrange(-4, 3), rng.randrange(-4, 3), [[rng.choice((0, 0, 0, 1)) for _ in range(nx)] for _ in range(ny)]))
        scen.append(level2.scenario(f's{k}', 5, 4, imgs, length=3, once=bool(k % 2)))
    cases = level2.behaviours(ck, scen)
    rng.shuffle(cases)
    cases = cases[:40 if ck.thorough else 10]
    by = {s['id']: s for s in scen}

    def one(case):
        sc = by[case['id']]
        c = level2.L2Cube(ck, sc['tx'], sc['ty'])
        before = []
        for n, st in enumerate(case['steps'], 1):
            im = sc['imgs'][st['img'] - 1]
            what = f'Level 2, images {[s["img"] for s in case["steps"][:n]]}'
            a = level2.dns(im['w'], st['img'])
            rc, log = c.process(a, *level2.ul_of(im['x'] + st['dx'], im['y'] + st['dy']), row=20 + st['img'])
            if not ck.expect(rc == 0, 'l2-exit', f'{what}: exit {rc}: {log[-300:]}'):
                return
            origin = glob.glob(f'{c.top}/l1/{c.n}/*')
            now = parse(ck, c.top + '/prov', what)
            if now is None or not ck.expect(now[:len(before)] == before, 'history', f'{what}: earlier lines changed'):
                return
            got, before = now[len(before):], now
            files = {}
            for x, y in st['wrote']:
                for f in glob.glob(f'{c.out}/{tile_name(x, y)}/2018*'):
                    if not f.endswith(('.lock', '.xml', '.hdr')):
                        files[os.path.normpath(f)] = 'create' if [x, y] in st['fresh'] else 'update'
            ck.count(len(files))
            ck.expect(sorted(g[0] for g in got) == sorted(files), 'l2-files', f'{what}: lines for {sorted(os.path.relpath(g[0], c.out) for g in got)}, written were {sorted(os.path.relpath(f, c.out) for f in files)}')
            for g in got:
                ck.expect(g[2] == files.get(g[0], g[2]), 'l2-mode', f'{what}: {os.path.relpath(g[0], c.out)} is called {g[2]}, but it was a {files.get(g[0])}')
                ck.expect(g[1] == frozenset(map(os.path.normpath, origin)), 'l2-origin', f'{what}: {g[0]} names {sorted(g[1])} instead of {origin}')
        ck.trace()

    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, cases))


def main(ck):
    ck.bdir
    model(ck)
    race(ck)
    histories(ck)
    level2_lines(ck)
