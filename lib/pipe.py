"""Jobs of force-higher-level for the Pipeline specification: running them and comparing what they leave behind."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
from cube import Cube, Run, NODATA, tile_name

DATES = ('20180110', '20180415', '20180728')
INV = ['Exclusive', 'NoClash', 'Complete', 'Counted', 'Distinct', 'CoversTiles', 'Tell']


def job(x=(0, 0), y=(0, 0), cols=1, rows=1, stream=True, strict=False, allow=None, input=None, masked=False, open=(), ncol=12, nrow=12, name=''):
    tiles = [(a, b) for b in range(y[0], y[1] + 1) for a in range(x[0], x[1] + 1)]
    return dict(x0=x[0], x1=x[1], y0=y[0], y1=y[1], cols=cols, rows=rows, stream=stream, strict=strict, haslist=allow is not None,
                list=[list(t) for t in (allow or [])], input=[list(t) for t in (tiles if input is None else input)], masked=masked,
                open=[list(o) for o in open], ncol=ncol, nrow=nrow, name=name)


def fixed_jobs():
    J = [
        job(name='one unit'),
        job(name='one unit, sequential', stream=False),
        job(cols=2, rows=3, name='2x3 chunks'),
        job(cols=3, rows=2, name='3x2 chunks, sequential', stream=False),
        job(cols=1, rows=4, name='row chunks'),
        job(cols=4, rows=1, name='column chunks'),
        job(x=(-1, 1), y=(2, 3), cols=2, rows=1, name='tile range across the origin', ncol=8, nrow=4),
        job(x=(0, 2), y=(0, 1), allow=[(2, 0), (0, 1), (7, 7)], rows=2, name='allow-list'),
        job(x=(0, 1), y=(0, 1), allow=[(5, 5)], name='nothing allowed'),
        job(x=(0, 2), y=(0, 0), input=[(1, 0)], rows=2, strict=True, name='input in the middle tile'),
        job(x=(0, 1), y=(0, 0), input=[(0, 0)], stream=False, strict=True, rows=2, name='input in the first tile only, sequential'),
        job(x=(0, 1), y=(0, 0), input=[], strict=True, name='no input, strict'),
        job(x=(0, 1), y=(0, 0), input=[], stream=False, strict=True, name='no input, strict, sequential'),
        job(x=(0, 1), y=(0, 0), input=[], strict=False, name='no input'),
        job(cols=2, rows=2, masked=True, open=[(0, 0, 1, 0), (0, 0, 0, 1)], strict=True, name='mask leaves two chunks'),
        job(cols=2, rows=2, masked=True, open=[(0, 0, 0, 0)], strict=True, stream=False, name='mask leaves the first chunk, sequential'),
        job(cols=2, rows=2, masked=True, open=[(0, 0, 1, 1)], strict=True, name='mask leaves the last chunk'),
        job(x=(0, 1), cols=2, rows=1, masked=True, open=[], strict=True, name='mask is empty'),
        job(x=(0, 1), y=(0, 0), cols=1, rows=3, masked=True, open=[(1, 0, 0, 2), (1, 0, 0, 0)], name='first tile masked'),
    ]
    return J


def random_jobs(rng, n):
    J = []
    for i in range(n):
        x0, y0 = rng.randrange(-2, 3), rng.randrange(-2, 3)
        x1, y1 = x0 + rng.randrange(0, 3), y0 + rng.randrange(0, 2)
        cols, rows = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)])
        tiles = [(a, b) for b in range(y0, y1 + 1) for a in range(x0, x1 + 1)]
        allow = None
        if rng.random() < 0.4:
            allow = [t for t in tiles if rng.random() < 0.6] + ([(x1 + 1, y1)] if rng.random() < 0.5 else [])
            if not allow:
                allow = [tiles[-1]]
            rng.shuffle(allow)
        inp = [t for t in tiles if rng.random() < 0.75]
        masked = rng.random() < 0.4
        open_ = [(a, b, c, r) for (a, b) in tiles for c in range(cols) for r in range(rows) if rng.random() < 0.6] if masked else ()
        J.append(job((x0, x1), (y0, y1), cols, rows, rng.random() < 0.7, rng.random() < 0.5, allow, inp, masked, open_,
                     ncol=cols * rng.randrange(2, 5), nrow=rows * rng.randrange(2, 5), name=f'random {i}'))
    return J


def predict(ck, jobs, liveness=False):
    fn = os.path.join(ck.dir('cfg'), 'jobs.ndjson')
    open(fn, 'w').write(''.join(json.dumps(j) + '\n' for j in jobs))
    r = ck.tlc('Pipeline', spec='Spec', invariants=INV, properties=['Refines'] + (['Terminates'] if liveness else []), constants=dict(Barrier=True), env=dict(JOBS=fn))
    out = [None] * len(jobs)
    for c in r.cases:
        out[c['job'] - 1] = c
    if any(o is None for o in out):
        raise vf.CheckError('a job never finished in the specification')
    return out


def pixel(x, y, date, ncol, nrow):
    """a value for every pixel that identifies tile, place and date"""
    i, j = np.mgrid[0:nrow, 0:ncol]
    return (1 + (x * 977 + y * 3511 + DATES.index(date) * 1709 + i * ncol + j + 40000) % 9001).astype('int16')


class Job:
    """One run of a job with time series products."""

    def __init__(self, ck, j, delay=None, trace=False, fail_write=None, threads=(2, 2, 2), over=None, out=None, cube=None):
        self.j = j
        self.cube = cube or Cube(ck.dir('cube'), j['ncol'], j['nrow'])
        if cube is None:
            for x, y in j['input']:
                for d in DATES:
                    v = pixel(x, y, d, j['ncol'], j['nrow'])
                    self.cube.ard(x, y, d, 'LND08', np.stack([v + 100 * b for b in range(6)]))
        p = dict(SENSORS='LND08', DATE_RANGE='2018-01-01 2018-12-31', INDEX='RED NIR', OUTPUT_TSS='TRUE', OUTPUT_STM='TRUE', STM='MAX NUM',
                 X_TILE_RANGE=f'{j["x0"]} {j["x1"]}', Y_TILE_RANGE=f'{j["y0"]} {j["y1"]}',
                 CHUNK_SIZE=f'{j["ncol"] * 10 // j["cols"]} {j["nrow"] * 10 // j["rows"]}', STREAMING=str(j['stream']).upper(),
                 FAIL_IF_EMPTY=str(j['strict']).upper(), NTHREAD_READ=threads[0], NTHREAD_COMPUTE=threads[1], NTHREAD_WRITE=threads[2])
        if j['haslist']:
            fn = os.path.join(ck.dir('list'), 'tiles.txt')
            open(fn, 'w').write(f'{len(j["list"])}\n' + ''.join(tile_name(*t) + '\n' for t in j['list']))
            p['FILE_TILE'] = fn
        if j['masked']:
            m = Cube(ck.dir('mask'), j['ncol'], j['nrow'])
            for x, y in {(x, y) for x in range(j['x0'], j['x1'] + 1) for y in range(j['y0'], j['y1'] + 1)}:
                m.image(x, y, 'm.tif', self.mask(x, y), nodata=255, dtype=1)
            p.update(DIR_MASK=m.path, BASE_MASK='m.tif')
        p.update(over or {})
        env = {}
        self.tracefile = None
        if delay or trace or fail_write:
            env['LD_PRELOAD'] = vf.shared_lib('gdaltrace')
        if delay:
            env['VF_DELAY'] = f'{delay[0]} {delay[1]}'
        if trace:
            self.tracefile = env['VF_TRACE'] = os.path.join(ck.dir('trace'), 'trace.ndjson')
        if fail_write:
            env['VF_FAIL_WRITE'] = str(fail_write)
        self.run = Run(ck, 'TSA', self.cube.path, p, env=env, out=out)

    def chunk(self, cx, cy):
        w, h = self.j['ncol'] // self.j['cols'], self.j['nrow'] // self.j['rows']
        return slice(cy * h, cy * h + h), slice(cx * w, cx * w + w)

    def mask(self, x, y):
        """open chunks hold at least one pixel with 1, never all; closed ones hold other values"""
        m = np.full((self.j['nrow'], self.j['ncol']), 0, 'uint8')
        m[::3, ::2] = 2
        for a, b, cx, cy in self.j['open']:
            if (a, b) == (x, y):
                sy, sx = self.chunk(cx, cy)
                sub = m[sy, sx]
                i, j = np.mgrid[0:sub.shape[0], 0:sub.shape[1]]
                sub[(i + j + cx) % 3 != 1] = 1
                sub[0, 0] = 1
        return m

    def expected(self, x, y, case, date, band):
        """values of a tile, or None if it must not have a product"""
        v = np.full((self.j['nrow'], self.j['ncol']), NODATA, 'int16')
        any_ = False
        for a, b, cx, cy in case['written']:
            if (a, b) == (x, y):
                any_ = True
                s = self.chunk(cx, cy)
                v[s] = (pixel(x, y, date, self.j['ncol'], self.j['nrow']) + 100 * band)[s]
        if not any_:
            return None
        if self.j['masked']:
            v[self.mask(x, y) != 1] = NODATA
        return v

    def compare(self, ck, case, tag=''):
        """products against the specification's final state"""
        j, run = self.j, self.run
        name = f'{j["name"]}{tag}'
        ok = True
        for x in range(j['x0'] - 1, j['x1'] + 2):
            for y in range(j['y0'] - 1, j['y1'] + 2):
                for idx, band in (('RED', 2), ('NIR', 3)):
                    tss, stm = run.product(x, y, f'_{idx}_TSS'), run.product(x, y, f'_{idx}_STM')
                    want = [self.expected(x, y, case, d, band) for d in DATES]
                    ck.count(2)
                    if want[0] is None:
                        ok &= ck.expect(tss is None and stm is None, 'surplus', f'{name}: product in tile {tile_name(x, y)} that must not get one', j)
                        continue
                    if not ck.expect(tss is not None and stm is not None and tss.nb == 3 and stm.nb == 2, 'missing', f'{name}: tile {tile_name(x, y)} has no (complete) {idx} product', dict(job=j, log=run.log[-400:])):
                        ok = False
                        continue
                    mx = np.maximum.reduce(want)
                    num = np.where(mx == NODATA, NODATA, 3)
                    for what, got, exp in [(f'date {k}', tss.data[k], want[k]) for k in range(3)] + [('MAX', stm.data[0], mx), ('NUM', stm.data[1], num)]:
                        bad = np.argwhere(got != exp)
                        if len(bad):
                            ok = False
                            r, c = (int(t) for t in bad[0])
                            key = 'unwritten' if exp[r, c] == NODATA else 'value'
                            ck.violation(key, f'{name}: {idx} {what} of tile {tile_name(x, y)}: {len(bad)} pixels differ, e.g. row {r} column {c}: {got[r, c]} instead of {exp[r, c]}', j)
        strangers = [f for f in run.files() if not os.path.basename(os.path.dirname(f)).startswith('X')]
        ok &= ck.expect(not strangers, 'stray', f'{name}: stray files {strangers[:3]}', j)
        return ok

    def events(self, case):
        """record of the run in terms of the specification's units, or None if the program does not use the recorded calls"""
        j = self.j
        units = [(x, y, cx, cy) for x, y in case['tiles'] for cy in range(j['rows']) for cx in range(j['cols'])]
        nr = {u: i + 1 for i, u in enumerate(units)}
        written = {tuple(w) for w in case['written']}
        w, h = j['ncol'] // j['cols'], j['nrow'] // j['rows']
        ev, seen, area = [], set(), {}
        try:
            recs = [json.loads(l) for l in open(self.tracefile)]
        except FileNotFoundError:
            return None
        if not any(r['k'] == 'w' and r['f'].startswith(self.run.out) for r in recs):
            return None
        bands = set()
        for r in recs:
            tile = os.path.basename(os.path.dirname(r['f']))
            t = [(x, y) for x, y in case['tiles'] if tile_name(x, y) == tile]
            inside = r['f'].startswith(self.run.out) or r['f'].startswith(self.cube.path)
            if not inside:
                continue
            if not t:
                return dict(error=f'access to {r["f"]}, which belongs to no active tile')
            hit = [(cx, cy) for cx in range(j['cols']) for cy in range(j['rows'])
                   if cx * w < r['x'] + r['w'] and r['x'] < cx * w + w and cy * h < r['y'] + r['h'] and r['y'] < cy * h + h]
            for cx, cy in hit:
                u = (*t[0], cx, cy)
                if r['k'] == 'w' and r['f'].startswith(self.run.out):
                    b = f'{os.path.basename(r["f"])}:{r["b"]}'
                    box = (max(r['x'], cx * w), max(r['y'], cy * h), min(r['x'] + r['w'], cx * w + w), min(r['y'] + r['h'], cy * h + h))
                    a = area.setdefault((u, b), np.zeros((j['nrow'], j['ncol']), 'int'))
                    a[box[1]:box[3], box[0]:box[2]] += 1
                    if a.max() > 1:
                        return dict(error=f'unit {u}: pixels of {b} are written twice')
                    if a[cy * h:cy * h + h, cx * w:cx * w + w].all():
                        ev.append(dict(k='write', u=nr[u], b=b))
                        bands.add(b.split('/')[-1])
                elif r['k'] == 'r' and r['f'].startswith(self.cube.path):
                    ev.append(dict(k='again' if u in seen else 'read', u=nr[u], b=''))
                    seen.add(u)
        return dict(n=len(units), fruitful=[u in written for u in units], bands=sorted(bands), ev=ev)


def run_jobs(ck, jobs, par=6, **kw):
    ck.bdir
    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(lambda a: Job(ck, a[1], **{k: (v(a[0]) if callable(v) else v) for k, v in kw.items()}), enumerate(jobs)))
