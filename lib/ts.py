"""Replays the TimeSeries specification: one behaviour per pixel of a force-higher-level TSA run."""
import json, math, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from cube import Cube, Run, NODATA

ALL_COND = {'NODATA': 1, 'CLOUD_BUFFER': 2, 'CLOUD_OPAQUE': 4, 'CLOUD_CIRRUS': 6, 'CLOUD_SHADOW': 8, 'SNOW': 16, 'WATER': 32, 'AOD_INT': 64,
            'AOD_HIGH': 128, 'AOD_FILL': 192, 'SUBZERO': 256, 'SATURATION': 512, 'SUN_LOW': 1024, 'ILLUMIN_LOW': 2048, 'ILLUMIN_POOR': 4096,
            'ILLUMIN_NONE': 6144, 'SLOPED': 8192, 'WVP_NONE': 16384}
DEFAULT_SCREEN = 'NODATA CLOUD_OPAQUE CLOUD_BUFFER CLOUD_CIRRUS CLOUD_SHADOW SNOW SUBZERO SATURATION'.split()
FLAGGED = [ALL_COND[c] for c in DEFAULT_SCREEN if c != 'NODATA']
UNFLAGGED = [ALL_COND[c] for c in ALL_COND if c not in DEFAULT_SCREEN]
BANDS8 = ['BLUE', 'GREEN', 'RED', 'NIR', 'SWIR1', 'SWIR2']


def ymd(t):
    return '%04d%02d%02d' % tuple(t)


def iso(t):
    return '%04d-%02d-%02d' % tuple(t)


def kernels(sigmas, cutoff):
    """integer weights of the Gaussian kernels, each relative to its area, up to the cut-off"""
    out = []
    for s in sigmas:
        g = [math.exp(-0.5 * d * d / s / s) / math.sqrt(2 * math.pi) / s for d in range(4 * max(sigmas) + 1)]
        n, acc = 1, 0.0          # the centre is always reached
        for d, v in enumerate(g):
            acc += v
            if acc <= cutoff / 2:
                n = d + 1
        out.append([v / (2 * sum(g[:n])) for v in g[:n]])
    top = max(max(o) for o in out)
    return [[max(1, round(20000 * v / top)) for v in o] for o in out]


def admissible(got, e):
    """does the integer got agree with the exact expectation e of Stats.tla"""
    k = e[0]
    if k == 9:
        return True
    if k == 0:
        return got == NODATA
    if got == NODATA and k != 6:
        return False
    if k == 1:
        return got == e[1] if e[2] == 1 else abs(got * e[2] - e[1]) <= e[2]
    if k == 6:               # normalised: n x - sum, n, n sum of squares - square of the sum
        v = e[1] / e[2] / math.sqrt(e[3] / e[2] / (e[2] - 1)) * 10000
        return abs(got - max(-32768, min(32767, v))) <= 1.2
    if k == 5:               # weights are rounded in the specification
        return abs(got - e[1] / e[2]) <= 2.01
    if k == 2:
        return abs(got - math.sqrt(e[1] / e[2])) <= 1.001
    if k == 3:
        n = e[3]
        v = (e[2] / n) / (e[1] / n) ** 1.5 * 1000
        return abs(got - max(-30000, min(30000, v))) <= 1.01
    if k == 4:
        n = e[3]
        v = ((e[2] / n) / (e[1] / n) ** 2 - 3) * 1000
        return abs(got - max(-30000, min(30000, v))) <= 1.01
    raise ValueError(e)


def rat_ok(got, r, scale=1):
    n, d = r
    if d < 0:
        n, d = -n, -d
    return abs(got - scale * n / d) <= 1.0001


PERIOD_LABEL = {'FBY': 'YEAR-%04d', 'FBQ': 'QUARTER-%01d', 'FBM': 'MONTH-%02d', 'FBW': 'WEEK-%02d', 'FBD': 'DOY-%03d'}
TREND_OF = {'FBY': 'TRY', 'FBQ': 'TRQ', 'FBM': 'TRM', 'FBW': 'TRW', 'FBD': 'TRD'}
MONTH_OF = [m for m, n in enumerate([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31], 1) for _ in range(n)]


def periods(c):
    lo, hi = c['doy']
    days = list(range(lo, hi + 1)) if lo <= hi else list(range(1, hi + 1)) + list(range(lo, 366))
    mon = sorted({MONTH_OF[d - 1] for d in days})
    return dict(FBY=list(range(c['from'][0], c['to'][0] + 1)), FBQ=sorted({(m + 2) // 3 for m in mon}), FBM=mon,
                FBW=sorted({min(52, (d + 6) // 7) for d in days}), FBD=sorted(days))


class Replay:
    """c: configuration (see TimeSeries.tla); extra python-only keys start with _"""

    def __init__(self, ck, c, cases, rng, over=None, mask=None, tag=''):
        self.ck, self.c, self.cases, self.rng, self.over, self.mask, self.tag = ck, c, cases, rng, dict(over or {}), mask, tag
        self.seed = rng.randrange(1 << 30)

    def build(self):
        import random
        rng = random.Random(self.seed)
        c, n = self.c, len(self.cases)
        self.ncol = c.get('_ncol', 40)
        self.nrow = max(1, -(-n // self.ncol))
        d = self.ck.dir('cube')
        cube = Cube(d, self.ncol, self.nrow)
        self.order = list(range(n))
        rng.shuffle(self.order)              # neighbouring pixels belong to unrelated behaviours
        shape = (self.nrow, self.ncol)
        for t, date in enumerate(c['dates']):
            val = np.full(self.nrow * self.ncol, NODATA, 'int16')
            qai = np.ones(self.nrow * self.ncol, 'int16')
            for pos, ci in enumerate(self.order):
                a = c['alt'][t][self.cases[ci]['obs'][t] - 1]
                if a[0] == 'n':
                    qai[pos] = 1
                    continue
                val[pos] = a[1]
                q = 0
                if a[0] == 'g' or rng.random() < 0.3:
                    q |= rng.choice(UNFLAGGED)
                if a[0] == 'f':
                    q |= rng.choice(FLAGGED)
                qai[pos] = q
            bands = []
            for b in range(6):
                x = val.copy()
                if b != c.get('_band', 2):
                    x[x != NODATA] += 4000 + 100 * b
                bands.append(x.reshape(shape))
            sensor = c.get('sensors', ['LND08'] * len(c['dates']))[t]
            cube.ard(0, 0, ymd(date), sensor, np.stack(bands), qai.reshape(shape))
        self.cube = cube
        mk = {}
        if self.mask is not None:
            md = self.ck.dir('mask')
            cube.definition(md)
            from cube import write_raster
            from osgeo import gdal
            ux, uy = cube.ul(0, 0)
            m = self.mask(shape)
            write_raster(f'{md}/X0000_Y0000/MASK.tif', m, 255, cube.res, ux, uy, dtype=gdal.GDT_Byte)
            self.maskarr = m
            mk = dict(DIR_MASK=md, BASE_MASK='MASK.tif')
        p = dict(DATE_RANGE=iso(c['from']) + ' ' + iso(c['to']), DOY_RANGE='%d %d' % tuple(c['doy']), INTERPOLATE=c['method'], INT_DAY=c['step'],
                 MOVING_MAX=max(1, c['mov']), **({'RBF_SIGMA': ' '.join(map(str, c['_sigma'])), 'RBF_CUTOFF': c['_cutoff']} if '_sigma' in c else {}), STM=' '.join(c['stm']) or 'AVG', FOLD_TYPE=c['fold'],
                 **dict(zip(('STANDARDIZE_TSS', 'STANDARDIZE_TSI', 'STANDARDIZE_FOLD'), c.get('std', ['NONE'] * 3))),
                 SENSORS=' '.join(sorted(set(c.get('sensors', ['LND08'])))), TARGET_SENSOR='LNDLG', INDEX=BANDS8[c.get('_band', 2)],
                 RESOLUTION=10, CHUNK_SIZE=f'{self.ncol * 10} {self.nrow * 10}', NTHREAD_COMPUTE=3, **mk)
        for prod in ('TSS', 'TSI', 'STM', 'FBY', 'FBQ', 'FBM', 'FBW', 'FBD'):
            p['OUTPUT_' + prod] = 'TRUE' if prod in c['emit'] else 'FALSE'
        for f, tr in TREND_OF.items():
            p['OUTPUT_' + tr] = 'TRUE' if 'T' + f in c['emit'] else 'FALSE'
        p.update(self.over)
        self.params = p

    def execute(self):
        self.build()
        self.run = Run(self.ck, 'TSA', self.cube.path, self.params)
        return self

    # -- comparison
    def product(self, name):
        return self.run.product(0, 0, '_' + name)

    def check(self, what=None):
        """compare all requested products with the specification; returns number of compared values"""
        ck, c = self.ck, self.c
        if not ck.expect(self.run.rc == 0, 'exit', f'force-higher-level exit {self.run.rc} for a valid request', dict(log=self.run.log[-800:], params=self.params)):
            return 0
        n = 0
        for prod in c['emit']:
            if what and prod not in what:
                continue
            n += self.check_product(prod)
        return n

    def labels(self, prod):
        c = self.c
        if prod == 'TSS':
            s = c.get('sensors', ['LND08'] * len(c['dates']))
            return [ymd(t) + '_' + s[i] for i, t in enumerate(c['dates'])]
        if prod == 'TSI':
            return [ymd(t) for t in self.tsi_dates()]
        if prod == 'STM':
            return list(c['stm'])
        if prod in PERIOD_LABEL:
            return [PERIOD_LABEL[prod] % p for p in periods(c)[prod]]
        return None

    def tsi_dates(self):
        c = self.c
        if c['method'] == 'NONE':
            return c['dates']
        ce = lambda t: 365 * t[0] + [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334][t[1] - 1] + t[2]
        out = []
        for i in range((ce(c['to']) - ce(c['from']) + 1) // c['step']):
            x = ce(c['from']) + i * c['step']
            y, d = (x - 1) // 365, (x - 1) % 365 + 1
            m = MONTH_OF[d - 1]
            out.append([y, m, d - [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334][m - 1]])
        return out

    def expected(self, prod, case):
        if case['std'].get(prod):
            return [[e] for e in case['std'][prod]] if prod == 'TSI' else case['std'][prod]
        if prod == 'TSS':
            return [[1, v, 1] if v != NODATA else [0] for v in case['tss']]
        if prod == 'TSI':
            return [[[5 if self.c['method'] == 'RBF' else 1] + list(r) for r in s] or [[0]] for s in case['tsi']]
        if prod == 'STM':
            return case['stm']
        return case['fold'][prod]

    def check_product(self, prod):
        ck, c = self.ck, self.c
        name = TREND_OF[prod[1:]] if prod.startswith('TFB') else prod
        p = self.product(name)
        key = f'{name}'
        if not ck.expect(p is not None, key + '-missing', f'no {name} product was written', dict(params=self.params)):
            return 0
        if not ck.expect(p.data.shape[1:] == (self.nrow, self.ncol), key + '-size', f'{name} has size {p.data.shape}'):
            return 0
        ck.expect(all(x == NODATA for x in p.nodata), key + '-nodata', f'{name}: nodata values {set(p.nodata)}')
        if prod.startswith('TFB'):
            return self.check_trend(p, prod[1:], name)
        lab = self.labels(prod)
        if not ck.expect(p.names == lab, key + '-labels', f'{name}: band labels {p.names[:6]}.. ({len(p.names)}), expected {lab[:6]}.. ({len(lab)})', dict(params=self.params)):
            return 0
        flat = p.data.reshape(p.nb, -1).astype(int)
        maskflat = self.maskarr.reshape(-1) if self.mask is not None else None
        cnt = 0
        for pos, ci in enumerate(self.order):
            case = self.cases[ci]
            got = flat[:, pos]
            if maskflat is not None and maskflat[pos] != 1:
                ck.expect((got == NODATA).all(), key + '-masked', f'{name}: masked pixel holds {got[:8].tolist()}', dict(params=self.params))
                cnt += len(got)
                continue
            exp = self.expected(prod, case)
            for b, e in enumerate(exp):
                cnt += 1
                ok = any(admissible(got[b], x) for x in e) if prod == 'TSI' else admissible(got[b], e)
                if not ok:
                    ck.violation(f'{key}{self.tag}', f'{name} band {lab[b]}: {got[b]}, expected {e} (kind,n,d)',
                                 dict(observations=[c['alt'][t][o - 1] for t, o in enumerate(case['obs'])], dates=c['dates'], params=self.params,
                                      product=name, band=lab[b], got=int(got[b]), want=e, row=got.tolist()[:40]))
                    break
        # pixels outside the replayed behaviours have no data at all
        rest = flat[:, len(self.order):]
        empty = NODATA
        ck.expect((rest == empty).all(), key + '-empty', f'{name}: pixels without any observation are not nodata')
        return cnt

    def check_trend(self, p, fold, name):
        ck, c = self.ck, self.c
        lab = ['MEAN', 'OFFSET', 'SLOPE', 'PCT_GAIN', 'ABS_GAIN', 'RSQ', 'SIG', 'RMSE', 'MAE', 'MAXRES', 'NUM', 'LENGTH']
        ix = {}
        for want in ('MEAN', 'OFFSET', 'SLOPE', 'ABS_GAIN', 'RSQ', 'RMSE', 'NUM', 'LENGTH'):
            if not ck.expect(p.names.count(want) == 1, name + '-labels', f'{name}: labels {p.names}'):
                return 0
            ix[want] = p.names.index(want)
        flat = p.data.reshape(p.nb, -1).astype(int)
        nf = len(periods(c)[fold])
        maskflat = self.maskarr.reshape(-1) if self.mask is not None else None
        cnt = 0
        for pos, ci in enumerate(self.order):
            e = self.cases[ci]['trend'][fold]
            got = flat[:, pos]
            cnt += 1
            bad = None
            if (maskflat is not None and maskflat[pos] != 1) or e['n'] == 0:
                if not (got == NODATA).all():
                    bad = 'expected nodata'
            else:
                vx = e['slope'][1]
                sxy = e['slope'][0]
                k = e['n']
                rsq = 10000 * sxy * sxy / (vx * e['vy']) if e['vy'] else None
                sse = max(0.0, (e['vy'] - sxy * sxy / vx) / k)
                rmse = math.sqrt(sse / k)
                if not rat_ok(got[ix['MEAN']], e['mean']): bad = 'MEAN'
                elif not rat_ok(got[ix['OFFSET']], e['offset']): bad = 'OFFSET'
                elif not rat_ok(got[ix['SLOPE']], e['slope']): bad = 'SLOPE'
                elif not rat_ok(got[ix['ABS_GAIN']], e['slope'], nf): bad = 'ABS_GAIN'
                elif rsq is not None and abs(got[ix['RSQ']] - rsq) > 1.01: bad = 'RSQ'
                elif abs(got[ix['RMSE']] - rmse) > 1.01: bad = 'RMSE'
                elif got[ix['NUM']] != k: bad = 'NUM'
                elif got[ix['LENGTH']] != nf: bad = 'LENGTH'
            if bad:
                ck.violation(f'{name}{self.tag}', f'{name}: {bad} wrong: {dict(zip(p.names, got.tolist()))}, expected {e}',
                             dict(case=self.cases[ci], dates=c['dates'], params=self.params))
        return cnt


def tlc_cases(ck, cfgs, invariants=('ScreenedExactly', 'Bounded', 'LinearTotal', 'GaussTotal', 'HonoursObservations', 'Partition', 'Centred', 'ExactWhenAggregated', 'TypeOK')):
    fn = os.path.join(ck.dir('cfg'), 'cfgs.ndjson')
    with open(fn, 'w') as f:
        for c in cfgs:
            f.write(json.dumps({k: v for k, v in dict(dict(std=['NONE'] * 3), **c).items() if not k.startswith('_')}) + '\n')
    r = ck.tlc('TimeSeries', invariants=list(invariants), env=dict(CFGS=fn))
    out = [[] for _ in cfgs]
    for case in r.cases:
        out[case['cfg'] - 1].append(case)
    for i, c in enumerate(cfgs):
        out[i].sort(key=lambda x: x['obs'])
        assert len(out[i]) == c['nalt'] ** len(c['dates']), (len(out[i]), c)
    return out


def replay_all(ck, cfgs, what=None, over=None, mask=None, workers=4):
    """TLC on all configurations, replay all; returns the Replay objects"""
    cases = tlc_cases(ck, cfgs)
    ck.bdir
    reps = [Replay(ck, c, cs, ck.rng, over=c.get('_over', over), mask=c.get('_mask', mask), tag=c.get('_tag', '')) for c, cs in zip(cfgs, cases)]
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(lambda r: r.execute(), reps))
    for r in reps:
        n = r.check(what)
        ck.count(n)
        ck.trace(len(r.cases))
    for r in reps[:3]:
        k = len(r.cases) // 3
        ck.sample(dict(dates=r.c['dates'], method=r.c['method'], observations=[r.c['alt'][t][o - 1] for t, o in enumerate(r.cases[k]['obs'])],
                       tsi=r.cases[k]['tsi'][:6], stm=r.cases[k]['stm'][:4]))
    return reps
