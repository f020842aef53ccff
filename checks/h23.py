"""H23: phenometrics describe the seasons of the interpolated series."""
import json, math
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from cube import Cube, Run, NODATA

METRICS = 'DEM DLM DPS DSS DMS DES DEV DAV DLV LTS LGS LGV VEM VLM VPS VSS VMS VES VEV VAV VLV VBL VGA VSA VPA VGM VGV DPY DPV IST IBL IBT IGS IRR IFR RAR RAF RMR RMF'.split()
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
NCOL = 20


def date_of(y, doy):
    m = max(i for i in range(12) if CUM[i] < doy)
    return f'{y}{m + 1:02d}{doy - CUM[m]:02d}'


def day_of(name, y0):
    y, m, d = int(name[:4]), int(name[4:6]), int(name[6:8])
    return (y - y0) * 365 + CUM[m - 1] + d


def world(ck, rng, npix, years, every):
    """series with one season per year: position, width and height vary between pixels and years"""
    nrow = -(-npix // NCOL)
    y0 = 2015
    days = []
    d = int(rng.integers(1, every))
    while d <= years * 365:
        days.append(d)
        d += int(rng.integers(max(1, every - 5), every + 6))
    val = np.zeros((len(days), nrow * NCOL), int)
    t = np.array(days)
    for p in range(nrow * NCOL):
        base = int(rng.integers(0, 800)) if p % 5 else 0
        peak0 = int(rng.integers(1, 366))
        v = np.full(len(days), float(base))
        for y in range(-1, years + 1):
            c = y * 365 + peak0 + int(rng.integers(-40, 41))
            w = rng.integers(25, 80)
            h = rng.integers(800, 3500)
            left = np.exp(-0.5 * ((t - c) / w) ** 2)
            right = np.exp(-0.5 * ((t - c) / (w * rng.uniform(0.6, 1.5))) ** 2)
            v += h * np.where(t < c, left, right)
        v += rng.integers(-30, 30, len(days))
        val[:, p] = np.clip(v, 0 if p % 3 else 1, 9000).astype(int)
    cube = Cube(ck.dir('cube'), NCOL, nrow)
    hole = rng.random((len(days), nrow * NCOL)) < 0.05
    for k, d in enumerate(days):
        y, doy = y0 + (d - 1) // 365, (d - 1) % 365 + 1
        q = np.where(hole[k], 1, 0)
        b = np.where(hole[k], NODATA, val[k]).astype('int16').reshape(nrow, NCOL)
        cube.ard(0, 0, date_of(y, doy), 'LND08', np.stack([b] * 6), q.astype('int16').reshape(nrow, NCOL))
    return dict(cube=cube, y0=y0, years=years, nrow=nrow, npix=nrow * NCOL)


def run(ck, w, c):
    a, b = c['range']
    return Run(ck, 'TSA', w['cube'].path, dict(SENSORS='LND08', TARGET_SENSOR='LNDLG', DATE_RANGE=f'{a} {b}', INDEX='NIR', INTERPOLATE='LINEAR', INT_DAY=c['step'], OUTPUT_TSI='TRUE', OUTPUT_PCT='TRUE' if c['pct'] else 'FALSE',
                                               OUTPUT_POL='TRUE' if c['pol'] else 'FALSE', POL=' '.join(METRICS), POL_ADAPTIVE='TRUE' if c['adaptive'] else 'FALSE', POL_START_THRESHOLD=c['cut'][0] / 1000, POL_MID_THRESHOLD=c['cut'][1] / 1000,
                                               POL_END_THRESHOLD=c['cut'][2] / 1000, STANDARDIZE_POL='NONE', RESOLUTION=10, CHUNK_SIZE=f'{NCOL * 10} {w["nrow"] * 10}', NTHREAD_COMPUTE=3))


def filled(v):
    """gaps at the ends take the nearest value; no others occur"""
    ok = np.flatnonzero(v != NODATA)
    if len(ok) == 0:
        return None
    v = v.copy()
    v[:ok[0]], v[ok[-1] + 1:] = v[ok[0]], v[ok[-1]]
    return None if (v == NODATA).any() else np.clip(v, 0, None)


def vector(ang, v):
    x, y = float((v * np.cos(ang)).mean()), float((v * np.sin(ang)).mean())
    r = math.atan2(y, x)
    return (r if r > 0 else r + 2 * math.pi) * 365 / (2 * math.pi), math.hypot(x, y)


def circ(a, b):
    return abs((a - b + 182.5) % 365 - 182.5)


def main(ck):
    rng = np.random.default_rng(ck.seed * 53)
    n = 200 if ck.thorough else 60
    W = [world(ck, rng, n, 3, 12), world(ck, rng, n, 4, 20)]
    full = lambda w: (f'{w["y0"]}-01-01', f'{w["y0"] + w["years"] - 1}-12-31')
    cfgs = [dict(w=0, range=full(W[0]), step=16, adaptive=False, cut=[200, 500, 800], pct=True, pol=True), dict(w=0, range=full(W[0]), step=10, adaptive=True, cut=[200, 500, 800], pct=False, pol=True),
            dict(w=1, range=full(W[1]), step=8, adaptive=True, cut=[100, 400, 900], pct=True, pol=True), dict(w=1, range=full(W[1]), step=25, adaptive=False, cut=[250, 600, 700], pct=False, pol=True),
            dict(w=0, range=full(W[0]), step=16, adaptive=True, cut=[200, 500, 800], pct=True, pol=False),
            dict(w=0, range=('2015-07-01', '2017-12-31'), step=16, adaptive=False, cut=[300, 500, 600], pct=False, pol=True), dict(w=1, range=('2015-04-11', '2018-05-31'), step=12, adaptive=True, cut=[200, 500, 800], pct=True, pol=True)]
    ck.bdir
    with ThreadPoolExecutor(4) as ex:
        runs = list(ex.map(lambda c: run(ck, W[c['w']], c), cfgs))
    d = ck.dir('cfg')
    lines, index, keep = [], [], {}
    for ci, (c, x) in enumerate(zip(cfgs, runs)):
        w = W[c['w']]
        what = f'{c["range"]}, step {c["step"]}, adaptive {c["adaptive"]}, thresholds {c["cut"]}'
        c['what'] = what
        if not ck.expect(x.rc == 0, 'exit', f'{what}: exit {x.rc}', x.log[-400:]):
            continue
        tsi = x.product(0, 0, '_TSI')
        if not ck.expect(tsi is not None, 'missing', f'{what}: no interpolated series'):
            continue
        ce = np.array([day_of(nm, w['y0']) for nm in tsi.names])
        ang = ((ce - 1) % 365 + 1) / 365 * 2 * math.pi
        flat = tsi.data.reshape(tsi.nb, -1)
        if c['pct']:
            px, py = x.product(0, 0, '_PCX'), x.product(0, 0, '_PCY')
            if ck.expect(px is not None and py is not None and px.names == tsi.names and py.names == tsi.names, 'missing', f'{what}: no polar coordinates, or labelled otherwise than the series'):
                fx, fy = px.data.reshape(px.nb, -1), py.data.reshape(py.nb, -1)
                for p in range(w['npix']):
                    v = filled(flat[:, p])
                    if v is None:
                        continue
                    ok = (np.abs(fx[:, p] - v * np.cos(ang)) <= 1.1) & (np.abs(fy[:, p] - v * np.sin(ang)) <= 1.1)
                    ck.expect(ok.all(), 'coordinates', f'{what}: polar coordinates do not match the series at {[tsi.names[k] for k in np.flatnonzero(~ok)[:3]]}: {fx[~ok, p][:3]} {fy[~ok, p][:3]} for {v[~ok][:3]}')
                    ck.count(1)
        if not c['pol']:
            ck.expect(not [f for f in x.files() if '-POL' in f], 'unrequested', f'{what}: metrics were written although they were not requested')
            continue
        years = ['YEAR-' + str(w['y0'] + k) for k in range(w['years'])]
        pol = {m: x.product(0, 0, f'_{m}-POL') for m in METRICS}
        if not ck.expect(all(v is not None and v.nb == w['years'] for v in pol.values()), 'missing', f'{what}: metrics are missing {[m for m in METRICS if pol[m] is None]}'):
            continue
        ck.expect(all([nm for nm in v.names] == years for v in pol.values()), 'label', f'{what}: bands are {pol["DSS"].names} instead of {years}')
        pol = {m: v.data.reshape(v.nb, -1).astype(int) for m, v in pol.items()}
        ns = w['years'] - 1
        for p in range(w['npix']):
            v = filled(flat[:, p])
            if v is None:
                continue
            mean, mag = vector(ang, v)
            late = max((k for k in range(w['years']) if pol['DPY'][k, p] != NODATA), default=None)
            if not ck.expect(late is not None, 'start', f'{what}: no start of the phenological year for {v.tolist()}'):
                continue
            day = int(pol['DPY'][late, p]) % 365
            if day == 0:
                continue
            if mag < 0.02 * v.mean() + 1:
                continue
            theta = mean + 182.5 if mean < 182.5 else mean - 182.5
            if not ck.expect(circ(day, theta) <= 1.5 and 0 <= day <= 365, 'start', f'{what}: the phenological year starts on day {day}, opposite of the mean vector is day {theta:.1f}'):
                continue
            if abs(day - 182) <= 1:
                continue
            off = 0 if day < 182 else 1
            gaps = [int(ce[0]) - day - 365 * s for s in range(ns)]
            if any(abs(g - c['step']) <= 1 for g in gaps):
                continue
            # a season that began before the series is incomplete; it is not judged
            seasons = [s for s in range(ns) if gaps[s] <= c['step']]
            ck.expect(seasons and late == off + seasons[-1], 'year', f'{what}: start on day {day}, last season is in band {late + 1}')
            ck.expect(all(pol['DPY'][off + s, p] == day + 365 * s for s in seasons), 'start', f'{what}: starts of the phenological years are {pol["DPY"][:, p].tolist()}')
            blank = [k for k in range(w['years']) if not off <= k < off + ns]
            ck.expect(all(pol[m][k, p] == NODATA for m in METRICS for k in blank), 'year', f'{what}: values for the year without a season')
            shift = [int(pol['DPV'][off + s, p]) if c['adaptive'] and s in seasons else 0 for s in range(ns)]
            index.append((ci, p))
            keep[ci, p] = dict(v=v, off=off, day=day, shift=shift, pol={m: a[:, p] for m, a in pol.items()}, ang=ang, ce=ce)
            lines.append(json.dumps(dict(ce=ce.tolist(), v=v.tolist(), step=c['step'], day=day, shift=shift, ns=ns, cut=c['cut'])))
    open(d + '/p.ndjson', 'w').write('\n'.join(lines) + '\n')
    env = dict(PIXELS=d + '/p.ndjson')
    if not index:
        return
    r = ck.tlc('Phenology', spec='Spec', properties=['Ends'], env=env)
    small = d + '/s.ndjson'
    pick = [k for k in range(len(index)) if cfgs[index[k][0]]['adaptive']][:4] + [0, 1]
    open(small, 'w').write('\n'.join(lines[k] for k in pick) + '\n')
    ck.tlc('Phenology', spec='Spec', invariants=['Events'], env=dict(PIXELS=small))
    for inv in ('StartsOnTime', 'NoSecondSeason'):
        ck.tlc('Phenology', spec='Spec', invariants=[inv], env=dict(PIXELS=small), expect_violation=True)
    unclear = 0
    for e in r.cases:
        ci, p = index[e['px'] - 1]
        c, k = cfgs[ci], keep[ci, p]
        if e['unclear']:
            unclear += 1
            continue
        s, v, ce, ang, st = e['season'], k['v'], k['ce'], k['ang'], c['step']
        I = {m: e[m] - 1 for m in ('first', 'last', 'left', 'start', 'mid', 'peak', 'end', 'right')}
        V = {m: float(v[I[m]]) for m in I}
        D = {m: float(ce[I[m]]) for m in I}
        base, green = e['base2'] / 2, e['green2'] / 2
        ng, ne, nl = I['end'] - I['start'], I['mid'] - I['start'], I['end'] - I['mid']
        exp = dict(DEM=D['left'], DSS=D['start'], DMS=D['mid'], DPS=D['peak'], DES=D['end'], DLM=D['right'], LGS=D['end'] - D['start'], LTS=D['right'] - D['left'],
                   VEM=V['left'], VSS=V['start'], VMS=V['mid'], VPS=V['peak'], VES=V['end'], VLM=V['right'], VBL=base, VGA=V['peak'] - green, VPA=V['peak'] - V['mid'], VSA=V['peak'] - base,
                   IST=e['above2'] / 2 * st / 365, IBL=e['below2'] / 2 * st / 365, IBT=e['total'] * st / 365, IGS=e['greens2'] / 2 * st / 365, IRR=e['rise'] * st / 30, IFR=e['fall'] * st / 30)
        if ng > 0:
            exp['VGM'] = e['grow'] / ng
            if ng > 1:
                exp['VGV'] = float(np.std(v[I['start']:I['end']], ddof=1))
        else:
            for m in ('DPS', 'VPS', 'VGA', 'VPA', 'VSA'):
                exp.pop(m)
        if ne > 0:
            exp['RAR'], exp['RMR'] = e['early_rise'] / ne / st * 30, e['early_max'] / st * 30
        if nl > 0:
            exp['RAF'], exp['RMF'] = e['late_fall'] / nl / st * 30, e['late_max'] / st * 30
        # mean vectors of the parts of the growing season
        dates = {}
        for tag, a, b in (('E', 'start', 'mid'), ('A', 'start', 'end'), ('L', 'mid', 'end')):
            w_ = slice(I[a], I[b])
            if I[b] > I[a] and v[w_].sum() > 0:
                doy, mag = vector(ang[w_], v[w_])
                exp[f'V{tag}V'] = mag
                if mag > 20 and abs(doy - k['day']) > 2 and 2 < doy < 363:
                    exp[f'D{tag}V'] = dates[tag] = int(doy) + 365 * (s if doy > k['day'] else s + 1)
        if 'E' in dates and 'L' in dates:
            exp['LGV'] = dates['L'] - dates['E']
        got = {m: int(k['pol'][m][k['off'] + s]) for m in METRICS}
        for m, want in exp.items():
            tol = 2.01 if m[0] == 'D' or m[0] == 'L' else 1.01 + abs(want) * 1e-5
            ck.expect(abs(got[m] - want) <= tol or abs(want) > 32760, 'metric', f'{c["what"]}: season {s + 1} from day {D["first"]:.0f} to {D["last"]:.0f}: {m} is {got[m]}, expected {want:.2f}; values {v[I["first"]:I["last"] + 1].tolist()}', e)
            ck.count(1)
        # the adaptive start of a season lies opposite of the mean vector of its regular year
        if c['adaptive']:
            reg = [int(np.searchsorted(ce, k['day'] + 365 * q)) for q in (s, s + 1)]
            doy, mag = vector(ang[reg[0]:reg[1]], v[reg[0]:reg[1]])
            if mag > 0.02 * v.mean() + 1:
                opp = doy + 182.5 if doy < 182.5 else doy - 182.5
                # the nearest such day to the common start
                want = (opp - k['day'] + 182.5) % 365 - 182.5
                if abs(want) < 175:
                    ck.expect(abs(got['DPV'] - want) <= 2, 'adaptive', f'{c["what"]}: season {s + 1} starts {got["DPV"]} days off the common start, opposite of its mean vector is {want:.1f} days off')
    ck.trace(len(index))
    ck.notes['seasons judged'] = len(r.cases) - unclear
    ck.notes['seasons not judged (a step or a share at the limit)'] = unclear
    ck.sample({k: v for k, v in r.cases[0].items() if k != 'bounds'})
