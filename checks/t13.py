"""T13: daily tables and climatology of water vapour."""
import datetime, json, math, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from osgeo import gdal
import vf

gdal.UseExceptions()

SCALE, OFF, FILL = 0.001, 0.0, -9999


def ring_of(rng, x, y, w, h, skew):
    return [dict(x=x, y=y), dict(x=x + w, y=y - skew), dict(x=x + w - skew, y=y - h - skew), dict(x=x - skew, y=y - h)]


def granule(rng, sat, places):
    p = rng.choice(places)
    kind = rng.choice(['holds', 'holds', 'part', 'part', 'part', 'far'])
    skew = rng.choice([0, 0, 20, 60])
    if kind == 'holds':
        ring = ring_of(rng, p['x'] - 300 - rng.randrange(100), p['y'] + 300 + rng.randrange(100), 800, 800, skew)
    elif kind == 'part':
        ring = ring_of(rng, p['x'] + rng.choice([-700, -500, 10, 0]), p['y'] + rng.choice([700, 500, 40, 0]), 600, 600, skew)
    else:
        ring = ring_of(rng, p['x'] + rng.choice([-1500, 900]), p['y'] + rng.choice([1500, -900, 300]), 500, 500, skew)
    cols, rows = rng.choice([(13, 12), (10, 16), (11, 11)])
    xoff, yoff = rng.choice([(0, 0), (0, 0), (2, 0), (0, 3), (1, 2)])
    ccols, crows = (cols + 4) // 5, (rows + 4) // 5
    n, m = cols * rows, ccols * crows
    lon = [p['x'] + rng.choice([-200, -76, -74, -10, 0, 33, 74, 76, 140]) for _ in range(m)]
    lat = [p['y'] + rng.choice([-200, -76, -74, -10, 0, 33, 74, 76, 140]) for _ in range(m)]
    if rng.random() < 0.6:
        lon = [p['x'] + rng.randrange(-70, 70) for _ in range(m)]
        lat = [p['y'] + rng.randrange(-70, 70) for _ in range(m)]
    share = rng.choice([0.05, 0.1, 0.5, 0.9])
    cloud = [rng.randrange(256) if rng.random() > share else 20 | rng.randrange(256) for _ in range(n)]
    value = [FILL if rng.random() < 0.1 else rng.randrange(0, 5000) for _ in range(n)]
    return dict(sat=sat, day=rng.random() < 0.8, flag=None, polar=rng.random() < 0.1, listed=rng.random() < 0.9, ring=ring, cols=cols, rows=rows, xoff=xoff, yoff=yoff, ccols=ccols, crows=crows, lon=lon, lat=lat,
                value=value, cloud=cloud, usable=[1 if c & 4 and c & 16 else 0 for c in cloud], fill=FILL)


FIRST = [datetime.date(2005, 3, 30), datetime.date(2001, 4, 29), datetime.date(2002, 7, 2), datetime.date(2016, 2, 28), datetime.date(2019, 12, 31), datetime.date(2012, 8, 15), datetime.date(2000, 2, 24)]


def make(rng):
    places = [dict(x=rng.randrange(-15000, 15000), y=rng.randrange(-6000, 6000))]
    if rng.random() < 0.3:        # next to the date line
        places[0]['x'] = rng.choice([-1, 1]) * rng.randrange(17650, 17780)
    for _ in range(rng.choice([0, 1, 2])):
        p = places[0]
        places.append(dict(x=p['x'] + rng.choice([0, 40, 90, -140]), y=p['y'] + rng.choice([0, 30, -100, 150])))
    d0 = rng.choice(FIRST)
    days = []
    for k in range(rng.choice([1, 2, 3])):
        d = d0 + datetime.timedelta(k)
        g = [granule(rng, s, places) for s in ('MOD', 'MYD') for _ in range(rng.choice([0, 1, 2, 3]))]
        days.append(dict(date=d, aqua=d >= datetime.date(2002, 7, 3), exists=rng.random() < 0.15, granules=g))
    tables = {}
    for d in days:
        if d['exists']:
            tables[d['date']] = [rng.choice([-1, rng.randrange(500)]) for _ in places]
    for _ in range(rng.choice([0, 3, 12])):
        d = rng.choice([d0 + datetime.timedelta(365 * rng.randrange(1, 5) + rng.randrange(-2, 3)), datetime.date(2000, 2, 24), datetime.date(2004, 2, 29), datetime.date(2020, 12, 31), datetime.date(rng.randrange(2001, 2025), rng.randrange(1, 13), rng.randrange(1, 29))])
        if d not in [x['date'] for x in days]:
            tables[d] = [-1 if rng.random() < 0.2 else rng.randrange(500) for _ in places]
    early = [datetime.date(1999, 12, 31)] if rng.random() < 0.3 else []
    return dict(places=places, days=days, tables=tables, early=early, reverse=rng.random() < 0.5)


def layer(fn, a, dtype, meta=None, geo=None):
    d = gdal.GetDriverByName('GTiff').Create(fn, a.shape[1], a.shape[0], 1, dtype)
    d.GetRasterBand(1).WriteArray(a)
    if meta:
        d.SetMetadata(meta)
    d = None
    if geo:        # as a wrapper that describes the geolocation
        m = ''.join(f'<MDI key="{k}">{v}</MDI>' for k, v in meta.items())
        g = ''.join(f'<MDI key="{k}">{v}</MDI>' for k, v in geo.items())
        open(fn + '.vrt', 'w').write(f'<VRTDataset rasterXSize="{a.shape[1]}" rasterYSize="{a.shape[0]}"><Metadata>{m}</Metadata><Metadata domain="GEOLOCATION">{g}</Metadata>'
                                     f'<VRTRasterBand dataType="{gdal.GetDataTypeName(dtype)}" band="1"><SimpleSource><SourceFilename relativeToVRT="0">{fn}</SourceFilename><SourceBand>1</SourceBand>'
                                     f'<SrcRect xOff="0" yOff="0" xSize="{a.shape[1]}" ySize="{a.shape[0]}"/><DstRect xOff="0" yOff="0" xSize="{a.shape[1]}" ySize="{a.shape[0]}"/></SimpleSource></VRTRasterBand></VRTDataset>')
        return fn + '.vrt'
    return fn


def write(ck, k, j):
    top = ck.dir(f'w{k}')
    for d in ('wvp', 'geo', 'hdf', 'parts', 'cred'):
        os.makedirs(f'{top}/{d}')
    open(top + '/cred/.laads', 'w').write('none\n')
    open(top + '/coord.txt', 'w').write(''.join(f"{p['x'] / 100:.2f} {p['y'] / 100:.2f}\n" for p in j['places']))
    for d, v in list(j['tables'].items()) + [(d, [123] * len(j['places'])) for d in j['early']]:
        open(f'{top}/wvp/WVP_{d}.txt', 'w').write(''.join(f"{p['x'] / 100:.4f} {p['y'] / 100:.4f} {9999 if x < 0 else x / 100:f} {'TBD' if x < 0 else 'MOD'}\n" for p, x in zip(j['places'], v)))
    n = 0
    for day in j['days']:
        doy = f"{day['date'].timetuple().tm_yday:03d}"
        y = day['date'].year
        for sat in ('MOD', 'MYD'):
            lines, names = [], []
            for t, g in enumerate(g for g in day['granules'] if g['sat'] == sat):
                n += 1
                time = f'{(t * 37 + 5) // 60:02d}{(t * 37 + 5) % 60:02d}'
                r = g['ring']
                order = [2, 3, 0, 1] if j['reverse'] and sat == 'MYD' else [0, 1, 2, 3]
                xs, ys = [((c['x'] + 18000) % 36000 - 18000) / 100 for c in r], [c['y'] / 100 for c in r]
                box = (180, 90, max(min(ys), -80), -180) if g['polar'] else (max(xs), max(ys), min(ys), min(xs))
                lines.append(f"{sat}03.A{y}{doy}.{time}.061.2021001000000.hdf,{day['date']} {time[:2]}:{time[2:]},61,1234,{('D' if n % 3 else 'B') if g['day'] else 'N'}," + ','.join(f'{b:.4f}' for b in box)
                             + ',' + ','.join(f'{xs[o]:.4f}' for o in order) + ',' + ','.join(f'{ys[o]:.4f}' for o in order) + '\n')
                if not g['listed']:
                    continue
                base = f'{sat}05_L2.A{y}{doy}.{time}.061.2021001111111.hdf'
                names.append(base)
                q = f'{top}/parts/{n}'
                px = lambda v: np.array(v).reshape(g['rows'], g['cols'])
                cl = lambda v: np.array(v).reshape(g['crows'], g['ccols']) / 100
                lay = {6: layer(q + 'c.tif', px(g['cloud']), gdal.GDT_Byte),
                       7: layer(q + 'w.tif', px(g['value']), gdal.GDT_Int16, dict(add_offset='0', scale_factor='0.001', _FillValue=str(FILL)), dict(LINE_OFFSET=str(g['yoff']), PIXEL_OFFSET=str(g['xoff']))),
                       12: layer(q + 'a.tif', cl(g['lat']), gdal.GDT_Float64), 13: layer(q + 'o.tif', cl(g['lon']), gdal.GDT_Float64)}
                other = layer(q + 'z.tif', px([1] * len(g['value'])), gdal.GDT_Byte)
                sds = ''.join(f'<MDI key="SUBDATASET_{s}_NAME">{lay.get(s, other)}</MDI><MDI key="SUBDATASET_{s}_DESC">layer {s}</MDI>' for s in range(1, 22))
                open(f'{top}/hdf/{base}', 'w').write(f'<VRTDataset rasterXSize="512" rasterYSize="512"><Metadata domain="SUBDATASETS">{sds}</Metadata><VRTRasterBand dataType="Byte" band="1"/></VRTDataset>')
            open(f"{top}/geo/{sat}03_{day['date']}.txt", 'w').write('# MODIS geometa\n' + ''.join(lines))
            open(f'{top}/hdf/{sat}05_L2-{y:04d}-{doy}.csv', 'w').write('name,last_modified,size\n' + ''.join(f'{b},2021-01-01 00:00,100\n' for b in names))
    return top


def read(fn):
    return [l.split() for l in open(fn).read().splitlines()] if os.path.exists(fn) else None


def run(ck, k, j):
    top = write(ck, k, j)
    a, b = j['days'][0]['date'], j['days'][-1]['date']
    before = {d: open(f'{top}/wvp/WVP_{d}.txt').read() for d in j['tables']}
    rc, log = ck.run([ck.bin + '/force-lut-modis', '-d', f'{a:%Y%m%d},{b:%Y%m%d}', '-t', 'true', '-c', 'false', top + '/coord.txt', top + '/wvp', top + '/geo', top + '/hdf'], env=dict(os.environ, FORCE_CREDENTIALS=top + '/cred'))
    daily = {d['date']: read(f"{top}/wvp/WVP_{d['date']}.txt") for d in j['days']}
    changed = [str(d) for d, t in before.items() if open(f'{top}/wvp/WVP_{d}.txt').read() != t]
    # the climatology is that of known tables
    for d in j['days']:
        f = f"{top}/wvp/WVP_{d['date']}.txt"
        if os.path.exists(f) and d['date'] not in j['tables']:
            os.remove(f)
    rc2, log2 = ck.run([ck.bin + '/force-lut-modis', '-d', f'{a:%Y%m%d},{b:%Y%m%d}', '-t', 'false', '-c', 'true', top + '/coord.txt', top + '/wvp', top + '/geo', top + '/hdf'], env=dict(os.environ, FORCE_CREDENTIALS=top + '/cred'))
    clim = [read(f'{top}/wvp/WVP_0000-{m:02d}-00.txt') for m in range(1, 13)]
    # a table of other places, or one that ends early, is not taken
    refused = None
    if k % 4 == 0:
        lines = [f"{p['x'] / 100:.4f} {p['y'] / 100:.4f} 1.500000 MOD\n" for p in j['places']]
        lines = lines[:-1] if k % 8 else [f"{p['x'] / 100 + 0.5:.4f} {p['y'] / 100:.4f} 1.500000 MOD\n" for p in j['places']]
        open(f'{top}/wvp/WVP_2009-05-05.txt', 'w').write(''.join(lines))
        refused, _ = ck.run([ck.bin + '/force-lut-modis', '-t', 'false', '-c', 'true', top + '/coord.txt', top + '/wvp', top + '/geo', top + '/hdf'], env=dict(os.environ, FORCE_CREDENTIALS=top + '/cred'))
    return rc, log, daily, changed, rc2, log2, clim, refused


def main(ck):
    jobs = [make(ck.rng) for _ in range(150 if ck.thorough else 60)]
    fn = ck.dir('jobs') + '/j.json'
    keys = ('sat', 'day', 'polar', 'listed', 'ring', 'cols', 'rows', 'xoff', 'yoff', 'ccols', 'lon', 'lat', 'value', 'usable', 'fill')
    with open(fn, 'w') as f:
        for j in jobs:
            f.write(json.dumps(dict(places=j['places'], days=[dict(aqua=d['aqua'], exists=d['exists'], granules=[{k: g[k] for k in keys} for g in d['granules']]) for d in j['days']],
                                    tables=[dict(month=d.month, values=v) for d, v in j['tables'].items()])) + '\n')
    r = ck.tlc('Wvp', spec='Spec', invariants=['Sane', 'Before'], properties=['Ends'], env=dict(JOBS=fn))
    ck.tlc('Wvp', spec='Spec', invariants=['Single'], env=dict(JOBS=fn), expect_violation=True)
    want = {(c['i'] - 1, c['day']): c for c in r.cases}
    ck.bdir
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: run(ck, *a), enumerate(jobs)))
    good = months = 0
    for k, (j, (rc, log, daily, changed, rc2, log2, clim, refused)) in enumerate(zip(jobs, res)):
        what = f"{len(j['places'])} places, {len(j['days'])} days from {j['days'][0]['date']}"
        if not ck.expect(rc == 0 and rc2 == 0, 'run', f'{what}: exit {rc}, {rc2}: {log[-200:]} {log2[-200:]}'):
            continue
        ck.trace(1)
        if refused is not None:
            ck.count(1)
            ck.expect(refused not in (0, 'timeout'), 'refused', f'{what}: climatology of a table of other places, or of one that ends early: exit {refused}')
        ck.expect(not changed, 'kept', f'{what}: existing tables were changed: {changed}')
        for n, d in enumerate(j['days'], 1):
            if d['exists']:
                continue
            w, got = want[(k, n)]['places'], daily[d['date']]
            if not any(x['sat'] != 'TBD' for x in w):
                ck.expect(got is None, 'empty', f"{what}: a table without values was written for {d['date']}: {got}")
                continue
            if not ck.expect(got is not None and len(got) == len(w), 'table', f"{what}: table of {d['date']}: {got}, expected {w}"):
                continue
            for p, x, g in zip(j['places'], w, got):
                ck.count(1)
                val = 9999 if x['sat'] == 'TBD' else SCALE * (x['sum'] / x['n'] - OFF)
                good += x['sat'] != 'TBD'
                ck.expect(abs(float(g[0]) - p['x'] / 100) < 1e-3 and abs(float(g[1]) - p['y'] / 100) < 1e-3, 'place', f'{what}: place {p} is given as {g[:2]}')
                ck.expect(abs(float(g[2]) - val) < 2e-4 * max(1, 0 if val == 9999 else val) and g[3] == x['sat'], 'daily',
                          f"{what}: {d['date']}, place {p}: {g[2:]}, should be {val:.5f} {x['sat']} ({x['n']} pixels); granules {[(q['sat'], q['day'], q['polar'], q['listed'], [(c['x'], c['y']) for c in q['ring']]) for q in d['granules']]}")
        for m, (w, got) in enumerate(zip(want[(k, 0)]['months'], clim), 1):
            if not ck.expect(got is not None and len(got) == len(w), 'climatology', f'{what}: climatology of month {m}: {got}'):
                continue
            for p, x, g in zip(j['places'], w, got):
                ck.count(1)
                mean = 9999 if x['n'] == 0 else x['sum'] / x['n'] / 100
                sd = 9999 if x['n'] < 2 else math.sqrt(max(0, (x['squares'] - x['sum'] ** 2 / x['n']) / (x['n'] - 1))) / 100
                months += x['n'] > 1
                ok = len(g) == 5 and abs(float(g[2]) - mean) < 1e-3 and abs(float(g[3]) - sd) < 2e-3 and int(g[4]) == x['n'] and abs(float(g[0]) - p['x'] / 100) < 1e-3 and abs(float(g[1]) - p['y'] / 100) < 1e-3
                ck.expect(ok, 'climatology', f"{what}: month {m}, place {p}: {g}, should be {mean:.4f} {sd:.4f} {x['n']}; tables {[str(d) for d in sorted(j['tables'])]}")
    if good < 10 or months < 5:
        raise vf.CheckError(f'hardly any value: {good}, {months}')
    ck.notes['daily values'] = good
    ck.sample(dict(places=jobs[0]['places'], expected=want[(0, 0)]['months'][0]))
