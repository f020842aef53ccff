"""Q02: the Level 1 downloader queues every downloaded scene exactly once."""
import json, os, random, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from osgeo import ogr, osr
import vf
osr.DontUseExceptions()
ogr.DontUseExceptions()

TILES = {'T32UNE': (9, 52), 'T32UNF': (9, 53), 'T33UUT': (12, 52), 'T31UGS': (5, 51)}
HEADER = 'GRANULE_ID,PRODUCT_ID,DATATAKE_IDENTIFIER,MGRS_TILE,SENSING_TIME,TOTAL_SIZE,CLOUD_COVER,GEOMETRIC_QUALITY_FLAG,GENERATION_TIME,NORTH_LAT,SOUTH_LAT,WEST_LON,EAST_LON,BASE_URL'


def make(rng, k):
    scenes = []
    taken = set()
    for when in range(rng.randrange(8, 15)):
        while True:
            tile, day = rng.choice(list(TILES)), rng.choice(['20200101', '20200102', '20191231', '20200630', '20210101', '20200229'])
            if (tile, day) not in taken:
                taken.add((tile, day))
                break
        sensor = rng.choice(['S2A', 'S2B', 'S2C'])
        hh = rng.randrange(100000, 235959)
        usual = rng.choice([204, 209, 300, 500, 510])
        for proc in range(rng.choice([1, 1, 1, 2, 3])):
            base = usual if rng.random() < 0.6 else rng.choice([204, 209, 300, 500, 510])
            gen = f'{rng.choice([2020, 2021, 2022])}-{rng.randrange(1, 13):02d}-15T12:00:{len(scenes):02d}.000000Z'
            name = f"{sensor}_MSIL1C_{day}T{hh % 24:02d}{len(scenes):02d}31_N{base:04d}_R{rng.randrange(1, 144):03d}_{tile}_{gen[:4]}{gen[5:7]}15T1200{len(scenes):02d}.SAFE"
            scenes.append(dict(tile=tile, sensor=sensor, date=int(day), cloud=rng.choice([0, 5, 1999, 2000, 2001, 7500, 10000]), when=when, key=(base, gen), name=name, gen=gen, hh=hh,
                               logged=int(rng.random() < 0.2)))
    for w in {s['when'] for s in scenes}:
        group = sorted((s for s in scenes if s['when'] == w), key=lambda s: s['key'])
        for n, s in enumerate(group):
            s['proc'] = n
            s['cloud'] = group[0]['cloud']
    rng.shuffle(scenes)
    disk = [rng.choice(['absent', 'absent', 'absent', 'partial', 'empty', 'complete']) for _ in scenes]
    runs = []
    for _ in range(2):
        t = rng.sample(list(TILES), rng.randrange(1, 4))
        s = rng.choice([['S2A', 'S2B', 'S2C', 'S2D'], ['S2A'], ['S2B', 'S2C'], ['S2C', 'S2A']])
        cc = rng.choice([(0, 100), (0, 20), (20, 75), (5, 100), (19.99, 20.01)])
        dates = rng.choice([None, (20200101, 20201231), (20191231, 20200101), (20200229, 20200229), (20200102, 20210101)])
        fail = {x['name']: rng.choice(['none', 'partial']) for x in scenes if rng.random() < 0.12}
        runs.append(dict(tiles=t, sensors=s, cc=cc, dates=dates, fail=fail, dry=int(rng.random() < 0.15), logs=int(rng.random() < 0.3), aoi=rng.choice(['list', 'file', 'vector', 'point'])))
        if runs[-1]['aoi'] == 'point':
            runs[-1]['tiles'] = t[:1]
    runs.append(dict(runs[-1], fail={}, dry=0))
    return dict(scenes=scenes, disk=disk, runs=runs, newline=rng.random() < 0.8)


def square(x, y, lo, hi):
    ring = ogr.Geometry(ogr.wkbLinearRing)
    for a, b in ((lo, lo), (hi, lo), (hi, hi), (lo, hi), (lo, lo)):
        ring.AddPoint_2D(x + a, y + b)
    g = ogr.Geometry(ogr.wkbPolygon)
    g.AddGeometry(ring)
    return g


class Rival:
    """Somebody else who rewrites the queue under its lock all the time (without changing it)."""

    def __init__(self, tools, queue, d):
        self.tools, self.queue, self.d = tools, queue, d
        self.stop = threading.Event()

    def loop(self):
        while not self.stop.is_set():
            subprocess.run([self.tools + '/lockfile-create', self.queue], cwd=self.d)
            text = open(self.queue).read()
            time.sleep(0.2)
            open(self.queue, 'w').write(text)
            subprocess.run([self.tools + '/lockfile-remove', self.queue], cwd=self.d)
            time.sleep(0.05)

    def __enter__(self):
        self.thread = threading.Thread(target=self.loop)
        self.thread.start()

    def __exit__(self, *a):
        self.stop.set()
        self.thread.join()


class Nobody:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def play(ck, k, j):
    d = ck.dir(f'w{k}')
    meta, pool, home, bind = d + '/meta', d + '/pool', d + '/home', d + '/bin'
    for p in (meta, pool, home, bind):
        os.makedirs(p)
    open(home + '/.boto', 'w').close()
    for t in ('gsutil', 'lockfile-create', 'lockfile-remove'):
        os.symlink(os.path.join(vf.VERIF, 'harness', t), f'{bind}/{t}')
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(4326)
    srs.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    ds = ogr.GetDriverByName('ESRI Shapefile').CreateDataSource(meta + '/sentinel2.shp')
    lay = ds.CreateLayer('sentinel2', srs, ogr.wkbPolygon)
    lay.CreateField(ogr.FieldDefn('PRFID', ogr.OFTString))
    for t, (x, y) in TILES.items():
        f = ogr.Feature(lay.GetLayerDefn())
        f.SetField('PRFID', t)
        f.SetGeometry(square(x, y, 0, 0.9))
        lay.CreateFeature(f)
    f = lay = ds = None
    with open(meta + '/metadata_sentinel2.csv', 'w') as f:
        f.write(HEADER + '\n')
        for n, s in enumerate(j['scenes']):
            t, day = s['tile'], str(s['date'])
            iso = f'{day[:4]}-{day[4:6]}-{day[6:]}T{s["hh"] // 10000:02d}:{s["hh"] // 100 % 60:02d}:{s["hh"] % 60:02d}.024000Z'
            f.write(','.join([f'L1C_{t}_A0{10000 + n}_{day}T101010', s['name'][:-5], f"G{s['sensor']}_{day}T101010_000_N0{s['key'][0]}", t[1:], iso, str(500000000 + n),
                              f"{s['cloud'] / 100:.2f}", 'PASSED', s['gen'], '53.1', '52.2', '9.0', '10.1',
                              f"gs://gcp-public-data-sentinel-2/tiles/{t[1:3]}/{t[3]}/{t[4:]}/{s['name']}"]) + '\n')
    for s, st in zip(j['scenes'], j['disk']):
        p = f"{pool}/{s['tile']}/{s['name']}"
        if st == 'absent':
            continue
        if st == 'empty':
            os.makedirs(p)
            continue
        os.makedirs(p + '/GRANULE')
        open(p + '/GRANULE/B01.jp2' + ('_.gstmp' if st == 'partial' else ''), 'w').write('x')
        open(p + '/manifest.safe', 'w').write('old')
    logs = d + '/logs'
    os.makedirs(logs)
    open(logs + '/other.log', 'w').close()
    for s in j['scenes']:
        if s['logged']:
            open(f"{logs}/{s['name'][:-5]}.log", 'w').close()
    queue = d + '/queue.txt'
    old = '/some/where/S2A_X.SAFE DONE\n' + ''.join(f"{pool}/{s['tile']}/{s['name']} DONE\n" for s, st in zip(j['scenes'], j['disk']) if st == 'complete') + '/else/where FAIL'
    open(queue, 'w').write(old + ('\n' if j['newline'] else ''))
    ids = {s['name']: n for n, s in enumerate(j['scenes'], 1)}
    runs, bad = [], []
    for n, r in enumerate(j['runs']):
        if r['aoi'] == 'list':
            aoi = ','.join(r['tiles'])
        elif r['aoi'] == 'file':
            aoi = d + f'/aoi{n}.txt'
            open(aoi, 'w').write('\n'.join(r['tiles']) + '\n')
        elif r['aoi'] == 'point':
            x, y = TILES[r['tiles'][0]]
            aoi = f'{x + 0.4}/{y + 0.4}'
        else:
            aoi = d + f'/aoi{n}.gpkg'
            ds = ogr.GetDriverByName('GPKG').CreateDataSource(aoi)
            lay = ds.CreateLayer('aoi', srs, ogr.wkbPolygon)
            for t in r['tiles']:
                for _ in range(2):
                    f = ogr.Feature(lay.GetLayerDefn())
                    f.SetGeometry(square(*TILES[t], 0.2, 0.4))
                    lay.CreateFeature(f)
            f = lay = ds = None
        plan, log = d + f'/plan{n}', d + f'/log{n}'
        open(plan, 'w').write(''.join(f'{a} {b}\n' for a, b in r['fail'].items()))
        open(log, 'w').close()
        opt = ['-s', ','.join(r['sensors'])]
        if r['cc'] != (0, 100):
            opt += ['-c', f"{r['cc'][0]},{r['cc'][1]}"]
        if r['dates']:
            opt += ['-d', f"{r['dates'][0]},{r['dates'][1]}"]
        if r['dry']:
            opt.append('-n')
        if r['logs']:
            opt += ['-l', logs]
        before = open(queue).read()
        with Rival(bind, queue, d) if k % 4 == 0 else Nobody():
            rc, out = ck.run([ck.bin + '/force-level1-csd', *opt, meta, pool, queue, aoi], cwd=d,
                             env=dict(HOME=home, TERM='dumb', PATH=bind + ':/usr/bin:/bin', GSUTIL_PLAN=plan, GSUTIL_LOG=log))
        now = open(queue).read()
        if os.path.exists(queue + '.lock'):
            bad.append(f'run {n + 1}: the queue stays locked')
            os.remove(queue + '.lock')
        lines_before, lines = before.splitlines(), now.splitlines()
        if lines[:len(lines_before)] != lines_before:
            bad.append(f'run {n + 1}: existing lines of the queue changed: {lines_before[-1:]} became {lines[len(lines_before) - 1:len(lines_before)]}')
        new = []
        for ln in lines[len(lines_before):]:
            p, _, st = ln.rpartition(' ')
            name = os.path.basename(p)
            if st != 'QUEUED' or name not in ids or p != f"{pool}/{j['scenes'][ids[name] - 1]['tile']}/{name}":
                bad.append(f'run {n + 1}: unknown line in the queue: {ln}')
            else:
                new.append(ids[name])
        calls = []
        for ln in open(log):
            name, res, dst = ln.split()
            if name not in ids or dst != f"{pool}/{j['scenes'][ids[name] - 1]['tile']}":
                bad.append(f'run {n + 1}: {name} is downloaded to {dst}')
            else:
                calls.append([ids[name], res])
        lo, hi = r['dates'] or (19700101, 20991231)
        runs.append(dict(tiles=r['tiles'], sensors=r['sensors'], **{'from': lo}, to=hi, clow=round(r['cc'][0] * 100), chigh=round(r['cc'][1] * 100), dry=r['dry'], logs=r['logs'],
                         ok=int(rc == 0), calls=calls, queued=new, out=out[-400:]))
    junk = [f for f in os.listdir(pool) if f not in TILES]
    return runs, bad, junk


def main(ck):
    jobs = [make(random.Random(ck.seed * 1000 + k), k) for k in range(60 if ck.thorough else 16)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: play(ck, *a), enumerate(jobs)))
    fn = ck.dir('jobs') + '/j.json'
    with open(fn, 'w') as f:
        for j, (runs, _, _) in zip(jobs, res):
            f.write(json.dumps(dict(scenes=[{a: s[a] for a in ('tile', 'sensor', 'date', 'cloud', 'when', 'proc', 'logged')} for s in j['scenes']], disk=j['disk'],
                                    runs=[{a: b for a, b in r.items() if a != 'out'} for r in runs])) + '\n')
    r = ck.tlc('Queue1', spec='Spec', invariants=['Present', 'Once'], env=dict(JOBS=fn))
    verdict = {c['i'] - 1: c for c in r.cases}
    n = 0
    for k, (j, (runs, bad, junk)) in enumerate(zip(jobs, res)):
        ck.trace(1)
        ck.count(len(runs))
        n += sum(len(x['calls']) for x in runs)
        v = verdict[k]
        x = runs[v['run'] - 1]
        ck.expect(v['why'] == '', 'run', f"history {k}, run {v['run']} ({j['runs'][v['run'] - 1]['aoi']}, {x['sensors']}, {x['from']}-{x['to']}, cloud {x['clow']}-{x['chigh']}): {v['why']}; "
                  f"calls {x['calls']}, queued {x['queued']}, exit ok {x['ok']}: {x['out'][-250:]}", dict(job=j, runs=runs))
        for b in bad:
            ck.violation('queue', f'history {k}: {b}', dict(job=j, runs=runs))
    if n < 10:
        raise vf.CheckError('hardly any downloads')
