"""C03: a data cube definition is written once, completely, and read back unchanged."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from osgeo import osr
import cube, gated, vf

NAME = 'datacube-definition.prj'


def read(fn):
    try:
        return open(fn).read()
    except FileNotFoundError:
        return None


def values(text):
    d = {}
    for ln in (text or '').splitlines():
        if '=' in ln:
            k, v = ln.split('=', 1)
            d[k.strip()] = v.strip()
    return d


def model(ck):
    inv, pr = ['Complete', 'EndedHasIt'], ['WriteOnce', 'AllEnd']
    n = 4 if ck.thorough else 3
    ck.tlc('CubeDef', spec='Spec', invariants=inv, properties=pr, constants=dict(Procs=set(range(1, n + 1)), Parts=2, Way='publish'))
    for way, i, p in (('inplace', inv, []), ('inplace', [], ['WriteOnce']), ('locked', ['EndedHasIt'], ['WriteOnce']), ('again', ['Complete'], []), ('racy', [], ['WriteOnce'])):
        ck.tlc('CubeDef', spec='Spec', invariants=i, properties=p, constants=dict(Procs={1, 2}, Parts=2, Way=way), expect_violation=True)


def schedules(n, m, ck):
    """interleavings of n processes with m operations each and few switches"""
    out = []
    if n == 2:
        for a in range(m + 1):
            for b in range(m + 1):
                out.append([(1, a), (2, b), (1, None), (2, None)])
        for _ in range(40 if ck.thorough else 8):
            out.append([(ck.rng.choice((1, 2)), ck.rng.randrange(1, 3)) for _ in range(2 * m)])
    else:
        for _ in range(60 if ck.thorough else 14):
            out.append([(ck.rng.randrange(1, n + 1), ck.rng.randrange(1, 4)) for _ in range(n * m)])
    return out


def play(ck, kind, cmds, target, known, sched):
    """one interleaving; the trace of what the definition was after every step"""
    fn = f'{target}/{NAME}'
    w = gated.World(target + '/', cmds, target)
    steps, text = [], []

    def look(k):
        t = read(fn)
        who = 0 if t is None else next((i + 1 for i, x in enumerate(known) if x == t), -1)
        if t is not None and t not in text:
            text.append(t)
        steps.append([k, who, 1 if not w.alive(k) else 0])

    try:
        w.run(sched, look)
        rcs = [q.rc for q in w.procs]
        logs = [w.output(q.k)[-300:] for q in w.procs]
        ops = max(len(q.ops) for q in w.procs)
    except gated.Stuck as e:
        rcs, logs, ops = ['stuck'], [str(e)], 0
    finally:
        w.close()
    return dict(kind=kind, procs=len(cmds), steps=steps, sched=sched, rcs=rcs, logs=logs, ops=ops, text=text)


def race(ck):
    inits = [['-o', '10.5,51.25', '-t', '3000,3000'], ['-o', '-7,60', '-t', '30000,15000'], ['-o', '21.125,47', '-t', '100,200']]
    projs = [cube.WKT, cube.wkt_of(32633), cube.wkt_of(4326)]

    def init_cmd(k, d):
        return [ck.bin + '/force-cube-init', '-d', d, *inits[k], projs[k]]

    known = []
    for k in range(3):
        d = ck.dir(f'alone{k}')
        rc, log = ck.run(init_cmd(k, d))
        known.append(read(f'{d}/{NAME}'))
        ck.expect(rc == 0 and known[-1] is not None, 'create', f'no definition is created: {log[-300:]}')
    if None in known:
        return []
    # higher level processing copies the definition
    lows, hknown = [], []
    for k in range(2):
        c = cube.Cube(ck.dir(f'low{k}'), 4, 4, ox=4000000 + 300 * k)
        c.ard(0, 0, '20200110', 'LND08', np.full((6, 4, 4), 100 * k + 100))
        lows.append(c)
    over = dict(X_TILE_RANGE='0 0', Y_TILE_RANGE='0 0', RESOLUTION=10, CHUNK_SIZE='40 40', SENSORS='LND08', DATE_RANGE='2020-01-01 2020-12-31', OUTPUT_TSS='TRUE', INDEX='RED',
                DIR_PROVENANCE=ck.dir('pv'), PRETTY_PROGRESS='FALSE', NTHREAD_READ=1, NTHREAD_COMPUTE=1, NTHREAD_WRITE=1, OUTPUT_EXPLODE='FALSE')

    def high_cmd(k, d):
        p = ck.dir('hp') + '/p.prm'
        o = {a: str(b) for a, b in dict(over, DIR_LOWER=lows[k].path, DIR_HIGHER=d, DIR_PROVENANCE=ck.dir('pv')).items()}
        open(p, 'w').write(cube.prm_text('TSA', o))
        return [ck.bin + '/force-higher-level', p]

    for k in range(2):
        d = ck.dir(f'halone{k}')
        rc, log = ck.run(high_cmd(k, d))
        t = read(f'{d}/{NAME}')
        ck.count()
        ck.expect(rc == 0 and values(t) == values(read(f'{lows[k].path}/{NAME}')), 'copy', f'the copied definition differs from the original: {t} (exit {rc}: {log[-200:]})')
        hknown.append(t)
    todo = []
    with ThreadPoolExecutor(6) as ex:
        for n in (2, 3):
            for s in schedules(n, 6 if n == 2 else 5, ck):
                d = ck.dir('race')
                todo.append(ex.submit(play, ck, 'init', [init_cmd(k, d) for k in range(n)], d, known, s))
        if None not in hknown:
            for a in range(0, 7, 1 if ck.thorough else 2):
                for b in range(1, 7, 1 if ck.thorough else 2):
                    d = ck.dir('hrace')
                    todo.append(ex.submit(play, ck, 'copy', [high_cmd(k, d) for k in range(2)], d, hknown, [(1, a), (2, b), (1, None), (2, None)]))
        out = [t.result() for t in todo]
    return out


def race_check(ck):
    out = race(ck)
    if not out:
        return
    fn = ck.dir('tr') + '/t.json'
    full = [t for t in out if t['steps']]
    with open(fn, 'w') as f:
        for t in full:
            f.write(json.dumps(dict(procs=t['procs'], steps=t['steps'])) + '\n')
    r = ck.tlc('CubeDefTrace', spec='Spec', invariants=['Sane'], env=dict(TRACES=fn))
    got = {c['i'] - 1: c for c in r.cases}
    for i, t in enumerate(full):
        ck.count()
        ck.trace(1)
        v = got.get(i)
        if v is None:
            raise vf.CheckError('trace missing')
        ck.expect(v['ok'], t['kind'] + '-' + v['why'], f"{t['procs']} processes ({t['kind']}) under schedule {t['sched']}: the definition is {v['why']} after step {v['at']} "
                  f"(step: {t['steps'][v['at'] - 1]}), contents seen: {[x[-120:] for x in t['text']]}", t)
    for t in out:
        ck.expect(all(x == 0 for x in t['rcs']), 'exit', f"{t['procs']} processes ({t['kind']}) under schedule {t['sched']}: exit {t['rcs']}: {t['logs']}", t)
    if sum(len(t['steps']) for t in full) < 4 * len(full):
        raise vf.CheckError('the processes are not stopped at their file operations')
    ck.notes['interleavings'] = f'{len(full)}, up to {max(t["ops"] for t in out)} file operations per process'


def srs_of(wkt):
    s = osr.SpatialReference()
    s.ImportFromWkt(wkt)
    s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    return s


def readback(ck):
    """definitions made by the program, read by other programs"""
    geo = srs_of(cube.wkt_of(4326))
    worlds = []
    custom = cube.WKT.replace('ETRS89-extended / LAEA Europe', 'my  own = grid, #1')
    assert custom != cube.WKT
    rng = ck.rng
    for name, wkt in (('laea', cube.WKT), ('named', custom), ('utm', cube.wkt_of(32633)), ('deg', cube.wkt_of(4326))):
        for j in range(3 if ck.thorough else 2):
            lon, lat = rng.randrange(96, 160) / 8, rng.randrange(400, 420) / 8
            if name == 'deg':
                tw, th, q = rng.choice([1, 2, 3]), rng.choice([1, 2]), 64
            else:
                tw, th, q = rng.choice([3000, 10000, 500]), rng.choice([3000, 2000, 700]), 8
            d = ck.dir(f'rb-{name}')
            rc, log = ck.run([ck.bin + '/force-cube-init', '-d', d, '-o', f'{lon},{lat}', '-t', f'{tw},{th}', wkt])
            v = values(read(f'{d}/{NAME}'))
            to = osr.CoordinateTransformation(geo, srs_of(wkt))
            x, y = to.TransformPoint(lon, lat)[:2]
            def near(tag, want, tol):
                try:
                    return abs(float(v[tag]) - want) <= tol
                except (KeyError, ValueError):
                    return False
            ok = rc == 0 and near('ORIGIN_GEO_X', lon, 0) and near('ORIGIN_GEO_Y', lat, 0) and near('TILE_SIZE_X', tw, 0) and near('TILE_SIZE_Y', th, 0) \
                and near('ORIGIN_MAP_X', x, 1e-3) and near('ORIGIN_MAP_Y', y, 1e-3)
            try:
                ok = ok and bool(srs_of(v['PROJECTION']).IsSame(srs_of(wkt)))
            except (KeyError, RuntimeError):
                ok = False
            ck.count()
            ck.expect(ok, 'written', f'{name}: the definition of a cube with origin {lon}, {lat} ({x}, {y}) and tile size {tw}, {th} is {v} (exit {rc}: {log[-200:]})')
            if not ok:
                continue
            # a second initialisation with other values must not change it
            before = read(f'{d}/{NAME}')
            rc2, _ = ck.run([ck.bin + '/force-cube-init', '-d', d, '-o', f'{lon + 1},{lat}', '-t', f'{tw * 2},{th}', cube.wkt_of(3035)])
            ck.expect(read(f'{d}/{NAME}') == before, 'changed', f'{name}: a second initialisation changed the definition')
            worlds.append(dict(name=name, dir=d, wkt=wkt, q=q, g=dict(ox=round(x * q), oy=round(y * q), tw=tw * q, th=th * q, res=tw * q if name != 'deg' else q)))
    jobs = []
    for w in worlds:
        g = w['g']
        g['res'] = 1
        w['tiles'] = [(rng.randrange(-3, 4), rng.randrange(-3, 4)) for _ in range(4)]
        pts = [(g['ox'] + t[0] * g['tw'] + g['tw'] * rng.randrange(2, 7) // 8, g['oy'] - t[1] * g['th'] - g['th'] * rng.randrange(2, 7) // 8) for t in w['tiles']]
        jobs.append(dict(grid=g, points=pts, boxes=[]))
    fn = ck.dir('jobs') + '/grids.json'
    open(fn, 'w').write(''.join(json.dumps(j) + '\n' for j in jobs))
    r = ck.tlc('Grid', spec='Spec', invariants=['OneTile', 'InRange', 'Translates'], env=dict(GRIDS=fn))
    got = {c['i'] - 1: c for c in r.cases}

    def find(w, p, want):
        back = osr.CoordinateTransformation(srs_of(w['wkt']), geo)
        lon, lat = back.TransformPoint(p[0] / w['q'], p[1] / w['q'])[:2]
        rc, log = ck.run([ck.bin + '/force-tile-finder', '-p', f'{lon:.12f},{lat:.12f}', '-r', '0.25' if w['name'] == 'deg' else '10', w['dir']])
        m = re.search(r'X-?\d+_Y-?\d+', log)
        return w, p, want, m.group(0) if m and rc == 0 else log[-200:]

    with ThreadPoolExecutor(6) as ex:
        todo = [ex.submit(find, w, p, got[i]['points'][k]['tile']) for i, (w, j) in enumerate(zip(worlds, jobs)) for k, p in enumerate(j['points'])]
    for t in todo:
        w, p, want, seen = t.result()
        ck.count()
        ck.expect(seen == cube.tile_name(*want), 'read', f"{w['name']} {w['g']}: {p} lies in tile {cube.tile_name(*want)}, the program says {seen}")
    return worlds


CODE = dict(africa='AF', antarctica='AN', asia='AS', europe='EU', namerica='NA', oceania='OC', samerica='SA')
BUILTIN = dict(GLANCE7=150000, EQUI7=100000)


def plain(s):
    return s.lower().replace('-', '').replace('_', '')


def builtin(ck):
    """the built-in grids: one definition per continent, read by the tile finder"""
    for name, size in BUILTIN.items():
        d = ck.dir(name)
        rc, log = ck.run([ck.bin + '/force-cube-init', '-d', d, name])
        subs = sorted(s for s in os.listdir(d) if os.path.isdir(f'{d}/{s}'))
        ck.count()
        ck.expect(rc == 0 and sorted(map(plain, subs)) == sorted(CODE), 'builtin', f'{name}: definitions of {subs} (exit {rc}: {log[-200:]})')
        first = {s: read(f'{d}/{s}/{NAME}') for s in subs}
        for s in subs:
            v = values(first[s])
            try:
                srs = srs_of(v['PROJECTION'])
                to = osr.CoordinateTransformation(srs_of(cube.wkt_of(4326)), srs)
                x, y = to.TransformPoint(float(v['ORIGIN_GEO_X']), float(v['ORIGIN_GEO_Y']))[:2]
                ok = float(v['TILE_SIZE_X']) == size == float(v['TILE_SIZE_Y']) and abs(x - float(v['ORIGIN_MAP_X'])) < 2 and abs(y - float(v['ORIGIN_MAP_Y'])) < 2
            except (KeyError, ValueError, RuntimeError):
                ok, x, y = False, None, None
            ck.count()
            ck.expect(ok, 'builtin', f'{name} {s}: definition {v}; its geographic origin is at {x}, {y}')
        # all of them or one of them, nothing changes
        ck.run([ck.bin + '/force-cube-init', '-d', d, name])
        if any(plain(s) in CODE for s in subs):
            one = ck.rng.choice(sorted(s for s in subs if plain(s) in CODE))
            e = ck.dir(name + '1')
            rc, log = ck.run([ck.bin + '/force-cube-init', '-d', e, f'{name}-{CODE[plain(one)]}'])
            made = sorted(s for s in os.listdir(e) if os.path.isdir(f'{e}/{s}'))
            ck.count()
            ck.expect(rc == 0 and made == [one] and read(f'{e}/{one}/{NAME}') == first[one], 'builtin-one', f'{name}-{one} creates {made}: {read(f"{e}/{one}/{NAME}")} (exit {rc}: {log[-200:]})')
        ck.expect({s: read(f'{d}/{s}/{NAME}') for s in subs} == first, 'changed', f'{name}: a second initialisation changed a definition')


def copies(ck, worlds):
    """definitions copied by higher level processing equal the original, also if the original has the old format"""
    for k, (ox, oy, dep) in enumerate(((4000000.25, 3000000.5, False), (-123456.789012, -7654321.125, False), (400, 8000, True))):
        c = cube.Cube(ck.dir('cp'), 4, 4, ox=ox, oy=oy)
        c.ard(0, 0, '20200110', 'LND08', np.full((6, 4, 4), 100))
        if dep:
            open(f'{c.path}/{NAME}', 'w').write(f'{c.wkt}\n12.500000\n-3.250000\n{ox:f}\n{oy:f}\n40.000000\n4.000000\n')
            want = dict(PROJECTION=c.wkt, ORIGIN_GEO_X='12.500000', ORIGIN_GEO_Y='-3.250000', ORIGIN_MAP_X=f'{ox:f}', ORIGIN_MAP_Y=f'{oy:f}', TILE_SIZE_X='40.000000', TILE_SIZE_Y='40.000000')
        else:
            want = values(read(f'{c.path}/{NAME}'))
        over = dict(X_TILE_RANGE='0 0', Y_TILE_RANGE='0 0', RESOLUTION=10, CHUNK_SIZE='40 40', SENSORS='LND08', DATE_RANGE='2020-01-01 2020-12-31', OUTPUT_TSS='TRUE', INDEX='RED')
        out = ck.dir('cpo')
        for turn in range(2):
            run = cube.Run(ck, 'TSA', c.path, over, out=out)
            got = values(read(f'{out}/{NAME}'))
            ck.count()
            ck.expect(run.rc == 0 and got == want, 'copy', f'the copied definition is {got}, the original {want} (exit {run.rc}: {run.log[-200:]})')
        r = run.product(0, 0, 'TSS')
        if r is not None:
            ck.expect(abs(r.gt[0] - ox) < 1e-5 and abs(r.gt[3] - oy) < 1e-5, 'grid', f'the product lies at {r.gt[0]}, {r.gt[3]}, the tile at {ox}, {oy}')


def main(ck):
    model(ck)
    race_check(ck)
    worlds = readback(ck)
    builtin(ck)
    copies(ck, worlds)
