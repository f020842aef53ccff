"""T11: the reported sizes of a datacube add up per sensor and in total."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import vf

SENSORS = ('LND04 LND05 LND07 LND08 LND09 SEN2A SEN2B SEN2C SEN2D sen2a sen2b sen2c sen2d SEN2L SEN2H R-G-B S1AIA S1AID S1BIA S1BID S1CIA S1CID '
           'S1DIA S1DID VVVHP MOD01 MOD02 MODIS').split()
UNIT = dict(B=0, KB=1, MB=2, GB=3, TB=4, PB=5)
SIZES = [0, 1, 7, 100, 512, 1000, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 100000, 1048575, 1048576, 1049600, 1049601, 1572864, 3145728, 104857600]


def make(rng):
    files = []
    some = rng.sample(range(1, len(SENSORS) + 1), rng.randrange(1, 6))
    tiles = rng.randrange(1, 5)
    taken = set()
    for _ in range(rng.randrange(0, 14)):
        kind = rng.random()
        s = rng.choice(some) if kind < 0.85 else 0
        date = f'{rng.randrange(1984, 2030)}{rng.randrange(1, 13):02d}{rng.randrange(1, 29):02d}'
        name = f"{date}_LEVEL2_{SENSORS[s - 1] if s else rng.choice(['LNDLG', 'OVV'])}_{rng.choice(['BOA.tif', 'QAI.tif', 'OVV.jpg', 'BOA.dat', 'BOA.hdr'])}"
        t = rng.randrange(1, tiles + 1) if rng.random() < 0.9 else 0
        if (t, name) in taken:
            continue
        taken.add((t, name))
        files.append(dict(tile=t, sensor=s, bytes=rng.choice(SIZES), name=name))
    return dict(sensors=len(SENSORS), files=files, tiles=tiles, temp=rng.choice([None, '-t', '--temp']))


def tile(k):
    return f'X{60 + k:04d}_Y{-3 + k:04d}' if k % 2 else f'X-{k:03d}_Y00{40 + k}'


def build(ck, k, j):
    d = ck.dir(f'i{k}')
    c = d + '/cube'
    for t in range(1, j['tiles'] + 1):
        os.makedirs(f'{c}/{tile(t)}')
    os.makedirs(c + '/mosaic')
    os.makedirs(d + '/tmp')
    os.makedirs(d + '/cwd')
    open(c + '/datacube-definition.prj', 'w').write('LND08\n')
    for f in j['files']:
        with open(f"{c}/{tile(f['tile']) if f['tile'] else 'mosaic'}/{f['name']}", 'w') as g:
            g.truncate(f['bytes'])
    return d, c


def run(ck, k, j):
    d, c = build(ck, k, j)
    rc, log = ck.run([ck.bin + '/force-datacube-size'] + ([j['temp'], d + '/tmp'] if j['temp'] else []) + [c], cwd=d + '/cwd')
    got = {}
    for ln in log.split('\n'):
        m = re.match(r'^\s*(\S+?)\s*:\s*([0-9.]+)\s*([KMGTP]?B)\s*$', ln)
        if m:
            got[m.group(1)] = (float(m.group(2)), m.group(3))
    return rc, log, got, os.listdir(d + '/cwd') + os.listdir(d + '/tmp')


def main(ck):
    jobs = [make(ck.rng) for _ in range(120 if ck.thorough else 40)]
    # one that needs every sensor
    jobs.append(dict(sensors=len(SENSORS), tiles=2, temp=None, files=[dict(tile=1 + k % 2, sensor=k + 1, bytes=11 + 1100 * k, name=f'20180501_LEVEL2_{s}_BOA.tif') for k, s in enumerate(SENSORS)]))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: run(ck, *a), enumerate(jobs)))
    fn = ck.dir('jobs') + '/j.json'
    with open(fn, 'w') as f:
        for j in jobs:
            f.write(json.dumps(dict(sensors=j['sensors'], files=[dict(tile=x['tile'], sensor=x['sensor'], bytes=x['bytes']) for x in j['files']])) + '\n')
    r = ck.tlc('CubeSize', spec='Spec', invariants=['Adds', 'Whole'], properties=['Grows', 'Ends'], env=dict(JOBS=fn))
    want = {c['i'] - 1: c for c in r.cases}
    for k, (j, (rc, log, got, left)) in enumerate(zip(jobs, res)):
        w = want[k]
        ck.trace(1)
        ck.expect(rc == 0, 'exit', f'exit {rc}: {log[-300:]}', j)
        ck.expect(not left, 'left', f'files left behind: {left}', j)
        exp = {s: b for s, b in zip(SENSORS, w['size']) if b}
        exp['TOTAL'] = w['total']
        ck.count(len(exp))
        for s in sorted(set(exp) | set(got)):
            b = exp.get(s, 0)
            v, u = got.get(s, (0, 'B'))
            step = 1024 ** UNIT[u]
            ok = abs(v * step - b) <= 0.0101 * step and (s in got or b == 0 and s != 'TOTAL')
            ck.expect(ok, 'size', f"{s}: reported {got.get(s)}, should be {b} bytes; files {[(x['name'], x['tile'], x['bytes']) for x in j['files']]}", j)
    # not a datacube, no directory for temporary files
    j = dict(sensors=len(SENSORS), tiles=1, temp=None, files=[dict(tile=1, sensor=1, bytes=77, name='20180501_LEVEL2_LND04_BOA.tif')])
    for what in ('accepted', 'definition', 'temp'):
        d, c = build(ck, 'r' + what, j)
        opt = []
        if what == 'definition':
            os.remove(c + '/datacube-definition.prj')
        if what == 'temp':
            opt = ['-t', d + '/none']
        rc, log = ck.run([ck.bin + '/force-datacube-size', *opt, c], cwd=d + '/cwd')
        ck.count(1)
        ck.expect((rc == 0) == (what == 'accepted'), 'refuse', f'{what}: exit {rc}: {log[-200:]}', what)
