"""L05: images that are processed at the same time merge as if they were processed one after the other."""
import glob, os, threading
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import gated, level2, vf
from cube import Raster, write_raster
from level2 import L2Cube, scenario, image, dns, ul_of, OUTB, rho, scene


def model(ck):
    inv, pr = ['NothingLost', 'ReadWhole', 'NoLockLeft'], ['AllEnd']
    ck.tlc('TileMerge', spec='Spec', invariants=inv, properties=pr, constants=dict(Procs={1, 2, 3}, Files={1, 2, 3} if ck.thorough else {1, 2}, Way='locked'))
    for way in ('open', 'early', 'brief', 'create'):
        ck.tlc('TileMerge', spec='Spec', invariants=inv, constants=dict(Procs={1, 2}, Files={1}, Way=way), expect_violation=True)


def play(ck, sc, case, sched):
    """the images of a behaviour, all at once"""
    cube = L2Cube(ck, sc['tx'], sc['ty'], **sc['prm'])
    cmds, src = [], {}
    for n, st in enumerate(case['steps'], 1):
        i = st['img']
        im = sc['imgs'][i - 1]
        a = dns(im['w'], i)
        top = f'{cube.top}/l1/{n}'
        os.makedirs(top)
        d = scene(top, a, *ul_of(im['x'], im['y']), row=20 + i)
        f = f'{cube.top}/p{n}.prm'
        open(f, 'w').write('++PARAM_LEVEL2_START++\n' + ''.join(f'{k} = {v}\n' for k, v in cube.prm.items()) + '++PARAM_LEVEL2_END++\n')
        cmds.append([ck.bin + '/force-l2ps', d, f])
        src[i] = (im['x'], im['y'], rho(np.stack([a[b] for b in OUTB])))
    w = gated.World(cube.out + '/', cmds, cube.top)
    try:
        w.run(sched, lambda k: None)
        rcs, logs, ops = [q.rc for q in w.procs], [w.output(q.k)[-200:] for q in w.procs], [len(q.ops) for q in w.procs]
    except gated.Stuck as e:
        rcs, logs, ops = ['stuck'], [str(e)] + [str(q.ops[-3:]) for q in w.procs], [0]
    finally:
        w.close()
    return cube, src, rcs, logs, ops


def failing(ck):
    """a run that cannot merge with what is there says so, leaves it alone and leaves no lock"""
    for kind in ('unreadable', 'bands', 'size'):
        for prod in ('TOA', 'QAI'):
            cube = L2Cube(ck, 7, 6)
            words = np.zeros((6, 7), int)
            for i in (1, 2):
                if i == 2:
                    good = glob.glob(f'{cube.out}/X*/*{prod}.tif')[0]
                    keep = open(good, 'rb').read()
                    if kind == 'unreadable':
                        open(good, 'wb').write(b'not a raster')
                    else:
                        r = Raster(good)
                        write_raster(good, r.data[:, :5, :] if kind == 'size' else np.concatenate([r.data, r.data]), 1 if prod == "QAI" else -9999, r.gt[1], r.gt[0], r.gt[3])
                    bad = open(good, 'rb').read()
                rc, log = cube.process(dns(words, i), *ul_of(0, 0), row=20 + i)
                if i == 1:
                    if rc:
                        raise vf.CheckError(f'first image: {rc} {log[-300:]}')
                    continue
                what = f'existing {prod} tile with {kind}'
                ck.count(3)
                ck.trace()
                ck.expect(rc != 0 or 'rror' in log, 'silent', f'{what}: no error is reported', log[-300:])
                ck.expect(open(good, 'rb').read() == bad, 'touched', f'{what}: the tile was changed')
                left = [os.path.relpath(f, cube.top) for f in glob.glob(cube.out + '/**/*.lock', recursive=True)]
                ck.expect(not left, 'lock', f'{what}: locks remain after the failure: {left}')


def main(ck):
    rng = ck.rng
    ck.bdir
    model(ck)
    failing(ck)
    kinds = [0, 0, 0, 1, 6]
    words = lambda ny, nx: [[rng.choice(kinds) for _ in range(nx)] for _ in range(ny)]
    scen = [scenario('two', 7, 6, [image(0, 0, words(6, 7)), image(1, 0, words(6, 7))], length=2),
            scenario('tiles', 5, 6, [image(-2, -1, words(6, 6)), image(1, 1, words(6, 7))], length=2),
            scenario('three', 7, 7, [image(0, 0, words(6, 6)), image(1, 1, words(6, 6)), image(0, 1, words(6, 7))], length=3)]
    cases = level2.behaviours(ck, scen)
    by = {s['id']: s for s in scen}
    first = {c['id']: c for c in cases if [s['img'] for s in c['steps']] == sorted(s['img'] for s in c['steps'])}
    # how many file operations does a process have?
    cube, src, rcs, logs, ops = play(ck, by['two'], first['two'], [(1, None), (2, None)])
    if 'stuck' in rcs or min(ops) < 6:
        raise vf.CheckError(f'the processes are not stopped at their file operations: {ops} {logs}')
    m = max(ops)
    step = 1 if ck.thorough else 2
    work = [('two', [(1, a), (2, None), (1, None)]) for a in range(1, m + 1, step)]
    work += [('two', [(1, a), (2, b), (1, None), (2, None)]) for a, b in [(rng.randrange(1, m), rng.randrange(1, m)) for _ in range(200 if ck.thorough else 16)]]
    work += [('tiles', [(1, a), (2, None), (1, None)]) for a in range(rng.randrange(1, 7), 2 * m, 3 if ck.thorough else 9)]
    work += [('three', [(rng.randrange(1, 4), rng.randrange(1, m // 2)) for _ in range(12)]) for _ in range(40 if ck.thorough else 10)]
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(lambda x: play(ck, by[x[0]], first[x[0]], x[1]), work))
    for (sid, sched), (cube, src, rcs, logs, ops) in zip(work, res):
        what = f'{sid}: {len(rcs)} images at once, schedule {sched}'
        ck.count()
        ck.trace()
        if not ck.expect(all(r == 0 for r in rcs), 'exit', f'{what}: exit {rcs}: {logs}'):
            continue
        left = [os.path.relpath(f, cube.top) for f in glob.glob(cube.out + '/**/*.lock', recursive=True) + glob.glob(cube.top + '/prov/*.lock')]
        ck.expect(not left, 'lock', f'{what}: locks remain: {left}')
        try:
            level2.compare(ck, by[sid], first[sid]['steps'][-1], cube, src, what)
        except RuntimeError as e:
            ck.violation('broken', f'{what}: a tile cannot be read: {e}')
    ck.notes['interleavings'] = f'{len(work)}, {m} file operations per process and image'
    ck.sample(dict(schedule=work[0][1], tiles=[(t['x'], t['y']) for t in first['two']['steps'][-1]['tiles']]))
