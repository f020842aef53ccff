"""H01: results do not depend on chunking, threading and streaming."""
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
from mods import World, content, NCOL, NROW, RES
from pipe import predict, job


def differ(a, b):
    if set(a) != set(b):
        return 'files', f'files differ: {sorted(set(a) ^ set(b))[:4]}'
    for f in sorted(a):
        if isinstance(a[f], str) or isinstance(b[f], str):
            if a[f] != b[f]:
                return 'files', f'{f} differs'
            continue
        for k in ('dtype', 'nodata', 'gt', 'names', 'labels'):
            if a[f][k] != b[f][k]:
                return k, f'{f}: {k} differs: {a[f][k]} / {b[f][k]}'
        if a[f]['data'].shape != b[f]['data'].shape:
            return 'shape', f'{f}: shape differs'
        bad = np.argwhere(a[f]['data'] != b[f]['data'])
        if len(bad):
            i = tuple(int(x) for x in bad[0])
            return 'value', f'{f}: {len(bad)} values differ, e.g. band {i[0]} row {i[1]} column {i[2]}: {a[f]["data"][i]} with one chunk and one thread, {b[f]["data"][i]} here'
    return None


def main(ck):
    rng = ck.rng
    layouts = [(1, 1), (1, 3), (2, 1), (3, 2), (2, 3), (4, 1), (4, 3), (1, 2)]
    jobs = [job(x=(0, 1), cols=c, rows=r, stream=s, name=f'{c}x{r} {s}') for c, r in layouts for s in (True, False)]
    for j, case in zip(jobs, predict(ck, jobs)):
        # whatever the layout, the specification writes all of both tiles
        assert len(case['written']) == 2 * j['cols'] * j['rows']
    ck.bdir
    W = World(ck, seed=ck.seed)
    R = W.runs()
    del R['L2I']
    mask = vf.tempfile.mkdtemp(dir=ck.scratch)
    import cube
    M = cube.Cube(mask, NCOL, NROW)
    for t in W.tiles:
        m = (np.random.RandomState(3 + t[0]).rand(NROW, NCOL) < 0.6).astype('uint8')
        m[:NROW // 2, :NCOL // 2] = 0      # the first chunk of some layouts is empty
        M.image(*t, 'm.tif', m, nodata=255, dtype=1)
    masked = dict(DIR_MASK=mask, BASE_MASK='m.tif')
    work = []
    for n, spec in R.items():
        work.append((n, spec, False, None))
        work.append((n, spec, True, None))
        for masking in (False, True):
            lay = rng.sample(layouts, 5 if ck.thorough else 2 if not masking else 1)
            for c, r in lay:
                th = rng.choice([(1, 1, 1), (4, 1, 2), (2, 4, 3), (1, 6, 1), (3, 2, 6)])
                work.append((n, spec, masking, dict(layout=(c, r), threads=th, stream=rng.random() < 0.6, delay=rng.random() < 0.5, seed=rng.randrange(10**6))))

    def go(a):
        n, spec, masking, v = a
        over = dict(masked) if masking else {}
        env = {}
        if v is None:
            over.update(STREAMING='FALSE', NTHREAD_READ=1, NTHREAD_COMPUTE=1, NTHREAD_WRITE=1)
        else:
            c, r = v['layout']
            over.update(CHUNK_SIZE=f'{NCOL * RES // c} {NROW * RES // r}', STREAMING=str(v['stream']).upper(), NTHREAD_READ=v['threads'][0], NTHREAD_COMPUTE=v['threads'][1], NTHREAD_WRITE=v['threads'][2])
            if v['delay']:
                env = dict(LD_PRELOAD=vf.shared_lib('gdaltrace'), VF_DELAY=f'{v["seed"]} 1500')
        run = W.run(spec, over, env=env)
        return run.rc, content(run), run.log[-500:]
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(go, work))
    ref = {(a[0], a[2]): r for a, r in zip(work, res) if a[3] is None}
    for (n, m), r in ref.items():
        ck.expect(r[0] == 0 and len(r[1]) > 0, f'run:{n}', f'{n}{" masked" if m else ""}: exit {r[0]}', r[2])
    for (n, spec, masking, v), r in zip(work, res):
        if v is None:
            continue
        what = f'{n}{" with mask" if masking else ""}, {v["layout"][0]} x {v["layout"][1]} chunks, {v["threads"]} threads, STREAMING={v["stream"]}'
        if not ck.expect(r[0] == 0, f'run:{n}', f'{what}: exit {r[0]}', r[2]):
            continue
        d = differ(ref[(n, masking)][1], r[1])
        ck.count(sum(x['data'].size for x in r[1].values() if not isinstance(x, str)))
        ck.trace(1)
        if d:
            ck.violation(f'{d[0]}:{n}', f'{what}: {d[1]}', v)
    ck.sample(dict(modules=sorted(R), runs=len(work)))
