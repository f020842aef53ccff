"""H13: the exit status tells whether a run produced data."""
import os
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from cube import Run, prm_text
from pipe import fixed_jobs, random_jobs, predict, run_jobs, job, Job


def main(ck):
    rng = ck.rng
    jobs = [dict(j, strict=s, stream=t, name=f'{j["name"]} [strict={s} stream={t}]') for j in fixed_jobs()[2:] for s in (True, False) for t in (True, False)
            if j['name'] in ('2x3 chunks', 'nothing allowed', 'input in the middle tile', 'input in the first tile only, sequential', 'no input', 'mask leaves two chunks',
                             'mask leaves the last chunk', 'mask leaves the first chunk, sequential', 'mask is empty', 'first tile masked')]
    jobs += [dict(j, strict=True) for j in random_jobs(rng, 60 if ck.thorough else 8)]
    cases = predict(ck, jobs)
    runs = run_jobs(ck, jobs)
    for j, case, r in zip(jobs, cases, runs):
        ck.count(1)
        if case['ok']:
            ck.expect(r.run.rc == 0, 'failure', f'{j["name"]}: exit {r.run.rc} though data were read and written (or FAIL_IF_EMPTY is off)', dict(job=j, log=r.run.log[-600:]))
        else:
            ck.expect(r.run.rc not in (0, 'timeout') and 0 < r.run.rc < 128, 'success', f'{j["name"]}: exit {r.run.rc} though the run must fail', dict(job=j, log=r.run.log[-600:]))
        if case['tiles']:
            files = [f for f in r.run.files() if f.endswith('.tif')]
            ck.expect(bool(files) == bool(case['written']), 'products', f'{j["name"]}: products {"missing" if case["written"] else "without data"}', j)
    ck.trace(len(jobs))

    # nothing selected, although there are images
    base = job(x=(0, 1), rows=2, strict=True, name='no image in the period')
    for over, what in ((dict(DATE_RANGE='2010-01-01 2010-12-31'), 'no image in the period'), (dict(SENSORS='LND07'), 'no image of the sensor'),
                       (dict(OUTPUT_TSS='FALSE', OUTPUT_STM='FALSE'), 'no product requested')):
        for stream in (True, False):
            for strict in (True, False):
                r = Job(ck, dict(base, stream=stream, strict=strict), over=over)
                ck.count(1)
                ck.expect((r.run.rc == 0) == (not strict), 'empty', f'{what} with FAIL_IF_EMPTY={strict}, STREAMING={stream}: exit {r.run.rc}', r.run.log[-500:])

    # a write that fails
    w = job(x=(0, 1), rows=1, name='failing write')
    for n in (1, 4, 9):
        for stream in (True, False):
            r = Job(ck, dict(w, stream=stream), fail_write=n)
            ck.count(1)
            ck.expect(r.run.rc not in (0, 'timeout'), 'write', f'write {n} of the run fails, but exit {r.run.rc} (STREAMING={stream})', r.run.log[-500:])
    # an image that cannot be read: its tile gets no product and the console tells, the other tile is complete
    for stream in (True, False):
        j = job(x=(0, 1), rows=2, stream=stream, strict=True, name='unreadable image')
        cube = Job(ck, j).cube
        p = os.path.join(cube.path, 'X0001_Y0000', '20180415_LEVEL2_LND08_BOA.tif')
        open(p, 'wb').write(b'this is no image')
        for k in (0, 1):
            if k:
                for f in os.listdir(os.path.join(cube.path, 'X0000_Y0000')):
                    os.remove(os.path.join(cube.path, 'X0000_Y0000', f))
            r = Job(ck, j, cube=cube)
            ck.count(1)
            ck.expect((r.run.rc == 0) == (k == 0) and 'X0001_Y0000' in r.run.log, 'unreadable', f'unreadable image, {"no other" if k else "another"} tile: exit {r.run.rc}', r.run.log[-400:])
            ck.expect((r.run.product(0, 0, '_RED_TSS') is not None) == (k == 0) and r.run.product(1, 0, '_RED_TSS') is None, 'unreadable', 'unreadable image: wrong tiles have a product')
    # directories that do not exist or cannot be used, broken parameter files
    one = job(name='one unit')
    good = Job(ck, one)
    ck.expect(good.run.rc == 0, 'failure', f'plain run: exit {good.run.rc}', good.run.log[-500:])
    text = open(good.run.prm).read()
    lines = text.split('\n')

    def edit(key, val):
        return '\n'.join(f'{key} = {val}' if l.startswith(key + ' ') else l for l in lines)
    bad = [('DIR_LOWER', '/nonexistent-cube'), ('DIR_HIGHER', ''), ('CHUNK_SIZE', '70 120'), ('CHUNK_SIZE', '240 240'), ('CHUNK_SIZE', '0 0'), ('STREAMING', 'MAYBE'),
           ('SENSORS', 'NOSENSOR'), ('FILE_TILE', '/nonexistent-list'), ('FAIL_IF_EMPTY', ''),
           ('INDEX', 'NOINDEX'), ('NTHREAD_READ', 'x'), ('RESOLUTION', '-10'), ('DIR_PROVENANCE', '/nonexistent-dir')]

    def go(kv):
        d = ck.dir('bad')
        t = edit(*kv)
        if kv[0] != 'DIR_HIGHER':
            t = '\n'.join(f'DIR_HIGHER = {d}' if l.startswith('DIR_HIGHER ') else l for l in t.split('\n'))
        return Run(ck, 'TSA', good.cube.path, {}, text=t, out=d)
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(go, bad))
    for (k, v), r in zip(bad, res):
        ck.count(1)
        ck.expect(r.rc not in (0, 'timeout'), 'bad-parameter', f'{k} = {v}: exit {r.rc}', r.log[-400:])
        ck.expect(not [f for f in r.files() if f.endswith('.tif')], 'bad-product', f'{k} = {v}: refused, but products were written')
    for args, rc in (([], 1), (['/nonexistent.prm'], 1), ([good.run.prm, 'surplus'], 1), (['-q'], 1), (['-i'], 0), (['-v'], 0), (['-h'], 0)):
        got, log = ck.run([ck.bin + '/force-higher-level'] + args)
        ck.count(1)
        ck.expect((got == 0) == (rc == 0), 'arguments', f'arguments {args}: exit {got}', log[-300:])
    ck.sample(dict(job=jobs[3], expected=cases[3]))
