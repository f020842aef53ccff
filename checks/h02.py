"""H02: every chunk of every active tile is read, computed and written exactly once."""
import json, os
import vf
from pipe import fixed_jobs, random_jobs, predict, run_jobs


def main(ck):
    jobs = fixed_jobs() + random_jobs(ck.rng, 120 if ck.thorough else 22)
    cases = predict(ck, jobs, liveness=True)
    # the specification notices a pipeline without barrier
    fn = os.path.join(ck.dir('cfg'), 'jobs.ndjson')
    open(fn, 'w').write(json.dumps(jobs[2]) + '\n')
    r = ck.tlc('Pipeline', spec='Spec', invariants=['NoClash'], constants=dict(Barrier=False), env=dict(JOBS=fn), expect_violation=True)
    if r.violated != 'NoClash':
        raise vf.CheckError('the pipeline without barrier goes unnoticed')
    runs = run_jobs(ck, jobs, delay=lambda i: (ck.seed * 100 + i, (0, 4000, 20000)[i % 3]), trace=True, threads=lambda i: ((1, 1, 1), (2, 2, 2), (3, 2, 4))[i % 3])
    recs, who = [], []
    for j, case, run in zip(jobs, cases, runs):
        want = 0 if case['tiles'] else 1
        if want == 1:
            ck.expect(run.run.rc not in (0, 'timeout'), 'exit', f'{j["name"]}: no active tile, but exit {run.run.rc}', j)
        ck.expect(run.run.rc in (0, 1), 'exit', f'{j["name"]}: exit {run.run.rc}', dict(job=j, log=run.run.log[-500:]))
        run.compare(ck, case)
        ev = run.events(case) if case['tiles'] else None
        if ev is None:
            continue
        if 'error' in ev:
            ck.violation('trace', f'{j["name"]}: {ev["error"]}', j)
            continue
        recs.append(ev)
        who.append(j)
    if recs:
        tf = os.path.join(ck.dir('cfg'), 'traces.ndjson')
        # the units of different tiles carry different file names, the product bands are the same
        bands = {b for e in recs for b in e['bands']}
        for e in recs:
            e['bands'] = sorted(bands)
        open(tf, 'w').write(''.join(json.dumps(e) + '\n' for e in recs))
        r = ck.tlc('UnitsTrace', invariants=['Tell'], env=dict(TRACES=tf))
        done = set()
        for c in r.cases:
            if c['ok']:
                done.add(c['run'])
        for c in r.cases:
            if c['run'] not in done:
                e = recs[c['run'] - 1]
                nxt = e['ev'][c['pos'] - 1] if c['pos'] <= len(e['ev']) else 'end of the record'
                ck.violation('trace', f'{who[c["run"] - 1]["name"]}: the recorded accesses are no behaviour of the specification, stuck at {c["pos"]}: {nxt}', dict(at=c['at'], job=who[c['run'] - 1]))
        ck.trace(len(recs))
        ck.notes['recorded_events'] = sum(len(e['ev']) for e in recs)
    ck.trace(len(jobs))
    ck.sample(dict(job=jobs[7], expected=cases[7]))
