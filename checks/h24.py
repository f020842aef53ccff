"""H24: change, aftereffect, trend: the series is split at its largest drop."""
from concurrent.futures import ThreadPoolExecutor
import random
import change

NONE = -9999


def main(ck):
    rng = ck.rng
    v = lambda n: sorted(rng.sample(range(-2, 13), n)) + [NONE]
    jobs = [dict(n=5, values=v(4), penalty=False, tail='TWO', conf=95, _by='Y'), dict(n=5, values=v(4), penalty=True, tail='RIGHT', conf=95, _by='Y'),
            dict(n=6, values=v(2), penalty=False, tail='LEFT', conf=90, _by='M'), dict(n=6, values=v(2), penalty=True, tail='TWO', conf=90, _by='W'),
            dict(n=4, values=v(4), penalty=False, tail='TWO', conf=90, _by='Q'), dict(n=7, values=v(2), penalty=True, tail='LEFT', conf=95, _by='Y'), dict(n=5, values=v(3), penalty=False, tail='RIGHT', conf=90, _by='D')]
    if ck.thorough:
        jobs += [dict(n=6, values=v(4), penalty=p, tail=rng.choice(['TWO', 'LEFT', 'RIGHT']), conf=95, _by=b) for p in (False, True) for b in 'YMD'] + [dict(n=8, values=v(2), penalty=p, tail='TWO', conf=95, _by='Y') for p in (False, True)]
    for j in jobs:
        j['_unit'] = rng.choice([1, 40, 150, 500])
    cases, fn = change.explore(ck, jobs)
    small = [dict(n=4, values=[1, 2, NONE], penalty=p, tail='TWO', conf=95) for p in (False, True)]
    _, tiny = change.explore(ck, small)
    ck.tlc('Change', spec='Spec', properties=['Ends'], env=dict(JOBS=tiny))
    for inv in ('NeverTie', 'AlwaysLasting'):
        ck.tlc('Change', spec='Spec', invariants=[inv], env=dict(JOBS=tiny), expect_violation=True)
    ck.bdir
    seeds = [rng.randrange(10**9) for _ in jobs]
    with ThreadPoolExecutor(4) as ex:
        runs = list(ex.map(lambda a: change.replay(ck, a[0], a[1], a[0]['_by'], random.Random(a[2]), ['CA', 'TR'] if a[2] % 2 else ['CA']), zip(jobs, cases, seeds)))
    for j, c, r in zip(jobs, cases, runs):
        change.compare_change(ck, j, c, j['_by'], r)
        ck.trace(len(c))
    change.seasons(ck, dict(penalty=False, tail='TWO', conf=95, _seed=ck.seed * 17), ['CA'])
    ck.sample(cases[0][len(cases[0]) // 3])
