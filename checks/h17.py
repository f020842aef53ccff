"""H17: trends follow the folded series."""
import random
from concurrent.futures import ThreadPoolExecutor
import change
from ts import replay_all


def configs(ck):
    rng = ck.rng
    out = []
    rest = dict(doy=[1, 365], method='NONE', step=16, mov=16, stm=[])
    # one observation per year: the folded series is the observation; gaps, first and last years missing
    for kind in (['MAX'] if not ck.thorough else ['MAX', 'MIN', 'NUM', 'RNG']):
        y = rng.randrange(1990, 2010)
        dates = [[y + i, rng.randrange(1, 13), rng.randrange(1, 28)] for i in range(6)]
        alt = [[['n'], ['v', rng.randrange(1, 2500)], ['v', rng.randrange(1, 2500)]] for _ in dates]
        out.append(dict(rest, nalt=3, dates=dates, alt=alt, fold=kind, emit=['FBY', 'TFBY'], **{'from': [y - 1, 1, 1], 'to': [y + 6, 12, 31]}))
    # monotone series with known slope, several observations per year, number of observations as fold
    y = 2012
    dates = [[y, 1, 5], [y, 8, 1], [y + 1, 3, 3], [y + 2, 1, 1], [y + 2, 12, 31], [y + 3, 6, 6], [y + 4, 2, 2], [y + 5, 9, 9]]
    alt = [[['f', 111], ['v', 100 + 50 * i + rng.randrange(20)]] for i in range(8)]
    for kind in ('MIN', 'NUM', 'RNG'):
        out.append(dict(rest, nalt=2, dates=dates, alt=alt, fold=kind, emit=['TFBY', 'TFBQ', 'TFBM'], **{'from': [y, 1, 1], 'to': [y + 5, 12, 31]}))
    # trends over seasons
    dates = [[2018, 1, 1], [2018, 2, 14], [2018, 4, 10], [2018, 6, 6], [2018, 8, 8], [2018, 10, 10], [2018, 11, 11], [2018, 12, 31]]
    alt = [[['n'], ['v', rng.randrange(1, 200)]] for _ in dates]
    out.append(dict(rest, nalt=2, dates=dates, alt=alt, fold='MAX', emit=['TFBQ', 'TFBM', 'TFBW', 'FBM', 'FBQ'], **{'from': [2018, 1, 1], 'to': [2018, 12, 31]}))
    dates = [[2018, 12, 24], [2018, 12, 28], [2019, 1, 2], [2019, 1, 5], [2019, 1, 9], [2019, 12, 30]]
    alt = [[['n'], ['v', rng.randrange(1, 200)], ['f', 5]] for _ in dates]
    out.append(dict({**rest, 'doy': [355, 12]}, nalt=3, dates=dates, alt=alt, fold='MAX', emit=['TFBQ', 'TFBM', 'TFBW', 'TFBD'], **{'from': [2018, 1, 1], 'to': [2019, 12, 31]}))
    # decreasing series with large gaps
    dates = [[2000, 7, 1], [2001, 7, 1], [2005, 7, 1], [2006, 7, 1], [2009, 7, 1]]
    alt = [[['n'], ['v', 3000 - 400 * i], ['v', rng.randrange(1, 3000)]] for i in range(5)]
    out.append(dict(rest, nalt=3, dates=dates, alt=alt, fold='MAX', emit=['TFBY'], **{'from': [2000, 1, 1], 'to': [2010, 12, 31]}))
    for c in out:
        # trends are computed from the folds, which need not be requested themselves
        c['emit'] = c['emit'] + [t[1:] for t in c['emit'] if t.startswith('T') and t[1:] not in c['emit']]
        c.setdefault('sensors', ['LND08'] * len(c['dates']))
    # folds that are only an intermediate step are not requested in every second configuration
    for i, c in enumerate(out):
        if i % 2:
            c['_over'] = {'OUTPUT_' + t[1:]: 'FALSE' for t in c['emit'] if t.startswith('T')}
            c['_skip'] = [t[1:] for t in c['emit'] if t.startswith('T')]
    return out


def lines(ck):
    """all parameters, for all short series of a few values"""
    rng = ck.rng
    v = lambda n: sorted(rng.sample(range(-2, 13), n)) + [-9999]
    tails, confs = ['TWO', 'LEFT', 'RIGHT'], [95, 90]
    rng.shuffle(tails)
    jobs = [dict(n=5, values=v(4), tail=tails[0], conf=95, _by='Y'), dict(n=6, values=v(2), tail=tails[1], conf=95, _by='M'), dict(n=7, values=v(2), tail=tails[2], conf=90, _by='Y'), dict(n=5, values=v(3), tail=tails[0], conf=90, _by='W')]
    if ck.thorough:
        jobs += [dict(n=6, values=v(4), tail=t, conf=c, _by=b) for t, c, b in (('TWO', 95, 'D'), ('LEFT', 90, 'Y'), ('RIGHT', 95, 'M'))] + [dict(n=8, values=v(2), tail='TWO', conf=95, _by='Y')]
    for j in jobs:
        j.update(penalty=False, _unit=rng.choice([1, 40, 150, 500]))
    cases, _ = change.explore(ck, jobs, ['Whole'])
    seeds = [rng.randrange(10**9) for _ in jobs]
    with ThreadPoolExecutor(4) as ex:
        runs = list(ex.map(lambda a: change.replay(ck, a[0], a[1], a[0]['_by'], random.Random(a[2]), ['TR']), zip(jobs, cases, seeds)))
    for j, c, r in zip(jobs, cases, runs):
        change.compare_trend(ck, j, c, j['_by'], r)
        ck.trace(len(c))
    change.seasons(ck, dict(penalty=False, tail=tails[1], conf=95, _seed=ck.seed * 19), ['TR'])


def main(ck):
    cfgs = configs(ck)
    skip = {}
    for c in cfgs:
        skip[id(c)] = c.get('_skip', [])
    import ts
    cases = ts.tlc_cases(ck, cfgs)
    ck.bdir
    reps = [ts.Replay(ck, c, cs, ck.rng, over=c.get('_over')) for c, cs in zip(cfgs, cases)]
    with ts.ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda r: r.execute(), reps))
    for r in reps:
        ck.count(r.check([e for e in r.c['emit'] if e not in r.c.get('_skip', [])]))
        ck.trace(len(r.cases))
        for e in r.c.get('_skip', []):
            ck.expect(r.product(e) is None, 'unrequested', f'{e} was written although it was not requested')
    lines(ck)
    for r in reps[:2]:
        k = len(r.cases) - 3
        ck.sample(dict(dates=r.c['dates'], obs=[r.c['alt'][t][o - 1] for t, o in enumerate(r.cases[k]['obs'])], trend=r.cases[k]['trend']))
