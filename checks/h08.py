"""H08: temporal statistics and folds aggregate exactly the values of their period."""
from ts import replay_all

STATS = ['NUM', 'MIN', 'MAX', 'RNG', 'AVG', 'STD', 'SKW', 'KRT', 'IQR', 'Q05', 'Q10', 'Q25', 'Q33', 'Q50', 'Q75', 'Q90', 'Q99']


def configs(ck):
    rng = ck.rng
    out = []

    def alts(nt, hi=2500, mult=1, third='f'):
        return [[['n'], ['v', mult * rng.randrange(1, hi // mult)], [third, mult * rng.randrange(1, hi // mult)]] for _ in range(nt)]

    # all statistics of a screened series, in a seeded order of bands
    order = [s for s in STATS if s not in ('SKW', 'KRT')]
    rng.shuffle(order)
    dates = [[2017, 12, 31], [2018, 1, 1], [2018, 2, 28], [2018, 3, 1], [2018, 12, 31], [2019, 6, 30]]
    rest = dict(doy=[1, 365], method='NONE', step=16, mov=16)
    out.append(dict(rest, nalt=3, dates=dates, alt=alts(6, third='v'), stm=order, fold='NUM', emit=['STM', 'FBY', 'FBQ', 'FBM', 'FBW', 'FBD'],
                    **{'from': [2017, 6, 1], 'to': [2019, 12, 31]}))
    sub = rng.sample(STATS, 5)
    sub = [s for s in sub if s not in ('SKW', 'KRT')] or ['AVG']
    out.append(dict(rest, nalt=2, dates=[[2018, 1, 7], [2018, 1, 8], [2018, 4, 1], [2018, 7, 1], [2018, 10, 1], [2018, 12, 24], [2018, 12, 25], [2018, 12, 31]],
                    alt=[a[:2] for a in alts(8)], stm=sub, fold='MAX', emit=['STM', 'FBY', 'FBQ', 'FBM', 'FBW'], **{'from': [2018, 1, 1], 'to': [2018, 12, 31]}))
    # moments of small values
    out.append(dict(rest, nalt=3, dates=[[2018, 5, d] for d in (1, 4, 9, 20, 30)], alt=[[['n'], ['v', rng.randrange(0, 9)], ['v', rng.randrange(9, 20)]] for _ in range(5)],
                    stm=['KRT', 'NUM', 'SKW', 'AVG'], fold='SKW', emit=['STM', 'FBM'], **{'from': [2018, 1, 1], 'to': [2018, 12, 31]}))
    out.append(dict(rest, nalt=3, dates=[[2018, 5, d] for d in (1, 4, 9, 20)] + [[2018, 6, 1]], alt=[[['n'], ['v', rng.randrange(0, 9)], ['v', rng.randrange(9, 20)]] for _ in range(5)],
                    stm=['SKW'], fold='KRT', emit=['STM', 'FBY', 'FBM'], **{'from': [2018, 1, 1], 'to': [2018, 12, 31]}))
    # every fold type over a few observations in several periods, day range that wraps around the new year
    kinds = ['MIN', 'MAX', 'RNG', 'AVG', 'STD', 'IQR', 'Q25', 'Q50', 'Q90', 'NUM']
    rng.shuffle(kinds)
    for i, kind in enumerate(kinds if ck.thorough else kinds[:6]):
        wrap = i % 2 == 0
        y = 2015 + i
        if wrap:
            dates = [[y, 1, 1], [y, 1, 31], [y, 2, 1], [y, 11, 30], [y, 12, 31], [y + 1, 1, 1], [y + 1, 12, 1]]
            doy = [335 - rng.randrange(3) * 7, 32 + rng.randrange(3) * 9]
            dates[3] = [y, 12, 25]
        else:
            dates = [[y, 4, 30], [y, 5, 1], [y, 6, 30], [y, 7, 1], [y + 1, 4, 30], [y + 1, 9, 30], [y + 2, 5, 1]]
            doy = [100, 280]
        out.append(dict({**rest, 'doy': doy}, nalt=2, dates=dates, alt=[a[:2] for a in alts(7)], stm=['AVG'], fold=kind, emit=['FBY', 'FBQ', 'FBM', 'FBW', 'FBD'],
                        **{'from': [y, 1, 1], 'to': [y + 3, 12, 31]}))
    # statistics of an interpolated series (values chosen so that the series is integer)
    dates = [[2018, 1, 1], [2018, 1, 11], [2018, 1, 31], [2018, 3, 2], [2018, 4, 1]]       # gaps 10, 20, 30, 30
    alt = [[['n'], ['v', 360 * rng.randrange(0, 9)], ['v', 360 * rng.randrange(1, 9)]] for _ in range(5)]
    out.append(dict({**rest, 'method': 'LINEAR', 'step': 10, 'mov': 5}, nalt=3, dates=dates, alt=alt, stm=['NUM', 'Q50', 'MAX', 'AVG', 'MIN'], fold='MAX',
                    emit=['TSI', 'STM', 'FBY', 'FBQ', 'FBM'], **{'from': [2018, 1, 1], 'to': [2018, 5, 30]}))
    alt = [[['n'], ['v', 60 * rng.randrange(1, 40)], ['v', 60 * rng.randrange(1, 40)]] for _ in range(5)]
    out.append(dict({**rest, 'method': 'MOVING', 'step': 16, 'mov': 25}, nalt=3, dates=dates, alt=alt, stm=['RNG', 'Q25', 'STD'], fold='AVG',
                    emit=['STM', 'FBY', 'FBQ', 'FBM', 'FBW'], **{'from': [2018, 1, 1], 'to': [2019, 2, 20]}))
    for c in out:
        c.setdefault('sensors', ['LND08'] * len(c['dates']))
    return [dict(c) for c in out]



def main(ck):
    replay_all(ck, configs(ck), workers=6)
