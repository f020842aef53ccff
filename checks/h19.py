"""H19: standardised products are centred or normalised per pixel, after everything else."""
from ts import replay_all


def configs(ck):
    rng = ck.rng
    out = []
    rest = dict(doy=[1, 365], method='NONE', step=16, mov=16, stm=['AVG', 'NUM', 'MAX'])
    methods = ['CENTER', 'NORMALIZE', 'NONE']
    dates = [[2017, 12, 31], [2018, 1, 1], [2018, 2, 28], [2018, 3, 1], [2018, 12, 31], [2019, 6, 30]]
    for i in range(9 if ck.thorough else 4):
        alt = [[['n'], ['v', rng.randrange(1, 2500)], [rng.choice('fv'), rng.randrange(1, 2500)]] for _ in dates]
        std = [methods[i % 3 if i < 3 else rng.randrange(3)], methods[(i + 1) % 3], methods[(i + 2 + i // 3) % 3]]
        out.append(dict(rest, nalt=3, dates=dates, alt=alt, fold=rng.choice(['MIN', 'MAX', 'NUM']), std=std,
                        emit=['TSS', 'TSI', 'STM', 'FBY', 'FBQ', 'FBM'] + (['FBW', 'FBD'] if i % 2 else ['TFBY']), **{'from': [2017, 6, 1], 'to': [2019, 12, 31]}))
    # an interpolated series
    dates = [[2018, 1, 1], [2018, 1, 11], [2018, 1, 31], [2018, 3, 2], [2018, 4, 1]]
    for std in (['NONE', 'CENTER', 'NORMALIZE'], ['CENTER', 'NORMALIZE', 'CENTER']):
        alt = [[['n'], ['v', 360 * rng.randrange(0, 8)], ['v', 360 * rng.randrange(1, 8)]] for _ in range(5)]
        out.append(dict({**rest, 'method': 'LINEAR', 'step': 10, 'mov': 5}, nalt=3, dates=dates, alt=alt, fold='MAX', std=std, emit=['TSS', 'TSI', 'STM', 'FBY', 'FBQ', 'FBM'],
                        **{'from': [2018, 1, 1], 'to': [2018, 5, 30]}))
    for c in out:
        c.setdefault('sensors', ['LND08'] * len(c['dates']))
    return out


def main(ck):
    replay_all(ck, configs(ck), workers=4)
