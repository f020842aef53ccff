"""H07: interpolated series honour the observations."""
from ts import kernels, replay_all


def configs(ck):
    rng = ck.rng
    out = []

    def dates_at(base, gaps):
        # days counted from January 1st in the 365-day calendar
        cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
        res, x = [], base
        for g in gaps:
            x += g
            y, d = x // 365, x % 365 + 1
            m = max(i for i in range(12) if cum[i] < d)
            res.append([2018 + y, m + 1, d - cum[m]])
        return res

    base = dict(nalt=3, doy=[1, 365], stm=[], fold='AVG', emit=['TSS', 'TSI'])
    nt = 6
    for method, step, mov in (('LINEAR', 8, 16), ('MOVING', 7, 20), ('MOVING', 16, 16), ('NONE', 16, 16), ('LINEAR', 1, 16), ('LINEAR', 5, 3), ('MOVING', 3, 1), ('RBF', 7, 1), ('RBF', 4, 1), ('RBF', 5, 1)):
        gaps = [rng.choice([0, 1, 3, 8, 10, 15, 16, 20]) for _ in range(nt)]
        gaps[0] = rng.randrange(0, 30)
        for i in range(1, nt):
            gaps[i] = max(1, gaps[i])
        if rng.random() < 0.4:
            gaps[0] = rng.randrange(330, 364)        # around the new year
        d = dates_at(0, gaps)
        sensors = ['LND08'] * nt
        start = [d[0][0], 1, 1]
        end = [d[-1][0], 12, 31] if step > 1 else list(d[-1])
        if rng.random() < 0.5:
            start = list(d[0])
            if rng.random() < 0.5:
                end = list(d[-1])
        alt = [[['n'], ['v', rng.randrange(1, 3000)], ['f', rng.randrange(1, 3000)]] for _ in range(nt)]
        for t in range(nt):
            if rng.random() < 0.5:
                alt[t][2] = ['g', rng.randrange(1, 3000)]
        more = {}
        if method == 'RBF':
            sig, cut = {7: ([8, 16, 32], 0.95), 4: ([rng.randrange(4, 12)], rng.choice([0.5, 0.8, 0.95])), 5: ([4, 20], 0.9)}[step]
            more = dict(_sigma=sig, _cutoff=cut, kern=kernels(sig, cut))
        out.append(dict(base, dates=d, sensors=sensors, alt=alt, method=method, step=step, mov=mov, **{'from': start, 'to': end}, **more))
    # two sensors on the same day
    d = dates_at(0, [20, 14, 0, 9, 30])
    alt = [[['n'], ['v', rng.randrange(1, 3000)], ['f', 7]] for _ in range(5)]
    for method in ('LINEAR', 'MOVING'):
        out.append(dict(base, dates=d, sensors=['LND08', 'LND08', 'LND09', 'LND08', 'LND08'], alt=alt, method=method, step=10, mov=12, **{'from': [2018, 1, 1], 'to': [2018, 4, 30]}))
    if ck.thorough:
        for k in range(20):
            nt = 7
            gaps = [rng.randrange(0, 200)] + [rng.randrange(1, 40) for _ in range(nt - 1)]
            d = dates_at(0, gaps)
            out.append(dict(base, dates=d, sensors=['LND08'] * nt, alt=[[['n'], ['v', rng.randrange(1, 9000)], ['f', 9]] for _ in range(nt)],
                            method=rng.choice(['LINEAR', 'MOVING', 'NONE']), step=rng.randrange(1, 30), mov=rng.randrange(1, 60),
                            **{'from': [2018, 1, 1], 'to': [d[-1][0], 12, 31]}))
    return out


def main(ck):
    replay_all(ck, configs(ck))
