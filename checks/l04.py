"""L04: cloud cover limits decide which images and tiles are written."""
from level2 import *


def main(ck):
    rng = ck.rng
    big = ck.thorough
    scen = []
    # frame limit: cover just below, at and above the limit
    for k in range(12 if big else 6):
        ny, nx = rng.choice([(5, 5), (4, 5), (8, 5), (6, 7)])
        n = rng.randrange(1, ny * nx)
        cells = [(r, c) for r in range(ny) for c in range(nx)]
        w = [[CLEAR] * nx for _ in range(ny)]
        if k % 2:
            w[0][0] = w[0][1] = OFF
            cells = [x for x in cells if x not in ((0, 0), (0, 1))]
        for r, c in rng.sample(cells, min(n, len(cells) - 1)):
            w[r][c] = CIR
        valid = [v for row in settled(w) for v in row if not v & 1]
        pct = 100 * sum(1 for v in valid if v & 6) / len(valid)
        for lim in {max(1, int(pct) - (pct == int(pct))), min(100, int(pct) + 1), max(1, int(pct)), max(1, int(pct)) if pct == int(pct) else min(100, int(pct) + 2)}:
            scen.append(scenario(f'frame{k}-{lim}', 3, 3, [image(rng.randrange(-3, 1), rng.randrange(-3, 1), w)], maxf=lim))
    scen.append(scenario('frame-25', 5, 4, [image(0, 0, [[CIR] * 5] + [[CLEAR] * 5] * 3)], maxf=25))
    scen.append(scenario('frame-24', 5, 4, [image(0, 0, [[CIR] * 5] + [[CLEAR] * 5] * 3)], maxf=24))
    # tile limits, with partially covered tiles
    for k in range(16 if big else 6):
        w = [[rng.choice([CLEAR, CLEAR, CIR, OFF, SATW]) if rng.random() < 0.8 else CIR for _ in range(11)] for _ in range(10)]
        scen.append(scenario(f'tile{k}', 4, 4, [image(rng.randrange(-5, 3), rng.randrange(-5, 3), w)], maxt=rng.choice([1, 10, 25, 33, 50, 60, 75, 100])))
    # exact limits
    for lim in (49, 50):
        scen.append(scenario(f'exact{lim}', 4, 4, [image(0, 0, [[CIR, CLEAR] * 2] * 4)], maxt=lim))
    # second image above the limit leaves the tile alone
    a = [[CLEAR] * 6 for _ in range(6)]
    b = [[CIR if c < 3 else CLEAR for c in range(6)] for _ in range(6)]
    scen.append(scenario('second', 3, 3, [image(0, 0, a), image(0, 0, b)], length=2, maxt=40))
    scen.append(scenario('second-frame', 3, 3, [image(0, 0, a), image(0, 0, b)], length=2, maxf=40))
    cases = behaviours(ck, scen)
    assert any(s['rejected'] for c in cases for s in c['steps']) and any(s['nwrote'] for c in cases for s in c['steps'])
    replay(ck, scen, cases)
    ck.sample(dict(scenario=scen[0]['id'], limit=scen[0]['maxf'], words=scen[0]['imgs'][0]['w']))
    ck.notes['images'] = sum(len(c['steps']) for c in cases)
    ck.notes['rejected_images'] = sum(s['rejected'] for c in cases for s in c['steps'])
