"""L02: same-day images of one sensor merge into a tile without losing valid data."""
from level2 import *


def words(rng, ny, nx, kinds):
    return [[rng.choice(kinds) for _ in range(nx)] for _ in range(ny)]


def any_word(rng):
    return OFF if rng.random() < 0.2 else rng.randrange(0, 32768) & ~1


def main(ck):
    rng = ck.rng
    big = ck.thorough
    scen = []
    kinds = [CLEAR, CLEAR, CLEAR, OFF, CIR, SATW, CIR | SATW]
    # all orders of three overlapping images
    for k in range(8 if big else 3):
        imgs = [image(rng.randrange(-4, 2), rng.randrange(-4, 2), words(rng, rng.randrange(5, 8), rng.randrange(5, 8), kinds)) for _ in range(3)]
        scen.append(scenario(f'order{k}', 4, 3, imgs, length=3))
    # two images, processed again and again
    for k in range(3 if big else 1):
        imgs = [image(rng.randrange(-4, 1), rng.randrange(-4, 1), words(rng, 6, 6, kinds)) for _ in range(2)]
        scen.append(scenario(f'again{k}', 3, 4, imgs, length=3, once=False))
    # disjoint images, images with (almost) no data
    hole = words(rng, 5, 5, [OFF])
    hole[2][2] = CLEAR
    scen.append(scenario('sparse', 5, 5, [image(0, 0, hole), image(0, 0, words(rng, 5, 5, [CLEAR])), image(6, 1, words(rng, 5, 5, [CLEAR, CLEAR, SATW]))], length=3))
    # a tile with arbitrary quality words is already there
    for k in range(12 if big else 4):
        tx, ty = 12, 10
        pw = [[any_word(rng) for _ in range(tx)] for _ in range(ty)]
        if k == 0:      # every field alone at every value
            single = [v << lo for lo, n in ((1, 2), (3, 1), (4, 1), (5, 1), (6, 2), (8, 1), (9, 1), (10, 1), (11, 2), (13, 1), (14, 1)) for v in range(1, 2 ** n)]
            for j, v in enumerate(single):
                pw[j // tx + 2][j % tx] = v
        iw = words(rng, ty, tx, kinds if k else [CLEAR])
        for r in range(ty):
            for c in range(tx):
                if (pw[r][c] >> 1) & 3 == 2 and iw[r][c] & 6:
                    iw[r][c] &= ~6      # which of opaque cloud and cirrus is more restrictive is left open
        x, y = rng.choice([(0, 0), (-1, 2), (2, -1)])
        scen.append(scenario(f'there{k}', tx, ty, [image(x * tx, y * ty, pw, pre=True), image(x * tx, y * ty, iw)], length=2))
    cases = behaviours(ck, scen)
    cases = [c for c in cases if len(scen) and not any(s['id'] == c['id'] and s['imgs'][0]['pre'] and c['steps'][0]['img'] != 1 for s in scen)]
    replay(ck, scen, cases)
    ck.sample(dict(scenario=cases[0]['id'], order=[s['img'] for s in cases[0]['steps']]))
    ck.notes['behaviours'] = len(cases)
