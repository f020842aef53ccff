"""L01: Level 2 tiles partition the processed image without loss or displacement."""
import numpy as np
from level2 import *


def words(rng, ny, nx, poff):
    return [[OFF if rng.random() < poff else CLEAR for _ in range(nx)] for _ in range(ny)]


def main(ck):
    rng = ck.rng
    big = ck.thorough
    scen = []
    span = range(-4, 5) if big else range(-4, 3)
    # an image at every position relative to the grid
    scen.append(scenario('pos', 3, 3, [image(0, 0, words(rng, 4, 5, 0.15))], pos=[[x, y] for x in span for y in span]))
    # tiles of different width and height, larger images, tiles larger than the image
    for k in range(30 if big else 8):
        tx, ty = rng.choice([(2, 5), (5, 2), (7, 4), (1, 3), (4, 1), (9, 9), (6, 11)])
        ny, nx = rng.randrange(4, 14), rng.randrange(4, 14)
        p = rng.choice([0.0, 0.1, 0.5, 0.9])
        w = words(rng, ny, nx, p)
        w[ny // 2][nx // 2] = CLEAR
        scen.append(scenario(f'size{k}', tx, ty, [image(rng.randrange(-12, 12), rng.randrange(-12, 12), w)]))
    # holes the size of a tile: empty tiles inside the image are not written
    w = [[CLEAR] * 15 for _ in range(12)]
    for r in range(3, 7):
        for c in range(4, 11):
            w[r][c] = OFF
    scen.append(scenario('hole', 3, 3, [image(0, 0, w)], pos=[[0, 0], [-3, 3], [1, 0], [0, 2]]))
    # allow-lists, also with tiles outside the image and negative tile numbers
    for k in range(20 if big else 6):
        x, y = rng.randrange(-6, 3), rng.randrange(-6, 3)
        tiles = [(a, b) for a in range(x // 3 - 1, x // 3 + 5) for b in range(y // 3 - 1, y // 3 + 5)]
        scen.append(scenario(f'allow{k}', 3, 3, [image(x, y, words(rng, 8, 7, 0.2))], allow=rng.sample(tiles, rng.randrange(1, 12))))
    # parallel processing
    scen.append(scenario('threads', 4, 4, [image(-3, 2, words(rng, 10, 13, 0.1))], prm=dict(NTHREAD=4)))
    cases = behaviours(ck, scen)
    replay(ck, scen, cases)
    ck.sample(dict(scenario='pos', steps=cases[0]['steps'][0]['tiles'][:1]))
    ck.notes['images'] = len(cases)
    ck.assumptions.append('images are displaced against the grid by a fixed fraction of a pixel (0.7); exact alignment is left open because the grid origin is not exactly representable')
