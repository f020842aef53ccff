"""L03: Level 2 quality bits describe the image."""
from level2 import *

DN = dict(zero=0, low=4000, over=52000, full=SAT)


def main(ck):
    r = ck.tlc('PixelQuality', constants=dict(MaxUnusual=3 if ck.thorough else 2), invariants=['MoreIsWorse', 'Monotone'])
    cases = r.cases
    ck.rng.shuffle(cases)
    ck.bdir
    side = int(math.ceil(math.sqrt(len(cases)))) + 4
    # two rings of ordinary pixels around the cases, which touch each other: one pixel must not influence another
    pos = [(2 + i // (side - 4), 2 + i % (side - 4)) for i in range(len(cases))]
    f0 = 1 / cos_sun()
    for mode, prm in (('toa', dict()), ('toa-threads', dict(NTHREAD=4)), ('buffer', dict(BUFFER_NODATA='TRUE')), ('boa', dict(DO_ATMO='TRUE', OUTPUT_DST='TRUE'))):
        w = [[CLEAR] * side for _ in range(side)]
        a = dns(w, 0)
        for (r_, c_), c in zip(pos, cases):
            for b, k in c['px'].items():
                if k != 'usual':
                    a[b][r_, c_] = DN[k]
        if mode == 'boa':       # dark pixels: negative after atmospheric correction
            for j in range(side - 4):
                for b in OUTB:
                    a[b][side - 2, 2 + j] = 5050 + 40 * j
        # cut into several tiles
        cube = L2Cube(ck, side // 2 + 1, side // 3 + 1, **prm)
        rc, log = cube.process(a, *ul_of(0, 0))
        if not ck.expect(rc == 0, 'exit', f'{mode}: exit {rc}', log[-400:]):
            continue
        name = 'BOA' if mode == 'boa' else 'TOA'
        q, t = cube.tiles('QAI'), cube.tiles(name)
        if not ck.expect(len(q) == 6 and len(t) == 6, 'tiles', f'{mode}: {len(q)}/{len(t)} tiles instead of 6'):
            continue
        Q = np.block([[q[(x, y)].data[0] for x in range(2)] for y in range(3)])[:side, :side].astype(int)
        T = np.concatenate([np.concatenate([t[(x, y)].data for x in range(2)], axis=2) for y in range(3)], axis=1)[:, :side, :side].astype(int)
        off, sat, sub, low = Q & 1, Q >> 9 & 1, Q >> 8 & 1, Q >> 10 & 1
        ck.expect(((T == -9999).all(0) == (off == 1)).all() and ((T == -9999).any(0) == (off == 1)).all(), 'agree', f'{mode}: quality and reflectance disagree about valid pixels')
        ck.expect(not (Q[off == 1] != 1).any(), 'exclusive', f'{mode}: nodata pixels carry further flags')
        ck.expect((Q >= 0).all(), 'word', f'{mode}: negative quality words')
        if mode != 'boa':
            ck.expect(not (Q & 0b0111100111000000 & ~(1 << 10)).any(), 'own-bits', f'{mode}: fields that do not apply are set: {sorted(set((Q & 0b0111100111000000).reshape(-1).tolist()))}')
        ck.expect(not low.any(), 'lowsun', f'{mode}: low sun is flagged at a zenith of 32 degrees')
        ck.expect(((T < 0) & (T > -9999)).any(0).sum() == 0 or mode == 'boa', 'negative', f'{mode}: negative reflectance in a valid pixel')
        neg, pos1 = (T < 0).any(0) & (off == 0), (T > 10000).any(0)
        edge = (T == 0).any(0) | (T == 10000).any(0)
        bad = (sub != neg) & ~edge & (off == 0)
        ck.expect(not bad.any(), 'subzero', f'{mode}: sub-zero flag of {int(bad.sum())} pixels does not agree with the reflectance', np.argwhere(bad)[:3].tolist())
        if mode == 'boa':
            ck.notes['negative_pixels'] = int(neg.sum())
        dnstack = np.stack([a[b] for b in OUTB])
        want = rho(dnstack)
        fac = float(np.median(T[3, 2:-2, :2] / want[3, 2:-2, :2])) if mode != 'boa' else None
        if fac:
            ck.expect(0.995 < fac / f0 < 1.005, 'calibration', f'{mode}: reflectance is off by a factor of {fac / f0:.4f}')
        buf = np.zeros((side, side), bool)
        for (r_, c_), c in zip(pos, cases):
            if any(k == 'zero' and b != '9' for b, k in c['px'].items()):
                buf[r_ - 1:r_ + 2, c_ - 1:c_ + 2] = True
        for (r_, c_), c in zip(pos, cases):
            un = {b: k for b, k in c['px'].items() if k != 'usual'}
            if mode == 'buffer' and not c['off'] and buf[r_, c_]:
                continue
            ck.count()
            if bool(off[r_, c_]) != c['off']:
                ck.violation('off', f'{mode}: pixel with {un} is flagged {"nodata" if off[r_, c_] else "valid"}', dict(word=int(Q[r_, c_]), refl=T[:, r_, c_].tolist()))
                continue
            if mode != 'boa':
                if bool(sat[r_, c_]) != c['sat']:
                    ck.violation('saturation', f'{mode}: pixel with {un} is flagged {"saturated" if sat[r_, c_] else "not saturated"}', int(Q[r_, c_]))
                if not c['off']:
                    d = np.abs(T[:, r_, c_] - want[:, r_, c_] * fac)
                    ck.expect((d < 2.6 + want[:, r_, c_] * 5e-4).all(), 'value', f'{mode}: reflectance {T[:, r_, c_].tolist()} instead of {(want[:, r_, c_] * fac).round(1).tolist()} for {un}')
            elif not c['off']:
                full = any(k == 'full' and b != '10' for b, k in c['px'].items())
                ck.expect(bool(sat[r_, c_]) == (full or bool(pos1[r_, c_])) or edge[r_, c_], 'saturation', f'{mode}: pixel with {un} and reflectance {T[:, r_, c_].tolist()}: saturation {sat[r_, c_]}')
        ck.trace(len(cases))
        # ordinary pixels far from anything
        ring = np.zeros((side, side), bool)
        ring[:1], ring[-1:], ring[:, :1], ring[:, -1:] = True, True, True, True
        if mode == 'buffer':
            # nodata grows by one pixel: direct neighbours go, pixels more than one step away stay
            zero = np.zeros((side, side), bool)
            for (r_, c_), c in zip(pos, cases):
                zero[r_, c_] = any(k == 'zero' and b != '9' for b, k in c['px'].items())
            four = zero.copy()
            four[1:] |= zero[:-1]; four[:-1] |= zero[1:]; four[:, 1:] |= zero[:, :-1]; four[:, :-1] |= zero[:, 1:]
            ck.expect(off[four].all(), 'buffer', 'BUFFER_NODATA leaves neighbours of nodata pixels')
            calc = np.zeros((side, side), bool)
            for (r_, c_), c in zip(pos, cases):
                calc[r_, c_] = c['off']
            ck.expect(not off[~buf & ~calc & ~ring].any(), 'buffer', 'BUFFER_NODATA removes pixels that are not next to nodata')
        else:
            ck.expect(not off[ring].any(), 'off', f'{mode}: ordinary pixels flagged as nodata')
    # low sun: zenith above 75 degrees
    for hours, want in ((9.75, None), (9.2, 1), (11.0, 0), (8.6, 1), (10.6, 0)):
        z = math.degrees(math.acos(cos_sun('2018-12-10', hours)))
        if want is None:
            continue
        assert (z > 75.3) == bool(want) and abs(z - 75) > 0.3, (hours, z)
        a = dns([[CLEAR] * 6 for _ in range(6)], 0)
        cube = L2Cube(ck, 6, 6)
        rc, log = cube.process(a, *ul_of(0, 0), date='2018-12-10', time='%02d:%02d:00.0000000Z' % (int(hours), round(hours % 1 * 60)))
        if ck.expect(rc == 0, 'exit', f'sun zenith {z:.1f}: exit {rc}', log[-300:]):
            q = cube.tiles('QAI', date='20181210')
            ck.expect((0, 0) in q and (((q[(0, 0)].data[0] >> 10) & 1) == want).all(), 'lowsun', f'low sun flag at a zenith of {z:.1f} degrees is wrong')
        ck.trace()
    ck.sample(dict(pixel={b: k for b, k in cases[0]['px'].items() if k != 'usual'}, off=cases[0]['off'], saturated=cases[0]['sat']))
    ck.notes['pixels'] = len(cases)
