"""C05: dates."""
import calendar
from concurrent.futures import ThreadPoolExecutor
import vf

GROUPS = ['DOY', 'CE', 'SET', 'TEXT', 'PARSE']
FIRSTQ = {1: 1, 2: 91, 3: 182, 4: 274}


def main(ck):
    with ThreadPoolExecutor(5) as ex:
        ck.bdir
        progs = dict(zip(GROUPS, ex.map(lambda g: vf.program(ck.bdir, 'dates', ['-DG_' + g], g), GROUPS)))
    if not any(progs.values()):
        raise vf.CheckError('no date function can be called')
    ck.notes['not called'] = [g for g in GROUPS if not progs[g]]
    lo, hi = (1600, 2400) if ck.thorough else (1900, 2101)
    r = ck.tlc('Dates', spec='Spec', invariants=['Agree'], constants=dict(From=lo, To=hi), workers=1)
    days = r.cases
    assert len(days) > 365 * (hi - lo)
    at = {(c['y'], c['m'], c['d']): c for c in days}
    first = lambda c, **k: at[(c['y'], k.get('m', c['m']), k.get('d', 1))]
    byn = {(c['y'], c['n']): c for c in days}
    inp = ''.join(f"{c['y']} {c['m']} {c['d']} {c['n']} {c['w']} {c['q']} {c['ce']}\n" for c in days)
    full = lambda c: [c['y'], c['m'], c['d'], c['n'], c['w'], c['q'], c['ce']]

    def expected(g, c):
        y, m, d, n, w, q, ce = full(c)
        if g == 'DOY':
            return [m, d, m, d, n, w, q, q, 7 * (w - 1) + 1]
        if g == 'CE':
            return [ce, ce, y, m, d, n, y, y]
        if g == 'SET':
            wk, mo, qu = byn[(y, 7 * (w - 1) + 1)], at[(y, m, 1)], byn[(y, FIRSTQ[q])]
            return full(c) * 4 + full(wk) + full(mo) + full(qu) + full(c) + [11, 22, 33]
        return [f'{y:04d}{m:02d}{d:02d}', f'{y:04d}-{m:02d}-{d:02d}T03:14:59']
    for g in GROUPS[:4]:
        if not progs[g]:
            continue
        rc, out = ck.run([progs[g]], input=inp)
        lines = out.rstrip('\n').split('\n')
        if not ck.expect(rc == 0 and len(lines) == len(days), g + ':exit', f'{g}: exit {rc}, {len(lines)} answers for {len(days)} days', out[-300:]):
            continue
        bad = 0
        for c, l in zip(days, lines):
            got = l.split()[1:]
            e = [str(v) for v in expected(g, c)]
            if got != e:
                bad += 1
                if bad <= 3:
                    pos = next((i for i, (a, b) in enumerate(zip(got, e)) if a != b), len(e))
                    ck.violation(f'{g}:{pos}', f'day {full(c)} (year month day doy week quarter ce): {g} gives {got}, expected {e}', c)
        ck.count(len(days))
        ck.trace()
    g = 'PARSE'
    if progs[g]:
        txt, exp = [], []
        rng = ck.rng
        for c in (days if ck.thorough else rng.sample(days, 8000)):
            if not 1901 <= c['y'] <= 2099:
                continue
            s = f"{c['y']:04d}{c['m']:02d}{c['d']:02d}" + rng.choice(['', '_LEVEL2_SEN2A_BOA.tif', ' x', ',1', ';a', '-b', '.tif', '#c'])
            txt.append(s)
            exp.append([1] + full(c))
        for y in range(1904, 2099, 4):      # the leap day shares its position with March 1st
            if calendar.isleap(y):
                c = at[(y, 3, 1)]
                txt.append(f'{y}0229_X')
                exp.append([1, y, 2, 29, 60, c['w'], c['q'], c['ce']])
        nul = [0] * 8
        for s in ('20181301_X', '20180001', '20180132', '20180100_a', '2018010_x', '201801011_x', 'ABCDEFGH_x', 'X_20180101', '18991231', '21010101', 'x', '20180a01x'):
            txt.append(s)
            exp.append([0])
        rc, out = ck.run([progs[g]], input=''.join(t + '\n' for t in txt))
        lines = out.rstrip('\n').split('\n')
        if ck.expect(rc == 0 and len(lines) == len(txt), 'PARSE:exit', f'PARSE: exit {rc}'):
            for t, e, l in zip(txt, exp, lines):
                got = [int(v) for v in l.split()]
                ck.expect(got[:len(e)] == e, 'PARSE:' + ('accept' if e[0] else 'refuse'), f'the date in "{t}" is read as {got}, expected {e}')
            ck.count(len(txt))
    ck.sample(days[100])
