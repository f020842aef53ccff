"""H06: quality screening removes exactly the observations that match a chosen rule."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from cube import Cube, Run, NODATA
from ts import ALL_COND, DEFAULT_SCREEN


def main(ck):
    rng = ck.rng
    conds = list(ALL_COND)
    sets = [list(DEFAULT_SCREEN)] + [[c] for c in conds]
    for _ in range(40 if ck.thorough else 6):
        sets.append(rng.sample(conds, rng.randrange(2, 9)))
    sets.append(conds)
    fn = os.path.join(ck.dir('cfg'), 'rules.ndjson')
    open(fn, 'w').write(''.join(json.dumps(dict(conditions=s)) + '\n' for s in sets))
    r = ck.tlc('Screening', invariants=['Irrelevant', 'Monotone'], env=dict(RULES=fn))
    keep = {(c['w'], c['data']): c['keep'] for c in r.cases}
    assert len(keep) == 65536

    n = 32768
    ncol, nrow = 256, 128
    w1 = np.arange(n)
    w2 = np.arange(n)
    rng2 = np.random.RandomState(ck.seed)
    rng2.shuffle(w2)
    d1 = np.ones(n, bool)
    d2 = rng2.rand(n) < 0.5
    v1 = rng2.randint(1, 9000, n)
    v2 = rng2.randint(1, 9000, n)
    cube = Cube(ck.dir('cube'), ncol, nrow)
    for date, w, d, v in (('20180203', w1, d1, v1), ('20180301', w2, d2, v2)):
        val = np.where(d, v, NODATA).astype('int16').reshape(nrow, ncol)
        cube.ard(0, 0, date, 'LND08', np.stack([val] * 6), w.reshape(nrow, ncol))
    exp1 = np.array([keep[(int(w), True)] for w in w1], bool)
    exp2 = np.array([keep[(int(w), bool(d))] for w, d in zip(w2, d2)], bool)
    ck.bdir

    def go(i):
        return Run(ck, 'TSA', cube.path, dict(SENSORS='LND08', DATE_RANGE='2018-01-01 2018-12-31', INDEX='RED', OUTPUT_TSS='TRUE', OUTPUT_STM='TRUE',
                                              STM='NUM MAX', SCREEN_QAI=' '.join(sets[i]), CHUNK_SIZE=f'{ncol * 10} {nrow * 10 // (1 + i % 2)}',
                                              NTHREAD_COMPUTE=2))
    with ThreadPoolExecutor(6) as ex:
        runs = list(ex.map(go, range(len(sets))))
    for i, run in enumerate(runs):
        name = '+'.join(sets[i])
        if not ck.expect(run.rc == 0, 'exit', f'exit {run.rc} with SCREEN_QAI = {name}', run.log[-500:]):
            continue
        tss, stm = run.product(0, 0, '_TSS'), run.product(0, 0, '_STM')
        if not ck.expect(tss is not None and stm is not None and tss.nb == 2 and stm.nb == 2, 'missing', f'products missing with SCREEN_QAI = {name}'):
            continue
        x1 = np.where(exp1[:, i], v1, NODATA)
        x2 = np.where(exp2[:, i], v2, NODATA)
        num = exp1[:, i].astype(int) + exp2[:, i]
        mx = np.maximum(x1, x2)
        for what, got, want in (('TSS-1', tss.data[0], x1), ('TSS-2', tss.data[1], x2), ('NUM', stm.data[0], np.where(num > 0, num, NODATA)), ('MAX', stm.data[1], mx)):
            bad = np.flatnonzero(got.reshape(-1) != want)
            if len(bad):
                ck.violation(f'{what}:{name if len(sets[i]) == 1 else "set"}', f'SCREEN_QAI = {name}: {what} wrong for {len(bad)} quality words',
                             [dict(word1=int(w1[b]), word2=int(w2[b]), has_data2=bool(d2[b]), got=int(got.reshape(-1)[b]), want=int(want[b])) for b in bad[:5]])
            ck.count(n)
        ck.trace(2 * n)
    ck.sample(dict(rules=sets[0], word=8, keep=keep[(8, True)][0]))
    ck.notes['exhaustive_words'] = True
    ck.notes['rule_sets'] = len(sets)
