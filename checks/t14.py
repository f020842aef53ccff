"""T14: training splits, weights and validates samples as requested."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
from cube import prm_text

METHODS = ['RFC', 'SVC', 'RFR', 'SVR']


def make(rng, k):
    method = METHODS[k % 4]
    classes = sorted(rng.sample(range(1, 40), rng.randint(2, 4)))
    if k % 3 == 0:
        classes = list(range(classes[0], classes[0] + len(classes)))
    n = rng.randint(30, 60) + (20 if method[0] == 'S' else 0)
    # classes take turns, some come up more often; every class is in the first dozen samples
    order = [c for c in classes for _ in range(rng.randint(1, 3))]
    rng.shuffle(order)
    resp = [order[s % len(order)] for s in range(n)]
    nf = rng.choice([1, 2, 3, 5])
    centre = {c: [rng.randint(-4, 12) * 500 for _ in range(nf - 1)] + [2500 * q - 3000] for q, c in enumerate(classes)}
    feat = [[v + rng.randint(-150, 150) for v in centre[c]] for c in resp]
    noisy = k % 3 == 0
    if noisy:       # samples that look like another class, mostly late ones
        for s in rng.sample(range(n // 4, n), n // 5):
            feat[s] = [v + rng.randint(-150, 150) for v in centre[rng.choice(classes)]]
    w = rng.choice(['EQUALIZED', 'PROPORTIONAL', 'ANTIPROPORTIONAL', 'CUSTOM'])
    m = len(classes)
    custom = {2: [[250000, 750000]], 3: [[500000, 125000, 375000]], 4: [[100000, 200000, 300000, 400000]]}[m][0]
    j = dict(method=method, n=n, m=n, resp=resp, feat=feat, cols=rng.choice([1, 2, 3]), weights=w, custom=custom, percent=rng.choice([50, 62.5, 70, 75, 90, 100] if method[0] == 'R' else [62.5, 70, 75, 90, 100]), random=rng.random() < 0.6, bad='', noisy=noisy)
    j['var'] = rng.randint(1, j['cols'])
    if k % 6 == 5:
        j['bad'] = rng.choice(['rows', 'column', 'weights'])
        if j['bad'] == 'rows':
            j['m'] = n + rng.choice([-1, 1, 5])
        elif j['bad'] == 'column':
            j['var'] = j['cols'] + 1
        else:
            j['method'], j['weights'], j['custom'] = rng.choice(['RFC', 'SVC']), 'CUSTOM', custom[:-1] if m > 2 else custom + [100000]
    return j


def run(ck, j):
    d = ck.dir('train')
    rng = np.random.RandomState(3)
    rows = [[int(v) for v in rng.randint(50, 90, j['cols'])] for _ in range(j['n'])]
    if j['var'] <= j['cols']:
        for r, c in zip(rows, j['resp']):
            r[j['var'] - 1] = c
    feat = (j['feat'] * 2)[:j['m']]
    for name, t in (('f', feat), ('r', rows)):
        open(f'{d}/{name}.txt', 'w').write(''.join(' '.join(str(v) for v in r) + '\n' for r in t))
    w = ' '.join(f'{v / 1e6:g}' for v in j['custom']) if j['weights'] == 'CUSTOM' else j['weights']
    prm = dict(FILE_FEATURES=d + '/f.txt', FILE_RESPONSE=d + '/r.txt', FILE_MODEL=d + '/m.xml', FILE_LOG=d + '/m.log', RESPONSE_VARIABLE=j['var'], PERCENT_TRAIN=j['percent'], RANDOM_SPLIT='TRUE' if j['random'] else 'FALSE',
               FEATURE_WEIGHTS=w, ML_METHOD=j['method'], RF_NTREE=60, RF_OOB_ACCURACY=0, RF_FEATURE_IMPORTANCE='FALSE')
    open(d + '/t.prm', 'w').write(prm_text('TRAIN', {k: str(v) for k, v in prm.items()}))
    rc, log = ck.run([ck.bin + '/force-train', d + '/t.prm'], timeout=120)
    t = open(d + '/m.log', errors='replace').read() if os.path.exists(d + '/m.log') else ''
    return rc, log, t, os.path.exists(d + '/m.xml')


def arrays(t):
    """(features, truth, prediction) of the training and of the validation samples; what is said about them"""
    out = []
    for part in t.split('Feature-Response Array')[1:]:
        a = [(re.findall(r'-?\d+\.\d+', l.split(':::')[0]), float(l.split(':::')[1].split('->')[0]), float(l.split('->')[1])) for l in part.splitlines() if ':::' in l]
        m = re.search(r'(OA|RMSE): *(-?\d+\.\d+)', part)
        out.append((a, float(m.group(2)) if m else None))
    return out


def main(ck):
    jobs = [make(ck.rng, k) for k in range(96 if ck.thorough else 36)]
    ck.bdir
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: run(ck, j), jobs))
    recs = []
    for j, (rc, log, t, model) in zip(jobs, res):
        s = re.findall(r'sample: (\d+), train: (\d+)', t)
        j['listed'] = [int(a) for a, b in s]
        recs.append(dict(n=j['n'], m=j['m'], cols=j['cols'], var=j['var'], response=j['resp'], classes=j['method'][2] == 'C', weights=j['weights'], custom=j['custom'], permille=round(j['percent'] * 10), random=j['random'],
                         seen=[int(a) + 1 for a, b in s if b == '1']))
    fn = ck.dir('jobs') + '/j.json'
    open(fn, 'w').write(''.join(json.dumps(r) + '\n' for r in recs))
    r = ck.tlc('Train', spec='Spec', invariants=['Sizes', 'WeightsSum'], properties=['Ends'], env=dict(JOBS=fn))
    for v in ('NoneRefused', 'All'):
        ck.tlc('Train', spec='Spec', invariants=[v], env=dict(JOBS=fn), expect_violation=True)
    want = {c['i'] - 1: c for c in r.cases}
    picks = set()
    for k, (j, (rc, log, t, model)) in enumerate(zip(jobs, res)):
        ck.count(1)
        ck.trace(1)
        e = want[k]
        what = f"{j['method']}, {j['n']} samples, {j['percent']} % for training{' at random' if j['random'] else ''}, weights {j['weights']}{', wrong ' + j['bad'] if j['bad'] else ''}"
        if e['refused']:
            ck.expect(rc not in (0, 'timeout') and not model, 'refused', f'{what}: exit {rc}' + (', a model is written' if model else ''), log[-300:])
            continue
        if not ck.expect(rc == 0 and model, 'exit', f'{what}: exit {rc}', log[-300:]):
            continue
        ck.expect(sorted(j['listed']) == list(range(j['n'])), 'listed', f"{what}: {len(j['listed'])} samples are listed")
        if not ck.expect(e['allowed'], 'split', f"{what}: {len(recs[k]['seen'])} samples are used for training instead of {e['quota']}" + ('' if j['random'] else ' (the first ones)'), recs[k]['seen']):
            continue
        if j['random'] and 0 < e['quota'] < j['n']:
            picks.add(recs[k]['seen'] == list(range(1, e['quota'] + 1)))
        parts = arrays(t)
        lists = [e['train']] + ([e['rest']] if j['percent'] < 100 else [])
        if not ck.expect(len(parts) == len(lists), 'parts', f'{what}: {len(parts)} validations instead of {len(lists)}'):
            continue
        spread = max(j['resp']) - min(j['resp'])
        for (a, score), ids, name in zip(parts, lists, ('training', 'validation')):
            truth = [j['resp'][s - 1] for s in ids]
            if not ck.expect([v for _, v, _ in a] == truth, 'order', f'{what}: responses of the {name} samples are not those of the file'):
                continue
            nf = len(j['feat'][0])
            shown = [[f for f in range(nf) if f < 3 or f > nf - 4]] * len(ids)
            ok = all(len(g) == len(fs) and all(abs(float(x) - j['feat'][s - 1][f] / 10000) < 0.0051 for x, f in zip(g, fs)) for (g, _, _), s, fs in zip(a, ids, shown))
            ck.expect(ok, 'features', f'{what}: features of the {name} samples are not those of the file')
            pred = [p for _, _, p in a]
            if recs[k]['classes']:
                good = sum(p == v for p, v in zip(pred, truth))
                ck.expect(abs(score - 100 * good / len(ids)) < 0.006, 'score', f'{what}: accuracy of {score} % is reported, but {good} of {len(ids)} {name} samples are right')
                # support vectors depend on the folds of the cross validation
                if name == 'training' and not j['noisy'] and (j['weights'] == 'EQUALIZED' or (j['method'] == 'RFC' and j['weights'] != 'CUSTOM')):
                    ck.expect(good >= (0.9 if j['method'] == 'RFC' else 0.6) * len(ids), 'learned', f'{what}: only {good} of {len(ids)} {name} samples of distinct classes are told apart')
            else:
                rmse = float(np.sqrt(np.mean((np.array(pred) - truth) ** 2)))
                ck.expect(abs(score - rmse) < 0.012, 'score', f'{what}: an error of {score} is reported instead of {rmse:.3f} ({name})')
                ck.expect(rmse < 0.5 * spread or name != 'training' or j['noisy'], 'learned', f'{what}: error of {rmse:.2f} where responses differ by {spread} ({name})')
        m = re.search(r'class weights: (.*)', t)
        got = [] if not m or m.group(1).strip() == 'NA' else [float(v) for v in m.group(1).split()]
        ck.expect(len(got) == len(e['weights']) and all(abs(g - v / 1e6) < 0.0011 for g, v in zip(got, e['weights'])), 'weights', f"{what}: weights are {got} instead of {[v / 1e6 for v in e['weights']]}")
    ck.expect(False in picks, 'random', 'random splits always take the first samples')
    ck.sample({k: v for k, v in jobs[0].items() if k != 'feat'})
