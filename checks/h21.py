"""H21: machine-learning predictions blend the given models."""
import json, os
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from cube import Cube, Run, NODATA

NF, NCOL, NROW = 4, 20, 10
LABELS = [1, 3, 7, 12]


def tree(rng, leaves, depth):
    return dict(rules=[dict(var=int(rng.integers(1, NF + 1)), cut=int(rng.integers(-1, 9)) * 1000 + 500, value=int(rng.choice(leaves))) for _ in range(depth)], default=int(rng.choice(leaves)))


def forest(rng, leaves, ntree):
    return [tree(rng, leaves, int(rng.integers(1, 4))) for _ in range(ntree)]


def xml(model, classes):
    """the forest as a model file"""
    o = ['<?xml version="1.0"?>', '<opencv_storage>', '<opencv_ml_rtrees>', '<format>3</format>', f'<is_classifier>{int(bool(classes))}</is_classifier>', f'<var_all>{NF + 1}</var_all>', f'<var_count>{NF}</var_count>',
         f'<ord_var_count>{NF + (not classes)}</ord_var_count>', f'<cat_var_count>{int(bool(classes))}</cat_var_count>',
         '<training_params><use_surrogates>0</use_surrogates><max_categories>10</max_categories><regression_accuracy>0.01</regression_accuracy><max_depth>5</max_depth>'
         '<min_sample_count>1</min_sample_count><cross_validation_folds>0</cross_validation_folds><nactive_vars>2</nactive_vars></training_params>',
         '<global_var_idx>1</global_var_idx>', '<var_idx>' + ' '.join(str(i) for i in range(NF)) + '</var_idx>', '<var_type>' + ' '.join(['0'] * NF) + f' {int(bool(classes))}</var_type>',
         '<cat_ofs>' + ' '.join(['0'] * 2 * NF) + '</cat_ofs>']
    if classes:
        o.append('<class_labels>' + ' '.join(str(LABELS[c]) for c in range(classes)) + '</class_labels>')
    o += ['<missing_subst>' + ' '.join(['0.'] * (NF + 1)) + '</missing_subst>', '<oob_error>0.</oob_error>', f'<ntrees>{len(model)}</ntrees>', '<trees>']

    def node(depth, v, split=None):
        s = f'<_><depth>{depth}</depth>' + (f'<value>{LABELS[v - 1]}.</value><norm_class_idx>{v - 1}</norm_class_idx>' if classes else f'<value>{float(v)!r}</value>')
        if split:
            s += f'<splits><_><var>{split["var"] - 1}</var><quality>1.</quality><le>{split["cut"] / 10000!r}</le></_></splits>'
        return s + '</_>'
    for t in model:
        o.append('<_><nodes>')
        for d, r in enumerate(t['rules']):
            o += [node(d, r['value'], r), node(d + 1, r['value'])]
        o += [node(len(t['rules']), t['default']), '</nodes></_>']
    return '\n'.join(o + ['</trees>', '</opencv_ml_rtrees></opencv_storage>', ''])


def configs(rng, thorough):
    out = []
    regress = lambda sets, conv, scale, leaves=range(-30, 60): dict(kind='regression', classes=0, conv=conv, scale=scale, sets=[[forest(rng, list(leaves), int(rng.choice([1, 2, 4]))) for _ in range(n)] for n in sets])
    classify = lambda sets, classes, trees, conv=(0, 1): dict(kind='classification', classes=classes, conv=conv, scale=1, sets=[[forest(rng, range(1, classes + 1), t) for t in ts] for ts in sets])
    out += [regress([1], (0, 1), 100), regress([4, 1, 3], (0, 1), 1000), regress([6, 8], (4, 1), 100), regress([5, 2, 7], (5, 2), 250), regress([3], (1000, 1), 10),
            regress([3, 2], (0, 1), 10000, range(-60, 60))]
    out += [classify([[3, 5, 3]], 3, 0), classify([[5]], 2, 0), classify([[4, 4], [3], [2, 5, 5, 1]], 4, 0), classify([[2], [4, 2]], 2, 0), classify([[6, 6, 6]], 3, 0)]
    if thorough:
        for _ in range(6):
            out.append(regress([int(rng.integers(1, 9)) for _ in range(int(rng.integers(1, 4)))], [(0, 1), (1, 1), (3, 1), (7, 2)][int(rng.integers(0, 4))], 100))
            out.append(classify([[int(rng.integers(1, 7)) for _ in range(int(rng.integers(1, 5)))] for _ in range(int(rng.integers(1, 4)))], int(rng.integers(2, 5)), 0))
    return out


def world(ck, rng):
    """features of 200 pixels; some lack values, some are masked"""
    x = rng.integers(-1, 10, (NF, NROW, NCOL)) * 1000
    ok = rng.random((NF, NROW, NCOL)) > 0.04
    x = np.where(ok, x, NODATA).astype('int16')
    mask = (rng.random((NROW, NCOL)) > 0.1).astype('uint8')
    cube = Cube(ck.dir('cube'), NCOL, NROW)
    cube.image(0, 0, 'A.tif', x[:2])
    cube.image(0, 0, 'B.tif', x[2:])
    m = Cube(ck.dir('mask'), NCOL, NROW)
    m.image(0, 0, 'M.tif', mask[None].astype('int16'))
    return dict(x=x.reshape(NF, -1), ok=ok.reshape(NF, -1), mask=mask.reshape(-1), cube=cube, maskdir=m.path)


def run(ck, w, c, ci, exclude, masked, rfp):
    d = ck.dir('model')
    files = []
    for si, s in enumerate(c['sets']):
        for mi, m in enumerate(s):
            open(f'{d}/s{si}m{mi}.xml', 'w').write(xml(m, c['classes']))
        files.append(' '.join(f's{si}m{mi}.xml' for mi in range(len(s))))
    over = dict(DIR_MODEL=d, FILE_MODEL=files, ML_METHOD='RFC' if c['classes'] else 'RFR', ML_SCALE=c['scale'], ML_CONVERGENCE=c['conv'][0] / c['conv'][1] / 4, OUTPUT_MLP='TRUE', OUTPUT_MLI='TRUE',
                OUTPUT_MLU='TRUE' if not c['classes'] else 'FALSE', OUTPUT_RFP='TRUE' if rfp in (1, 2) else 'FALSE', OUTPUT_RFM='TRUE' if rfp in (1, 3) else 'FALSE', FEATURE_EXCLUDE='TRUE' if exclude else 'FALSE',
                RESOLUTION=10, CHUNK_SIZE=f'{NCOL * 10} {NROW * 10 if ci % 2 else NROW * 5}', NTHREAD_COMPUTE=3)
    if masked:
        over.update(DIR_MASK=w['maskdir'], BASE_MASK='M.tif')
    return Run(ck, 'ML', w['cube'].path, over, features=['A.tif 1 2', 'B.tif 1 2'])


def main(ck):
    rng = np.random.default_rng(ck.seed * 77)
    w = world(ck, rng)
    cfgs = configs(rng, ck.thorough)
    npx = NCOL * NROW
    take = list(range(npx)) if ck.thorough else list(range(0, npx, 2))
    d = ck.dir('cfg')
    with open(d + '/c.ndjson', 'w') as f:
        for c in cfgs:
            f.write(json.dumps(c) + '\n')
    index = []
    with open(d + '/p.ndjson', 'w') as f:
        for ci in range(len(cfgs)):
            for p in take:
                if w['ok'][:, p].all():
                    index.append((ci, p))
                    f.write(json.dumps(dict(cfg=ci + 1, x=w['x'][:, p].tolist())) + '\n')
    env = dict(CONFIGS=d + '/c.ndjson', PIXELS=d + '/p.ndjson')
    ck.bdir
    jobs = []
    for ci, c in enumerate(cfgs):
        jobs.append((ci, True, ci % 2 == 0, 1 if c['classes'] else 0))
        if c['classes']:
            jobs.append((ci, False, False, ci % 4))
    with ThreadPoolExecutor(4) as ex:
        runs = [ex.submit(run, ck, w, cfgs[ci], ci, e, m, r) for ci, e, m, r in jobs]
        r = ck.tlc('Learn', spec='Spec', invariants=['Within', 'AllVote', 'EnoughUsed'], properties=['Ends'], env=env)
        for inv in ('AllUsed', 'NoTie'):
            ck.tlc('Learn', spec='Spec', invariants=[inv], env=env, expect_violation=True)
        runs = [x.result() for x in runs]
    want = {}
    for c in r.cases:
        ci, p = index[c['px'] - 1]
        want[ci, p, c['set'] - 1] = c
    for (ci, exclude, masked, rfp), x in zip(jobs, runs):
        c = cfgs[ci]
        what = f'{c["kind"]}, models per set {[len(s) for s in c["sets"]]}, trees {[[len(m) for m in s] for s in c["sets"]]}, convergence {c["conv"][0] / c["conv"][1] / 4}, scale {c["scale"]}'
        if not ck.expect(x.rc == 0, 'exit', f'{what}: exit {x.rc}', x.log[-400:]):
            continue
        names = ['MLP', 'MLI'] + (['MLU'] if not c['classes'] else []) + (['RFP'] if rfp in (1, 2) else []) + (['RFM'] if rfp in (1, 3) else [])
        prod = {n: x.product(0, 0, '_' + n) for n in names}
        if not ck.expect(all(prod[n] is not None for n in names), 'missing', f'{what}: products {[n for n in names if prod[n] is None]} are missing'):
            continue
        for n in ('MLU', 'RFP', 'RFM'):
            if n not in names:
                ck.expect(not [f for f in x.files() if f'_{n}' in os.path.basename(f)], 'unrequested', f'{what}: {n} was written although it was not requested')
        ns = len(c['sets'])
        ok = True
        for n in names:
            nb = ns * c['classes'] if n == 'RFP' else ns
            ok &= ck.expect(prod[n].nb == nb, 'bands', f'{what}: {n} has {prod[n].nb} bands instead of {nb}')
        if not ok:
            continue
        flat = {n: prod[n].data.reshape(prod[n].nb, -1) for n in names}
        # nothing is predicted where the mask or a missing feature forbids it
        blank = np.zeros(npx, bool)
        if masked:
            blank |= w['mask'] == 0
        if exclude:
            blank |= ~w['ok'].all(axis=0)
        for n in names:
            bad = np.argwhere(flat[n][:, blank] != NODATA)
            ck.expect(len(bad) == 0, 'blank', f'{what}: {n} has values where the pixel is masked or a feature is missing')
        for p in take:
            if blank[p] or not w['ok'][:, p].all():
                continue
            for s in range(ns):
                e = want[ci, p, s]
                at = f'{what}: set {s + 1}, features {w["x"][:, p].tolist()}'
                if c['kind'] == 'regression':
                    if e['unclear']:
                        continue
                    n = e['used']
                    mean = min(32767, max(-32768, e['sum'] / 4 / n * c['scale']))
                    ck.expect(flat['MLI'][s, p] == n, 'models', f'{at}: {flat["MLI"][s, p]} models are blended, expected {n}', e)
                    ck.expect(abs(flat['MLP'][s, p] - mean) <= 1, 'prediction', f'{at}: prediction {flat["MLP"][s, p]}, expected {mean}', e)
                    if n > 1:
                        sd = min(32767, 10000 * (max(0, n * e['squares'] - e['sum'] ** 2) / (16 * n * (n - 1))) ** 0.5)
                        ck.expect(abs(flat['MLU'][s, p] - sd) <= 1.01, 'uncertainty', f'{at}: uncertainty {flat["MLU"][s, p]}, expected {sd}', e)
                else:
                    ck.expect(flat['MLI'][s, p] == len(c['sets'][s]), 'models', f'{at}: {flat["MLI"][s, p]} models are blended, expected {len(c["sets"][s])}', e)
                    if not e['unclear']:
                        ck.expect(int(flat['MLP'][s, p]) in [LABELS[k - 1] for k in e['class']], 'class', f'{at}: class {flat["MLP"][s, p]}, expected one of {[LABELS[k - 1] for k in e["class"]]}', e)
                    if 'RFP' in flat:
                        got = flat['RFP'][s * c['classes']:(s + 1) * c['classes'], p]
                        exp = [10000 * v / e['trees'] for v in e['votes']]
                        ck.expect(all(abs(a - b) <= 1 for a, b in zip(got, exp)), 'probability', f'{at}: class probabilities {got.tolist()}, expected {exp}', e)
                    if 'RFM' in flat:
                        exp = 10000 * e['margin'] / e['trees']
                        ck.expect(abs(flat['RFM'][s, p] - exp) <= 1.01, 'margin', f'{at}: margin {flat["RFM"][s, p]}, expected {exp} (votes {e["votes"]})', e)
                ck.count(1)
    ck.trace(len(index))
    ck.notes['ended early'] = sum(e['used'] < len(cfgs[index[e['px'] - 1][0]]['sets'][e['set'] - 1]) for e in r.cases)
    ck.notes['ties between the best classes'] = sum(e.get('margin') == 0 for e in r.cases)
    ck.sample(dict(r.cases[3]))
