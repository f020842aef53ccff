"""T10: synthetic mixtures are drawn from the library as requested."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import vf

WHOLE, PURE = 10**9, 10**8
KEYS = ['FILE_FEATURES', 'FILE_RESPONSE', 'USE_CLASSES', 'SYNTHETIC_MIXTURES', 'INCLUDE_ORIGINAL', 'MIXING_COMPLEXITY', 'MIXING_LIKELIHOOD',
        'WITHIN_CLASS_MIXING', 'CLASS_LIKELIHOOD', 'ITERATIONS', 'TARGET_CLASS', 'DIR_MIXES', 'BASE_MIXES']


def library(rng):
    """classes of the samples, in any order; class numbers need not be consecutive"""
    names = sorted(rng.sample([1, 2, 3, 4, 5, 7, 12], 4))
    sizes = rng.sample([1, 2, 3, 5], 4)
    cls = [c for c, n in zip(names, sizes) for _ in range(n)]
    if rng.random() < 0.7:
        rng.shuffle(cls)
    return names, cls


def make(rng, k):
    names, cls = library(rng)
    within = rng.random() < 0.4
    use = list(names) if rng.random() < 0.35 else rng.sample(names, rng.randrange(3, 5))
    everything = use == names and rng.random() < 0.7
    like = rng.choice(['proportional', 'proportional', 'equalized'] + ([] if everything else ['custom']))
    weight = [rng.choice([10, 20, 30]) for _ in use]
    weight[-1] = 100 - sum(weight[:-1])
    comp, chance = rng.choice([([2], [100]), ([2], [100]), ([2], [100]), ([1], [100]), ([1, 2, 3], [20, 50, 30]), ([3, 2], [70, 30]), ([1, 3], [25, 75]), ([2, 3], [100, 0]), ([4], [100]), ([1, 2, 3, 4], [20, 20, 20, 40])])
    if len(use) < max(comp):
        comp, chance = [2], [100]
    targets = rng.sample(use, rng.randrange(1, 3))
    n, iters = (150, 2) if rng.random() < 0.7 else (300, 1)
    extra = [[rng.randrange(-3000, 10000) / rng.choice([1, 1, 4, 100]) for _ in cls] for _ in range(2)]
    return dict(names=names, cls=cls, within=within, use=use, all=everything, like=like, weight=weight, comp=comp, chance=chance,
                targets=targets, n=n, iters=iters, original=rng.random() < 0.5, extra=extra, base=rng.choice(['SYNTHMIX', 'mix', 'A-1']))


def params(j, d):
    return dict(FILE_FEATURES=d + '/features.txt', FILE_RESPONSE=d + '/response.txt', USE_CLASSES='ALL' if j['all'] else ' '.join(map(str, j['use'])),
                SYNTHETIC_MIXTURES=str(j['n']), INCLUDE_ORIGINAL='TRUE' if j['original'] else 'FALSE', MIXING_COMPLEXITY=' '.join(map(str, j['comp'])),
                MIXING_LIKELIHOOD=' '.join(str(c / 100) for c in j['chance']), WITHIN_CLASS_MIXING='TRUE' if j['within'] else 'FALSE',
                CLASS_LIKELIHOOD=' '.join(str(w / 100) for w in j['weight']) if j['like'] == 'custom' else j['like'].upper(),
                ITERATIONS=str(j['iters']), TARGET_CLASS=' '.join(map(str, j['targets'])), DIR_MIXES=d + '/out', BASE_MIXES=j['base'])


def prm(d, p, start='++PARAM_SYNTHMIX_START++'):
    open(d + '/p.prm', 'w').write('\n'.join([start, '', '# SYNTHETIC MIXING'] + [f'{k} = {v}' for k, v in p.items()] + ['++PARAM_SYNTHMIX_END++', '']))
    return d + '/p.prm'


def prepare(ck, k, j):
    d = ck.dir(f'i{k}')
    os.makedirs(d + '/out')
    with open(d + '/features.txt', 'w') as f, open(d + '/response.txt', 'w') as g:
        for i, c in enumerate(j['cls']):
            f.write(' '.join([str(PURE if i == m else 0) for m in range(len(j['cls']))] + [str(e[i]) for e in j['extra']]) + '\n')
            g.write(f'{c}\n')
    return d


def numbers(fn):
    return [[float(x) for x in ln.split()] for ln in open(fn).read().splitlines()]


def run(ck, k, j):
    d = prepare(ck, k, j)
    rc, log = ck.run([ck.bin + '/force-synthmix', prm(d, params(j, d))], cwd=d)
    out = dict(rc=rc, log=log[-300:], files=sorted(os.listdir(d + '/out')), rows={}, odd=[])
    n, m = j['n'], len(j['cls'])
    for t in j['targets']:
        rows = out['rows'].setdefault(t, [])
        sets = []
        for it in range(1, j['iters'] + 1):
            tail = f'CLASS-{t:03d}_ITERATION-{it:03d}.txt'
            try:
                f, g = numbers(f"{d}/out/{j['base']}_FEATURES_{tail}"), numbers(f"{d}/out/{j['base']}_RESPONSE_{tail}")
            except (OSError, ValueError) as e:
                out['odd'].append(('file', f'{tail}: {e}'))
                continue
            want = n + (m if j['original'] else 0)
            if len(f) != want or len(g) != want or any(len(r) != m + 2 for r in f) or any(len(r) != 1 for r in g):
                out['odd'].append(('size', f'{tail}: {len(f)} rows of features, {len(g)} responses, should be {want} of {m + 2} features'))
                continue
            sets.append(f[:n])
            for a, b in zip(f[:n], g[:n]):
                shares = [0 if v == 0 else max(1, round(v * (WHOLE // PURE))) if v > 0 else -1 for v in a[:m]]
                rows.append(dict(shares=shares, response=round(b[0] * WHOLE)))
                for e, v in zip(j['extra'], a[m:]):
                    mix = sum(s * x for s, x in zip(a[:m], e)) / PURE
                    if abs(mix - v) > 0.02:
                        out['odd'].append(('features', f'{tail}: feature {v} although the shares mix to {mix:.3f}'))
            for i, (a, b) in enumerate(zip(f[n:], g[n:])):
                lib = [PURE if i == q else 0 for q in range(m)] + [e[i] for e in j['extra']]
                if any(abs(x - y) > 0.006 for x, y in zip(a, lib)) or b[0] != (1 if j['cls'][i] == t else 0):
                    out['odd'].append(('original', f"{tail}: original sample {i + 1} of class {j['cls'][i]} is given as {a[m:]}, response {b[0]}"))
        if len(sets) > 1 and sets[0] == sets[1] and max(j['comp']) > 1:
            out['odd'].append(('iterations', f'class {t}: two iterations draw the same mixtures'))
    return out


def judge(ck, jobs, res, name):
    fn = ck.dir(name) + '/j.json'
    keys = []
    with open(fn, 'w') as f:
        for k, (j, o) in enumerate(zip(jobs, res)):
            for t in j['targets']:
                if o['rows'].get(t):
                    keys.append((k, t))
                    on = [i for i, c in enumerate(j['chance']) if c]
                    f.write(json.dumps({'class': j['cls'], 'use': j['use'], 'target': t, 'complexity': [j['comp'][i] for i in on], 'chance': [j['chance'][i] for i in on], 'within': j['within'],
                                        'whole': WHOLE, 'tol': 50010, 'slack': 2, 'likelihood': j['like'], 'weight': j['weight'], 'rows': o['rows'][t]}) + '\n')
    if not keys:
        return {}
    r = ck.tlc('Synthmix', spec='JudgeSpec', env=dict(JOBS=fn))
    return {keys[c['i'] - 1]: c for c in r.cases}


def text(j, t):
    return f"classes {j['names']} with {[j['cls'].count(c) for c in j['names']]} samples, use {j['use']}, target {t}, members {j['comp']} ({j['chance']}%), {'' if j['within'] else 'not '}within classes, likelihood {j['like']} {j['weight'] if j['like'] == 'custom' else ''}"


REFUSE = [
    ('no parameter file of this kind', None), ('missing parameter', None),
    ('features file does not exist', dict(FILE_FEATURES='/nonexistent/f')), ('response file does not exist', dict(FILE_RESPONSE='/nonexistent/f')),
    ('output directory does not exist', dict(DIR_MIXES='/nonexistent/d')),
    ('class without samples', dict(USE_CLASSES='1 2 99')), ('target not in use', dict(USE_CLASSES='1 2', TARGET_CLASS='3')),
    ('no mixtures', dict(SYNTHETIC_MIXTURES='0')), ('no iterations', dict(ITERATIONS='0')), ('no members', dict(MIXING_COMPLEXITY='0 2')),
    ('more complexities than likelihoods', dict(MIXING_COMPLEXITY='1 2 3')), ('likelihoods beyond one', dict(MIXING_LIKELIHOOD='0.5 0.6')),
    ('class likelihoods for all classes', dict(CLASS_LIKELIHOOD='0.2 0.3 0.5')), ('class likelihoods beyond one', dict(USE_CLASSES='1 2 3', CLASS_LIKELIHOOD='0.2 0.3 0.6')),
    ('fewer class likelihoods than classes', dict(USE_CLASSES='1 2 3', CLASS_LIKELIHOOD='0.4 0.6')),
    ('neither true nor false', dict(WITHIN_CLASS_MIXING='YES')), ('neither true nor false (originals)', dict(INCLUDE_ORIGINAL='1')),
]


def refusals(ck):
    j = dict(names=[1, 2, 3], cls=[1, 1, 2, 3, 3], within=True, use=[1, 2, 3], all=True, like='equalized', weight=[], comp=[1, 2], chance=[50, 50], targets=[1], n=5, iters=1,
             original=False, extra=[[0] * 5, [0] * 5], base='SYNTHMIX')

    def one(a):
        i, (what, change) = a
        d = prepare(ck, f'r{i}', j)
        p = params(j, d)
        start = '++PARAM_SYNTHMIX_START++'
        if what.startswith('no parameter file'):
            start = '++PARAM_TRAIN_START++'
        elif what == 'missing parameter':
            del p[ck.rng.choice(KEYS)]
        else:
            p.update(change)
        rc, log = ck.run([ck.bin + '/force-synthmix', prm(d, p, start)], cwd=d)
        return rc, log[-200:], sum(os.path.getsize(f'{d}/out/{f}') for f in os.listdir(d + '/out'))
    cases = list(enumerate([('accepted', {})] + REFUSE))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, cases))
    for (i, (what, change)), (rc, log, size) in zip(cases, res):
        ck.count(1)
        if i == 0:
            ck.expect(rc == 0 and size > 0, 'accept', f'a complete parameter file is refused: exit {rc}: {log}', what)
        else:
            ck.expect(rc != 0 and size == 0, 'refuse', f'{what} ({change}): exit {rc}, {size} bytes written; should be refused', what)


def main(ck):
    ck.tlc('Synthmix', spec='Spec', invariants=['Sound', 'Whole', 'Complete'], properties=['Ends'])
    ck.tlc('Synthmix', spec='Spec', invariants=['NeverTwice'], expect_violation=True)
    refusals(ck)
    jobs = [make(ck.rng, k) for k in range(120 if ck.thorough else 40)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: run(ck, *a), enumerate(jobs)))
    verdict = judge(ck, jobs, res, 'jobs')
    # a draw that looks unlikely must look unlikely again
    again = sorted({k for (k, t), v in verdict.items() if v['unfair']})
    second = {}
    if again:
        with ThreadPoolExecutor(8) as ex:
            res2 = list(ex.map(lambda k: run(ck, f'{k}b', jobs[k]), again))
        second = {(again[k], t): v for (k, t), v in judge(ck, [jobs[k] for k in again], res2, 'again').items()}
    rows = 0
    for k, (j, o) in enumerate(zip(jobs, res)):
        want = sorted(f"{j['base']}_{x}_CLASS-{t:03d}_ITERATION-{i:03d}.txt" for x in ('FEATURES', 'RESPONSE') for t in j['targets'] for i in range(1, j['iters'] + 1))
        ck.count(1)
        ck.expect(o['rc'] == 0 and o['files'] == want, 'files', f"{text(j, j['targets'])}: exit {o['rc']} ({o['log']}), files {o['files']}, should be {want}", j)
        for key, t in o['odd'][:2]:
            ck.violation(key, f"{text(j, j['targets'])}: {t}", j)
        for t in j['targets']:
            v = verdict.get((k, t))
            if v is None:
                continue
            ck.trace(1)
            ck.count(len(o['rows'][t]))
            rows += len(o['rows'][t])
            ck.expect(v['why'] == '', 'mixture', f"{text(j, t)}: mixture {v['at']} {o['rows'][t][v['at'] - 1] if v['at'] else ''}: {v['why']}", j)
            both = sorted(set(v['unfair']) & set(second.get((k, t), dict(unfair=[]))['unfair']))
            ck.expect(not both, 'likelihood', f'{text(j, t)}: {", ".join(both)} are not drawn as likely as requested', j)
    if rows < 1000 and not ck.viol:
        raise vf.CheckError('hardly any mixtures')
