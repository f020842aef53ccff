"""T04: parameter templates expand to every combination exactly once."""
import os
from concurrent.futures import ThreadPoolExecutor
import vf

NAMES = [['A', 'AA', 'A_A'], ['SET', 'SET2', 'NTREE'], ['x', 'X', 'xX'], ['V1', 'V10', 'V'], ['YEAR', 'DIR', 'EAR']]
VALUES = [
    ['001', '002', '010', '100'], ['/data/a.txt', '/data/b/c.txt', 'rel/d', '/'], ['TRUE', 'FALSE', 'NULL', '-9999'],
    ['2018-01-01', '2019-06-15', '2020-12-31', '1'], ['a+b', 'c+', '+', 'd'], ['a&b', '&', 'x&&', 'y'], ['1,2', '3,4', '5', '6,7'],
    ['a.b', 'a*b', '*', '?'], ['x=1', 'y:2', 'z;3', '~'], ['1..3', 'q', '2..2', '0'], ['{b}', '[c]', '(d)', 'e'], ['$HOME', '$x', '`d`', 'f'], ['back\\slash', '\\1', 'n', 'm'],
]


def body(rng, names):
    use = ['{%' + n + '%}' for n in names]
    lines = ['++PARAM_TRAIN_START++', '', '# a comment with % and %:']
    for n in range(6):
        k = rng.randrange(3)
        if k == 0:
            lines.append(f'KEY_{n} = /d/' + '_'.join(rng.choice(use) for _ in range(rng.randrange(1, 4))) + '.txt')
        elif k == 1:
            lines.append(f'KEY_{n} = {rng.choice(use)}')
        else:
            lines.append(f'KEY_{n} = {{plain}} %{names[0]}% {{{names[0]}}} a+b')
    lines += ['# ' + ' '.join(use), '', '++PARAM_TRAIN_END++']
    return lines


def one(ck, k, lens, mode, combos, rng_seed):
    import random
    rng = random.Random(rng_seed)
    names = rng.sample(rng.choice(NAMES), len(lens))
    vals = [rng.sample(rng.choice(VALUES), n) for n in lens]
    lines = body(rng, names)
    head = [f'%{n}%:' + rng.choice([' ', '   ']) + rng.choice([' ', '  ']).join(v) + rng.choice(['', ' ']) for n, v in zip(names, vals)]
    d, o = ck.dir(f't{k}'), ck.dir(f'o{k}')
    fn = f'{d}/main.prm'
    open(fn, 'w').write('\n'.join(head + [''] + lines) + '\n')
    before = open(fn).read()
    other = rng.random() < 0.5
    cmd = [ck.bin + '/force-magic-parameters', '-c', mode] + (['-o', o] if other else []) + [fn]
    if mode == 'all' and rng.random() < 0.5:
        cmd = [cmd[0]] + cmd[3:]
    rc, log = ck.run(cmd, cwd=d)
    out = o if other else d
    got = []
    for f in sorted(os.listdir(out)):
        if f != 'main.prm':
            got.append(open(f'{out}/{f}').read())
    if other and set(os.listdir(d)) != {'main.prm'} or open(fn).read() != before:
        got.append('something was written beside the output directory')
    want = []
    for c in combos:
        t = '\n'.join(lines) + '\n'
        parts = []
        i = 0
        while i < len(t):       # all placeholders at once
            for n, v, a in zip(names, vals, c):
                ph = '{%' + n + '%}'
                if t.startswith(ph, i):
                    parts.append(v[a - 1])
                    i += len(ph)
                    break
            else:
                parts.append(t[i])
                i += 1
        want.append(''.join(parts))
    return dict(head=head, mode=mode, rc=rc, log=log[-300:], got=got, want=want, refused=not combos, fn=fn)


def main(ck):
    r = ck.tlc('Templates', spec='Spec', invariants=['Once', 'Count', 'Full'], constants=dict(MaxVars=3, MaxVals=4 if ck.thorough else 3))
    cases = [(tuple(c['lens']), c['mode'], c['files']) for c in r.cases]
    seen = {(a, b) for a, b, _ in cases}
    import itertools
    for n in (2, 3):
        for lens in itertools.product(range(1, 4), repeat=n):
            if (lens, 'paired') not in seen and len(set(lens)) > 1:
                cases.append((lens, 'paired', []))
    ck.rng.shuffle(cases)
    small = [c for c in cases if len(c[0]) < 3 or len(c[2]) < 13]
    take = cases if ck.thorough else small[:70]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: one(ck, a[0], *a[1], ck.seed * 1000 + a[0]), enumerate(take)))
    for x in res:
        ck.count()
        ck.trace(1)
        what = f"{x['head']} ({x['mode']})"
        if x['refused']:
            ck.expect(x['rc'] != 0 and not x['got'], 'refused', f"{what}: vectors of different length give {len(x['got'])} files, exit {x['rc']}", x)
            continue
        ck.expect(x['rc'] == 0, 'exit', f"{what}: exit {x['rc']}: {x['log']}", x)
        a, b = sorted(x['got']), sorted(x['want'])
        if a != b:
            only = [t for t in a if t not in b]
            miss = [t for t in b if t not in a]
            ck.violation('files', f"{what}: {len(a)} files, should be {len(b)}; wrong {only[:1]}; missing {miss[:1]}", x)
