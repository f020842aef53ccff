"""C07: tables."""
import math, os
import vf


def main(ck):
    rng = ck.rng
    prog = vf.program(ck.bdir, 'table')
    if prog is None:
        raise vf.CheckError('tables cannot be read')
    r = ck.tlc('Table', spec='Spec', invariants=['Regular'], constants=dict(MaxLines=4, MaxTok=5))
    cases = r.cases
    good, bad = [c for c in cases if c['ok']], [c for c in cases if not c['ok']]
    if not ck.thorough:
        bad = rng.sample(bad, 700)
    use = good * (6 if ck.thorough else 3) + bad
    # larger tables: buffers grow while reading
    for rn in (False, True):
        for cn in (False, True):
            for nr, nc in ((1, 33), (40, 3), (17, 18), (65, 1), (8, 8), (9, 16)):
                L = nr + cn
                use.append(dict(rn=rn, cn=cn, lines=[nc + rn] * L, ok=True, ncol=nc, rows=[i + 1 + cn for i in range(nr)]))
                v = [nc + rn] * L
                k = rng.randrange(L)
                v[k] += rng.choice([-1, 1]) if v[k] > 1 + rn else 1
                if L > 1 and nr > 1:
                    use.append(dict(rn=rn, cn=cn, lines=v, ok=False, ncol=nc, rows=[]))
    d = ck.dir('tab')
    todo = []
    for k, c in enumerate(use):
        seps = [rng.choice([',', '\t', ' ']) for _ in c['lines']]
        if rng.random() < 0.5:
            seps = [seps[0]] * len(seps)
        scale = rng.choice([1, 1, 10, 100, 40000, -40000, 1e6])
        tok, text = [], ''
        eol = rng.choice(['\n', '\n', '\r\n'])
        for i, n in enumerate(c['lines']):
            line = []
            for j in range(n):
                if c['cn'] and i == 0:
                    line.append(f'c{j}_{rng.randrange(100)}' if not (c['rn'] and j == 0) else 'id')
                elif c['rn'] and j == 0:
                    line.append(f'r{i}.{rng.randrange(100)}')
                else:
                    v = scale + rng.randrange(-300, 300) / rng.choice([1, 1, 4, 100])
                    line.append(rng.choice([f'{v:.2f}', f'{v:.2f}', str(int(v))]))
            tok.append(line)
            pad = ' ' if rng.random() < 0.1 and n else ''
            text += pad + seps[i].join(line) + (eol if i < len(c['lines']) - 1 or n == 0 or rng.random() < 0.8 else '')
        fn = f'{d}/t{k}.txt'
        open(fn, 'w', newline='').write(text)
        nr = len(c['rows'])
        mask = rng.getrandbits(min(nr, 30)) if nr and nr <= 30 else 0
        skip = int(bool(mask)) if nr <= 30 else 0
        todo.append((c, tok, fn, mask, skip, f'{d}/o{k}.txt', rng.randrange(1, 4)))
    rc, out = ck.run([prog], input=''.join(f"{fn} {int(c['rn'])} {int(c['cn'])} {sep} {mask} {skip} {o}\n" for c, tok, fn, mask, skip, o, sep in todo))
    blocks = []
    cur = []
    for l in out.split('\n'):
        if l.startswith('end '):
            blocks.append((int(l[4:]), cur))
            cur = []
        else:
            cur.append(l)
    if not ck.expect(rc == 0 and len(blocks) == len(todo), 'run', f'table reader: exit {rc}, {len(blocks)} of {len(todo)} tables', out[-300:]):
        return
    close = lambda a, b: abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)) * 100
    for (c, tok, fn, mask, skip, o, sep), (st, lines) in zip(todo, blocks):
        text = open(fn).read()
        what = f'table {text[:200]!r} (row names {c["rn"]}, column names {c["cn"]})'
        ck.count()
        if not c['ok']:
            ck.expect(0 < st < 1000, 'refuse', f'{what}: irregular, but not refused (status {st}): {" ".join(lines)[:200]}', text)
            continue
        if not ck.expect(st == 0, 'accept', f'{what}: refused or crashed (status {st}): {" ".join(lines)[:200]}', text):
            continue
        D = {}
        part = ''
        for l in lines:
            if l == 'again':
                part = 'again '
            elif l:
                k, _, v = l.partition(' ')
                D[part + k] = v.split()
        off = int(c['rn'])
        cells = [[float(t) for t in tok[i - 1][off:]] for i in c['rows']]
        rown = [tok[i - 1][0] for i in c['rows']] if c['rn'] else None
        coln = tok[0][off:] if c['cn'] else None
        nr, nc = len(cells), c['ncol']
        ck.expect(D.get('dim') == [str(nr), str(nc)], 'dim', f'{what}: read as {D.get("dim")}')
        got = [float(v) for v in D.get('data', [])]
        flat = [v for r in cells for v in r]
        ck.expect(len(got) == len(flat) and all(close(a, b) for a, b in zip(got, flat)), 'cells', f'{what}: cells {got[:12]}')
        if coln:
            ck.expect(D.get('cols') == coln, 'colnames', f'{what}: column names {D.get("cols")}')
            ck.expect(D.get('find') == [str(coln.index(v)) for v in coln] + ['-1'], 'find', f'{what}: columns found at {D.get("find")}')
        if rown:
            ck.expect(D.get('rows') == rown, 'rownames', f'{what}: row names {D.get("rows")}')
            ck.expect(D.get('findrow') == [str(rown.index(v)) for v in rown] + ['-1'], 'find', f'{what}: rows found at {D.get("findrow")}')
        st_ = [float(v) for v in D.get('stat', [])]
        for j in range(nc):
            col = [r[j] for r in cells]
            m = math.fsum(col) / nr
            sd = math.sqrt(math.fsum((v - m) ** 2 for v in col) / (nr - 1)) if nr > 1 else 0
            for name, g, e in zip(('mean', 'sd', 'min', 'max', 'sum'), st_[5 * j:5 * j + 5], (m, sd, min(col), max(col), math.fsum(col))):
                if name == 'sd' and nr == 1:
                    continue
                ck.expect(abs(g - e) <= 1e-6 * max(1, abs(e)), 'stat:' + name, f'{what}: {name} of column {j + 1} is {g}, expected {e}')
        keep = [i for i in range(nr) if not skip or (mask >> i) & 1]
        if not skip or mask:
            g2 = [float(v) for v in D.get('again data', [])]
            e2 = [v for i in keep for v in cells[i]]
            ck.expect(len(g2) == len(e2) and all(abs(a - b) < 0.00501 for a, b in zip(g2, e2)), 'roundtrip', f'{what}: written and read again: {g2[:12]}, expected {e2[:12]}')
            if coln:
                ck.expect(D.get('again cols') == coln, 'roundtrip', f'{what}: column names after writing {D.get("again cols")}')
            if rown:
                ck.expect(D.get('again rows') == [rown[i] for i in keep], 'roundtrip', f'{what}: row names after writing {D.get("again rows")}')
        ck.trace()
    ck.sample(dict(case=use[0], text=open(todo[0][2]).read()))
