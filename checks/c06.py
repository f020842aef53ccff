"""C06: image primitives."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import vf

OPS = ['CCL', 'OBJ', 'MAJ', 'BUF', 'DST', 'REC']


def jobs(ck):
    rng = ck.rng
    J = []
    for op in OPS:
        for i in range(160 if ck.thorough else 60):
            nx, ny = rng.randrange(1, 9), rng.randrange(1, 8)
            if op == 'REC':
                nx, ny = rng.randrange(3, 8), rng.randrange(3, 8)
            fill = rng.choice([0.08, 0.3, 0.5, 0.6, 0.9, 1.0])
            if op == 'REC':
                m = rng.choice([1, 2, 4, 9])
                off = rng.choice([0, 0, -20, 10000])
                img = [off + rng.randrange(0, m + 1) for _ in range(nx * ny)]
            else:
                img = [int(rng.random() < fill) for _ in range(nx * ny)]
            J.append(dict(op=op, nx=nx, ny=ny, r=rng.randrange(1, 5), img=img))
    for op in OPS:      # spirals, combs, chequers: long contours and deep basins
        for nx, ny in ((9, 9), (11, 7)):
            for kind in range(4):
                img = []
                for i in range(ny):
                    for j in range(nx):
                        ring = min(i, j, ny - 1 - i, nx - 1 - j)
                        v = (ring % 2 == 0 and not (ring and i == ring and j == ring + 1), j % 2 == 0 or i == 0, (i + j) % 2 == 0, i % 2 == 0 and not (i % 4 == 0 and j == 0))[kind]
                        img.append(int(v) * (ring + 1 if op == 'REC' else 1))
                J.append(dict(op=op, nx=nx, ny=ny, r=2, img=img))
    return J


def fifo(ck, prog):
    rng = ck.rng
    traces, text = [], ''
    for _ in range(60):
        size = rng.randrange(2, 7)
        ops = []
        bias = rng.choice([0.5, 0.6, 0.8])
        for _ in range(40):
            ops.append(('+', rng.randrange(0, 30000), rng.randrange(0, 30000)) if rng.random() < bias else ('-',))
        traces.append((size, ops))
        text += f'{size} ' + ' '.join(' '.join(str(v) for v in o) for o in ops) + ' .\n'
    rc, out = ck.run([prog], input=text)
    if not ck.expect(rc == 0, 'fifo', f'work queue: exit {rc}', out[-300:]):
        return
    lines = iter(out.split('\n'))
    recs = []
    for size, ops in traces:
        rec = []
        for o in ops:
            ok, x, y = (int(v) for v in next(lines).split())
            rec.append(dict(op='put' if o[0] == '+' else 'get', x=o[1] if o[0] == '+' else x, y=o[2] if o[0] == '+' else y, ok=ok))
        assert next(lines) == '.'
        recs.append(dict(size=size, ops=rec))
    fn = os.path.join(ck.dir('t'), 't.ndjson')
    open(fn, 'w').write(''.join(json.dumps(r) + '\n' for r in recs))
    r = ck.tlc('Fifo', spec='Spec', env=dict(TRACES=fn), workers=2)
    good = {c['tr'] for c in r.cases}
    for i, rec in enumerate(recs):
        ck.count(len(rec['ops']))
        ck.expect(i + 1 in good, 'fifo', f'work queue of {rec["size"]} entries: the recorded calls are not those of a first-in first-out queue', rec)
    ck.trace(len(recs))
    # vacuity: an altered trace is refused
    bad = json.loads(json.dumps(recs[0]))
    for o in bad['ops']:
        if o['op'] == 'get' and o['ok']:
            o['x'] += 1
            break
    open(fn, 'w').write(json.dumps(bad) + '\n')
    if ck.tlc('Fifo', spec='Spec', env=dict(TRACES=fn), workers=1).cases:
        raise vf.CheckError('an altered trace was accepted')


def main(ck):
    ck.bdir
    with ThreadPoolExecutor(8) as ex:
        fp = ex.submit(lambda: vf.program(ck.bdir, 'prim', ['-DOP_FIFO'], 'FIFO'))
        progs = dict(zip(OPS, ex.map(lambda op: vf.program(ck.bdir, 'prim', ['-DOP_' + op], op), OPS)))
    left = [op for op, p in progs.items() if p is None]
    if len(left) == len(OPS):
        raise vf.CheckError('no primitive can be called')
    ck.notes['not called'] = left
    J = jobs(ck)
    fn = os.path.join(ck.dir('j'), 'j.ndjson')
    open(fn, 'w').write(''.join(json.dumps(j) + '\n' for j in J))
    inv = ['LabelsOk', 'InOrder', 'AboveGround', 'Drained', 'Snapshot']
    com = dict(spec='Spec', invariants=inv, heap='6g')
    cases = []
    cases += ck.tlc('Image', constants=dict(NX=0, NY=0, Ops=set(), Radii={1}, InPlace=False), env=dict(JOBS=fn), **com).cases
    nx, ny = (4, 3)
    cases += ck.tlc('Image', constants=dict(NX=nx, NY=ny, Ops={'CCL', 'MAJ', 'DST', 'OBJ', 'BUF'}, Radii={1, 2}, InPlace=False), **com).cases
    if ck.thorough:
        cases += ck.tlc('Image', constants=dict(NX=4, NY=4, Ops={'CCL', 'REC', 'OBJ'}, Radii={2}, InPlace=False), **com).cases
    # filling on the changing image depends on the order in which threads visit the pixels
    r = ck.tlc('Image', constants=dict(NX=4, NY=3, Ops={'MAJ'}, Radii={1}, InPlace=True), spec='Spec', invariants=['Snapshot'], expect_violation=True)
    if r.violated != 'Snapshot':
        raise vf.CheckError('Snapshot is vacuous')
    by = {}
    for c in cases:
        by.setdefault(c['op'], []).append(c)

    def go(a):
        op, nt = a
        text = ''.join(f"{nt} {c['nx']} {c['ny']} {c['r']} {' '.join(map(str, c['img']))}\n" for c in by[op])
        return ck.run([progs[op]], input=text, timeout=240)
    work = [(op, nt) for op in OPS if progs[op] and by.get(op) for nt in (1, 4)]
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(go, work))
    for (op, nt), (rc, out) in zip(work, outs):
        if not ck.expect(rc == 0, f'{op}:exit', f'{op} with {nt} threads: exit {rc}', out[-300:]):
            continue
        lines = out.rstrip('\n').split('\n')
        lines = [l for l in lines if l and (l[0].isdigit() or l[0] == '-')]
        if not ck.expect(len(lines) == len(by[op]), f'{op}:count', f'{op}: {len(lines)} results for {len(by[op])} images', out[-300:]):
            continue
        for c, l in zip(by[op], lines):
            try:
                v = [int(x) for x in l.split()]
            except ValueError:
                ck.violation(f'{op}:fails', f'{op}: {l}', c)
                continue
            n = c['nx'] * c['ny']
            e = c['res']
            ck.count(n)
            if op == 'DST':
                ok = not e['out'] or v[1:] == e['out']
            elif op == 'BUF':
                ok = v[0] == 0 and all(b == 2 or a == b for a, b in zip(v[1:], e['out']))
            elif op == 'CCL':
                ok = v == [e['n']] + e['out']
            elif op == 'OBJ':
                ok = v == [e['n']] + e['out'] + e['size']
            else:
                ok = v[0] == 0 and v[1:] == e['out']
            if not ok:
                ck.violation(op, f"{op} of {c['img']} ({c['nx']}x{c['ny']}, radius/size {c['r']}, {nt} threads) gives {v}, expected {e}", c)
        ck.trace(len(by[op]))
    if fp.result():
        fifo(ck, fp.result())
    ck.sample(cases[0])
