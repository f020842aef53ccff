"""T06: force-qai-inflate reproduces every field of every quality word."""
import glob, os
import numpy as np
from cube import Raster, write_raster

KEYWORDS = ['valid', 'cloud', 'shadow', 'snow', 'water', 'aerosol', 'subzero', 'saturation', 'sun', 'illumination', 'slope', 'vapor']


def main(ck):
    r = ck.tlc('QaiInflate', invariants=['RoundTrip', 'InRange'])
    words = {c['w']: c['out'] for c in r.cases}
    assert len(words) == 32768
    nb = 12
    exp = np.array([words[w] for w in range(32768)]).T.reshape(nb, 128, 256)
    # all words twice, in a seeded order, plus a constant image; nodata declared as in Level 2 products
    perm = np.arange(32768)
    ck.rng.shuffle(perm)
    images = [('A', np.arange(32768).reshape(128, 256), exp), ('B', perm.reshape(128, 256), exp.reshape(nb, -1)[:, perm].reshape(nb, 128, 256))]
    images.append(('C', np.array([[1, 0, 32767]]), np.array([[words[1][b], words[0][b], words[32767][b]] for b in range(nb)])[:, None, :]))
    for tag, img, want in images:
        d = ck.dir('in')
        o = ck.dir('out')
        fn = f'{d}/20200101_LEVEL2_LND08_{"INF" if tag == "B" else "QAI"}.tif'
        write_raster(fn, img.astype('int16'), nodata=1, res=30, ulx=4000000, uly=3000000)
        rc, out = ck.run([ck.bin + '/force-qai-inflate', fn, o])
        files = [f for f in glob.glob(o + '/*') if '_QIM.' in f]
        if not ck.expect(rc == 0 and len(files) == 1, 'run', f'force-qai-inflate exit {rc}, {len(files)} output files', out[-500:]):
            continue
        p = Raster(files[0])
        ck.expect(p.gt == (4000000.0, 30.0, 0, 3000000.0, 0, -30.0), 'georef', f'georeference {p.gt}')
        if not ck.expect(p.data.shape == want.shape, 'shape', f'output has shape {p.data.shape}, expected {want.shape}'):
            continue
        for b, word in enumerate(KEYWORDS):
            ck.expect(word in p.names[b].lower(), f'name{b + 1}', f'band {b + 1} ({word}) is called {p.names[b]!r}')
        for b in range(nb):
            bad = np.argwhere(p.data[b] != want[b])
            ck.expect(len(bad) == 0, f'field{b + 1}', f'band {b + 1} wrong for {len(bad)} words',
                      [dict(word=int(img[tuple(x)]), got=int(p.data[b][tuple(x)]), want=int(want[b][tuple(x)])) for x in bad[:5]])
        ck.count(img.size * nb)
        ck.trace(img.size)
    ck.notes['exhaustive'] = True
    for w in (0, 1, 22222, 32767):
        ck.sample(dict(word=w, bands=words[w]))
