"""Helpers of the demonstrations: small data cubes, running the programs built in the current directory."""
import atexit, glob, json, os, shutil, subprocess, sys, tempfile
import numpy as np
from osgeo import gdal, osr
gdal.UseExceptions()
HERE = os.path.dirname(os.path.abspath(__file__))
BIN = os.path.join(os.getcwd(), 'bin')
TMP = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, TMP, True)
s = osr.SpatialReference()
s.ImportFromEPSG(3035)
WKT = s.ExportToWkt()
ND = -9999


def tmp(name='d'):
    return tempfile.mkdtemp(prefix=name + '-', dir=TMP)


def write(fn, arr, nodata=ND, res=10, ulx=4000000, uly=3000000, dtype=gdal.GDT_Int16, names=None, wkt=None):
    arr = np.asarray(arr)
    arr = arr[None] if arr.ndim == 2 else arr
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    d = gdal.GetDriverByName('GTiff').Create(fn, arr.shape[2], arr.shape[1], arr.shape[0], dtype)
    d.SetGeoTransform([ulx, res, 0, uly, 0, -res])
    d.SetProjection(wkt or WKT)
    for b in range(arr.shape[0]):
        if nodata is not None:
            d.GetRasterBand(b + 1).SetNoDataValue(nodata)
        d.GetRasterBand(b + 1).WriteArray(arr[b])
        if names:
            d.GetRasterBand(b + 1).SetDescription(names[b])
    d = None


class Img:
    def __init__(self, fn):
        d = gdal.Open(fn)
        self.data = np.stack([d.GetRasterBand(b + 1).ReadAsArray() for b in range(d.RasterCount)])
        self.names = [d.GetRasterBand(b + 1).GetDescription() for b in range(d.RasterCount)]
        self.gt = d.GetGeoTransform()


class Cube:
    def __init__(self, nx, ny, res=10, ox=4000000, oy=3000000):
        self.path, self.nx, self.ny, self.res, self.ox, self.oy = tmp('cube'), nx, ny, res, ox, oy
        self.definition(self.path)

    def definition(self, path):
        open(path + '/datacube-definition.prj', 'w').write(
            f'PROJECTION = {WKT}\nORIGIN_GEO_X = 1.000000\nORIGIN_GEO_Y = 2.000000\nORIGIN_MAP_X = {self.ox:f}\nORIGIN_MAP_Y = {self.oy:f}\n'
            f'TILE_SIZE_X = {self.nx * self.res:f}\nTILE_SIZE_Y = {self.ny * self.res:f}\n')

    def image(self, x, y, name, arr, nodata=ND, path=None, **kw):
        write(f'{path or self.path}/X{x:04d}_Y{y:04d}/{name}', arr, nodata, self.res, self.ox + x * self.nx * self.res, self.oy - y * self.ny * self.res, **kw)

    def ard(self, date, sensor, arr, qai=None, x=0, y=0, prod='BOA'):
        arr = np.asarray(arr)
        self.image(x, y, f'{date}_LEVEL2_{sensor}_{prod}.tif', arr)
        self.image(x, y, f'{date}_LEVEL2_{sensor}_QAI.tif', np.zeros(arr.shape[1:], int) if qai is None else qai, nodata=1)


class HL:
    """one run of force-higher-level"""

    def __init__(self, module, lower, over, features=(), out=None, env=None):
        sk = json.load(open(HERE + '/skeletons.json'))[module]
        self.out = out or tmp('out')
        p = dict(DIR_LOWER=lower, DIR_HIGHER=self.out, DIR_PROVENANCE=tmp('prov'), NTHREAD_READ=2, NTHREAD_COMPUTE=2, NTHREAD_WRITE=2, PRETTY_PROGRESS='FALSE')
        p.update(over)
        lines, done = [sk['head']], False
        for k, v in sk['par']:
            if k == 'INPUT_FEATURE':
                if not done:
                    lines += [f'INPUT_FEATURE = {f}' for f in features]
                done = True
                continue
            lines.append(f'{k} = {p.get(k, v)}')
        lines.append(sk['tail'])
        prm = tmp('prm') + '/p.prm'
        open(prm, 'w').write('\n'.join(lines) + '\n')
        self.rc, self.log = sh([BIN + '/force-higher-level', prm], env=env)

    def files(self):
        return sorted(f for f in glob.glob(self.out + '/**/*.*', recursive=True) if f.endswith(('.tif', '.dat', '.csv', '.txt', '.jpg', '.vrt')) and 'CITEME' not in f)

    def product(self, suffix, x=0, y=0):
        h = [f for f in self.files() if f'X{x:04d}_Y{y:04d}' in f and os.path.splitext(f)[0].endswith(suffix)]
        return Img(h[0]) if h else None


def sh(cmd, env=None, cwd=None, timeout=120):
    e = dict(os.environ)
    e['PATH'] = BIN + ':' + e['PATH']
    e.update(env or {})
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=cwd, timeout=timeout, errors='replace')
    return r.returncode, r.stdout


def verdict(ok, msg=''):
    print('ok' if ok else 'FAILED', msg)
    sys.exit(0 if ok else 1)
