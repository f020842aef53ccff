"""Synthetic data cubes, running force-higher-level, reading products."""
import glob, json, os, shutil
import numpy as np
from osgeo import gdal, osr
gdal.UseExceptions()
gdal.PushErrorHandler('CPLQuietErrorHandler')

HERE = os.path.dirname(os.path.abspath(__file__))
SKEL = json.load(open(os.path.join(HERE, 'skeletons.json')))


def wkt_of(epsg):
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    w = s.ExportToWkt()
    return w


WKT = wkt_of(3035)
NODATA = -9999


def write_raster(fn, arr, nodata=NODATA, res=10, ulx=0, uly=0, dtype=gdal.GDT_Int16, wkt=None, fmt='GTiff', opts=(), names=None):
    arr = np.asarray(arr)
    if arr.ndim == 2:
        arr = arr[None]
    nb, ny, nx = arr.shape
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    d = gdal.GetDriverByName(fmt).Create(fn, nx, ny, nb, dtype, list(opts))
    d.SetGeoTransform([ulx, res, 0, uly, 0, -res])
    d.SetProjection(wkt or WKT)
    for b in range(nb):
        band = d.GetRasterBand(b + 1)
        if nodata is not None:
            band.SetNoDataValue(nodata)
        band.WriteArray(arr[b])
        if names:
            band.SetDescription(names[b])
    d.FlushCache()
    d = None


class Raster:
    def __init__(self, fn):
        self.fn = fn
        d = gdal.Open(fn)
        self.nb, self.nx, self.ny = d.RasterCount, d.RasterXSize, d.RasterYSize
        self.gt = d.GetGeoTransform()
        self.wkt = d.GetProjection()
        self.data = np.stack([d.GetRasterBand(b + 1).ReadAsArray() for b in range(self.nb)])
        self.names = [d.GetRasterBand(b + 1).GetDescription() for b in range(self.nb)]
        self.nodata = [d.GetRasterBand(b + 1).GetNoDataValue() for b in range(self.nb)]
        self.meta = d.GetMetadata('FORCE')
        self.bmeta = [d.GetRasterBand(b + 1).GetMetadata('FORCE') for b in range(self.nb)]
        self.dtype = gdal.GetDataTypeName(d.GetRasterBand(1).DataType)
        d = None


def tile_name(x, y):
    return 'X%04d_Y%04d' % (x, y)


class Cube:
    """A data cube directory with square pixels; tile (x,y) has its upper left at (ox + x*w, oy - y*h)."""

    def __init__(self, path, ncol, nrow, res=10, ox=4000000, oy=3000000, wkt=None):
        self.path, self.ncol, self.nrow, self.res, self.ox, self.oy = path, ncol, nrow, res, ox, oy
        self.wkt = wkt or WKT
        os.makedirs(path, exist_ok=True)
        self.definition(path)

    def definition(self, path):
        with open(os.path.join(path, 'datacube-definition.prj'), 'w') as f:
            f.write(f'PROJECTION = {self.wkt}\nORIGIN_GEO_X = 1.000000\nORIGIN_GEO_Y = 2.000000\n'
                    f'ORIGIN_MAP_X = {self.ox:f}\nORIGIN_MAP_Y = {self.oy:f}\n'
                    f'TILE_SIZE_X = {self.ncol * self.res:f}\nTILE_SIZE_Y = {self.nrow * self.res:f}\n')

    def ul(self, x, y):
        return self.ox + x * self.ncol * self.res, self.oy - y * self.nrow * self.res

    def image(self, x, y, name, arr, nodata=NODATA, **kw):
        ux, uy = self.ul(x, y)
        write_raster(os.path.join(self.path, tile_name(x, y), name), arr, nodata, self.res, ux, uy, wkt=self.wkt, **kw)

    def ard(self, x, y, date, sensor, boa, qai=None, ext='.tif', prod='BOA', qprod='QAI', **kw):
        boa = np.asarray(boa)
        if boa.ndim == 2:
            boa = boa[None]
        self.image(x, y, f'{date}_LEVEL2_{sensor}_{prod}{ext}', boa, **kw)
        if qai is None:
            qai = np.zeros(boa.shape[1:], 'int16')
        self.image(x, y, f'{date}_LEVEL2_{sensor}_{qprod}{ext}', np.asarray(qai).astype('int16'), nodata=1)


def prm_text(module, over, drop=(), features=None):
    sk = SKEL[module]
    lines = [sk['head']]
    seen = set()
    for k, v in sk['par']:
        if k in drop:
            continue
        if k == 'INPUT_FEATURE':
            if k not in seen:
                seen.add(k)
                for f in features or []:
                    lines.append(f'INPUT_FEATURE = {f}')
            continue
        v = over.get(k, v)
        if isinstance(v, list):      # the parameter is given several times
            lines += [f'{k} = {x}' for x in v if k not in seen]
        else:
            lines.append(f'{k} = {v}')
        seen.add(k)
    unknown = set(over) - seen
    if unknown:
        raise KeyError(unknown)
    lines.append(sk['tail'])
    return '\n'.join(lines) + '\n'


class Run:
    """One force-higher-level run."""

    def __init__(self, ck, module, lower, over, out=None, prov=None, features=None, threads=None, timeout=120, env=None, drop=(), text=None):
        self.out = out or ck.dir('out')
        self.prov = prov or ck.dir('prov')
        p = dict(DIR_LOWER=lower, DIR_HIGHER=self.out, DIR_PROVENANCE=self.prov, NTHREAD_READ=2, NTHREAD_COMPUTE=2, NTHREAD_WRITE=2,
                 PRETTY_PROGRESS='FALSE')
        p.update(over)
        p = {k: v if isinstance(v, list) else str(v) for k, v in p.items()}
        self.prm = os.path.join(ck.dir('prm'), 'p.prm')
        open(self.prm, 'w').write(text or prm_text(module, p, drop=drop, features=features))
        self.rc, self.log = ck.run([ck.bin + '/force-higher-level', self.prm], timeout=timeout, env=env)
        self.ck = ck
        if self.rc != 0:
            ck.missing.append(f'force-higher-level ({module}) exits with {self.rc}')

    def files(self):
        return sorted(f for f in glob.glob(self.out + '/**/*', recursive=True)
                      if os.path.isfile(f) and not os.path.basename(f).startswith('CITEME') and not f.endswith('.prj'))

    def product(self, x, y, suffix):
        """product raster whose name (without extension) ends with suffix, or None"""
        hits = [f for f in self.files() if os.path.basename(os.path.dirname(f)).startswith(tile_name(x, y)) or f'/{tile_name(x, y)}/' in f]
        hits = [f for f in hits if os.path.splitext(os.path.basename(f))[0].endswith(suffix) and f.endswith(('.tif', '.dat', '.bsq', '.vrt', '.jpg', '.png', '.img'))]
        if not hits:
            self.ck.missing.append(f'no product {suffix} of tile {tile_name(x, y)}')
            return None
        return Raster(hits[0])


def rmtree(d):
    shutil.rmtree(d, ignore_errors=True)
