"""Rasters and vectors for the importer, and its jobs for the specification."""
import json, os, re
import numpy as np
from osgeo import gdal, ogr, osr
import cube


class Grid:
    """tiles of w x h pixels of size res; deprecated: old notation of the definition"""

    def __init__(self, ck, w, h, res, ox=4321000, oy=3210000, deprecated=False, epsg=3035):
        self.ck, self.w, self.h, self.res, self.ox, self.oy, self.deprecated = ck, w, h, res, ox, oy, deprecated
        self.wkt = cube.wkt_of(epsg)
        self.srs = osr.SpatialReference()
        self.srs.ImportFromWkt(self.wkt)
        self.srs.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)

    def cube(self, name='cube'):
        d = self.ck.dir(name)
        self.define(d)
        return d

    def define(self, d):
        with open(d + '/datacube-definition.prj', 'w') as f:
            if self.deprecated:
                assert self.w == self.h
                f.write(f'{self.wkt}\n10.000000\n52.000000\n{self.ox:f}\n{self.oy:f}\n{self.w * self.res:f}\n{self.w * self.res:f}\n')
            else:
                f.write(f'PROJECTION = {self.wkt}\nORIGIN_GEO_X = 10.000000\nORIGIN_GEO_Y = 52.000000\nORIGIN_MAP_X = {self.ox:f}\n'
                        f'ORIGIN_MAP_Y = {self.oy:f}\nTILE_SIZE_X = {self.w * self.res:f}\nTILE_SIZE_Y = {self.h * self.res:f}\n')

    def raster(self, fn, inp, nodata, dtype=gdal.GDT_Int16, bands=1):
        v = np.array(inp['vals']).reshape(inp['ny'], inp['nx'])
        v = np.where(v < 0, nodata, v)
        cube.write_raster(fn, np.stack([v] * bands), nodata=nodata, res=self.res, ulx=self.ox + inp['x0'] * self.res, uly=self.oy - inp['y0'] * self.res,
                          dtype=dtype, wkt=self.wkt)

    def vector(self, fn, inp, layer, fmt='GPKG', field='val', more=()):
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        ds = ogr.GetDriverByName(fmt).CreateDataSource(fn)
        point = all(f['x1'] == f['x2'] for f in inp['feats'])
        lay = ds.CreateLayer(layer, self.srs, ogr.wkbPoint if point else ogr.wkbPolygon)
        lay.CreateField(ogr.FieldDefn(field, ogr.OFTInteger))
        for f in inp['feats']:
            x = [self.ox + f[k] * self.res / 4 for k in ('x1', 'x2')]
            y = [self.oy - f[k] * self.res / 4 for k in ('y1', 'y2')]
            ft = ogr.Feature(lay.GetLayerDefn())
            ft.SetField(field, f['val'])
            if point:
                wkt = f'POINT({x[0]!r} {y[0]!r})'
            else:
                wkt = f'POLYGON(({x[0]!r} {y[0]!r},{x[1]!r} {y[0]!r},{x[1]!r} {y[1]!r},{x[0]!r} {y[1]!r},{x[0]!r} {y[0]!r}))'
            ft.SetGeometry(ogr.CreateGeometryFromWkt(wkt))
            lay.CreateFeature(ft)
        ds = None

    def placed(self, r, tx, ty):
        return ((r.nx, r.ny) == (self.w, self.h) and abs(r.gt[0] - (self.ox + tx * self.w * self.res)) < 1e-6
                and abs(r.gt[3] - (self.oy - ty * self.h * self.res)) < 1e-6 and abs(r.gt[1] - self.res) < 1e-9 and abs(r.gt[5] + self.res) < 1e-9)


def tiles_in(d):
    """{(x, y): directory}, and whatever else lies in the cube"""
    t, other = {}, []
    for n in sorted(os.listdir(d)):
        m = re.fullmatch(r'X(-?\d{3,4})_Y(-?\d{3,4})', n)
        if m and os.path.isdir(f'{d}/{n}'):
            x, y = map(int, m.groups())
            if cube.tile_name(x, y) == n:
                t[x, y] = f'{d}/{n}'
                continue
        other.append(n)
    return t, other


def raster_input(rng, name, w, h, span=2, big=False):
    nx, ny = rng.randrange(1, 3 * w), rng.randrange(1, 3 * h)
    x0, y0 = rng.randrange(-span * w, span * w), rng.randrange(-span * h, span * h)
    if rng.random() < 0.3:       # whole tiles
        x0, y0, nx, ny = w * (x0 // w), h * (y0 // h), w * rng.randrange(1, 3), h * rng.randrange(1, 3)
    p = rng.choice([0, 0.1, 0.6])
    vals = [-1 if rng.random() < p else rng.randrange(0, 200) for _ in range(nx * ny)]
    if rng.random() < 0.5:       # a tile without data
        cx, cy = rng.randrange(x0, x0 + nx) // w, rng.randrange(y0, y0 + ny) // h
        for y in range(ny):
            for x in range(nx):
                if (x0 + x) // w == cx and (y0 + y) // h == cy:
                    vals[y * nx + x] = -1
    if all(v < 0 for v in vals):
        vals[rng.randrange(len(vals))] = 7
    return dict(name=name, kind='raster', x0=x0, y0=y0, nx=nx, ny=ny, vals=vals)


def vector_input(rng, name, w, h, attr, point=None, span=2, n=None):
    """rectangles keep off the centres of pixels; points keep off borders"""
    point = rng.random() < 0.3 if point is None else point
    feats = []

    def edge(lo, hi):
        v = rng.randrange(4 * lo, 4 * hi)
        return v + 1 if v % 4 == 2 else v
    for k in range(n or rng.randrange(1, 5)):
        if point:
            x, y = rng.randrange(-span * w, span * w) * 4 + rng.choice([1, 2, 3]), rng.randrange(-span * h, span * h) * 4 + rng.choice([1, 2, 3])
            f = dict(x1=x, y1=y, x2=x, y2=y)
        else:
            x1, y1 = edge(-span * w, span * w), edge(-span * h, span * h)
            x2, y2 = edge(x1 // 4 + 2, x1 // 4 + 2 + rng.choice([2, 2 * w])), edge(y1 // 4 + 2, y1 // 4 + 2 + rng.choice([2, 2 * h]))
            f = dict(x1=x1, y1=y1, x2=x2, y2=y2)
        f['val'] = rng.randrange(2, 200) if attr else 1
        feats.append(f)
    return dict(name=name, kind='vector', feats=feats)


def write_jobs(fn, jobs):
    with open(fn, 'w') as f:
        for j in jobs:
            f.write(json.dumps(j) + '\n')
