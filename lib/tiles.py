"""Data cubes whose tiles hold products that come and go (T01, T09)."""
import os
import numpy as np
import cube

N = 4


class World:
    def __init__(self, ck, tag, tiles, names, bands, nodata, ext='tif', fmt='GTiff'):
        self.ck, self.tiles, self.names, self.bands, self.nodata, self.ext, self.fmt = ck, tiles, names, bands, nodata, ext, fmt
        self.cube = cube.Cube(ck.dir('cube-' + tag), N, N)

    def file(self, t, n):
        return f'{self.cube.path}/{cube.tile_name(*self.tiles[t - 1])}/{self.names[n - 1]}.{self.ext}'

    def values(self, t, n, holes=True):
        rng = np.random.default_rng(1000 * t + n)
        a = rng.integers(1, 30000, (self.bands[n - 1], N, N))
        if holes and self.nodata is not None:
            a[:, rng.integers(0, N, 3), rng.integers(0, N, 3)] = self.nodata
        return a

    def add(self, t, n):
        self.cube.image(*self.tiles[t - 1], f'{self.names[n - 1]}.{self.ext}', self.values(t, n), nodata=self.nodata, fmt=self.fmt,
                        names=[f'{self.names[n - 1][-6:]} band {b}' for b in range(1, self.bands[n - 1] + 1)])

    def bystanders(self, t):
        """files of the same names that are no products of a tile"""
        top = self.cube.path
        for d in (f'{cube.tile_name(*self.tiles[t - 1])}/sub', 'other', '.'):
            for n in (1, len(self.names)):
                os.makedirs(f'{top}/{d}', exist_ok=True)
                cube.write_raster(f'{top}/{d}/{self.names[n - 1]}.{self.ext}', np.full((self.bands[n - 1], N, N), 31000), nodata=self.nodata if self.nodata is not None else -9999, fmt=self.fmt)

    def remove(self, t, n):
        for f in (self.file(t, n), self.file(t, n) + '.aux.xml', os.path.splitext(self.file(t, n))[0] + '.hdr'):
            if os.path.exists(f):
                os.remove(f)

    def mosaic(self, n, tiles, box):
        """the expected mosaic: values, upper left corner"""
        x0, y0, x1, y1 = box
        a = np.full((self.bands[n - 1], (y1 - y0 + 1) * N, (x1 - x0 + 1) * N), self.nodata if self.nodata is not None else 0)
        for t in tiles:
            x, y = self.tiles[t - 1]
            a[:, (y - y0) * N:(y - y0 + 1) * N, (x - x0) * N:(x - x0 + 1) * N] = self.values(t, n)
        return a, self.cube.ul(x0, y0)
