"""Synthetic Landsat 8 Level 1 images, running force-l2ps, reading Level 2 tiles."""
import glob, json, math, os, re, shutil
import numpy as np
from osgeo import gdal, osr
from cube import SKEL, Raster, write_raster, wkt_of, tile_name

BANDS = ['1', '2', '3', '4', '5', '6', '7', '9', '10']
BASE = {'1': 8000, '2': 8000, '3': 8500, '4': 8500, '5': 16000, '6': 12000, '7': 9000, '9': 5010, '10': 30000}   # green vegetation, no cloud
CIRRUS = 6500
SAT = 65535
RES = 30
EPSG = 32632
WKT32 = wkt_of(EPSG)
ORIGIN = (9, 51)          # lon, lat of the grid origin


def origin_map():
    a, b = osr.SpatialReference(), osr.SpatialReference()
    a.ImportFromEPSG(4326)
    b.ImportFromEPSG(EPSG)
    for s in (a, b):
        s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    x, y, _ = osr.CoordinateTransformation(a, b).TransformPoint(*ORIGIN)
    return x, y


OX, OY = origin_map()
FRAC = 0.7                # images are not aligned with the grid: their pixels belong to the grid cell that holds their centre


def ul_of(gx, gy):
    """upper left corner of an image whose first pixel belongs to the grid cell (gx, gy)"""
    return OX + RES * (gx - 1 + FRAC), OY - RES * (gy - 1 + FRAC)


def scene(top, arrs, ulx, uly, date='2018-06-15', sun=60.0, row=24, time='10:05:00.0000000Z'):
    """arrs: DN per band. Returns the image folder."""
    name = 'LC08_L1TP_193%03d_%s_%s_01_T1' % (row, date.replace('-', ''), date.replace('-', ''))
    d = os.path.join(top, name)
    os.makedirs(d)
    ny, nx = arrs['1'].shape
    m = ['GROUP = L1_METADATA_FILE', '    SPACECRAFT_ID = "LANDSAT_8"', '    SENSOR_ID = "OLI_TIRS"']
    m += [f'    FILE_NAME_BAND_{b} = "{name}_B{b}.TIF"' for b in BANDS]
    m.append(f'''    DATA_TYPE = "L1TP"
    COLLECTION_CATEGORY = "T1"
    WRS_PATH = 193
    WRS_ROW = {row}
    DATE_ACQUIRED = {date}
    SCENE_CENTER_TIME = "{time}"
    CORNER_UL_PROJECTION_X_PRODUCT = {ulx + RES / 2:.3f}
    CORNER_UL_PROJECTION_Y_PRODUCT = {uly - RES / 2:.3f}
    REFLECTIVE_LINES = {ny}
    REFLECTIVE_SAMPLES = {nx}
    GRID_CELL_SIZE_REFLECTIVE = 30.00
    SUN_AZIMUTH = 150.0
    SUN_ELEVATION = {sun}
    K1_CONSTANT_BAND_10 = 774.8853
    K2_CONSTANT_BAND_10 = 1321.0789''')
    for b in BANDS:
        m.append(f'    RADIANCE_MAXIMUM_BAND_{b} = {700 if b != "10" else 22.0}\n    RADIANCE_MINIMUM_BAND_{b} = {-60 if b != "10" else 0.10033}\n'
                 f'    QUANTIZE_CAL_MAX_BAND_{b} = 65535\n    QUANTIZE_CAL_MIN_BAND_{b} = 1')
        if b != '10':
            m.append(f'    REFLECTANCE_MULT_BAND_{b} = 2.0000E-05\n    REFLECTANCE_ADD_BAND_{b} = -0.100000')
        dd = gdal.GetDriverByName('GTiff').Create(f'{d}/{name}_B{b}.TIF', nx, ny, 1, gdal.GDT_UInt16)
        dd.SetGeoTransform([ulx, RES, 0, uly, 0, -RES])
        dd.SetProjection(WKT32)
        dd.GetRasterBand(1).WriteArray(arrs[b].astype('uint16'))
        dd = None
    open(f'{d}/{name}_MTL.txt', 'w').write('\n'.join(m) + '\nEND_GROUP = L1_METADATA_FILE\nEND\n')
    return d


class L2Cube:
    """one output directory that receives images"""
    def __init__(self, ck, tx, ty, **more):
        self.ck = ck
        self.top = ck.dir('l2')
        for d in ('l1', 'out', 'prov', 'log', 'tmp'):
            os.makedirs(os.path.join(self.top, d))
        self.out = os.path.join(self.top, 'out')
        self.prm = dict(SKEL['LEVEL2'])
        self.prm.update(FILE_QUEUE=self.top + '/q.txt', DIR_LEVEL2=self.out, DIR_LOG=self.top + '/log', DIR_PROVENANCE=self.top + '/prov', DIR_TEMP=self.top + '/tmp',
                        DO_REPROJ='FALSE', DO_TILE='TRUE', TILE_SIZE=f'{tx * RES} {ty * RES}', DO_ATMO='FALSE', DO_TOPO='FALSE', DO_BRDF='FALSE',
                        ADJACENCY_EFFECT='FALSE', MULTI_SCATTERING='FALSE', WATER_VAPOR='1.5', DO_AOD='TRUE', OUTPUT_FORMAT='GTiff', PROJECTION='GLANCE7',
                        OUTPUT_OVV='FALSE', ORIGIN_LON=ORIGIN[0], ORIGIN_LAT=ORIGIN[1], NTHREAD='1', MAX_CLOUD_COVER_FRAME='100', MAX_CLOUD_COVER_TILE='100',
                        RES_MERGE='NONE', CLOUD_BUFFER='0', CIRRUS_BUFFER='0', SHADOW_BUFFER='0', SNOW_BUFFER='0', BUFFER_NODATA='FALSE')
        self.prm.update({k: str(v) for k, v in more.items()})
        self.n = 0
        open(self.top + '/q.txt', 'w').close()

    def allow(self, tiles):
        f = self.top + '/tiles.txt'
        open(f, 'w').write(f'{len(tiles)}\n' + ''.join(tile_name(x, y) + '\n' for x, y in tiles))
        self.prm['FILE_TILE'] = f

    def process(self, arrs, ulx, uly, keep=True, **kw):
        self.n += 1
        top = os.path.join(self.top, 'l1', str(self.n))
        os.makedirs(top)
        d = scene(top, arrs, ulx, uly, **kw)
        return self.image(d)

    def image(self, d, timeout=60):
        f = self.top + f'/p{self.n}.prm'
        open(f, 'w').write('++PARAM_LEVEL2_START++\n' + ''.join(f'{k} = {v}\n' for k, v in self.prm.items()) + '++PARAM_LEVEL2_END++\n')
        return self.ck.run([self.ck.bin + '/force-l2ps', d, f], timeout=timeout)

    def place(self, tx, ty, refl, qai, date='20180615'):
        """put a tile there as an earlier run would have left it"""
        ny, nx = refl.shape[-2:]
        for prod, arr, nd in (('TOA', refl, -9999), ('QAI', qai, 1)):
            write_raster(os.path.join(self.out, tile_name(tx, ty), f'{date}_LEVEL2_LND08_{prod}.tif'), arr, nodata=nd, res=RES,
                         ulx=OX + tx * nx * RES, uly=OY - ty * ny * RES, wkt=WKT32)

    def tiles(self, prod='QAI', date='20180615'):
        """tile (x, y) -> Raster"""
        out = {}
        for f in glob.glob(os.path.join(self.out, 'X*_Y*', f'{date}_LEVEL2_*_{prod}.*')):
            if f.endswith(('.xml', '.hdr')) or '.lock' in f:
                continue
            m = re.search(r'/X(-?\d+)_Y(-?\d+)/', f)
            out[(int(m.group(1)), int(m.group(2)))] = Raster(f)
        return out


def cos_sun(date='2018-06-15', hours=10 + 5 / 60, lat=ORIGIN[1], lon=ORIGIN[0]):
    """cosine of the sun zenith"""
    return to_sun(date, hours, lat, lon)[0]


def to_sun(date, hours, lat=ORIGIN[1], lon=ORIGIN[0]):
    """direction of the sun: up, east, north (NOAA solar position)"""
    r = math.radians
    y, mo, d = map(int, date.split('-'))
    a = (14 - mo) // 12
    yy, m = y + 4800 - a, mo + 12 * a - 3
    jd = d + (153 * m + 2) // 5 + 365 * yy + yy // 4 - yy // 100 + yy // 400 - 32045 - 0.5 + hours / 24
    t = (jd - 2451545) / 36525
    l0 = (280.46646 + t * (36000.76983 + t * 0.0003032)) % 360
    an = 357.52911 + t * (35999.05029 - 0.0001537 * t)
    e = 0.016708634 - t * (0.000042037 + 0.0000001267 * t)
    c = math.sin(r(an)) * (1.914602 - t * (0.004817 + 0.000014 * t)) + math.sin(r(2 * an)) * (0.019993 - 0.000101 * t) + math.sin(r(3 * an)) * 0.000289
    om = r(125.04 - 1934.136 * t)
    lam = l0 + c - 0.00569 - 0.00478 * math.sin(om)
    eps = 23.43929 - 0.0130042 * t + 0.00256 * math.cos(om)
    dec = math.asin(math.sin(r(eps)) * math.sin(r(lam)))
    vy = math.tan(r(eps / 2)) ** 2
    eot = 4 * math.degrees(vy * math.sin(2 * r(l0)) - 2 * e * math.sin(r(an)) + 4 * e * vy * math.sin(r(an)) * math.cos(2 * r(l0))
                           - .5 * vy * vy * math.sin(4 * r(l0)) - 1.25 * e * e * math.sin(2 * r(an)))
    ha = r(((hours * 60 + eot + 4 * lon) % 1440) / 4 - 180)
    return (math.sin(r(lat)) * math.sin(dec) + math.cos(r(lat)) * math.cos(dec) * math.cos(ha), -math.cos(dec) * math.sin(ha),
            math.sin(dec) * math.cos(r(lat)) - math.cos(dec) * math.sin(r(lat)) * math.cos(ha))


def rho(dn):
    """calibrated digital number, before division by the cosine of the sun zenith (scale 10000)"""
    return (-0.1 + 2e-5 * np.asarray(dn, float)) * 10000
