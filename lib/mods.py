"""A small data cube and a parameterisation for every higher-level module."""
import os
import numpy as np
from cube import Cube, Run, NODATA, prm_text, Raster

NCOL, NROW, RES = 24, 18, 10
PIXEL_UDF = '''
import numpy as np
def forcepy_init(dates, sensors, bandnames):
    return ['n', 'sum', 'last']
def forcepy_pixel(inarray, outarray, dates, sensors, bandnames, nodata, nproc):
    x = inarray[:, 0, 0, 0].astype(np.int64)
    v = x[x != nodata]
    if len(v):
        outarray[0] = len(v)
        outarray[1] = v.sum() % 30000
        outarray[2] = v[-1]
'''
BLOCK_UDF = '''
import numpy as np
def forcepy_init(dates, sensors, bandnames):
    return ['n', 'max']
def forcepy_chunk(inarray, outarray, dates, sensors, bandnames, nodata, nproc):
    ok = inarray[:, 0] != nodata
    outarray[0] = np.where(ok.any(axis=0), ok.sum(axis=0), nodata)
    outarray[1] = np.where(ok.any(axis=0), inarray[:, 0].max(axis=0), nodata)
'''


class World:
    def __init__(self, ck, seed=1, ncol=NCOL, nrow=NROW, tiles=((0, 0), (1, 0)), clouds=True):
        self.ck, self.ncol, self.nrow, self.tiles = ck, ncol, nrow, tiles
        rng = self.rng = np.random.RandomState(seed)
        self.cube = c = Cube(ck.dir('world'), ncol, nrow, RES)
        dates = ['20170220', '20170515', '20170808', '20171101', '20180131', '20180418', '20180512', '20180707', '20180808', '20181010']
        self.dates = dates
        for (x, y) in tiles:
            base = rng.randint(300, 4000, (10, nrow, ncol))
            for k, d in enumerate(dates):
                season = int(1500 * np.sin(k))
                v = np.clip(base + season + rng.randint(-200, 200, base.shape), 1, 9000).astype('int16')
                q = np.zeros((nrow, ncol), 'int16')
                hole = rng.rand(nrow, ncol) < 0.12
                cloud = (rng.rand(nrow, ncol) < 0.15) if clouds else np.zeros_like(hole)
                q[cloud] = 2
                q[hole] = 1
                v[:, hole] = NODATA
                for sensor, bands in (('LND08', 6), ('SEN2A', 10)):
                    if (k % 2 == 0) == (sensor == 'LND08') or d in ('20180512', '20180808'):
                        c.ard(x, y, d, sensor, v[:bands], q)
                        for aux, lo, hi in (('DST', 0, 5000), ('HOT', -500, 500), ('VZN', 0, 900), ('WVP', 0, 400)):
                            a = rng.randint(lo, hi, (nrow, ncol)).astype('int16')
                            a[hole] = NODATA
                            c.image(x, y, f'{d}_LEVEL2_{sensor}_{aux}.tif', a)
            f = rng.randint(-2000, 8000, (4, nrow, ncol)).astype('int16')
            f[:, rng.rand(nrow, ncol) < 0.05] = NODATA
            c.image(x, y, 'F1.tif', f)
            g = (rng.randint(0, 3, (2, nrow, ncol)) * 1000).astype('int16')
            g[:, rng.rand(nrow, ncol) < 0.05] = NODATA
            c.image(x, y, 'F2.tif', g)
            lsp = np.stack([rng.randint(3 + 365 * (2017 - 2016 + b) - 30, 365 * (2017 - 2016 + b) + 200, (nrow, ncol)) for b in range(3)]).astype('int16')
            for nm, off in (('LSP-A', 0), ('LSP-B', 60), ('LSP-C', 120)):
                c.image(x, y, f'{nm}.tif', lsp + off)
            c.image(x, y, 'COARSE.tif', np.stack([rng.randint(100, 9000, (nrow, ncol)) for _ in range(3)]).astype('int16'))
        xs, ys = [t[0] for t in tiles], [t[1] for t in tiles]
        self.common = dict(X_TILE_RANGE=f'{min(xs)} {max(xs)}', Y_TILE_RANGE=f'{min(ys)} {max(ys)}', RESOLUTION=RES, CHUNK_SIZE=f'{ncol * RES} {nrow * RES}')
        self.ard = dict(SENSORS='LND08 SEN2A', DATE_RANGE='2017-01-01 2018-12-31')
        self.features = ['F1.tif 1 2 3 4', 'F2.tif 1 2']
        self._model = None

    def file(self, name, text):
        fn = os.path.join(self.ck.dir('file'), name)
        open(fn, 'w').write(text)
        return fn

    def points(self, n=60):
        """sample points: random places in the tiles, two responses"""
        out = []
        rng = np.random.RandomState(5)
        for i in range(n):
            x, y = self.tiles[i % len(self.tiles)]
            ux, uy = self.cube.ul(x, y)
            out.append((ux + (rng.randint(self.ncol) + 0.5) * RES, uy - (rng.randint(self.nrow) + 0.5) * RES, i % 3 + 1))
        return out

    def model(self):
        if self._model is None:
            rng = np.random.RandomState(9)
            d = self.ck.dir('model')
            feat = rng.randint(-2000, 8000, (80, 6))
            open(d + '/f.txt', 'w').write(''.join(' '.join(str(v) for v in r) + '\n' for r in feat))
            cls = 1 + (feat[:, 0] > 2000) + (feat[:, 1] > 4000)
            open(d + '/r.txt', 'w').write(''.join(f'{v}\n' for v in cls))
            for name, meth in (('rfc', 'RFC'), ('rfr', 'RFR'), ('rfc2', 'RFC'), ('rfr2', 'RFR')):
                t = prm_text('TRAIN', dict(FILE_FEATURES=d + '/f.txt', FILE_RESPONSE=d + '/r.txt', FILE_MODEL=f'{d}/{name}.xml', FILE_LOG=f'{d}/{name}.log', ML_METHOD=meth,
                                           PERCENT_TRAIN='100', RANDOM_SPLIT='FALSE', RF_NTREE='15' if name[3:] == '' else '9', RF_DT_MAXDEPTH='5', RF_FEATURE_IMPORTANCE='FALSE'))
                p = f'{d}/{name}.prm'
                open(p, 'w').write(t)
                rc, log = self.ck.run([self.ck.bin + '/force-train', p])
                if rc != 0 or not os.path.exists(f'{d}/{name}.xml'):
                    raise RuntimeError('force-train: ' + log[-800:])
            self._model = d
        return self._model

    def runs(self):
        """name -> (module, parameters, features)"""
        udf = self.file('pixel.py', PIXEL_UDF)
        blk = self.file('block.py', BLOCK_UDF)
        d = self.ck.dir('lib')
        for n in ('a', 'b'):
            open(f'{d}/{n}.txt', 'w').write(''.join(' '.join(str(v) for v in r) + '\n' for r in np.random.RandomState(ord(n)).randint(-2000, 8000, (20, 6))))
        A = self.ard
        R = {}
        R['TSA'] = ('TSA', dict(A, INDEX='NDVI RED SWIR1', OUTPUT_TSS='TRUE', INTERPOLATE='LINEAR', INT_DAY=32, OUTPUT_TSI='TRUE', OUTPUT_STM='TRUE', STM='MIN Q50 AVG STD NUM',
                                OUTPUT_FBY='TRUE', OUTPUT_FBM='TRUE', OUTPUT_TRY='TRUE', OUTPUT_CAY='TRUE', STANDARDIZE_TSS='NONE'), None)
        R['TSA-harmonic'] = ('TSA', dict(A, INDEX='NIR', INTERPOLATE='HARMONIC', HARMONIC_FIT_RANGE='2017-01-01 2018-12-31', HARMONIC_MODES=1, HARMONIC_TREND='FALSE', INT_DAY=16, OUTPUT_TSI='TRUE', OUTPUT_FBQ='TRUE'), None)
        R['TSA-rbf'] = ('TSA', dict(A, INDEX='EVI NDVI', INTERPOLATE='RBF', INT_DAY=8, OUTPUT_TSI='TRUE', OUTPUT_FBW='TRUE', FOLD_TYPE='MAX', ABOVE_NOISE=3, BELOW_NOISE=1, SPECTRAL_ADJUST='FALSE'), None)
        R['TSA-pol'] = ('TSA', dict(A, INDEX='NDVI', INTERPOLATE='LINEAR', INT_DAY=16, OUTPUT_PCT='TRUE', OUTPUT_POL='TRUE', POL='VSS VPS VES VSA RMR IGS DSS DEV', OUTPUT_TRO='TRUE', OUTPUT_CAO='TRUE'), None)
        R['TSA-adjust'] = ('TSA', dict(A, SENSORS='LND08 SEN2A', SPECTRAL_ADJUST='TRUE', TARGET_SENSOR='SEN2L', INDEX='RED NIR', OUTPUT_TSS='TRUE', OUTPUT_STM='TRUE', STM='AVG'), None)
        em = self.file('endmember.txt', '320 560 450\n560 1450 3500\n734 1240 5290\n4519 2120 6500\n2420 2500 7000\n1300 1700 6800\n')
        R['TSA-fold'] = ('TSA', dict(A, SENSORS='LND08', INDEX='NDVI', INTERPOLATE='MOVING', MOVING_MAX=60, INT_DAY=20, STANDARDIZE_TSI='CENTER', OUTPUT_TSI='TRUE', FOLD_TYPE='MIN', STANDARDIZE_FOLD='NORMALIZE',
                                     **{f'OUTPUT_{k}{f}': 'TRUE' for k in ('FB', 'TR', 'CA') for f in 'YQMWD'}), None)
        R['TSA-sma'] = ('TSA', dict(A, SENSORS='LND08', INDEX='SMA', FILE_ENDMEM=em, OUTPUT_TSS='TRUE', OUTPUT_RMS='TRUE', STANDARDIZE_TSS='NORMALIZE', OUTPUT_STM='TRUE', STM='Q05 RNG IQR SKW'), None)
        R['TSA-nrt'] = ('TSA', dict(A, INDEX='NDVI', INTERPOLATE='HARMONIC', HARMONIC_FIT_RANGE='2017-01-01 2018-06-30', HARMONIC_MODES=1, HARMONIC_TREND='FALSE', INT_DAY=16, OUTPUT_NRT='TRUE'), None)
        R['TSA-udf'] = ('TSA', dict(A, INDEX='NIR', INTERPOLATE='LINEAR', INT_DAY=40, FILE_PYTHON=udf, PYTHON_TYPE='PIXEL', OUTPUT_PYP='TRUE', OUTPUT_TRO='FALSE'), None)
        R['BAP-lsp'] = ('LEVEL3', dict(A, LSP_DO='TRUE', DIR_LSP=self.cube.path, BASE_LSP='LSP-A.tif LSP-B.tif LSP-C.tif', LSP_1ST_YEAR=2017, LSP_START=2016 * 365 + 1, YEAR_TARGET=2018, YEAR_NUM=2, OUTPUT_SCR='TRUE', TARGET_SENSOR='LNDLG'), None)
        R['BAP'] = ('LEVEL3', dict(A, BASE_LSP='NULL NULL NULL', YEAR_TARGET=2018, YEAR_NUM=2, OUTPUT_SCR='TRUE', OUTPUT_OVV='FALSE', TARGET_SENSOR='LNDLG', SCORE_CORREL_WEIGHT='0.2'), None)
        R['BAP-all'] = ('LEVEL3', dict(A, SELECT='FALSE', BASE_LSP='NULL NULL NULL', YEAR_TARGET=2018, YEAR_NUM=1, OUTPUT_SCR='TRUE', TARGET_SENSOR='LNDLG'), None)
        R['CSO'] = ('CSO', dict(A, MONTH_STEP=2, CSO='NUM AVG STD MIN MAX'), None)
        R['TXT'] = ('TXT', dict(TXT_RADIUS=10, TXT_ITERATION=2, TXT='DIL ERO OPN CLS GRD THT BHT'), self.features)
        R['LSM'] = ('LSM', dict(LSM_RADIUS=30, LSM_MIN_PATCHSIZE=1, LSM_KERNEL_SHAPE='CIRCLE', LSM_THRESHOLD_TYPE='GT LT GT LT EQ EQ', LSM_THRESHOLD='2000 3000 1000 2500 1000 2000',
                                LSM_ALL_PIXELS='FALSE', LSM='EDD EMS AVG GEO STD MAX ARE'), self.features)
        R['ML'] = ('ML', dict(DIR_MODEL=self.model(), FILE_MODEL=['rfc.xml', 'rfc2.xml'], ML_METHOD='RFC', OUTPUT_MLP='TRUE', OUTPUT_RFP='TRUE', OUTPUT_RFM='TRUE', ML_SCALE=1), self.features)
        R['MLR'] = ('ML', dict(DIR_MODEL=self.model(), FILE_MODEL=['rfr.xml rfr2.xml', 'rfr2.xml'], ML_METHOD='RFR', OUTPUT_MLP='TRUE', ML_SCALE=100), self.features)
        R['LIB'] = ('LIB', dict(DIR_LIBRARY=d, FILE_LIBRARY='a.txt b.txt', LIB_RESCALE='TRUE'), self.features)
        R['UDF-pixel'] = ('UDF', dict(A, FILE_PYTHON=udf, PYTHON_TYPE='PIXEL', OUTPUT_PYP='TRUE'), None)
        R['UDF-block'] = ('UDF', dict(A, FILE_PYTHON=blk, PYTHON_TYPE='CHUNK', OUTPUT_PYP='TRUE'), None)
        R['CFI'] = ('CFIMP', dict(A, SEASONAL_WINDOW='1 181 365', KERNEL_SIZE=50, KERNEL_TEXT=30, DIR_COARSE=self.cube.path, BASE_COARSE='COARSE.tif', COARSE_1ST_YEAR=2016, COARSE_PREDICT_YEARS='2017 2018'), None)
        R['L2I'] = ('L2IMP', dict(A, SENSORS='SEN2A', TARGET_SENSOR='SEN2L', SENSORS_LOWRES='LND08', SEASONAL_WINDOW='1 181 365', KERNEL_SIZE=50, KERNEL_TEXT=30), None)
        return R

    def run(self, spec, over=None, **kw):
        module, p, feat = spec
        return Run(self.ck, module, self.cube.path, {**self.common, **p, **(over or {})}, features=feat, **kw)


def content(run):
    """everything that identifies the products: path -> (values, nodata, georeference, names, dates and sensors of the bands)"""
    out = {}
    for f in run.files():
        rel = os.path.relpath(f, run.out)
        if f.endswith(('.tif', '.dat', '.bsq', '.jpg')):
            r = Raster(f)
            out[rel] = dict(data=r.data, dtype=r.dtype, nodata=r.nodata, gt=tuple(round(v, 6) for v in r.gt), names=r.names,
                            labels=[(m.get('Domain'), m.get('Date'), m.get('Sensor'), m.get('Scale'), m.get('Wavelength')) for m in r.bmeta])
        elif f.endswith('.lock'):
            out[rel] = 'lock'
        else:
            out[rel] = 'other'
    return out
