"""Synthetic Level 1 images of all supported satellites."""
import os
import numpy as np
from osgeo import gdal
from l1 import WKT32

TM = ['1', '2', '3', '4', '5', '7', '6']
OLI = ['1', '2', '3', '4', '5', '9', '6', '7', '10']
MSI = ['01', '02', '03', '04', '05', '06', '07', '08', '8A', '09', '10', '11', '12']
MSIRES = dict(zip(MSI, [60, 10, 10, 10, 20, 20, 20, 10, 20, 60, 60, 20, 20]))


def tif(fn, a, ulx, uly, res):
    d = gdal.GetDriverByName('GTiff').Create(fn, a.shape[1], a.shape[0], 1, gdal.GDT_UInt16, options=['COMPRESS=LZW'])
    d.SetGeoTransform([ulx, res, 0, uly, 0, -res])
    d.SetProjection(WKT32)
    d.GetRasterBand(1).WriteArray(a.astype('uint16'))
    d = None


def landsat(top, number, arrs, mul, add, ulx, uly, date, time='10:05:00.0000000Z', row=24, second=False, kind='L1TP', category='T1'):
    """mul, add: per reflective band. second: band files are listed a second time, as in collection 2."""
    bands = OLI if number >= 8 else TM
    name = f"{'LC' if number >= 8 else 'LE' if number == 7 else 'LT'}{number:02d}_{kind}_193{row:03d}_{date.replace('-', '')}_{date.replace('-', '')}_02_{category}"
    d = os.path.join(top, name)
    os.makedirs(d)
    ny, nx = arrs['1'].shape
    tag = lambda b: '6_VCID_1' if number == 7 and b == '6' else b
    qmax = 65535 if number >= 8 else 255
    m = ['GROUP = L1_METADATA_FILE', f'    SPACECRAFT_ID = "LANDSAT_{number}"', '    SENSOR_ID = "OLI_TIRS"']
    m += [f'    FILE_NAME_BAND_{tag(b)} = "{name}_B{tag(b)}.TIF"' for b in sorted(bands)]
    if number == 7:
        m += [f'    FILE_NAME_BAND_6_VCID_2 = "{name}_B6_VCID_2.TIF"', f'    FILE_NAME_BAND_8 = "{name}_B8.TIF"']
    if number >= 8:
        m += [f'    FILE_NAME_BAND_8 = "{name}_B8.TIF"', f'    FILE_NAME_BAND_11 = "{name}_B11.TIF"', f'    FILE_NAME_BAND_QUALITY = "{name}_BQA.TIF"']
    m.append(f'''    {'PROCESSING_LEVEL' if second else 'DATA_TYPE'} = "{kind}"
    {'DATA_TYPE = "' + kind + '"' if second else 'ELEVATION_SOURCE = "GLS2000"'}
    COLLECTION_CATEGORY = "{category}"
    WRS_PATH = 193
    WRS_ROW = {row}
    DATE_ACQUIRED = {date}
    SCENE_CENTER_TIME = "{time}"
    CORNER_UL_PROJECTION_X_PRODUCT = {ulx + 15:.3f}
    CORNER_UL_PROJECTION_Y_PRODUCT = {uly - 15:.3f}
    PANCHROMATIC_LINES = {2 * ny}
    PANCHROMATIC_SAMPLES = {2 * nx}
    REFLECTIVE_LINES = {ny}
    REFLECTIVE_SAMPLES = {nx}
    GRID_CELL_SIZE_REFLECTIVE = 30.00
    SUN_AZIMUTH = 150.0
    SUN_ELEVATION = 60.0''')
    therm = bands[-1]
    hot = dict(k1=774.8853, k2=1321.0789, lo=0.10033, hi=22.0) if number >= 8 else dict(k1=607.76, k2=1260.56, lo=1.238, hi=15.303) if number < 7 else dict(k1=666.09, k2=1282.71, lo=0.0, hi=17.04)
    for b in sorted(bands):
        t = tag(b)
        m.append(f'    RADIANCE_MAXIMUM_BAND_{t} = {700 if b != therm else hot["hi"]}\n    RADIANCE_MINIMUM_BAND_{t} = {-60 if b != therm else hot["lo"]}\n'
                 f'    QUANTIZE_CAL_MAX_BAND_{t} = {qmax}\n    QUANTIZE_CAL_MIN_BAND_{t} = 1')
        if b != therm:
            m.append(f'    REFLECTANCE_MULT_BAND_{b} = {mul[b]:.4E}\n    REFLECTANCE_ADD_BAND_{b} = {add[b]:.6f}')
        tif(f'{d}/{name}_B{t}.TIF', arrs[b], ulx, uly, 30)
    if number >= 8:
        for extra in ('8', '11'):
            m.append(f'    REFLECTANCE_MULT_BAND_{extra} = 9.0000E-05\n    REFLECTANCE_ADD_BAND_{extra} = -0.900000')
    m.append(f'    K1_CONSTANT_BAND_{tag(therm)} = {hot["k1"]}\n    K2_CONSTANT_BAND_{tag(therm)} = {hot["k2"]}')
    if number == 7:
        m.append('    K1_CONSTANT_BAND_6_VCID_2 = 1.0\n    K2_CONSTANT_BAND_6_VCID_2 = 2.0')
    if number >= 8:
        m.append('    K1_CONSTANT_BAND_11 = 1.0\n    K2_CONSTANT_BAND_11 = 2.0')
    open(f'{d}/{name}_MTL.txt', 'w').write('\n'.join(m) + '\nEND_GROUP = L1_METADATA_FILE\nEND\n')
    return d


def grid(values):
    return '\n'.join('          <VALUES>' + ' '.join('NaN' if v is None else f'{v:.4f}' for v in r) + '</VALUES>' for r in values)


def angles(z, a, pad):
    o = ''
    for n, v in (('Zenith', z), ('Azimuth', a)):
        o += f'{pad}<{n}>\n{pad}  <COL_STEP unit="m">5000</COL_STEP>\n{pad}  <ROW_STEP unit="m">5000</ROW_STEP>\n{pad}  <Values_List>\n{grid(v)}\n{pad}  </Values_List>\n{pad}</{n}>\n'
    return o


def sentinel(top, unit, arrs, ulx, uly, date, quant=10000, add=None, sun=30.0, view=None, tile='T32UNB', time='10:05:00.000Z'):
    """arrs: per band at its resolution. add: per band (baseline 4) or None. view: grid of view zeniths, None outside of the swath."""
    d8 = date.replace('-', '')
    prod = os.path.join(top, f'S2{unit}_MSIL1C_{d8}T100500_N0400_R022_{tile}_{d8}T120000.SAFE')
    name = f'L1C_{tile}_A012345_{d8}T100500'
    g = f'{prod}/GRANULE/{name}'
    os.makedirs(g + '/IMG_DATA')
    ny, nx = arrs['02'].shape
    n = -(-nx * 10 // 5000) + 1
    view = view or [[5.0] * n for _ in range(n)]
    off = ''
    if add:
        off = '      <Radiometric_Offset_List>\n' + ''.join(f'        <RADIO_ADD_OFFSET band_id="{k}">{add[b]}</RADIO_ADD_OFFSET>\n' for k, b in enumerate(MSI)) + '      </Radiometric_Offset_List>\n'
    open(prod + '/MTD_MSIL1C.xml', 'w').write(f'''<?xml version="1.0" encoding="UTF-8" standalone="no"?>
<n1:Level-1C_User_Product>
  <n1:General_Info>
    <Product_Info>
      <PRODUCT_START_TIME>{date}T{time}</PRODUCT_START_TIME>
      <PRODUCT_STOP_TIME>2099-01-01T{time}</PRODUCT_STOP_TIME>
      <PROCESSING_LEVEL>Level-1C</PROCESSING_LEVEL>
      <Datatake datatakeIdentifier="GS2{unit}_{d8}T100500_012345_N04.00">
        <SPACECRAFT_NAME>Sentinel-2{unit}</SPACECRAFT_NAME>
      </Datatake>
    </Product_Info>
    <Product_Image_Characteristics>
      <QUANTIFICATION_VALUE unit="none">{quant}</QUANTIFICATION_VALUE>
{off}    </Product_Image_Characteristics>
  </n1:General_Info>
</n1:Level-1C_User_Product>
''')
    sz = [[sun] * n for _ in range(n)]
    s = '''<?xml version="1.0" encoding="UTF-8" standalone="no"?>
<n1:Level-1C_Tile_ID>
  <n1:Geometric_Info>
    <Tile_Geocoding metadataLevel="Brief">
      <HORIZONTAL_CS_NAME>WGS84 / UTM zone 32N</HORIZONTAL_CS_NAME>
      <HORIZONTAL_CS_CODE>EPSG:32632</HORIZONTAL_CS_CODE>
'''
    for r in (10, 20, 60):
        s += f'      <Size resolution="{r}">\n        <NROWS>{ny * 10 // r}</NROWS>\n        <NCOLS>{nx * 10 // r}</NCOLS>\n      </Size>\n'
    for r in (10, 20, 60):
        s += f'      <Geoposition resolution="{r}">\n        <ULX>{ulx:.3f}</ULX>\n        <ULY>{uly:.3f}</ULY>\n        <XDIM>{r}</XDIM>\n        <YDIM>-{r}</YDIM>\n      </Geoposition>\n'
    s += '    </Tile_Geocoding>\n    <Tile_Angles metadataLevel="Standard">\n      <Sun_Angles_Grid>\n' + angles(sz, [[150.0] * n] * n, '        ') + '      </Sun_Angles_Grid>\n'
    for b in range(13):
        for det in (1, 2):
            s += f'      <Viewing_Incidence_Angles_Grids bandId="{b}" detectorId="{det}">\n' + angles(view, [[None if v is None else 100.0 for v in r] for r in view], '        ') + '      </Viewing_Incidence_Angles_Grids>\n'
    s += '    </Tile_Angles>\n  </n1:Geometric_Info>\n</n1:Level-1C_Tile_ID>\n'
    open(g + '/MTD_TL.xml', 'w').write(s)
    for b in MSI:
        tif(f'{g}/IMG_DATA/{tile}_{d8}T100500_B{b}.jp2', arrs[b], ulx, uly, MSIRES[b])
    return g
