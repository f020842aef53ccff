import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
HL='src/modules/higher-level/'; CL='src/modules/cross-level/'; LL='src/modules/lower-level/'
T='The existing tests only exercise allocation and string helpers; '
p('H01','Higher-level results are independent of chunking, threading and streaming',
 'For given inputs and processing parameters, force-higher-level writes the same set of product files with the same pixel values and band labels, whatever CHUNK_SIZE, NTHREAD_READ, NTHREAD_COMPUTE, NTHREAD_WRITE and STREAMING are, and however the reading, computing and writing threads interleave. Excepted are the identity of landscape patches, the point-spread reduction and the similarity of pixels when fields are improved, which are defined per chunk.',
 ['schedules','configurations'],'all chunk layouts, thread counts, streaming modes and interleavings of the three pipeline stages',
 T+'none runs the pipeline, and the quantifier is over layouts and schedules.',
 [HL+'tasks-hl.c',HL+'progress-hl.c','src/main/higher-level/force-higher-level.c',CL+'brick_io-cl.cpp',HL+'read-ard-hl.c'],
 [('pipeline of read/compute/write tasks',HL+'tasks-hl.c'),('processing-unit counter and tile/chunk mapping',HL+'progress-hl.c'),('chunk-wise writing into one file per tile',CL+'brick_io-cl.cpp')],
 [('processing unit','running number of the (tile, chunk) in each of the three stages',HL+'progress-hl.c')],['product files in DIR_HIGHER'])
p('H02','Every chunk of every active tile is read, computed and written exactly once',
 'A higher-level run processes exactly the tiles that lie inside X_TILE_RANGE x Y_TILE_RANGE and, if a tile allow-list is given, on that list; each chunk of such a tile is read before it is computed, computed before it is written, and written once at its own position. Tiles outside that set and tiles without input receive no product.',
 ['schedules','configurations'],'all tile ranges, allow-lists, chunk layouts and stage interleavings',
 T+'no test drives the tile/chunk bookkeeping, and a skipped or doubled unit only shows for particular ranges and counts.',
 [HL+'progress-hl.c',HL+'tasks-hl.c',CL+'tile-cl.c','src/main/higher-level/force-higher-level.c'],
 [('processing-unit counters of three stages',HL+'progress-hl.c'),('allow-list test',CL+'tile-cl.c')],
 [('processing unit','which (tile, chunk) a stage works on',HL+'progress-hl.c')],['GDAL I/O calls of the process','product files'])
p('H03','Neighbourhood features are seamless across chunk and tile borders',
 'Texture metrics of a pixel equal the grey-scale morphological operation (erosion, dilation, opening, closing, gradient, top-hats) over its kernel in the seamless mosaic of all available tiles. Neither a chunk border nor a tile border inside the data cube changes any value, and pixels missing from the cube are treated as nodata.',
 ['inputs','configurations'],'all images, kernel radii, chunk layouts and tile arrangements',
 T+'no test reads a chunk with its neighbours; the fault needs a value next to a specific border in a specific layout.',
 [HL+'read-ard-hl.c',HL+'texture-hl.c',HL+'tasks-hl.c',CL+'brick_base-cl.c'],
 [('reading the 3x3 neighbourhood of chunks',HL+'read-ard-hl.c'),('cropping the margin before writing',CL+'brick_base-cl.c')],[],['TXT products'])
p('H04','Masked-out pixels are nodata and influence nothing',
 'With a processing mask, every higher-level product holds the nodata value in each pixel whose mask value is not 1, and exactly the values of an unmasked run in each pixel whose mask value is 1 (for pixel-wise products). Chunks whose mask is empty are skipped without changing other chunks.',
 ['inputs','configurations'],'all mask images and all pixel-wise modules (composites, time series, clear-sky observations, sampling)',
 T+'no test applies a mask.',
 [HL+'read-ard-hl.c',HL+'level3-hl.c',HL+'bap-hl.c',HL+'fold-hl.c',HL+'stm-hl.c',HL+'interpolate-hl.c',HL+'cso-hl.c',HL+'index-compute-hl.c',HL+'sample-hl.c'],
 [('mask reading',HL+'read-ard-hl.c'),('mask test in each pixel loop',HL+'*.c')],[],['product files'])
p('H05','Exactly the requested acquisitions enter an analysis, in temporal order',
 'An image takes part in a higher-level analysis if and only if it is of a requested sensor and product, its date lies in DATE_RANGE (both ends included), its day of year lies in DOY_RANGE (which may wrap around the new year), and it is not a Landsat 7 image later than DATE_IGNORE_LANDSAT_7. The selected images appear once each, in chronological order, labelled with their own date and sensor, and each requested band is taken from the band of that name of the sensor.',
 ['inputs','configurations'],'all directories of acquisitions and all date, day-of-year, sensor and product filters',
 T+'no test lists a data cube; boundary dates, wrapped windows and look-alike names need specific combinations.',
 [HL+'read-ard-hl.c',HL+'param-hl.c',HL+'sensor-hl.c',CL+'datesys-cl.c',CL+'date-cl.c',HL+'tsa-hl.c'],
 [('file listing and filtering',HL+'read-ard-hl.c'),('day-of-year list',HL+'param-hl.c')],[],['TSS product: bands, labels, values'])
p('H06','Quality screening removes exactly the observations that match a chosen rule',
 'Unless the noise filter is on, an observation is used if and only if it is not nodata in the reflectance and none of the conditions chosen in SCREEN_QAI holds in its quality bits; every other quality bit is ignored. Discarded observations are nodata in the time series and never contribute to any later product.',
 ['inputs','configurations'],'all 16-bit quality words and all subsets of screening rules',
 T+'no test evaluates a quality word.',
 [HL+'quality-hl.c',CL+'quality-cl.c',HL+'param-hl.c'],
 [('rule evaluation',HL+'quality-hl.c'),('bit fields',CL+'quality-cl.c')],[('quality word','bit fields of one pixel and date',CL+'quality-cl.h')],['TSS product'])
p('H07','Interpolated series honour the observations and never invent data',
 'Interpolated series are sampled at the first day of DATE_RANGE and every INT_DAY days from there; linear interpolation lies on the straight line between the two enclosing valid observations (nearest one at the ends), a moving average is the mean of the valid observations within MOVING_MAX days, a radial basis function is their mean weighted by Gaussian kernels up to the cut-off, and no interpolation reproduces the screened series. A pixel gets nodata exactly where the method has no valid observation to work with.',
 ['inputs','configurations'],'all observation patterns (gaps, single observations, same-day pairs), step sizes and window widths',
 T+'no test interpolates; off-by-one and gap cases need particular patterns.',
 [HL+'interpolate-hl.c',HL+'tsa-hl.c'],[('interpolators',HL+'interpolate-hl.c')],[],['TSI product'])
p('H08','Temporal statistics and folds aggregate exactly the values of their period',
 'Each band of a fold product (by year, quarter, month, week or day of year) and of the spectral-temporal metrics equals the requested statistic over exactly those valid values of the (interpolated) series that fall into the period, and is nodata if there is none. Bands exist for exactly the periods covered by DATE_RANGE and DOY_RANGE, in ascending order and labelled with their period.',
 ['inputs','configurations'],'all observation patterns, statistics, fold types and temporal windows',
 T+'no test aggregates a series.',
 [HL+'fold-hl.c',HL+'stm-hl.c',CL+'stats-cl.c',CL+'date-cl.c',HL+'param-hl.c',HL+'tsa-hl.c'],
 [('fold and statistic kernels',HL+'fold-hl.c, '+HL+'stm-hl.c'),('calendar',CL+'date-cl.c')],[],['FBY/FBQ/FBM/FBW/FBD and STM products'])
p('H09','A composite pixel is one best eligible observation, described by its info layer',
 'In best-available-pixel mode every band of a composite pixel stems from one and the same eligible observation, namely one with the highest total score, and the information layers (quality bits, number of observations, day of year, year, distance to the target day, sensor) describe that very observation. Where no observation is eligible the composite is nodata.',
 ['inputs','configurations'],'all sets of observations, quality words, target days and scoring settings',
 T+'no test builds a composite.',
 [HL+'bap-hl.c',HL+'level3-hl.c'],[('scoring and selection',HL+'bap-hl.c')],[],['BAP, INF and SCR products'])
p('H10','Clear-sky statistics count each usable observation in its time window',
 'For each window of MONTH_STEP months, clear-sky-observation products report the number of usable observations of each pixel in the window and statistics of the gaps between consecutive observations (including the window borders). Observations outside the window or screened out are not counted.',
 ['inputs','configurations'],'all observation patterns, quality words and window lengths',
 T+'no test counts observations.',
 [HL+'cso-hl.c',HL+'quality-hl.c'],[('interval bookkeeping',HL+'cso-hl.c')],[],['CSO products'])
p('H11','Sampling extracts each sample point at most once, from its own pixel',
 'For every sample point inside a processed tile whose pixel is not masked and, if exclusion is requested, has complete features, the sampling module writes one line to each of the feature, response and coordinate files, with the feature values of the pixel containing the point; the three files stay aligned line by line. All other points produce no line.',
 ['inputs','configurations'],'all point lists, tile ranges, chunk layouts and projections',
 T+'no test samples; duplicates at chunk or tile borders need points at specific positions.',
 [HL+'sample-hl.c',CL+'cube-cl.c',CL+'warp-cl.cpp'],[('bounding-box and pixel test, per-sample consumption flag',HL+'sample-hl.c')],[],['FILE_SAMPLE, FILE_RESPONSE, FILE_COORDINATES'])
p('H12','Landscape metrics describe the thresholded patches in the kernel of each pixel',
 'For each pixel, landscape metrics (area, number of patches, edge density, unit complexity and fractal dimension, mean, spread and maximum of the values) are those of the patches of at least the minimum size, formed by connected pixels that fulfil the threshold query, as far as they lie within the kernel. Pixels that are masked, nodata or (unless all pixels are requested) not part of a patch are nodata.',
 ['inputs','configurations'],'all binary patterns within a kernel, thresholds, query types and layouts',
 T+'no test computes a landscape metric.',
 [HL+'lsm-hl.c',CL+'imagefuns-cl.c'],[('patch labelling and metrics',HL+'lsm-hl.c')],[],['LSM products'])
p('H13','The exit status tells whether a run produced data',
 'force-higher-level exits with success if all active tiles were processed, and with FAIL_IF_EMPTY = TRUE it exits with failure if and only if nothing was read or nothing was written in the whole run. Invalid parameter files and failed writes are reported with a failure status; a chunk whose input cannot be read is reported on the console and gets no product.',
 ['inputs','configurations','fault_sequences'],'all positions of the data among tiles and chunks, and failing I/O operations',
 T+'no test runs the program.',
 [HL+'tasks-hl.c','src/main/higher-level/force-higher-level.c',HL+'progress-hl.c'],[('byte counters and verdict','src/main/higher-level/force-higher-level.c')],[],['exit status','product files'])
p('H14','Output layout options never change the content of products',
 'Writing one file per band, product sub-folders or another output format changes only names and containers: every band keeps its values, nodata value, georeference, band name and date. Each tile file covers exactly its tile of the grid.',
 ['configurations'],'all combinations of OUTPUT_EXPLODE, OUTPUT_SUBFOLDERS, OUTPUT_FORMAT and custom driver options',
 T+'no test writes a product.',
 [CL+'brick_io-cl.cpp',CL+'brick_base-cl.c',CL+'gdalopt-cl.c'],[('product writer',CL+'brick_io-cl.cpp')],[],['product files'])
p('H15','User-defined functions see and return exactly their own pixel or block',
 'A Python plug-in receives, for every unmasked pixel (or block), exactly the values and dates of the selected observations with nodata where they were screened, and the values it returns are stored in the same pixel under the band names it declared. This holds for any chunk layout and thread count.',
 ['inputs','programs','configurations'],'all plug-in functions of the two documented types, all series and layouts',
 T+'no test runs a plug-in.',
 [HL+'udf-hl.c',HL+'py-udf-hl.c',HL+'tsa-hl.c'],[('marshalling to and from the interpreter',HL+'py-udf-hl.c')],[],['PYP products'])
p('H16','Spectral indices are computed from the named bands of each sensor',
 'Each index time series equals the published formula applied to the bands of the required wavelengths of the acquiring sensor, scaled by 10000 (the red edge chlorophyll index by 1000), and is nodata where the observation is unusable or the formula is undefined or not representable; unmixing yields the fraction of the chosen endmember. Requesting an index that the chosen sensors cannot provide is refused.',
 ['inputs','configurations'],'all indices, sensors and sensor combinations, and all reflectance values incl. zero denominators',
 T+'no test computes an index.',
 [HL+'index-compute-hl.c',HL+'index-parse-hl.c',HL+'sensor-hl.c','misc/runtime-data/indices.json'],[('formula kernels',HL+'index-compute-hl.c'),('band lookup',HL+'index-parse-hl.c')],[],['TSS products'])
p('H17','Trends follow the folded series',
 'Trend products report the ordinary least-squares fit of the folded annual (or seasonal) series: mean, offset, slope, relative and absolute gain, coefficient of determination, errors, length and number of values used, and whether the slope is significant for the chosen tail and confidence, using only valid folded values. Trends of phenometric dates refer to days of the year, their slopes are in thousandths of days. Series with fewer than three values are nodata.',
 ['inputs','configurations'],'all folded series incl. gaps',
 T+'no test fits a trend.',
 [HL+'trend-hl.c'],[('least-squares fit',HL+'trend-hl.c')],[],['TRY/TRQ/TRM products'])
p('H18','The noise filter removes outliers and takes plausible observations back',
 'With the noise filter, the observation behind the largest residual (distance to the line between its usable neighbours) is removed for as long as this residual exceeds ABOVE_NOISE times the noise (root mean square of all residuals); afterwards observations that were discarded by their quality are used again if their residual is below BELOW_NOISE times the noise. No nodata value and no removed outlier ever comes back, the filter works per pixel and independently of other pixels, and with both thresholds at zero nothing changes.',
 ['inputs','configurations'],'all series of usable, discarded and missing observations and all pairs of thresholds',
 T+'no test filters a series; the iteration needs particular series.',
 [HL+'quality-hl.c',HL+'tasks-hl.c'],[('removal and restoration loops',HL+'quality-hl.c')],[],['TSS and STM products'])
p('H19','Standardised products are centred or normalised per pixel after everything else',
 'With CENTER a standardised product holds the differences to the mean over time of the valid values of the pixel, with NORMALIZE these differences in units of the standard deviation, scaled by 10000 and limited to what can be stored; missing values stay nodata. Standardising one product leaves all other products unchanged.',
 ['inputs','configurations'],'all series and all combinations of standardised products',
 T+'no test standardises a series.',
 [HL+'standardize-hl.c',HL+'tsa-hl.c'],[('standardisation',HL+'standardize-hl.c')],[],['TSS, TSI and fold products'])
p('H20','Seasonal curves follow seasonal series; residuals describe the time thereafter',
 'Harmonic interpolation uses exactly the usable observations within the fit range, yields nodata where there are fewer of them than coefficients, and reproduces series that follow a seasonal curve (with the chosen modes and trend) on every day of the interpolated series. The near-real-time product holds, for every acquisition after the fit range, the observed value minus the curve, and nodata where the acquisition is not usable.',
 ['inputs','configurations'],'all seasonal series, fit ranges, modes and patterns of missing observations',
 T+'no test fits a curve.',
 [HL+'interpolate-hl.c',HL+'tsa-hl.c'],[('harmonic fit and forecast residuals',HL+'interpolate-hl.c')],[],['TSI and NRT products'])
p('H21','Predictions blend the models of each set; ties have no margin',
 'In regressions, the prediction is the scaled mean over the models of a set, which are blended one after another until another model (from the third one on) moves the mean by less than the convergence threshold; the number of models and their standard deviation describe exactly the models used. In classifications, the prediction is the class most models of the set name, the class probabilities are the shares of the votes of all trees of all models, and the margin is the difference between the two most probable classes. Masked pixels, and pixels lacking a feature if these are to be excluded, have no prediction.',
 ['inputs','configurations'],'all features, model sets and convergence thresholds',
 T+'no test predicts anything.',
 [HL+'ml-hl.c',HL+'read-aux-hl.cpp',HL+'param-hl.c'],[('blending',HL+'ml-hl.c'),('reading models',HL+'read-aux-hl.cpp')],[],['prediction, model count, uncertainty, probability and margin products'])
p('H22','Library completeness is the distance to the closest sample of each library',
 'Each band of the library product holds the smallest mean absolute difference between the valid features of the pixel and a sample of the library, and the last band the smallest one over all libraries. With rescaling, pixel and samples are standardised with the mean and standard deviation of that library and distances are scaled by 1000. Libraries whose samples do not have exactly the given features are refused.',
 ['inputs','configurations'],'all features, libraries, masks and patterns of missing features',
 T+'no test compares features with a library.',
 [HL+'lib-hl.c',HL+'read-aux-hl.cpp',CL+'table-cl.c'],[('closest sample',HL+'lib-hl.c'),('reading libraries',HL+'read-aux-hl.cpp')],[],['library product'])
p('H23','Phenometrics describe the seasons of the interpolated series',
 'The phenological year starts on the day opposite of the mean vector of the series in polar coordinates, and a season reaches from there to the same day of the next year, each start being moved to the day opposite of its own mean vector if seasons are adaptive. Start, middle and end of season are the first steps whose share of the accumulated values reaches the thresholds, and the dates, values, lengths, amplitudes, integrals and rates are those of the series at and between these steps, stored for the year of the season. Polar coordinates are written whenever they are requested.',
 ['inputs','configurations'],'all series with seasons, thresholds, steps and date ranges',
 T+'no test derives phenology.',
 [HL+'polar-hl.c',HL+'tsa-hl.c'],[('seasons and phenometrics',HL+'polar-hl.c')],[],['polarmetrics and polar coordinate products'])
p('H24','Change analysis splits the series at its largest drop',
 'The change of a folded series is its largest drop from one valid value to the next, or, with the penalty on non-permanent change, the one with the largest product of the drop and of what is left of it at the following valid value; magnitude, loss relative to the offset and time of the change are those of this drop. The parts before and from the change on, which together make up the complete series, and the complete series itself are described by the parameters of their trends, the offset being that at the beginning of the part. Parts with fewer than three values have only mean, number and length; without two values everything is nodata.',
 ['inputs','configurations'],'all short series of a few values and gaps, folds, tails, confidence levels, with and without penalty',
 T+'no test analyses changes.',
 [HL+'trend-hl.c'],[('change detection and parts',HL+'trend-hl.c')],[],['change, aftereffect, trend products'])
p('H25','Improved coarse fields are means of the coarse values of similar neighbours',
 'For every requested year, the value of a pixel is a mean of the coarse values, of that year, of the pixels within the kernel radius that look like it in the Level 2 data of the seasonal windows of this year, whatever tile or chunk they are in; without heterogeneity at the scale of the texture kernel it is the plain mean. Masked pixels, pixels without usable Level 2 data and pixels without coarse value take no part; the first and last are nodata or keep the coarse value, and pixels or years without Level 2 data keep the coarse values. A window across the turn of the year begins in the previous year, or ends in the next year if it is the last, and years without coarse fields are not predicted.',
 ['inputs','configurations'],'all layouts of similar pixels, kernels, seasonal windows, years, fields, masks and gaps',
 T+'no test improves fields.',
 [HL+'cf-improphe-hl.c',HL+'improphe-hl.c',HL+'read-ard-hl.c'],[('prediction',HL+'improphe-hl.c'),('years and fields',HL+'cf-improphe-hl.c')],[],['improved fields'])
p('L01','Level 2 tiles partition the processed image without loss or displacement',
 'When an image is tiled into the grid (without reprojection), every valid pixel appears in exactly one tile, at the position given by the grid, with the same value in every band; all other tile pixels are nodata. A tile is written if and only if it is allowed, holds at least one valid pixel and does not exceed the tile cloud limit.',
 ['inputs','configurations'],'all image positions relative to the grid, tile sizes, allow-lists and nodata patterns',
 T+'no test tiles an image.',
 [LL+'cube-ll.c',CL+'cube-cl.c',CL+'brick_io-cl.cpp'],[('chip copy and tile loop',LL+'cube-ll.c'),('grid alignment',CL+'cube-cl.c')],[],['Level 2 tiles'])
p('L02','Same-day images of one sensor merge into a tile without losing valid data',
 'When several images of the same sensor and date fall into one tile, in whatever order they are processed, a pixel of the tile is valid if it is valid in at least one of them, holds that image\'s value where only one is valid and a combination of both (never a nodata value) where both are. Quality bits of pixels covered twice combine to the most restrictive state of each field, and quality and reflectance always agree about which pixels are valid.',
 ['histories','inputs'],'all sequences of overlapping images and re-processing runs',
 T+'no test writes into an existing product.',
 [CL+'brick_io-cl.cpp',CL+'quality-cl.c',LL+'cube-ll.c'],[('update/merge modes of the writer',CL+'brick_io-cl.cpp'),('quality merge',CL+'quality-cl.c')],[('tile file','content of the tile product after each image','DIR_LEVEL2')],['Level 2 tiles after every image'])
p('L03','Level 2 quality bits describe the image',
 'In the quality layer of a Level 2 product a pixel inside the image is flagged as nodata exactly if a band (other than cirrus) has no data or calibrates to no positive reflectance, saturated exactly if a band is at its saturation value or its reflectance exceeds one, and sub-zero exactly if an output reflectance is negative. Reflectance of valid pixels equals the calibrated input, and quality and reflectance agree about which pixels are valid. All fields keep to their own bits.',
 ['inputs'],'all digital numbers and band combinations',
 T+'no test converts an image.',
 [LL+'read-ll.c',LL+'atc-ll.c',LL+'radtran-ll.c',CL+'quality-cl.c',LL+'cube-ll.c'],[('nodata and saturation masks',LL+'read-ll.c')],[],['BOA/TOA and QAI tiles'])
p('L04','Cloud cover limits decide which images and tiles are written',
 'No product is written for an image whose cloud and shadow cover (of its valid pixels) exceeds the frame limit, and no tile is written whose cover exceeds the tile limit. All other tiles are written, provided that opaque clouds stay below four fifths of the frame limit. The printed cloud cover describes the image.',
 ['inputs','configurations'],'all cloud patterns and limits',
 T+'no test detects clouds.',
 [LL+'cloud-ll.c',LL+'cube-ll.c'],[('frame limit',LL+'cloud-ll.c'),('tile limit',LL+'cube-ll.c')],[],['Level 2 tiles','standard output'])
p('L05','Images processed at the same time merge as if one after the other',
 'When several images of one day and sensor are processed at the same time into the same tiles, the tiles finally hold what processing them one after the other would give: no pixel and no quality flag of any image is lost, and no tile is broken. No lock remains afterwards, also when a tile cannot be merged because the existing file is unusable; that file is then left as it is.',
 ['schedules','inputs'],'all interleavings of the file operations of the processes, all overlaps',
 T+'no test runs two processes at once.',
 [CL+'brick_io-cl.cpp',CL+'lock-cl.c',LL+'cube-ll.c'],[('lock, merge and rewrite of a tile',CL+'brick_io-cl.cpp')],[],['Level 2 tiles'])
p('Q01','The Level 2 queue processes each queued image once and records it',
 'force-level2 starts the image processor exactly once for every entry that is QUEUED in the file queue when it is scheduled, never for entries already DONE or FAILed, and records the outcome (DONE, or FAIL if the image could not be processed) in exactly those entries without altering any other line. This holds for parallel processing, processor failures, entries appended during the run and repeated runs.',
 ['schedules','histories','fault_sequences','crash_points'],'all queue contents, job interleavings, processor failures and interruptions',
 T+'no test runs the scheduler script.',
 ['bash/force-level2.sh','misc/force-bash-library.sh'],[('queue file and status update under lock','bash/force-level2.sh'),('parallel job runner','bash/force-level2.sh')],[('queue file','one line per image with status','FILE_QUEUE')],['queue file','calls of the image processor'])
p('Q02','The Level 1 downloader queues every downloaded scene exactly once',
 'After force-level1-csd finishes, every scene that matched the search and was downloaded is present on disk and listed exactly once as QUEUED in the file queue, scenes already present are not downloaded or queued again, and existing queue lines are untouched. Only scenes fulfilling the tile, date, cloud-cover and sensor filters are selected, and of several processings of one acquisition only the latest.',
 ['histories','configurations','fault_sequences'],'all catalogues, filters, previous downloads and failed downloads',
 T+'no test runs the downloader.',
 ['bash/force-level1-csd.sh'],[('catalogue filters and queue update','bash/force-level1-csd.sh')],[('queue file','list of downloaded scenes','FILE_QUEUE')],['download directory','queue file'])
p('C01','Parameter files are read exactly as documented or refused',
 'A parameter file in which every required parameter is given once with a valid value is accepted independent of line order, comments and blank lines; a file with a missing, empty, out-of-range or unknown-valued parameter is refused with an error before any output is produced. The value used is the value written.',
 ['inputs','configurations'],'all parameter files of all modules: line orders, comments, missing, repeated and invalid entries',
 T+'no test parses a parameter file.',
 [CL+'param-cl.c',HL+'param-hl.c',LL+'param-ll.c','src/main/aux-level/force-parameter.c'],[('registration, parsing and checking',CL+'param-cl.c')],[],['exit status and messages','parameter log in product metadata'])
p('C02','All programs agree on the tiling grid',
 'Tile names, tile positions and pixel positions computed by the tile finder, the grid export, the sampler, the importer and the Level 2 tiler agree: a coordinate strictly inside a tile is assigned to that tile and to the pixel that contains it, also left of and above the grid origin. The exported grid covers the requested area with adjacent, non-overlapping tiles.',
 ['inputs','configurations'],'all coordinates, origins, tile sizes and resolutions',
 T+'no test uses the grid.',
 [CL+'cube-cl.c',CL+'tile-cl.c','src/main/aux-level/force-tile-finder.c','src/main/aux-level/force-tabulate-grid.c','src/main/aux-level/force-cube-init.c','bash/force-tile-extent.sh'],[('tile search and alignment',CL+'cube-cl.c')],[],['program output','grid file'])
p('C03','A data cube definition is written once and read back unchanged',
 'Whatever processes start writing into a data cube concurrently, its definition file is created once, completely, and never changed afterwards; every program that reads it gets the projection, origin and tile size that were written, and a copied definition equals the original.',
 ['schedules','inputs'],'all interleavings of concurrent writers and all projections, origins and tile sizes',
 T+'no test writes or reads a definition.',
 [CL+'cube-cl.c',CL+'read-cl.c',CL+'lock-cl.c'],[('lock file and existence test',CL+'cube-cl.c'),('tag/value reader',CL+'read-cl.c')],[('definition file','datacube-definition.prj','data cube directory')],['definition file','grid of later products'])
p('C04','The provenance table names every product and its sources once',
 'Each product file written with a provenance directory gets one line per run in the provenance table, naming the file, exactly the images of its main input (reflectance or quality images, features, or the Level 1 image), and whether it was created or updated; the table stays a well-formed table with a single header under concurrent writers.',
 ['schedules','configurations','histories'],'all numbers of concurrent writers, chunk layouts and repeated runs',
 T+'no test writes provenance.',
 [CL+'brick_io-cl.cpp',HL+'read-ard-hl.c',CL+'brick_base-cl.c'],[('provenance writer under lock',CL+'brick_io-cl.cpp')],[('provenance table','CSV of products','DIR_PROVENANCE')],['provenance CSV'])
p('C05','Dates convert without loss between all representations',
 'Year-month-day, day of year, days since the epoch, week, month and quarter convert into each other consistently and monotonically over the supported range, and a day has the same position in every product that refers to it.',
 ['inputs'],'all dates from 1900 to 2100 and all day-of-year values',
 T+'the date module has no test.',
 [CL+'date-cl.c',CL+'datesys-cl.c'],[('calendar conversions',CL+'date-cl.c, '+CL+'datesys-cl.c')],[],['return values; labels of TSA products'])
p('C06','Image primitives compute what they are named after, for any thread count',
 'Connected components, buffering, distance transform, majority fill, grey-scale reconstruction and the work queue below them return the mathematically defined result for every image, independent of the number of threads.',
 ['inputs','schedules','histories'],'all small images and parameters; all sequences of queue operations',
 T+'no test calls them.',
 [CL+'imagefuns-cl.c',CL+'queue-cl.c'],[('scan-line algorithms and FIFO',CL+'imagefuns-cl.c, '+CL+'queue-cl.c')],[('FIFO','bounded circular queue of pixels',CL+'queue-cl.h')],['return values'])
p('C07','Tables are read and written without losing or shifting a cell',
 'Reading a table with any of the documented separators, with or without row and column names, yields every cell in its row and column; irregular tables are refused; statistics per column are those of its cells; writing and re-reading preserves the cells to the printed precision.',
 ['inputs'],'all small tables, separators and name layouts',
 T+'no test reads a table.',
 [CL+'table-cl.c',CL+'read-cl.c',CL+'string-cl.c'],[('tokenising reader',CL+'table-cl.c')],[],['return values; program outputs that use tables'])
p('T01','Mosaics and pyramids combine exactly the tiles of each product',
 'force-mosaic creates one mosaic per product name containing every tile that has this product and no other product, each at its place; the mosaic shows the value of the tile that covers a pixel. Repeated runs give the same result.',
 ['inputs','histories'],'all sets of tiles and product names, incl. names that contain each other',
 T+'no test runs the tools.',
 ['bash/force-mosaic.sh','bash/force-pyramid.sh','misc/force-bash-library.sh'],[('product grouping','bash/force-mosaic.sh')],[],['mosaic files'])
p('T02','Importing into the data cube keeps values, place and nodata',
 'force-cube puts a raster that is aligned with the grid into the tiles it covers with unchanged values, fills the rest of each tile with nodata, and rasterises vector features into the pixels they cover; tiles that receive no data are not kept. Several inputs are treated independently.',
 ['inputs','configurations'],'all extents relative to the grid, several inputs, several layers',
 T+'no test runs the tool.',
 ['bash/force-cube.sh','misc/force-bash-library.sh'],[('tile loop and warping','bash/force-cube.sh')],[],['cubed files'])
p('T03','Processing masks evaluate the given expression in every tile',
 'force-procmask writes, for every tile that holds the input image and nothing else, a mask that is 1 where the expression is true, 0 where it is false, and nodata where the input has no data, aligned with the tile.',
 ['inputs','configurations'],'all tiles, bands and expressions',
 T+'no test runs the tool.',
 ['bash/force-procmask.sh','misc/force-bash-library.sh'],[('per-tile raster calculator','bash/force-procmask.sh')],[],['mask files'])
p('T04','Parameter templates expand to every combination exactly once',
 'force-magic-parameters writes one parameter file per combination of the listed values (all combinations, or element-wise in paired mode); each file has every placeholder replaced by its value and equals the template elsewhere.',
 ['inputs','configurations'],'all templates with any number of variables and values',
 T+'no test runs the tool.',
 ['bash/force-magic-parameters.sh'],[('substitution loops','bash/force-magic-parameters.sh')],[],['generated files'])
p('T05','Stacks and metadata copies keep band order, values and labels',
 'A stack lists every band of every input exactly once, file-wise if band counts differ and band-wise otherwise, each with its own values, name and metadata; copying metadata reproduces the metadata and names of every band and leaves values untouched. Inconsistent inputs are refused without output.',
 ['inputs'],'all numbers of files and bands',
 T+'no test runs the tools.',
 ['src/main/aux-level/force-stack.c','src/main/aux-level/force-mdcp.c'],[('band order construction','src/main/aux-level/force-stack.c')],[],['stack file','copied metadata'])
p('T06','Inflating quality words reproduces every field',
 'force-qai-inflate writes one band per quality field holding exactly the value of that field for each pixel, for every possible quality word.',
 ['inputs'],'all 65536 quality words',
 T+'no test evaluates quality words.',
 ['src/main/higher-level/force-qai-inflate.c',CL+'quality-cl.c'],[('field getters',CL+'quality-cl.c')],[],['QIM product'])
p('T07','Histograms and stratified samples count pixels exactly',
 'force-hist reports each class of an image with its exact pixel count, ignoring nodata; force-stratified-sample draws points that lie in the centre of distinct pixels of their class, never more than requested per class.',
 ['inputs'],'all class images, bands and sample sizes; all random draws',
 T+'no test runs the tools.',
 ['src/main/aux-level/force-hist.c','src/main/aux-level/force-stratified-sample.c',CL+'table-cl.c'],[('class counting','src/main/aux-level/force-hist.c'),('thinning to the requested size','src/main/aux-level/force-stratified-sample.c')],[],['tables and vector files'])
p('T08','The tile extent tool reports exactly the tiles that intersect the area',
 'force-tile-extent writes an allow-list with exactly the tiles of the grid in which the given geometry covers at least one 10 m pixel centre (or that hold a given point), and prints the tile range that bounds this list.',
 ['inputs'],'all geometries, also with negative tile numbers and tile 0',
 T+'no test runs the tool.',
 ['bash/force-tile-extent.sh'],[('grid intersection and range computation','bash/force-tile-extent.sh')],[],['allow-list and printed range'])
p('T09','A virtual data cube mirrors its source',
 'force-virtual-datacube creates for every tile product of the source data cube that matches the pattern one virtual product of the same tile with the same values, and copies the definition; nothing else is created and the source is untouched.',
 ['inputs','configurations'],'all data cubes, patterns and option orders',
 T+'no test runs the tool.',
 ['bash/force-virtual-datacube.sh'],[('per-file virtual copy','bash/force-virtual-datacube.sh')],[],['virtual files'])
p('T10','Synthetic mixtures are drawn from the library as requested',
 'force-synthmix writes, for every target class and iteration, the requested number of mixtures: the first member of each is a sample of the target class, the others are samples of the classes in use (of distinct other classes unless mixing within classes is allowed), every feature is the share-weighted mean of the members, the shares add up to one and the response is the share of the first member. Number of members, classes and samples occur as often as the requested likelihoods say, proportional ones following the number of samples of each class in use. Originals are appended unchanged with response one or zero when requested; contradicting parameters are refused.',
 ['inputs','configurations'],'libraries, class subsets, complexities, likelihoods, targets, iterations',
 T+'no test mixes samples.',
 ['python/force-synthmix.py'],[('drawing of members and shares','python/force-synthmix.py')],[],['features and response tables'])
p('T11','Reported sizes of a data cube add up per sensor and in total',
 'force-datacube-size reports for every sensor with products in the tiles the sum of the sizes of its files, and the total of these sums, in units of powers of 1024. Files outside of tiles or of no sensor do not count, nothing is left behind, and a folder that is not a data cube is refused.',
 ['inputs'],'all sets of files, sensors, tiles and sizes',
 T+'no test runs the tool.',
 ['bash/force-datacube-size.sh'],[('sums per sensor','bash/force-datacube-size.sh')],[],['printed sizes'])
p('T12','Imported MODIS images carry the quality of their own state layer',
 'Importing a daily MODIS reflectance image writes its seven bands, in the order of their wavelengths and with unchanged values, and a quality layer into the tile of the image, at the position and resolution of the image, together with a data cube definition that agrees with this position. Pixels whose blue reflectance is below -0.01 are nodata in all bands and flagged; for all others the quality layer reports the clouds, shadow, snow, water and aerosol of the state layer at this place, and values below zero or above one, not counting the defective sixth band of Aqua. Files that are no such images are refused without writing products.',
 ['inputs'],'all state words, all combinations of kinds of reflectance, both satellites, tiles and dates',
 T+'no test imports MODIS images.',
 ['src/main/lower-level/force-import-modis.c',CL+'quality-cl.c'],[('state word to quality word','src/main/lower-level/force-import-modis.c')],[],['reflectance and quality products','data cube definition'])
p('T13','Water vapour tables average the clear pixels around each place',
 'For every day without a table, force-lut-modis averages for every place the clear, valid pixels of the daytime granules that reach into the box of three quarters of a degree around the place - only of the first granule that holds the whole box, if several reach into it - provided that they are at least a tenth of the pixels in the box, and uses Terra unless only Aqua has a value or more pixels. Days without any value get no table, existing tables stay as they are, and missing values are 9999. The climatology has, for every month of the year and every place, the mean, standard deviation and number of the values of all daily tables, and tables of other places or with missing lines are refused.',
 ['inputs','configs'],'all places, granules, clouds, days of one or both satellites, sets of existing tables',
 T+'no test builds water vapour tables.',
 [LL+'modwvp-ll.c','src/main/lower-level/force-lut-modis.c'],[('selection of granules',LL+'modwvp-ll.c'),('average of the pixels in the box',LL+'modwvp-ll.c')],[],['daily tables','monthly tables'])
p('L06','Images of all supported satellites are read by their own metadata',
 'Images of Landsat 4, 5, 7, 8, 9 and Sentinel-2 enter the data cube as products named after their date and satellite, with the bands all satellites share (and the red edge and broad near infrared bands of Sentinel-2) in the order of wavelengths; the top of atmosphere reflectance of each band follows from its own file, factor and offset, for Landsat corrected for the position of the sun, and every pixel of a coarser band covers its area. Pixels without data or reflectance in any band but cirrus are dropped in all bands, so are pixels of 8 bit images at which one visible band is far noisier than the others if this is asked for, and pixels with the highest possible number are flagged as saturated. Images of a lower tier than asked for, of another level or satellite, or with a missing band file are refused without products.',
 ['inputs','configs'],'all satellites, calibration coefficients, digital numbers, tiers and kinds of processing',
 T+'no test reads images.',
 [LL+'meta-ll.c',LL+'read-ll.c'],[('metadata per satellite',LL+'meta-ll.c'),('digital numbers to reflectance',LL+'read-ll.c'),('impulse noise',LL+'read-ll.c')],[],['top of atmosphere and quality products'])
p('L07','Level 2 products are clipped to the area of interest',
 'With an area of interest, exactly those valid pixels of an image stay valid whose centre lies in one of its polygons, holes excluded, whatever coordinate system and file format the area comes in. All other pixels are without data in all products, and tiles without any remaining pixel are not written.',
 ['inputs','configs'],'all sets of polygons, coordinate systems, formats and positions of images',
 T+'no test clips images.',
 [CL+'vector-cl.c',LL+'atmo-ll.c'],[('rasterised area',CL+'vector-cl.c')],[],['validity of pixels','tiles'])
p('L08','The water vapour of an image comes from the nearest place in the tables',
 'If a directory of water vapour tables is given, a Landsat image is corrected with the value of the place in the table of its day that is nearest to its centre and closer than 1.5 degrees; if this does not exist or has no value, with the value of the nearest such place in the climatology table of its month, unless only daily tables are permitted. The constant water vapour of the parameter file has no influence then, and images for which no permitted value exists are not processed.',
 ['inputs','configs'],'all tables of the day and of the month, places, missing values and settings',
 T+'no test corrects images.',
 [LL+'gas-ll.c'],[('choice of water vapour',LL+'gas-ll.c')],[],['surface reflectance','exit code'])
p('L09','External aerosol tables decide by the nearest place of the day of the year',
 'If a directory of aerosol tables is given and aerosols are not estimated (or cannot be, as the image has no dark targets), the image is corrected with the aerosol optical depth of the place nearest to its centre in the table of its day of the year, however far this is, and all its pixels are flagged as using fill aerosols. Images without a table of their day are not processed.',
 ['inputs','configs'],'all tables, dates, places and coefficients; with and without estimation',
 T+'no test corrects images.',
 [LL+'aod-ll.c',LL+'atmo-ll.c'],[('external aerosols',LL+'aod-ll.c'),('aerosol flag',LL+'atmo-ll.c')],[],['aerosol product','surface reflectance','quality product','exit code'])
p('L10','Sharpening Sentinel-2 bands changes only the 20 m bands, and keeps even areas',
 'With any of the three methods, the 10 m bands, the quality layer and pixels without data stay as they are without sharpening, 20 m values in completely even surroundings stay (up to rounding), and the number of threads has no influence. The ImproPhe and regression methods also keep clouds and shadows; ImproPhe values lie within the range of the 20 m values of those valid pixels within two pixels that are most similar in the green, red and broad near infrared bands, and regression keeps 20 m bands that are linear functions of these bands.',
 ['inputs','configs','schedules'],'all images, gaps and methods',
 T+'no test reads or sharpens Sentinel-2 images.',
 [LL+'resmerge-ll.c'],[('choice of similar neighbours',LL+'resmerge-ll.c'),('regression in moving windows',LL+'resmerge-ll.c')],[],['top of atmosphere and quality products'])
p('L11','Reprojected images are resampled to where they belong',
 'When an image is reprojected into the grid, with nearest neighbour resampling every cell of the output resolution holds all bands of that pixel of the image its centre lies in (with bilinear resampling in the image\'s own coordinate system, the distance weighted mean of the four pixels around it), and its quality is always that of the pixel its centre lies in. Cells outside of the image or at pixels without data are without data, tiles have the geometry of the grid, and exactly those tiles are written that hold data.',
 ['inputs','configs'],'all positions of the image, coordinate systems, resolutions, tile sizes and gaps',
 T+'no test reprojects images.',
 ['src/modules/cross-level/brick_io-cl.cpp',CL+'cube-cl.c',LL+'cube-ll.c',LL+'atmo-ll.c'],[('warping into the grid','src/modules/cross-level/brick_io-cl.cpp'),('alignment with tiles',CL+'cube-cl.c')],[],['reflectance and quality tiles'])
p('L12','Optional Level 2 products follow reflectance and quality',
 'Exactly the requested optional products are written next to reflectance and quality, and they are without data where the quality says so. The distance product holds the distance in metres (in whole pixels, rounded down, at most 32767) to the nearest pixel of the image with cloud, cirrus, shadow or snow (width plus height if there is none), the haze product blue - 0.5 red - 0.08 of top of atmosphere reflectance, and the water vapour product the prescribed water vapour if an atmospheric correction is made. Overviews show every 150 m the first that applies of no data (black), cirrus (red), cloud (pink), shadow (cyan), snow (yellow), saturation (orange), negative reflectance (green), else true colours cut off at 0 and 25 % reflectance.',
 ['inputs','configs'],'all images, quality words and selections of products',
 T+'no test writes optional products.',
 [LL+'atmo-ll.c',LL+'cloud-ll.c'],[('distance product',LL+'cloud-ll.c'),('overview and haze products',LL+'atmo-ll.c')],[],['distance, haze, vapour and overview images'])
p('T14','Training splits, weights and validates samples as requested',
 'Of n samples the requested percentage (rounded down) is used for training - the first ones, or ones drawn at random without repetition - and all others for validation; both parts are listed in the order of the file with their features, responses and predictions, and the reported accuracies and errors are those of the listed predictions. Class weights are the frequencies of the classes in the response file, their normalised inverses or the given ones, in ascending order of the classes, and a model can tell clearly distinct classes of its training samples apart. Feature and response files of different length, response columns that do not exist and wrong numbers of weights are refused without a model.',
 ['inputs','configs'],'all samples, splits, weights and methods',
 T+'no test trains a model.',
 ['src/main/aux-level/force-train.cpp','src/modules/aux-level/train-aux.cpp'],[('splitting the sample','src/main/aux-level/force-train.cpp'),('class weights and validation','src/modules/aux-level/train-aux.cpp')],[],['model and log file'])
p('L13','Terrain flags follow the elevation model and the sun',
 'Pixels of an image are flagged as sloped if the terrain (by heights of the eight neighbours) is steeper than 2 degrees, and as moderately, poorly or not lit if the angle between the surface normal and the sun is above 55, 80 or 90 degrees. They are without data if one of these heights is missing, except that missing heights next to sea level, directly or through a straight line of them, are sea level. Pixels at the border of the image are lit like the pixel next to them.',
 ['inputs'],'all elevation models, positions of the sun and gaps',
 T+'no test uses an elevation model.',
 [LL+'topo-ll.c',LL+'radtran-ll.c'],[('sea, slope and aspect',LL+'topo-ll.c'),('illumination',LL+'topo-ll.c')],[],['quality words'])
p('L14','Clouds, cirrus, shadows and snow grow by exactly their buffers',
 'With buffers around clouds, cirrus, shadows or snow, exactly those pixels within the buffer distance (in whole pixels, rounded down) of what is found without buffers are flagged as well; without a buffer nothing grows. Opaque clouds stay opaque, pixels near them are buffer pixels even if they are cirrus, and pixels near cirrus only are cirrus. If clouds are to be erased, exactly the pixels of opaque clouds lose their reflectance; otherwise, reflectance and which pixels have data do not depend on buffers.',
 ['inputs','configs'],'all images and combinations of buffers',
 T+'no test uses buffers.',
 [LL+'cloud-ll.c',CL+'imagefuns-cl.c'],[('buffers of clouds, cirrus and shadows',LL+'cloud-ll.c'),('growing a mask',CL+'imagefuns-cl.c')],[],['quality words'])
p('H26','Images of another resolution are read at the requested one',
 'If the requested resolution differs from that of the images (or of their quality words or masks), every cell takes the value of the pixel at its centre, independently of how tiles are cut into chunks. If smoothing is requested and cells are coarser than pixels, the cell takes an average of the valid image values in and around it, which does not shift the image: constant areas and even slopes keep their values, and cells without valid pixels have no data. Quality words and masks are never averaged.',
 ['inputs','configs'],'all combinations of resolutions that divide the chunks',
 T+'no test reads images at another resolution.',
 [HL+'read-ard-hl.c'],[('reading a chunk at the requested resolution',HL+'read-ard-hl.c'),('reduction with a point spread function',HL+'read-ard-hl.c')],[],['time series of images'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P)); print(len(P))
