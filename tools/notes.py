DEFAULT_NOTE = ('TLC explores the bounded configurations of the specification completely and checks its invariants; the expected states are '
                'replayed through the real executables and compared. Beyond the bounds, assurance is by sampling. Trusted: TLC, GDAL, the driver.')
TECHNIQUE = {}
NOTE = {}
LEVEL = {}
NOT_APPLICABLE = {}
NOTE['T06'] = ('Exhaustive: all 32768 quality words are enumerated by TLC (with the round-trip invariant) and replayed through force-qai-inflate. '
               'Trusted: TLC, GDAL, the driver.')
NOTE['C02'] = ('The grid is an integer specification; TLC enumerates positions around every tile and pixel border for several grids (also left of and '
               'above the origin) and the tile finder, grid export and sampler are replayed on them; the Level 2 tiler is compared in L01. '
               'Bounds: the grids and positions enumerated. Trusted: TLC, GDAL/PROJ for coordinates, the driver.')
NOTE['T02'] = ('Extents, layers and vectors relative to a small grid are evaluated by TLC; every file of the cube is compared after every import. '
               'Only inputs aligned with the grid are decided (resampling is numeric). Trusted: TLC, GDAL, the driver.')
NOTE['L05'] = ('TLC explores the locking protocol of two and three processes completely (and refutes four weaker protocols); the real processes are stopped '
               'before every file operation and run through interleavings (all stopping points of the first of two processes, samples of the rest). Trusted: TLC, the gate library, GDAL.')
NOTE['H03'] = ('TLC evaluates the morphology of every job in the seamless mosaic (with the ordering invariants); products of several chunk layouts, tile arrangements and thread '
               'counts are compared value by value. Bounds: mosaics up to 36x16 pixels, radius up to 3, two iterations. Trusted: TLC, GDAL, the driver.')
NOTE['H09'] = ('TLC computes targets, scores (exponential curves are tables), totals, candidates and admissible winners of every pixel; composite, information and scores of '
               'the real runs are compared. Pixels whose scores lie within a few millionths of a limit are not judged. Sigmoid seasons are judged by order only. Trusted: TLC, GDAL, the driver.')
NOTE['H12'] = ('TLC labels the patches and derives the metrics of every kernel from the patterns given; products are compared pixel by pixel. Patches are judged within chunk and '
               'margin. Not claimed: effective mesh size and geometric mean. Bounds: patterns up to 24x16 pixels. Trusted: TLC, GDAL, the driver.')
NOTE['H15'] = ('The plug-in of the harness records every call; the calls and the stored values are compared with the series, dates and blocks TLC derives from the cube. Python '
               'plug-ins only: the packages R plug-ins need are not in the sandbox. Masked pixels of block plug-ins are not judged. Trusted: TLC, GDAL, Python, the driver.')
NOTE['H18'] = ('TLC runs the filter as a state machine over every series (termination, nothing invented, non-vacuity checked); the series of the product must hold exactly the '
               'observations left. Decisions within rounding of a threshold are not judged. Bounds: up to 14 observations, 660 series. Trusted: TLC, GDAL, the driver.')
NOTE['H19'] = ('Every combination of observations is a behaviour of the time-series specification, whose last stage standardises; compared pixel by pixel. Single values and constant series '
               'are not judged. Bounds: 5-6 observations with 3 alternatives. Trusted: TLC, GDAL, the driver.')
NOTE['H20'] = ('TLC decides which observations enter the fit, where there is a curve and what the near-real-time bands hold; values are judged (4 units) for series that follow a curve and have '
               'observations to spare, elsewhere only their presence. Trusted: TLC, GDAL, the driver.')
NOTE['H21'] = ('Forests are written as model files from the trees of the specification; TLC blends them model by model (invariants: the mean lies within the predictions, every tree votes, at least three '
               'models before convergence); random forests only, support vector machines share the blending but their predictions are not modelled. Bounds: up to 8 models of 6 trees. Trusted: TLC, OpenCV, GDAL, the driver.')
NOTE['H22'] = ('Libraries have whole standard deviations, so TLC computes every distance exactly. Distances that cannot be stored may be missing or the largest value. Bounds: 4 libraries of up to '
               '9 samples. Trusted: TLC, GDAL, the driver.')
NOTE['H23'] = ('Recorded series, start of the phenological year and shifts of adaptive seasons are the trace; TLC finds the seasons, events and sums (invariants: events in order, parts make the whole), the driver '
               'only does the trigonometry. Seasons with a step within a day of the start or a share within rounding of a threshold are not judged, nor incomplete first seasons. Bounds: 3-4 years, steps of 8-25 days.')
NOTE['H16'] = ('The formulas are integer fractions in the specification, evaluated by TLC for every spectrum of the runs (incl. zero denominators and values that cannot be stored); '
               'unmixing is decided for exact mixtures. Root and kernel indices are compared numerically. Trusted: TLC, GDAL, the driver.')
