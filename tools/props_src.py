"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props_src.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(
        d=dict(id=id, title=title, statement=statement,
               quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                            mechanism=[dict(name=a, where=b) for a, b in mech],
                            observe_at=observe, hook_needed=None)),
        technique=technique, note=note))


prop('C01', 'The richness solver returns a self-consistent richness and memberships',
     'For any set of candidate galaxies the solved richness equals the sum of the returned total '
     'membership weights plus the richness times the (non-negative) masked fraction at the richness-dependent '
     'radius r0*(richness/100)^beta, to the solver tolerance, and is reported as -1 exactly when no solution of '
     'at least one galaxy exists. Each returned probability is signal/(signal+background) in [0,1] at that '
     'richness, the radial weight is the soft (error function) or hard cut at that radius, and the total '
     'weight is their product with the input weight. The answer does not depend on the order or memory '
     'layout of the galaxies or on galaxies of zero weight.',
     ['inputs'], 'all finite galaxy lists (size 1 upward), radius laws, mask polynomials, hard and soft cuts',
     'The unit test solves one stored cluster; self-consistency has to hold for every galaxy list, including '
     'nearly empty, background dominated and heavily masked ones, and both cut modes.',
     ['redmapper/solver_nfw/solver_nfw.c', 'redmapper/solver_nfw/nfw_weights.c', 'redmapper/solver_nfw/solver_nfw_lib.py'],
     [('bisection on richness', 'redmapper/solver_nfw/solver_nfw.c:solver_nfw'),
      ('probabilities and radial weights', 'redmapper/solver_nfw/nfw_weights.c:nfw_weights')],
     ['Solver(...).solve_nfw()'],
     'Hypothesis PBT: independent numpy reference + metamorphic relations',
     'Generated galaxy lists up to 60 galaxies; reference fixed-point evaluation in numpy; tolerance = solver tolerance.')

prop('C02', 'Cluster richness outputs are consistent with the cluster model and masks',
     'After a richness measurement every neighbour carries a raw probability, colour probability, '
     'luminosity and radial weight and a total membership in [0,1] equal (to the solver tolerance) to '
     'probability * luminosity weight * radial weight * free probability, and they equal the values of the '
     'documented model (projected NFW * Schechter * chi-squared density over background) at the measured '
     'richness. Richness equals scale value times total membership, the radius follows the radius law, the '
     'error is the membership variance plus the mask error (zero when the mask correction at that radius '
     'is below 1%), and measuring on a subset of neighbours leaves the others at zero. A failed '
     'measurement reports richness and scale value of -1 (and error -1 when errors are asked for) and zero '
     'memberships. The single-colour richness used in training and the local background ratio likewise '
     'equal their models. No other neighbour column changes.',
     ['inputs', 'configurations'], 'all neighbour lists, redshifts, masks/depths, local subsets and radius laws',
     'test_cluster cannot even run in this tree (its maskgals file is missing) and samples one cluster; the '
     'relations must hold for every cluster, mask and subset.',
     ['redmapper/cluster.py', 'redmapper/utilities.py', 'redmapper/mask.py'],
     [('filter evaluation and solver call', 'redmapper/cluster.py:Cluster.calc_richness'),
      ('mask error', 'redmapper/cluster.py:Cluster.calc_lambdacerr'),
      ('luminosity weight', 'redmapper/utilities.py:calc_theta_i')],
     ['Cluster.calc_richness', 'Cluster.neighbors', 'Cluster.Lambda/Lambda_e/r_lambda/scaleval'],
     'Hypothesis PBT: independent reference model of the richness likelihood',
     'Synthetic clusters on the shipped DR8 red sequence and background; generated masks, depths, subsets.')

prop('C03', 'Colour chi-squared equals the generalised least-squares distance in every mode',
     'For any photometry, red-sequence model and intrinsic covariance the returned chi-squared is d^T C^-1 d with '
     'C the intrinsic covariance plus the propagated photometric colour covariance (plus the optional slope term), eigenvalues of C below 1e-6 raised to 1e-6, '
     'and the returned likelihood is -chisq/2 - ln(det C)/2. One-redshift-many-galaxies, one-galaxy-many-redshifts and '
     'per-galaxy-redshift modes give the same number for the same (galaxy, redshift) pair, each galaxy independent of the others, '
     'and the result does not depend on the memory layout or dtype of the inputs.',
     ['inputs'], 'all magnitudes/errors, 2-6 bands, positive-definite covariances, array layouts, three modes, with/without error and luptitude terms',
     'The unit test compares a few stored values for one galaxy table in one memory layout, loosely for the per-galaxy mode.',
     ['redmapper/chisq_dist/chisq_dist.c', 'redmapper/chisq_dist/chisq_dist_lib.py', 'redmapper/chisq_dist/chisq_dist_pywrap.c'],
     [('matrix assembly and inversion', 'redmapper/chisq_dist/chisq_dist.c'),
      ('mode selection and argument packing', 'redmapper/chisq_dist/chisq_dist_lib.py:compute_chisq')],
     ['compute_chisq(...)'],
     'Hypothesis PBT: numpy linear-algebra oracle + cross-mode differential',
     'Up to 6 bands, 8 galaxies or redshifts per case; well conditioned and near-singular covariances.')

prop('C04', 'The red-sequence model is looked up at the right redshift and stays physical',
     'A loaded red-sequence model holds, at every tabulated redshift, the natural cubic spline through the nodes of each quantity in its file, limited to physical values '
     '(scatter at least the minimum, correlations within 0.99, symmetric covariance, error ratios at least one half), with pivot magnitude and slope held and colours following the template outside the node range when a template is named. '
     'Redshift and magnitude look-ups return the nearest tabulated bin, clipped to the table, for scalars and arrays alike. '
     'Galaxy chi-squared and likelihood from the model equal the direct colour distance at that bin (with photometric-error rescaling and luptitude terms), identically for one redshift, one redshift per galaxy, or one galaxy at many redshifts.',
     ['inputs', 'configurations'], 'all generated parameter files (bands, nodes, luptitudes on/off), redshifts and magnitudes in and out of range',
     'Tests load one stored file and compare a handful of table entries.',
     ['redmapper/redsequence.py', 'redmapper/utilities.py'],
     [('table construction', 'redmapper/redsequence.py:RedSequenceColorPar.__init__'),
      ('bin look-up', 'redmapper/redsequence.py:RedSequenceColorPar.zindex/refmagindex/lumrefmagindex'),
      ('chi-squared', 'redmapper/redsequence.py:RedSequenceColorPar.calculate_chisq')],
     ['RedSequenceColorPar attributes', 'zindex/refmagindex/lumrefmagindex', 'calculate_chisq', 'calculate_chisq_redshifts'],
     'Hypothesis PBT: generated parameter files, scipy/numpy reference tables',
     'Parameter files generated with 3-5 bands; reference splines from scipy.')

prop('C05', 'Photometric redshifts are per-galaxy, reproducible and recover the red sequence',
     'The photometric redshift, error, chi-squared and likelihood of a galaxy depend only on that galaxy: '
     'any batch, order, single-galaxy call or split over chunks, pixels and processes gives the same '
     'values in the same rows, and the photometry is untouched. The uncorrected redshift is the peak or '
     "mean of the galaxy's posterior over the model (so a galaxy exactly on the red sequence gets its own "
     'redshift back within its quoted precision) with the posterior width, at least 0.005, as error; the '
     'corrected values apply the tabulated redshift and magnitude corrections; and a galaxy that cannot be '
     'fitted carries the documented bad value (-1, likelihood -1000) in all outputs. Redshift samples are '
     "drawn from the galaxy's own posterior.",
     ['inputs', 'schedules', 'configurations'], 'all galaxy tables, batch sizes, chunkings, process counts',
     'Tests check a few galaxies of one table in a fixed batch.',
     ['redmapper/zred_color.py', 'redmapper/zred_runner.py'],
     [('vectorised redshift likelihood', 'redmapper/zred_color.py:ZredColor.compute_zreds'),
      ('chunked parallel run', 'redmapper/zred_runner.py:ZredRunCatalog'),
      ('per-pixel run and table', 'redmapper/zred_runner.py:ZredRunPixels')],
     ['ZredColor.compute_zreds/compute_zred', 'zred output files'],
     'Hypothesis PBT: batch-vs-single differential, injected-redshift recovery, process-count differential',
     'Generated galaxies over the DR8 model range; chunk sizes and worker counts varied.')

prop('C06', 'Background look-ups return the tabulated density for the requested bin',
     'A background density look-up returns, for every element of the request, the tabulated surface '
     'density (linearly interpolated to the documented fine bins, divided by the area where asked) of the '
     'bin containing the chi-squared, redshift estimate or colour and the magnitude, at the nearest '
     'redshift. The chi-squared background is infinite outside its chi-squared and magnitude range and '
     'wherever the table is empty (unless zeros are allowed); the redshift-estimate background is infinite '
     'below its range; the colour background is infinite above its range and where empty, and its '
     'normalised forms are clipped to the range. No request yields a negative or NaN density, the answer '
     'for one element does not depend on the others, and the order in which two colours are given does not '
     'matter.',
     ['inputs'], 'all redshifts, chi-squareds, colours and magnitudes, on and off bin edges and outside the table',
     'Tests compare a few dozen stored values inside the table.',
     ['redmapper/background.py', 'redmapper/color_background.py'],
     [('chi-squared background', 'redmapper/background.py:Background.sigma_g_lookup'),
      ('redshift background', 'redmapper/background.py:ZredBackground.sigma_g_lookup'),
      ('colour background', 'redmapper/color_background.py:ColorBackground')],
     ['sigma_g_lookup', 'sigma_g_diagonal', 'lookup_offdiag'],
     'Hypothesis PBT: generated tables and requests against a brute-force nearest-bin oracle',
     'Shipped and generated tables; requests concentrated on bin edges and limits.')

prop('C07', 'Generated backgrounds conserve galaxy counts and do not depend on parallelism',
     'A generated background table, multiplied back by area and bin widths, returns the galaxies of the '
     "requested region that are eligible (within the magnitude range and brighter than the redshift bin's "
     'luminosity limit, or below the redshift-fit chi-squared limit), each spread by cloud-in-cell weights '
     'over the neighbouring bins of magnitude and chi-squared, redshift or colours. The table is the same '
     'for any number of worker processes, chunk size, and for pixelised or single-file galaxy catalogues; '
     'an existing table is only replaced when asked, and adding the other kind of table to the file leaves '
     'the first untouched.',
     ['inputs', 'schedules', 'configurations'], 'all galaxy tables, bin sizes, redshift ranges and process counts',
     'Tests run one tiny configuration with one process and compare a few sums.',
     ['redmapper/background.py', 'redmapper/color_background.py', 'redmapper/utilities.py'],
     [('chi-squared background generation', 'redmapper/background.py:BackgroundGenerator'),
      ('redshift background generation', 'redmapper/background.py:ZredBackgroundGenerator'),
      ('colour background generation', 'redmapper/color_background.py:ColorBackgroundGenerator'),
      ('cloud-in-cell', 'redmapper/utilities.py:cic')],
     ['background FITS files'],
     'Hypothesis PBT: conservation oracle + process-count differential',
     'Small generated pixelised galaxy tables; 1-3 processes.')

prop('C08', 'Ingesting galaxies into a pixelised table keeps every galaxy exactly once',
     'Writing galaxies in any number of appends and reading the finished table back returns every input galaxy exactly once with '
     'every column unchanged, filed under its own sky pixel, with the master table giving the right pixels, counts, file names and header information. '
     'Serial and concurrent ingestion give the same galaxies, identifiers stay unique, malformed or out-of-range input is refused before anything is finalised, and a finished table is never silently overwritten.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all galaxy catalogues, append partitions, worker interleavings, refused inputs',
     'Tests ingest one catalogue in one append order without concurrency.',
     ['redmapper/galaxy.py', 'redmapper/utilities.py'],
     [('append and finalise', 'redmapper/galaxy.py:GalaxyCatalogMaker'),
      ('locks', 'redmapper/utilities.py:make_lockfile')],
     ['galaxy table files', 'GalaxyCatalog.from_galfile'],
     'Hypothesis stateful/model-based PBT with concurrent writers',
     'Up to ~200 galaxies per history, up to 4 concurrent writer processes.')

prop('C09', 'Region reads return exactly the requested galaxies, aligned with redshifts',
     'Reading any sub-region (pixels, resolution, border) of a galaxy table returns each galaxy of the requested pixels once, no galaxy outside '
     'the requested pixels when the border is zero, and otherwise every galaxy within the border distance and none much (0.3 degrees) beyond it. '
     'Each row carries its own redshift information, truth columns appear only on request, and the memory-saving mode with magnitude and chi-squared cuts returns the same rows as reading everything and cutting, leaving no temporary file. Out-of-range pixels, too fine resolutions, negative borders, borders around pixel lists, missing or mismatched files are refused.',
     ['inputs', 'configurations'], 'all regions, resolutions, borders, column options and cuts',
     'Tests read two regions of one table.',
     ['redmapper/galaxy.py'],
     [('region reader', 'redmapper/galaxy.py:GalaxyCatalog.from_galfile'),
      ('pixel selection', 'redmapper/galaxy.py:get_subpixel_indices')],
     ['GalaxyCatalog.from_galfile'],
     'Hypothesis PBT: brute-force selection oracle over generated tables',
     'Generated tables at nside 8-32 with redshift companion tables.')

prop('C10', 'Sky matching returns exactly the pairs within the radius',
     'Matching positions to a catalogue returns every catalogue object within the radius and none outside, with the true angular '
     'separation, and with a maximum of one match returns the nearest object. '
     'The result is the same whether asked for one position or many, and for positions at the poles and across the 0/360 degree boundary.',
     ['inputs', 'histories'], 'all positions, radii and repeated queries on one catalogue',
     'Tests match a stored patch away from poles and wrap-around.',
     ['redmapper/galaxy.py', 'redmapper/cluster.py'],
     [('matcher', 'redmapper/galaxy.py:GalaxyCatalog.match_one/match_many'),
      ('neighbour set', 'redmapper/cluster.py:Cluster.find_neighbors')],
     ['match_one', 'match_many'],
     'Hypothesis PBT: brute-force spherical distance oracle',
     'Up to 60 objects and 12 queries per case.')

prop('C11', 'A cluster keeps its derived quantities in step with its redshift and position',
     'Through any sequence of redshift changes, position changes, neighbour searches and copies, a cluster\'s characteristic magnitude, physical '
     'scale and neighbour distances always equal their values for its current redshift and position, and a neighbour search returns exactly the '
     'galaxies inside the radius and magnitude limit with correct back-references. '
     'Work on a copy never changes the original, nor the galaxy catalogue searched.',
     ['histories', 'inputs'], 'all sequences of cluster operations',
     'Tests call each operation once on a fresh cluster.',
     ['redmapper/cluster.py'],
     [('redshift setter', 'redmapper/cluster.py:Cluster.redshift'),
      ('neighbours', 'redmapper/cluster.py:Cluster.find_neighbors/update_neighbors_dist/set_neighbors')],
     ['Cluster.redshift/mstar/mpc_scale/neighbors', 'Cluster.copy'],
     'Hypothesis stateful PBT against a model cluster',
     'Operation sequences of up to 10 steps.')

prop('C12', 'Geometry masks keep and reject positions according to the map',
     "A position is kept by the mask with the map's good fraction as probability: always where the "
     'fraction is one, never where it is zero, outside the map or at an impossible declination, '
     'independently of the other positions and of their order. Marking the mask points of a cluster places '
     'each at its own offset from the cluster on the sky, reading a sub-region (of one or several pixels) '
     'gives the same answer for positions inside that region, mask point samples are the stored ones '
     'unchanged, a map converted from the old format gives the same answers, and maps in another format '
     'are refused.',
     ['inputs', 'configurations'], 'all maps, positions, sub-regions and cluster positions, including missing values and poles',
     'Tests compare a few stored flags on one map.',
     ['redmapper/mask.py'],
     [('footprint test', 'redmapper/mask.py:HPMask.compute_radmask'),
      ('cluster marking', 'redmapper/mask.py:Mask.set_radmask')],
     ['compute_radmask', 'set_radmask', 'select_maskgals_sample'],
     'Hypothesis PBT: generated healsparse maps against direct map evaluation',
     'Maps at nside 64-512 with generated fractions.')

prop('C13', 'The mask correction polynomial reproduces the masked-fraction profile',
     'The mask correction is the cubic fitted, over the radius bins, to one minus the detectable and '
     'unmasked mask points inside each radius over the points expected there: zero for an unmasked deep '
     "field, one for a fully masked one, with each point's detection probability given by its own true "
     'magnitude plus noise, its own depth and exposure, and the magnitude limits. The correction changes '
     'nothing but the observed magnitudes of the points, and a depth of zero or less is refused. Mask '
     'points are generated with the documented radial, angular, magnitude, chi-squared and redshift '
     'distributions, weights, radius bins and expected counts per sample, and files that are missing or of '
     'another version are refused.',
     ['inputs', 'configurations'], 'all mask patterns, depths, characteristic magnitudes and limits',
     'The tests of this code cannot run in this tree (missing maskgals file) and sample one cluster.',
     ['redmapper/mask.py', 'redmapper/utilities.py'],
     [('correction', 'redmapper/mask.py:Mask.calc_maskcorr'),
      ('point generation', 'redmapper/mask.py:Mask.gen_maskgals'),
      ('photometric noise', 'redmapper/utilities.py:apply_errormodels')],
     ['calc_maskcorr', 'gen_maskgals', 'apply_errormodels'],
     'Hypothesis PBT: reference profile + metamorphic relations',
     'Noise-free error-model reference for mask points; statistical noise bounded.')

prop('C14', 'Depth look-ups return the map depth at the position and safe values elsewhere',
     'The depth, exposure, half-completeness magnitude and good fraction at a position are those of the '
     'map pixel containing it, in any order; outside the map, the loaded sub-region or the sphere the '
     'depth values are the null value and the good fraction is not positive. Mask points get the depth at '
     'their own sky position around a cluster, points without depth the median (mean when fewer than '
     'three) of the others, and a depth of 1 when no point has any. The area deeper than a magnitude is '
     'that of the pixels that deep: it never increases with magnitude nor exceeds the footprint, and is '
     'the configured area for maps without depth. Converted maps give the same answers and other formats '
     'are refused.',
     ['inputs', 'configurations'], 'all maps, positions (including poles), cluster positions and sub-regions',
     'Tests compare stored values at a few positions of one map.',
     ['redmapper/depthmap.py'],
     [('look-up', 'redmapper/depthmap.py:DepthMap.get_depth_values/get_fracgoods'),
      ('mask points', 'redmapper/depthmap.py:DepthMap.calc_maskdepth'),
      ('areas', 'redmapper/depthmap.py:DepthMap.calc_areas')],
     ['get_depth_values', 'get_fracgoods', 'calc_maskdepth', 'calc_areas'],
     'Hypothesis PBT: generated healsparse depth maps against direct evaluation',
     'Maps at nside 64-512.')

prop('C15', 'The volume-limit map gives the largest redshift reached at the local depth',
     'At every position the volume-limit map gives the redshift limit of its pixel: the first step of the '
     'fine (0.001) redshift grid at which a galaxy of the luminosity cut is fainter than the local depth, '
     'the smallest over the reference band and every additional band at its own significance, at most the '
     'end of the configured range, together with the local good fraction; outside the footprint, or where '
     'not even the first step is reached, the limit is zero and the good fraction not positive. A deeper '
     'map or brighter cut never lowers the limit, a map read back (or a sub-region of it) gives the same '
     'answers, the usable area at a redshift is the good area of the pixels whose limit is beyond it, '
     'geometry-only and fixed maps give the configured maximum, and missing inputs are refused without '
     'leaving a map.',
     ['inputs', 'configurations', 'histories'], 'all depth maps, luminosity cuts, extra bands, positions, write/read sequences',
     'Tests compare stored values on one map.',
     ['redmapper/volumelimit.py'],
     [('map construction', 'redmapper/volumelimit.py:VolumeLimitMask._build_mask'),
      ('look-up', 'redmapper/volumelimit.py:VolumeLimitMask.calc_zmax'),
      ('area', 'redmapper/volumelimit.py:VolumeLimitMask.get_areas')],
     ['VolumeLimitMask(...)', 'calc_zmax', 'get_areas'],
     'Hypothesis PBT: generated depth maps, direct reference evaluation, write/read round trip',
     'Maps of up to a few hundred pixels.')

prop('C16', 'Percolation never assigns more than one galaxy of probability',
     'Percolation processes exactly the usable seeds (inside the redshift range, finite likelihood, above '
     'the richness cut, bright enough) in order of decreasing likelihood, or by identifier when '
     'identifiers are kept. The free probability a cluster sees for each galaxy is one minus the '
     'probability p already taken by surviving earlier clusters whose mask radius and mask luminosity '
     'limit reach it (never negative), so the memberships of one galaxy over the clusters reaching it '
     'never exceed one. A seed whose central galaxy is free below the cut is dropped and takes nothing; '
     'surviving clusters keep unique identifiers in rank order, meet the richness cut, are centred on a '
     "sufficiently free galaxy with that galaxy's position and photometry, and the member table lists "
     'exactly the members of surviving clusters with their own values, which the output files reproduce.',
     ['inputs', 'histories', 'configurations'], 'all seed lists, overlaps, orders and galaxy fields',
     'The percolation tests cannot run in this tree; they sample one field with few overlaps.',
     ['redmapper/cluster_runner.py', 'redmapper/run_percolation.py', 'redmapper/runcat.py'],
     [('probability bookkeeping', 'redmapper/cluster_runner.py:ClusterRunner.run'),
      ('percolation', 'redmapper/run_percolation.py:RunPercolation')],
     ['run().cat', 'run().members', 'written catalogue files'],
     'Hypothesis PBT: generated skies with overlapping clusters, accounting invariants over the run history',
     'Fields of a few hundred to two thousand galaxies, up to ~12 overlapping seeds.')

prop('C17', 'Cluster redshifts and p(z) are normalised, bounded and self-consistent',
     "A measured cluster redshift maximises the likelihood of the cluster's likely members (away from the "
     'edges of the model), its error is positive and matches the width of that likelihood, and p(z) is '
     'non-negative on uniform increasing bins that contain the redshift, follows the member likelihood '
     'times the volume factor, integrates to one and peaks at the redshift. The redshift of a rich cluster '
     'made of red-sequence galaxies at one redshift is recovered within its error from any nearby starting '
     'point, whatever the order of the galaxies. Failures report a negative redshift with error -1 and '
     'zero p(z), and measuring the redshift changes nothing else about the cluster or its galaxies.',
     ['inputs', 'configurations'], 'all neighbour lists, starting redshifts and masks',
     'test_zlambda cannot run in this tree and samples one cluster.',
     ['redmapper/zlambda.py'],
     [('iteration', 'redmapper/zlambda.py:Zlambda.calc_zlambda'),
      ('p(z)', 'redmapper/zlambda.py:Zlambda._zlambda_calc_pz')],
     ['Zlambda.calc_zlambda', 'Zlambda.pz/pzbins'],
     'Hypothesis PBT: injected clusters, normalisation and recovery oracles',
     'Synthetic clusters on the DR8 model.')

prop('C18', 'Cluster redshift corrections follow the calibrated model',
     'Applying a calibrated redshift correction adds the splined offset plus richness slope (relative to '
     'the pivot richness) tabulated at the cluster redshift, iterating exactly as many times as '
     'calibrated, adds the calibrated scatter (at least 0.001) in quadrature to the error unless errors '
     'are left out, and moves and widens the p(z) grid accordingly so that p(z) stays normalised. A null '
     'calibration leaves the redshift alone, inputs are not altered, a calibration read from file corrects '
     'like the table it was written from, and a percolation run applies the correction exactly once to '
     'each cluster and stores the corrected redshift, error and p(z).',
     ['inputs', 'configurations'], 'all calibration tables, richnesses, redshifts, errors and p(z)',
     'Tests apply one stored calibration to a handful of clusters.',
     ['redmapper/zlambda.py'],
     [('correction tables', 'redmapper/zlambda.py:ZlambdaCorrectionPar.__init__'),
      ('application', 'redmapper/zlambda.py:ZlambdaCorrectionPar.apply_correction')],
     ['ZlambdaCorrectionPar.apply_correction'],
     'Hypothesis PBT: generated calibrations against an independent reference',
     'Generated node tables of 3-8 nodes.')

prop('C19', 'Centering gives a probability distribution over ranked candidate galaxies',
     'For every cluster, probabilistic centering returns at most the configured number of distinct '
     'candidates, exactly the most probable among the eligible galaxies (inside the cluster, sufficiently '
     'free, good fit, and member or close in redshift), ordered by decreasing central probability; central '
     'probabilities lie in [0,1], follow the calibrated luminosity, redshift and connectivity filters and '
     "sum to one, each candidate's central, satellite and foreground probabilities sum to one, and "
     'positions and indices are those of the candidates. Brightest-galaxy centering picks the brightest '
     'likely member, random-satellite centering picks members in proportion to membership, random '
     'centering is uniform over the cluster area. With no candidate it fails cleanly, and centering leaves '
     'the cluster and its galaxies unchanged.',
     ['inputs', 'configurations'], 'all neighbour lists, membership values and centering models',
     'Tests run each class on one stored cluster.',
     ['redmapper/centering.py'],
     [('wcen', 'redmapper/centering.py:CenteringWcenZred'), ('bcg', 'redmapper/centering.py:CenteringBCG'),
      ('random', 'redmapper/centering.py:CenteringRandom/CenteringRandomSatellite')],
     ['find_center()', 'ra/dec/index/p_cen/q_cen/p_sat/p_fg/ngood'],
     'Hypothesis PBT: probability invariants + reference model',
     'Synthetic clusters with generated memberships.')

prop('C20', 'Catalogue containers behave as tables and survive a FITS round trip',
     'Columns are reached under any capitalisation; selecting rows, appending, extending, adding columns, '
     'setting columns or rows and merging tables keep every other value, column order and the original '
     'table; adding a column twice or merging different lengths is refused. A single row is a record of '
     "its table: it shows the row's values and changing it changes that row only. Writing any table (or "
     'any selection of its rows, or one record) to FITS and reading it back returns the same rows, '
     'columns, precision and header values, an existing table is not replaced unless asked, and reading '
     'members finds the member table next to its catalogue for any catalogue name.',
     ['inputs', 'histories'], 'all table layouts, sizes (including one row), row subsets and operation sequences',
     'Tests use one or two layouts with many rows.',
     ['redmapper/catalog.py', 'redmapper/utilities.py'],
     [('container', 'redmapper/catalog.py:DataObject/Entry/Catalog'),
      ('FITS output', 'redmapper/catalog.py:to_fits_file'),
      ('member file', 'redmapper/utilities.py:read_members')],
     ['Catalog/Entry API', 'FITS files'],
     'Hypothesis stateful PBT against a dict-of-arrays model',
     'Tables up to 12 rows and 8 columns, sequences up to 8 operations.')

prop('C21', 'Combining per-pixel catalogues keeps each cluster once with its own members',
     'Merging per-pixel cluster catalogues keeps a cluster exactly when it lies in the pixel its file was '
     'made for and passes the mask and richness cuts (and, for each richness / volume-limit sample of the '
     "final consolidation, that sample's richness cut and the redshift limit at its position), so that "
     'clusters found again in the borders of other pixels appear once. Merged identifiers are unique and '
     'follow decreasing likelihood, members are exactly those of the kept clusters and carry their '
     "cluster's identifier (the runcat merge keeps the input identifiers), spectroscopic redshifts are "
     'those of a good spectrum within 3 arcsec or -1, and all other columns are unchanged, whatever the '
     'pixel partition, resolution, output name or file order.',
     ['inputs', 'configurations', 'histories'], 'all per-pixel catalogues, pixel resolutions, cuts and file orders',
     'The test merges three one-pixel files without borders, masks, volume limits or spectra.',
     ['redmapper/redmapper_run.py', 'redmapper/pipeline/redmapperconsolidatetask.py'],
     [('final merge', 'redmapper/pipeline/redmapperconsolidatetask.py:RedmapperConsolidateTask.run'),
      ('calibration-run merge', 'redmapper/redmapper_run.py:RedmapperRun._consolidate'),
      ('runcat merge', 'redmapper/pipeline/redmapperconsolidatetask.py:RuncatConsolidateTask.run')],
     ['consolidated catalogue and member files'],
     'Hypothesis PBT: generated per-pixel files, set-based oracle',
     'Up to 6 pixels, 40 clusters and 5 members each; survey stages replaced by generated per-pixel results.')

prop('C22', 'A pixelised run covers the region once and can be interrupted and resumed',
     'The run is split into pixels that together hold every galaxy-table pixel of the requested region '
     'exactly once and nothing outside it, for any process count; in each pixel the stages run once, in '
     "order, on that pixel, with the previous stage's file and the caller's options, and the merged "
     'catalogue is that of the pixels. Killing the run at any point (between or inside stages, inside or '
     'between file writes, more than once) or letting a stage fail, and starting it again with checking '
     'on, reuses every finished file, redoes the rest and ends with the same final catalogue and members '
     'as an uninterrupted run; a finished run is left alone, and without checking everything is redone.',
     ['crash_points', 'configurations', 'schedules', 'histories'], 'all regions, resolutions, process counts, crash points between and inside stages',
     'No stable test runs it; crashes are never injected.',
     ['redmapper/redmapper_run.py', 'redmapper/cluster_runner.py'],
     [('pixel split', 'redmapper/redmapper_run.py:RedmapperRun._get_pixel_splits'),
      ('resumable worker', 'redmapper/redmapper_run.py:RedmapperRun._worker')],
     ['files written', 'final catalogue'],
     'fault-injecting PBT: crash point enumeration over generated pixel runs',
     'Stage computations replaced by deterministic generated catalogues; file output and orchestration are real.')

prop('C23', 'Configurations hold exactly what their files say, and are reproducible',
     'A loaded configuration holds the values of its file, then those of the galaxy table (bands, '
     'reference band, magnitude limit, zero point, area and so on), then the defaults; values of the '
     'centering calibration file are taken name by name. Nothing is left over from configurations loaded '
     'before, nor from changing values of an earlier configuration in place. Files with unknown keys, '
     'names of methods as keys, missing required values or inconsistent lengths of the band, colour-member '
     'and redMaGiC lists are refused. Writing a configuration out and loading it again gives the same '
     'settings, and output file names are built from output path, base name, version, name and type.',
     ['inputs', 'histories', 'configurations'], 'all settings, load/write sequences and galaxy tables',
     'Tests load three files and check a few fields.',
     ['redmapper/configuration.py'],
     [('fields', 'redmapper/configuration.py:ConfigField'), ('loading', 'redmapper/configuration.py:Configuration.__init__'),
      ('writing', 'redmapper/configuration.py:Configuration.output_yaml')],
     ['Configuration attributes', 'yaml files'],
     'Hypothesis stateful PBT: load/write histories against a dict model',
     'Generated settings over all public fields.')

prop('C24', 'Random points fill the footprint and respect the local redshift limit',
     'Cluster and redMaGiC randoms: exactly the requested number of points is written, each inside the '
     'footprint of the volume-limit map, with a redshift (and richness and cluster identifier, together) '
     "taken from one catalogue object and below the redshift limit at the point's own position. Positions "
     'follow the usable area open to that redshift, catalogue objects are used evenly, identifiers run '
     'from 1 to n, redMaGiC weights are one, and the same seed gives the same points. Weighted randoms '
     'contain exactly the points of clusters in the redshift range and richness cuts whose own detection '
     'passes the richness and mask cuts; for every such cluster the weights add up to the number of points '
     'generated for it. Results for different cuts go to different files, a repeated call replaces the old '
     'result, and the effective area lies between zero and the full area and equals it if no point is '
     'lost.',
     ['inputs', 'configurations'], 'all volume-limit maps, cluster/galaxy catalogues, numbers of points and cuts',
     'Tests generate points on one nearly uniform map and check totals.',
     ['redmapper/randoms.py', 'redmapper/redmagic/redmagic_randoms.py'],
     [('cluster randoms', 'redmapper/randoms.py:GenerateRandoms.generate_randoms'),
      ('weights', 'redmapper/randoms.py:RandomWeigher.weight_randoms'),
      ('redMaGiC randoms', 'redmapper/redmagic/redmagic_randoms.py')],
     ['random catalogue files'],
     'Hypothesis PBT: per-point oracle against the volume-limit map',
     'Generated maps with strongly varying depth and good fraction; up to 1500 points per case.')

prop('C25', 'redMaGiC selection keeps exactly the galaxies passing the calibrated cuts',
     'A galaxy is selected in a mode exactly when its uncorrected redshift, chi-squared (below the '
     'calibrated limit at its redshift) and brightness satisfy the calibration, it is brighter than the '
     'luminosity cut at its corrected redshift, and the corrected redshift is below the volume limit at '
     'its position; this does not depend on the other galaxies in the list, and the input list is left '
     "unchanged. Selected rows carry the galaxy's own identifier, position and photometry, redshift, error "
     'and samples corrected by the calibrated bias and error ratio (if the afterburner is on), the '
     'luminosity at the corrected redshift, and the true, tabulated or nearest good spectroscopic '
     'redshift. A run over a pixelised table gives the selection of the whole table once per mode, never '
     'replaces existing catalogues unless asked, and makes randoms only where there is a footprint.',
     ['inputs', 'configurations'], 'all galaxy lists, calibrations (afterburner on/off) and volume-limit maps',
     'Tests select from one table with one calibration.',
     ['redmapper/redmagic/redmagic_selector.py'],
     [('selection', 'redmapper/redmagic/redmagic_selector.py:RedmagicSelector.select_redmagic_galaxies')],
     ['select_redmagic_galaxies'],
     'Hypothesis PBT: generated calibrations against a per-galaxy reference',
     'Generated calibration files; up to 60 galaxies.')

prop('C26', 'Calibration fitters minimise the stated objective without corrupting their data',
     'Each calibration fitter (median spline, red sequence, off-diagonal covariance, redshift correction, '
     'two-component mixture, error ratio in magnitude bins, cluster-redshift correction, centring) '
     'minimises its documented objective: every value it evaluates, during fits and when called '
     'afterwards, in any order and after any sequence of fits, equals that objective at those parameters '
     '(negative log-likelihood with natural splines through the nodes, prior, background mixture, '
     'truncation and walls; or sum of deviations) and the data, nodes and parameters it was given are left '
     'unchanged. A fit never ends with a worse objective than it started from, stays within the parameter '
     'bounds (minimum and maximum scatter, error ratio, correlation at most 0.9, non-negative background), '
     'does not depend on the order of the data, and returns the fitted pieces in the order mean, slope, '
     'scatter (or error ratio, background), mixture components sorted by mean with weights summing to one.',
     ['inputs', 'histories'], 'all data sets, node layouts, option combinations and call sequences',
     'Tests fit one stored data set once per fitter.',
     ['redmapper/fitters.py', 'redmapper/calibration/zlambdacal.py'],
     [('median fit', 'redmapper/fitters.py:MedZFitter'), ('red-sequence fit', 'redmapper/fitters.py:RedSequenceFitter'),
      ('off-diagonal fit', 'redmapper/fitters.py:RedSequenceOffDiagonalFitter'), ('correction fit', 'redmapper/fitters.py:CorrectionFitter'),
      ('mixture fit', 'redmapper/fitters.py:EcgmmFitter')],
     ['fitter(pars)', 'fitter.fit(...)'],
     'Hypothesis PBT: reference objectives, purity and improvement oracles over call histories',
     'Data sets of up to 80 points.')

prop('C27', 'Numerical building blocks satisfy their defining equations',
     'Cloud-in-cell gridding in one to three dimensions equals the multilinear assignment (isolated or '
     'periodic, summed or averaged) and conserves the weight of interior points; cubic splines pass '
     'through their nodes with the stated end conditions and are held constant outside when asked, and '
     'linear interpolation extends its end segments; nodes start and end at the ends of the range, '
     'increase and are the stated size apart, the last interval being between half and one and a half of '
     'it; chi-squared, Gaussian, Schechter, cored projected-NFW and magnitude-cut probabilities equal '
     'their definitions; samples from a density lie on its grid and follow it; the photometric error model '
     'gives the stated signal to noise at the limiting magnitude, leaves magnitudes unchanged without '
     'noise and scatters fluxes by independent normal noise of the returned error; characteristic '
     'magnitudes and template colours equal the tables; mask pixels of a sub-region are those inside it or '
     'its border. Inputs are never changed, and scalars give the same as arrays.',
     ['inputs'], 'all arguments in the documented domain, scalar and array',
     'Tests compare a few stored values.',
     ['redmapper/utilities.py'],
     [('gridding', 'redmapper/utilities.py:cic'), ('splines', 'redmapper/utilities.py:CubicSpline'),
      ('sampling', 'redmapper/utilities.py:sample_from_pdf'), ('densities', 'redmapper/utilities.py:nfw_pdf/schechter_pdf/chisq_pdf')],
     ['redmapper.utilities functions'],
     'Hypothesis PBT: scipy/numpy reference implementations',
     'Small arrays; 1-3 dimensional gridding.')

prop('C28', 'Lock files give exclusive ownership to exactly one process',
     'However many processes request the same lock at the same time, at most one holds it at any moment; a '
     'request that cannot be granted reports failure (or waits, trying the configured number of times), '
     'and a released lock can be taken again. Taking or failing to take a lock leaves no stray temporary '
     'files and never alters an existing lock. Many pixel tasks of the galaxy-redshift pipeline finishing '
     'at once produce one final table that covers exactly the complete set of pixel results.',
     ['schedules', 'histories', 'fault_sequences'], 'all interleavings of lock/unlock by several processes',
     'The test takes a lock twice from one process.',
     ['redmapper/utilities.py', 'redmapper/pipeline/zredtask.py', 'redmapper/galaxy.py'],
     [('lock', 'redmapper/utilities.py:make_lockfile'), ('pixel task', 'redmapper/pipeline/zredtask.py:RunZredPixelTask')],
     ['make_lockfile', 'files on disk'],
     'stateful PBT and concurrent-process histories with an exclusivity oracle',
     'Generated operation sequences plus racing processes with generated delays.')

prop('C29', 'Depth fitting recovers the photometric error model and limiting magnitude',
     'For magnitudes and errors that follow the photometric error model the fit returns its limiting '
     'magnitude (and the exposure time where source noise matters) within tolerance; for noisy errors the '
     'fit is no worse than the true model. The result does not depend on input order or on unusable (non- '
     'finite or non-positive) entries. The reported model is self-consistent: the error at the limiting '
     'magnitude is the requested signal-to-noise, flux limit and sky level belong to the reported limiting '
     'magnitude and exposure time, and the outlier fraction is that of the model. Applying a model without '
     'noise returns its errors; with noise, independent unit-normal deviates per object. When no fit is '
     'possible a failure is reported, and mask points get the local fit or, if that fails, the survey-wide '
     'fit.',
     ['inputs'], 'all error-model parameters, sample sizes, contaminations',
     'The depth-fit test cannot run in this tree and uses one sample.',
     ['redmapper/depth_fitting.py'],
     [('fit', 'redmapper/depth_fitting.py:calcErrorModel'), ('mask points', 'redmapper/depth_fitting.py:DepthLim.calc_maskdepth')],
     ['calcErrorModel', 'applyErrorModel', 'DepthLim'],
     'Hypothesis PBT: synthetic error models, recovery and self-consistency oracles',
     'Samples of 50-400 galaxies, noise-free and noisy.')

prop('C30', 'Training samples pair each galaxy with its own cluster or spectrum',
     'The calibration member sample contains exactly the members passing the probability cut of clusters '
     'passing the richness and redshift-consistency cuts, each with its own photometry and its own '
     "cluster's redshifts (smoothed by the configured width), centrals flagged. The spectroscopic seed "
     'sample holds exactly one entry for each good spectrum within the redshift range that has a galaxy '
     "within the match radius, pairing the nearest galaxy's photometry with that spectrum's redshift. The "
     'red spectroscopic sample holds exactly the matched galaxies within the stated number of widths of '
     'the fitted colour model that is written with it.',
     ['inputs', 'configurations'], 'all cluster/member/galaxy/spectrum catalogues and cuts',
     'Tests run each selection once on stored data and compare sizes.',
     ['redmapper/calibration/prepmembers.py', 'redmapper/calibration/selectspecseeds.py', 'redmapper/calibration/selectspecred.py'],
     [('members', 'redmapper/calibration/prepmembers.py:PrepMembers.run'),
      ('seeds', 'redmapper/calibration/selectspecseeds.py:SelectSpecSeeds.run')],
     ['training files'],
     'Hypothesis PBT: generated catalogues, join oracle',
     'Up to 30 clusters / 120 members / 100 galaxies.')

prop('C31', 'Runs at given positions measure every position and carry its own input',
     'Running at given positions (catalogue run, first pass, likelihood run, redshift scan, random points) '
     'gives, for every input position passing the documented cuts, one output row in input order that '
     'carries its own input columns and the richness, error, radius, scale, redshift, p(z), limits and mask '
     'fraction a separate measurement at that position gives, within the configured iterations and with '
     'the radius of that run mode; positions that cannot be measured are dropped, or set to -1 where all '
     'rows are kept, and have no members. First-pass redshifts start from the seed redshift; the likelihood '
     'is that of its memberships plus that of its centre; a scan reports the redshift of highest '
     'likelihood; members are exactly the galaxies above the probability cut.',
     ['inputs', 'configurations'], 'all galaxy catalogues, input positions, masks, depths and run options',
     'The run tests need files missing here or compare a few stored numbers for one catalogue.',
     ['redmapper/cluster_runner.py', 'redmapper/runcat.py', 'redmapper/run_firstpass.py', 'redmapper/run_likelihoods.py', 'redmapper/run_zscan.py', 'redmapper/run_randoms_zmask.py'],
     [('loop', 'redmapper/cluster_runner.py:ClusterRunner.run'), ('likelihood', 'redmapper/run_likelihoods.py:RunLikelihoods._process_cluster'),
      ('scan', 'redmapper/run_zscan.py:RunZScan._process_cluster')],
     ['output catalogues of the run classes'],
     'Hypothesis PBT: generated skies, differential against single-position measurements',
     'Up to 3 clusters, 250 galaxies and 12 compared rows per run; solver quantities within 0.03 in richness.')

prop('C32', 'Redshift and centring calibrations recover the truth in their training sample',
     'Calibrating the redshift correction on clusters with spectra uses exactly the clusters passing the '
     'documented richness, scale and mask-fraction cuts, recovers a planted redshift bias and richness slope '
     'within its statistical error, and gives a correction that removes the bias and makes the errors '
     'describe the scatter; a redshift range without spectra is refused and writes nothing. Calibrating the '
     'centring model uses exactly the clusters passing the cuts, finds the maximum-likelihood magnitude and '
     'connectivity distributions of centrals, satellites and foreground given their weights, derives the '
     'brightest-satellite model from the luminosity function when it is not given, and the configuration takes '
     'its values from the file written.',
     ['inputs', 'configurations'], 'all training catalogues, redshift ranges, node spacings and planted models',
     'The two calibration tests compare stored numbers of one small catalogue.',
     ['redmapper/calibration/zlambdacal.py', 'redmapper/calibration/centeringcal.py'],
     [('redshift correction', 'redmapper/calibration/zlambdacal.py:ZLambdaCalibrator.run'), ('centring', 'redmapper/calibration/centeringcal.py:WcenCalibrator.run')],
     ['files written by ZLambdaCalibrator and WcenCalibrator'],
     'Hypothesis PBT: generated training catalogues with planted truth; recovery, metamorphic and likelihood oracles',
     '40-400 clusters per catalogue; statistical recovery judged at five to seven standard errors; simulated brightest satellites within 0.55 mag.')

prop('C33', 'Red-sequence calibration recovers the red sequence of its training sample',
     'Calibrating the red sequence on a training sample uses exactly the galaxies inside the redshift range '
     'with a membership probability above the cut, and recovers within statistical error the planted pivot '
     'magnitudes, colours, slopes and (to a factor) scatter, with magnitudes or luptitudes. The model file records '
     'the configured limits and nodes, consistent scatters and covariances and the comoving-shell volume '
     'factors; the photometric redshifts it gives its training galaxies are unbiased with errors that describe '
     'their scatter, and are written for exactly those galaxies. Repeating the calibration over old files gives '
     'the same model; an interrupted one leaves no model or a complete one, never one without its redshift '
     'corrections; a sample without usable galaxies is refused.',
     ['inputs', 'configurations', 'crash points'], 'all training samples, redshift ranges, file names and interruption points',
     'The calibration test compares stored numbers of one small sample.',
     ['redmapper/calibration/redsequencecal.py'],
     [('calibration', 'redmapper/calibration/redsequencecal.py:RedSequenceCalibrator.run'), ('output', 'redmapper/calibration/redsequencecal.py:RedSequenceCalibrator.save_pars')],
     ['model and redshift files written by RedSequenceCalibrator'],
     'Hypothesis PBT: generated training samples with planted truth; recovery and metamorphic oracles; injected crashes at each file write',
     'Two colours, 300-1000 galaxies, the constant-correlation covariance; crashes are raised before or after each of the three file writes.')

prop('C34', 'redMaGiC calibration reaches the configured densities and redshift corrections',
     'Calibrating redMaGiC selections writes one calibration per configured selection, with its configured '
     'name, luminosity threshold, density, redshift range and settings, and nothing from an earlier run. '
     'Given enough candidates, the galaxies passing the calibrated cuts have the configured comoving density '
     'in every redshift bin of the calibrated range, counted over the unmasked area only; with a constant '
     'chi-squared cut the configured cut is used. The afterburner recovers the redshift bias and error ratio '
     'from cluster members above the probability cut only, and without it no correction is made. The run '
     'configuration is written beside the calibration, covers the full sky, leaves the original alone, and '
     'the catalogues made from it hold exactly the galaxies passing the calibrated cuts.',
     ['inputs', 'configurations', 'histories'], 'all galaxy tables with enough candidates, masks, selections, configuration names, output paths and repeated runs',
     'The calibration test runs one selection with gals given and compares stored numbers; no test runs from a galaxy table, with a mask, several selections or twice.',
     ['redmapper/redmagic/redmagic_calibrate.py', 'redmapper/redmagic/redmagictask.py', 'redmapper/redmagic/redmagic_selector.py'],
     [('calibration', 'redmapper/redmagic/redmagic_calibrate.py:RedmagicCalibrator.run'), ('cost function', 'redmapper/redmagic/redmagic_calibrate.py:RedmagicParameterFitter')],
     ['calibration file, run configuration and catalogues written by RedmagicCalibrator'],
     'Hypothesis PBT: generated galaxy tables with planted density, bias and errors; recovery oracle, reference selection model',
     'Up to 3 selections over 12-50 square degrees; densities compared by mean chi-squared per redshift bin, corrections by the median over the range.')

prop('C35', 'The first training members come from a percolated single-colour run',
     'The colour-member run measures a single-colour richness at every red galaxy within the configured redshift '
     'range, in the colour configured for its redshift and around the colour of the red-galaxy model there. A '
     'galaxy taken by a richer cluster counts only with what is left of it for poorer ones. A cluster is kept '
     'only if its unscaled richness and the membership of its own central galaxy reach the configured cuts and its mask '
     'fraction is below the configured maximum. Every kept row equals a separate measurement at its position; the '
     'members listed are exactly those of the kept clusters with their own photometry and probabilities and the '
     'cluster redshift smoothed by the configured amount; the training file holds exactly the members above the '
     'colour-probability cut.',
     ['inputs', 'configurations', 'histories'], 'all skies, red galaxies, masks, colour modes, redshift bounds and cuts that leave at least one cluster',
     'The colormem test runs one survey and compares three rows with stored numbers.',
     ['redmapper/run_colormem.py', 'redmapper/cluster_runner.py', 'redmapper/cluster.py'],
     [('run', 'redmapper/run_colormem.py:RunColormem'), ('common run', 'redmapper/cluster_runner.py:ClusterRunner.run'), ('single-colour richness', 'redmapper/cluster.py:Cluster.calc_richness_fit')],
     ['catalogue, members, training file and catalogue file of RunColormem'],
     'Hypothesis PBT: generated skies of overlapping clusters; every row and member against a separate measurement in a replay of the percolation',
     'Three colours, one mask-galaxy sample; cases within rounding of a cut are skipped; a run that keeps no cluster is not examined.')

prop('C36', 'Calibration runs each step once on the right inputs and can be resumed anywhere',
     'The calibration driver runs every step of every iteration exactly once, on the files of that iteration: red '
     'sequence from the previous members, redshifts and backgrounds from the new red sequence, cluster runs with '
     'the centering, seeds, redshift correction and sub-region that belong to them, random-centre runs in the first iteration '
     'only. Seeds carry the redshifts of the new red sequence; the seeds kept after the first iteration and the '
     'random-centre inputs are exactly those of the rich clusters. Killed before, within or after any step, any '
     'number of times, and started again, it repeats no finished step and ends with the same files as if never '
     'interrupted. A redshift correction that makes any cluster redshift negative stops it. The run configuration '
     'written at the end covers the full sky, can be used from any directory and names the last iteration\'s files.',
     ['histories', 'crash points', 'configurations'], 'all numbers of iterations, output paths and names, sub-regions, thresholds, and sequences of kills at step and file-write boundaries',
     'The calibration test runs one iteration from the start (and needs data files that are not there); nothing interrupts and resumes it.',
     ['redmapper/calibration/calibrate.py', 'redmapper/configuration.py'],
     [('driver', 'redmapper/calibration/calibrate.py:RedmapperCalibrator.run'), ('iteration', 'redmapper/calibration/calibrate.py:RedmapperCalibrationIteration.run'),
      ('last iteration', 'redmapper/calibration/calibrate.py:RedmapperCalibrationIterationFinal.run'), ('run configuration', 'redmapper/calibration/calibrate.py:RedmapperCalibrator.output_configuration')],
     ['calls and inputs of every step, files left behind, run_default.yml'],
     'Hypothesis fault injection: kills at generated step and file-write boundaries against a plan of the steps and the uninterrupted run',
     'Steps are stand-ins that record their inputs and write small files; a file write happens or does not.')

prop('C37', 'Per-pixel tasks of a distributed run do their pixel once; files are findable',
     'A pixel task (cluster finding, richness, random masks or redshift scan) works on exactly the requested pixel, with the border '
     'given by the largest possible cluster at the lowest redshift, stage after stage on the file of the previous stage, and writes to '
     'the directory asked for (by default that of the configuration file) under a name that tells base name, resolution and pixel, where '
     'the matching consolidation finds it. It refuses before any work when the galaxy redshifts, background (or a component '
     'of it), red sequence, redshift correction or random points that it needs are missing. Killed anywhere and started again, it '
     'repeats no finished stage, changes no finished file, and ends with one catalogue per stage and members of the same run; a finished pixel is '
     'left alone. A pixel without clusters ends quietly at the stage that finds none.',
     ['histories', 'crash points', 'configurations'], 'all tasks, pixels, resolutions, output directories and names, missing inputs, empty stages, and sequences of kills at stage and file-write boundaries',
     'No test runs any of the pixel tasks.',
     ['redmapper/pipeline/redmappertask.py', 'redmapper/pipeline/redmapperconsolidatetask.py', 'redmapper/cluster_runner.py', 'redmapper/configuration.py'],
     [('pixel tasks', 'redmapper/pipeline/redmappertask.py:RunRedmapperPixelTask.run'), ('richness task', 'redmapper/pipeline/redmappertask.py:RuncatPixelTask.run'),
      ('output and names', 'redmapper/cluster_runner.py:ClusterRunner.output'), ('input checks', 'redmapper/configuration.py:Configuration.check_files'), ('border', 'redmapper/configuration.py:Configuration.compute_border'),
      ('consolidation', 'redmapper/pipeline/redmapperconsolidatetask.py:RuncatConsolidateTask.run')],
     ['stages run and their configuration, files left behind, combined catalogues'],
     'Hypothesis fault injection: kills, missing files and empty stages at generated points against a plan of the stages and files',
     'Stages are stand-ins that record their configuration and make small catalogues; a catalogue write happens or does not.')

prop('C38', 'Batch jobs run every pixel of the survey once; scripts pass on what they get',
     'The batch script makes a job which, when the batch system executes it, runs the pixel command of the mode asked for exactly once on every run pixel '
     'that touches the galaxy table (whether run pixels are coarser or finer than the table, and only within a sub-region if one is configured), with absolute paths, the resolution, '
     'directory and environment asked for, and never over a job made earlier. The other command-line scripts call their task once, with the files, pixel, resolution, directory, cuts and options '
     'given on the command line or the documented defaults. The memory predicted for each resolution is that of the fullest run pixel with its border, and counts every galaxy of it.',
     ['configurations', 'inputs'], 'galaxy tables of 1 to 25 pixels at 5 resolutions, run resolutions, 5 modes, batch systems lsf, local and slurm, options in short and long form, jobs made before',
     'No test runs any script.',
     ['bin/', 'redmapper/pipeline/mempredict.py'],
     [('batch', 'bin/redmapper_batch.py:create_batchconfig'), ('memory prediction', 'redmapper/pipeline/mempredict.py:MemPredict.predict_memory')],
     ['job files and the commands they execute', 'calls made by the scripts', 'predicted memory'],
     'Hypothesis over tables and options: the job files are executed against recorders and compared with the pixels of the survey; differential memory and calls',
     'Only the documented lsf and parsl systems; tasks and pixel commands are recorders; file names without spaces.')

prop('C39', 'Diagnostic plots show what the catalogue says',
     'The redshift comparison uses exactly the objects with a spectroscopic redshift (for members: the median of the members of the same cluster that have one), marks as outliers exactly those '
     'further than the given number of errors, states their fraction, and shows per redshift bin the median offset, the scatter and the median error of at least three objects. The density plot shows objects per comoving volume of the '
     'area available at that redshift within the redshift range, with its Poisson error, for every significant bin; sampled redshifts follow the redshift distribution of each cluster. The richness histogram '
     'counts every cluster in its bin; positions are drawn without a gap at right ascension zero. Each is saved under the name it reports, in the plot directory, with the version when asked.',
     ['inputs', 'configurations'], 'catalogues of 2 to 2000 objects, members in any order, missing redshifts, ranges, bins and options',
     'The tests look only at one file name per plot.',
     ['redmapper/plotting.py'],
     [('redshifts', 'redmapper/plotting.py:SpecPlot.plot_values'), ('members', 'redmapper/plotting.py:SpecPlot.plot_cluster_catalog_from_members'), ('density', 'redmapper/plotting.py:NzPlot.plot_nz'), ('positions', 'redmapper/plotting.py:PositionPlot.plot_positions')],
     ['what is handed to the drawing library'],
     'Hypothesis differential: recorded drawing calls against own statistics of the catalogue',
     'What is handed to the drawing library is checked, not pixels; the smoothed contour map is not; at least one object can be plotted.')

NOT_CLAIMED = {}


def main():
    import sys
    claimed = set(os.path.basename(f)[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props'))
                  if f.startswith('c') and f.endswith('.py'))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['d']) + '\n')
    man = dict(version=1, setup_cmd='python3 setup_env.py', checks=[], not_applicable=[],
               notes='Every check rebuilds redmapper from /repo in a scratch directory; see DESIGN.md.')
    for p in P:
        i = p['d']['id']
        if i in claimed:
            man['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                                      thorough_cmd='python3 check.py %s --tier thorough' % i,
                                      evidence_file='evidence/%s.json' % i,
                                      technique=p['technique'], level='exploration', level_note=p['note']))
        else:
            man['not_applicable'].append(dict(property=i, reason=NOT_CLAIMED.get(i, 'check not built yet')))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    for p in P:
        d = p['d']
        assert len(d['title']) <= 80, (d['id'], len(d['title']))


if __name__ == '__main__':
    main()
