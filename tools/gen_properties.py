"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w)
                            for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))


CAT = 'seismostats/catalogs/catalog.py'

prop('P01', 'Catalog operations keep type, metadata, rows, and leave the source alone',
     'Any sequence of table operations (select, filter, sort, copy, assign, reset index, concatenate, merge) and catalog operations (strip, drop ids, drop uncertainties, bin magnitudes) on a catalog gives exactly the rows, index and columns the same operation gives on a plain table. The result is a forecast catalog if it has magnitudes and a catalog id column, a catalog if it has magnitudes, else a plain table, and it carries the metadata of its source (of the left or first operand for merge and concatenate). An operation that is not in place never changes its source (data or metadata), and an in-place one leaves the object exactly as the copying variant\'s result.',
     ['histories'], 'all histories of such operations from catalogs, forecast catalogs and catalogs with missing optional columns',
     'Tests apply one operation to one catalog; type, metadata propagation and aliasing depend on the whole chain of operations before it.',
     [CAT, 'seismostats/utils/__init__.py'],
     [('subclass constructor with fallback', CAT), ('metadata propagation on finalize, merge, concat', CAT), ('strip / drop_ids / drop_uncertainties / bin_magnitudes', CAT)],
     ['type of result', 'metadata attributes', 'cell values of source and result'],
     [('metadata attributes', 'name, mc, b_value, ... propagated between objects', CAT)])

prop('P02', 'Catalog construction normalises every column without losing events',
     'Building a catalog from a table or dictionaries keeps one row per input event in input order with the same index; numeric event columns become numbers with unusable entries missing, times become timezone-naive timestamps denoting the same instant as the text says (years before the nanosecond range and unpadded years included), and empty or null-like magnitude and event types become missing while all other values are kept. Building a catalog from a catalog changes nothing, the input object is not modified, and dates given for the catalog period are kept as timestamps.',
     ['inputs'], 'all mixtures of well-formed, missing and malformed cell values over the columns and over neighbouring rows, in every column order',
     'One bad cell switches the parsing path for the whole column, so correctness depends on combinations of rows; tests use a few fixed tables.',
     [CAT, 'seismostats/utils/__init__.py'],
     [('column coercion in the constructor', CAT), ('fallback date parser', 'seismostats/utils/__init__.py')],
     ['resulting columns and dtypes', 'input object after construction'])

prop('P03', 'QuakeML export followed by import returns the same events',
     'Exporting a catalog to QuakeML produces well-formed XML whatever the text and numeric values are, and reading it back gives every event that has a time, latitude and longitude, in order, with the same time, coordinates, depth, magnitude and type, secondary magnitudes, uncertainties, identifiers, event type, evaluation mode and quality values, and missing values stay missing (uncertainties: the symmetric ones of coordinates, depth and magnitudes). A forecast catalog exports one document per catalog id that holds exactly the events of that id. Exporting does not change the catalog.',
     ['inputs'], 'all combinations of present, missing and unusual field values (special characters, type names containing each other, non-default indices) over events',
     'Tests round-trip a handful of ordinary catalogs; export drops or corrupts fields only for particular combinations of values and columns.',
     [CAT, 'seismostats/catalogs/catalog_templates/quakeml.j2', 'seismostats/io/parser.py'],
     [('template export', 'seismostats/catalogs/catalog_templates/quakeml.j2'), ('secondary magnitude handling', CAT), ('parser', 'seismostats/io/parser.py')],
     ['QuakeML text', 'catalog read back'])

prop('P04', 'QuakeML reading picks the preferred data and ignores document layout',
     'For every QuakeML document, each event yields one entry in document order, whose origin and magnitude values are those of the referenced preferred origin and magnitude (missing if none is referenced), plus one value per magnitude type under its own name: that of the preferred magnitude for its type, for any other type the one with the highest version and then latest creation time. The result does not depend on the order of elements inside an event, on whitespace, comments, character references or read-buffer boundaries, on unrelated elements, or on neighbouring events, and is the same from a file, a string or a service response. The options to leave out secondary magnitudes, quality, ids and uncertainties remove exactly those fields.',
     ['inputs', 'schedules'], 'all element orders, missing elements, reference targets and chunk boundaries for small documents',
     'The reader is an event-driven state machine: leaks between elements or events show only for particular orders and chunkings, and tests read four fixed files.',
     ['seismostats/io/parser.py', CAT],
     [('SAX handler state machine', 'seismostats/io/parser.py'), ('preferred selection', 'seismostats/io/parser.py'), ('secondary magnitude selection', 'seismostats/io/parser.py')],
     ['parsed dictionaries', 'catalog columns'],
     [('location path', 'current element path built from nested tags', 'seismostats/io/parser.py')])

prop('P05', 'Conversion to and from OpenQuake preserves every event',
     'Converting a catalog to an OpenQuake catalogue and back gives the same events in the same order with the same coordinates, depth, magnitude, event ids and times to the microsecond, and converting an OpenQuake catalogue gives times equal to its year, month, day, hour, minute and second fields. Other columns are carried over, an empty catalogue converts to an empty one, and the source object is not changed.',
     ['inputs'], 'all combinations of boundary date-time field values (end of second, minute, day, year, leap days, historic years) and event counts',
     'Splitting and joining date fields fails only at carries and boundaries; tests convert three fixed dates.',
     [CAT], [('to_openquake / from_openquake', CAT)], ['catalog and OpenQuake data after conversion'])

prop('P06', 'A download in batches returns exactly what one full download returns',
     'For every server content and every batch size, fetching events in batches returns the same events in the same order as a single request, each exactly once, and every request carries the filters the user gave (period, box, magnitude, event type and so on) with the minimum magnitude lowered by half a bin so that binned events at the threshold are kept. The number of requests stays finite, the catalog period is the one requested, and a failed request or a broken-off answer ends in an error, never in a shorter catalog. The result equals the events the server holds, and options on secondary magnitudes, uncertainties, ids and quality act as when reading the same document from a file.',
     ['inputs', 'histories', 'configurations'], 'all server sizes and batch sizes up to a bound, all server answer styles for an empty page (no content, not found), all subsets of filters, a fault at every request',
     'The batch search probes the server adaptively; off-by-one errors appear only for certain (events, batch size) pairs, and tests mock one of them.',
     ['seismostats/catalogs/client.py', 'seismostats/io/parser.py'],
     [('batch count search', 'seismostats/catalogs/client.py'), ('request parameter mapping', 'seismostats/catalogs/client.py')],
     ['HTTP requests sent', 'catalog returned'])

prop('P07', 'Binning maps every value to its nearest bin centre and is idempotent',
     'Rounding to a bin width returns, for every value, the multiple of the bin width nearest to it (exact halves go up), keeps order, length and missing values, and rounding again changes nothing; widths that are missing or not positive are refused. The test for correct binning accepts exactly the arrays whose values all lie on the grid within its tolerance (and, when asked to check larger widths, whose values do not also lie on a coarser grid), accepts everything for width zero (when asked to check larger widths: everything that does not lie on a grid of a power of ten above the tolerance), and does not depend on the order or container of the values or modify them.',
     ['inputs'], 'all values on and around grid and half-grid points for all common bin widths, all small sets of grid points',
     'Floating-point rounding errs only at particular value-width pairs; tests try a few.',
     ['seismostats/utils/binning.py', CAT],
     [('bin_to_precision', 'seismostats/utils/binning.py'), ('binning_test', 'seismostats/utils/binning.py')],
     ['returned arrays and booleans'])

prop('P08', 'Frequency-magnitude distributions conserve events and agree with each other',
     'The incremental distribution has one count for every bin from the lowest to the highest occupied one, each magnitude (or its weight) is counted exactly once in the bin it rounds to, and counts sum to the number of events. The cumulative distribution at each bin equals the number (or weight) of events at or above it, and a width of zero gives one step per distinct magnitude. Neither depends on the order of events nor modifies its input, and the choice of bin reference (centre or left edge) only shifts the returned positions by half a bin.',
     ['inputs'], 'all small magnitude multisets on grids, all small weights, all widths including coarser ones than the grid',
     'Histogram edges misplace events only for particular floating-point grids and gaps; tests check a few arrays.',
     ['seismostats/utils/binning.py'], [('get_fmd', 'seismostats/utils/binning.py'), ('get_cum_fmd', 'seismostats/utils/binning.py')], ['bins and counts returned'])

prop('P09', 'Classic b-value estimates equal the maximum-likelihood formulas',
     'For every sample, completeness magnitude and bin width, the classic estimate is the binned maximum-likelihood value (the continuous one for width zero) and the Utsu estimate the shifted-mean value, computed from exactly the events at or above completeness (half a bin below it included). The reported positions, magnitudes, event count, weights and Shi-Bolt uncertainties (for b and for beta, beta being b times ln 10) describe that same set of events; with weights, giving an event integer weight k gives the same b-value as listing it k times. No events above completeness gives an undefined value, and magnitudes off the bin grid, or weights of the wrong number or negative, are refused.',
     ['inputs'], 'all magnitude sequences up to a length over an alphabet around the completeness threshold, all weights, several bin widths',
     'Tests compare single synthetic catalogs at one decimal; boundary events and weights are not exercised in combination.',
     ['seismostats/analysis/bvalue/base.py', 'seismostats/analysis/bvalue/classic.py', 'seismostats/analysis/bvalue/utsu.py', 'seismostats/analysis/bvalue/utils.py'],
     [('completeness filter', 'seismostats/analysis/bvalue/base.py'), ('Tinti-Mulargia / Aki / Utsu formulas', 'seismostats/analysis/bvalue/classic.py')],
     ['b_value', 'beta', 'std', 'std_beta', 'n', 'idx', 'magnitudes', 'weights'])

prop('P10', 'b-positive estimates use exactly the right magnitude differences',
     'For every sequence of timed magnitudes, the b-positive estimate uses exactly the differences between events consecutive in time (above completeness) that are at least the difference threshold, and the b-more-positive estimate uses for each event the difference to the first later event that exceeds it by at least the threshold. The reported positions, times, weights and differences identify those events in the input, the threshold defaults to one bin (a negative one is refused), and the value is the maximum-likelihood estimate of those differences (undefined if there are none); the uncertainty of b-more-positive is the scatter of this estimate over resamples of the events. The order in which events are listed does not matter as long as times go with them.',
     ['inputs', 'schedules'], 'all magnitude sequences up to a length over a small alphabet, with all listing orders of the events, thresholds and weights',
     'The pairing depends on the whole event order including events below completeness in between; tests use one fixed catalog.',
     ['seismostats/analysis/bvalue/positive.py', 'seismostats/analysis/bvalue/more_positive.py', 'seismostats/analysis/bvalue/utils.py'],
     [('positive differences', 'seismostats/analysis/bvalue/positive.py'), ('next larger search', 'seismostats/analysis/bvalue/utils.py')],
     ['b_value', 'n', 'idx', 'times', 'magnitudes', 'weights'])

prop('P11', 'Estimation has no memory, no side effects and one answer per data set',
     'Calculating with a b- or a-value estimator object gives the same result and reports whatever was calculated with that object before (other data, weights, failed or empty calculations), and never changes its inputs. The result is the same for a list, array or table column with any index, for the estimator object, the convenience function (alone or with any combination of its return options) and the catalog method, and reading a result before any calculation is an error. Classic estimates do not depend on the order of events.',
     ['histories', 'inputs'], 'all histories of calculations on one estimator object up to a depth, all entry points and containers, all permutations',
     'Tests create a fresh estimator for each calculation, so leftover state and container-dependent behaviour are never seen.',
     ['seismostats/analysis/bvalue/base.py', 'seismostats/analysis/avalue/base.py', 'seismostats/analysis/bvalue/__init__.py', 'seismostats/analysis/avalue/__init__.py'],
     [('calculate', 'seismostats/analysis/bvalue/base.py'), ('estimate_b / estimate_a', 'seismostats/analysis/bvalue/__init__.py')],
     ['estimator attributes after each calculation', 'inputs after each calculation'],
     [('estimator attributes', 'filtered magnitudes, weights, idx, times', 'seismostats/analysis/bvalue/base.py')])

prop('P12', 'Estimates for unequal completeness periods use exactly the complete events',
     'The Kijko-Smit and Weichert estimates for a completeness table use exactly the events that lie in the period in which their magnitude is complete, and return the values, uncertainties, rate and a-value of the published formulas for them, whatever the order in which events are listed. Asking for beta instead of b changes only the parameter and its uncertainty, by the factor ln 10; the last year defaults to that of the latest event; inputs of unequal length or a table not in ascending order of magnitude are refused.',
     ['inputs'], 'all small event sets over (year, magnitude) cells around the table edges, several tables, both parameters',
     'Tests run one catalog per method with the default parameter.',
     ['seismostats/analysis/bvalue/kijko_smit.py', 'seismostats/analysis/bvalue/weichert.py'],
     [('completeness filters', 'seismostats/analysis/bvalue/kijko_smit.py'), ('Weichert likelihood', 'seismostats/analysis/bvalue/weichert.py')],
     ['returned tuples'])

prop('P13', 'a-value estimates equal the definition for every event sequence',
     'The classic a-value is log10 of the number of events at or above completeness; the a-positive and a-more-positive values use exactly the events and waiting times their definitions select (event exceeding its predecessor, or its next larger event, by the threshold, with completeness and threshold handled to half a bin). A scaling factor divides the count, and a reference magnitude shifts the result by b times its distance from completeness; no usable events gives an undefined value. The reported positions, times, magnitudes and count identify the events used, and the order in which events are listed does not matter as long as times go with them.',
     ['inputs', 'schedules'], 'all timed magnitude sequences up to a length over a small alphabet, listing orders, thresholds, scaling and reference magnitudes',
     'Tests use three fixed sequences; time gaps and thresholds interact with event order.',
     ['seismostats/analysis/avalue/base.py', 'seismostats/analysis/avalue/classic.py', 'seismostats/analysis/avalue/positive.py', 'seismostats/analysis/avalue/more_positive.py'],
     [('a-value filters', 'seismostats/analysis/avalue/positive.py'), ('scaling and reference magnitude', 'seismostats/analysis/avalue/base.py')],
     ['a_value', 'n', 'idx', 'times', 'magnitudes'])

prop('P14', 'Catalog analysis methods use given arguments first, then catalog values',
     'Every analysis method of a catalog (b-value, a-value, completeness estimation, binning) returns what the corresponding function returns for the catalog\'s columns, where an argument given explicitly wins over the catalog\'s stored value or column, a missing completeness, bin width, weight or time (for the Kolmogorov-Smirnov estimate also b-value) is taken from there, and if neither a completeness or bin width that is needed is given nor stored the call is refused. A successful call stores its result (b-value, a-value, completeness, bin width) in the catalog and changes nothing else; a refused one changes nothing; missing required columns are reported as an error.',
     ['histories', 'configurations'], 'all combinations of set, unset and overridden parameters and of present and absent columns, and histories of such calls',
     'Argument precedence is a product of configurations; tests try a few with both sources agreeing.',
     [CAT, 'seismostats/utils/__init__.py'],
     [('estimate_b, estimate_a, estimate_mc_*', CAT), ('required column check', 'seismostats/utils/__init__.py')],
     ['return values', 'catalog attributes and columns after each call'],
     [('mc, delta_m, b_value, a_value', 'stored analysis results', CAT)])

prop('P15', 'Maximum-curvature and b-stability completeness follow their definitions',
     'Maximum-curvature completeness is the most populated magnitude bin (the lowest one on ties) plus the correction. b-stability returns the lowest tested completeness whose b-value agrees within its uncertainty with the average over the stability range above it (or, when told not to stop, that with the best agreement), zero and negative completeness included, and reports the b-values, average and tested values of every completeness tried in order; if none passes, it returns nothing. Neither depends on event order or on whether the sample is an array or a table column, nor modifies inputs.',
     ['inputs'], 'all small magnitude histograms including ties, gaps, negative magnitudes, and tested-completeness lists, ranges and bin widths',
     'Tests use one catalog with positive magnitudes.',
     ['seismostats/analysis/estimate_mc.py'],
     [('estimate_mc_maxc', 'seismostats/analysis/estimate_mc.py'), ('estimate_mc_b_stability', 'seismostats/analysis/estimate_mc.py')],
     ['returned completeness and info'])

prop('P16', 'Kolmogorov-Smirnov completeness returns the lowest passing value',
     'The Kolmogorov-Smirnov completeness estimate returns the lowest tested completeness whose p-value reaches the given level (nothing if none passes) with the b-value and p-value of that completeness, tests candidates in ascending order, and lists every tested completeness with its b-value, p-value and distance. The distance is the largest gap between the empirical and the theoretical distribution of the events at or above completeness, the p-value is the share of the simulated distances at least as large as it, and both depend only on the data and arguments (not on event order, options, container or other tested values); a sample with fewer than two distinct magnitudes never passes.',
     ['inputs', 'configurations'], 'all small histograms and candidate lists, p-value levels, given or estimated b-value, supplied or simulated reference distances, warnings on or off',
     'Tests compare one seeded simulation; the search logic and the distance are never checked against their definition over many samples.',
     ['seismostats/analysis/estimate_mc.py', 'seismostats/analysis/lilliefors.py'],
     [('estimate_mc_ks', 'seismostats/analysis/estimate_mc.py'), ('ks_test_gr', 'seismostats/analysis/estimate_mc.py'), ('cdf_discrete_exp', 'seismostats/analysis/estimate_mc.py')],
     ['returned completeness, info, distances'])

prop('P17', 'Declustering labels mainshocks by the window rule, whatever the row order',
     'Window declustering marks an event as dependent exactly if it lies within the magnitude-dependent distance and time window of a larger event (processed from the largest magnitude down, aftershocks after it and foreshocks within the given fraction of the window before it) that is not itself already assigned to another cluster. Labels belong to the rows they describe: permuting the rows or changing the row index permutes the labels accordingly when magnitudes are distinct, the result has one boolean per event, and the catalog is not changed. The window functions equal their published formulas at every magnitude, capped by the time limit if one is given.',
     ['inputs', 'schedules'], 'all placements of a few events on a space-time-magnitude lattice around the windows, all row orders and index types',
     'Cluster membership depends on the order in which overlapping clusters are built; tests decluster one regular catalog with a default index.',
     ['seismostats/analysis/declustering/dec_gardner_knopoff.py', 'seismostats/analysis/declustering/distance_time_windows.py', 'seismostats/analysis/declustering/utils.py'],
     [('Gardner-Knopoff loop', 'seismostats/analysis/declustering/dec_gardner_knopoff.py'), ('windows', 'seismostats/analysis/declustering/distance_time_windows.py'), ('haversine', 'seismostats/analysis/declustering/utils.py')],
     ['boolean labels', 'window values'])

prop('P18', 'b-value variation test partitions events correctly and orders data together',
     'The b-value variation test cuts the series into consecutive, non-overlapping groups of the requested number of events, keeps magnitude, time, completeness and the ordering variable of each event together when it sorts them, and estimates each group\'s value from exactly its events. The autocorrelation equals Moran\'s I of the group values for the given neighbour weights (undefined groups removed with their neighbours), its expectation and p-value follow the stated normal approximation, and the returned series do not depend on the order in which events are listed.',
     ['inputs', 'schedules'], 'all small series with listing orders, group sizes, offsets, undefined groups, scalar or per-event completeness, b- and a-value estimators',
     'Tests use sorted input with constant completeness; misaligned sorting is invisible there.',
     ['seismostats/analysis/b_significant.py'],
     [('cut_constant_idx', 'seismostats/analysis/b_significant.py'), ('values_from_partitioning', 'seismostats/analysis/b_significant.py'), ('est_morans_i', 'seismostats/analysis/b_significant.py'), ('b_significant_1D', 'seismostats/analysis/b_significant.py')],
     ['p value, autocorrelation, group values'])

prop('P19', 'Rate grids keep every cell value through combination and statistics',
     'Combining rate grids stacks the rows of each, in order, under their start (and end) times and cell numbers that identify equal cells equally, with the original values and the metadata of the first grid, spanning the periods of all; other table operations give the rows, labels and columns the same operation gives on a plain table and keep grid type and metadata. Forecast statistics give, for every cell (and period), the bounds of the cell and the requested aggregates over exactly its realisations, and stripping keeps exactly the required columns; operations not in place leave their inputs unchanged.',
     ['histories', 'inputs'], 'all small sets of grids with equal, permuted and differing cells, with and without end times, and histories of table operations',
     'Tests combine two fixed grids; cell matching depends on order and overlap of cells.',
     ['seismostats/catalogs/rategrid.py'],
     [('concat', 'seismostats/catalogs/rategrid.py'), ('calculate_statistics', 'seismostats/catalogs/rategrid.py'), ('cell numbering', 'seismostats/catalogs/rategrid.py')],
     ['index and values of combined grids', 'statistics table', 'metadata'])

prop('P20', 'Coordinate transformation and polygon selection are faithful',
     'Transforming points or polygons to local coordinates and back returns the original ones, for scalars and arrays, with or without altitude and reference point, and local coordinates equal the projected ones minus the reference. A bounding box converted to a polygon and back is the same box, and selecting events inside a polygon returns exactly the events inside it or on its edge (vertices given as latitude and longitude, as in the tests), with all their columns, order and catalog metadata, without changing the source.',
     ['inputs', 'configurations'], 'all combinations of scalar/array, altitude, reference point and projections over a lattice of points; all placements of events around polygon edges',
     'Tests transform one point set in one projection and select three events.',
     ['seismostats/utils/coordinates.py', 'seismostats/utils/filtering.py'],
     [('CoordinateTransformer', 'seismostats/utils/coordinates.py'), ('cat_intersect_polygon', 'seismostats/utils/filtering.py')],
     ['returned coordinates', 'selected events'])

prop('P21', 'Simulated and dithered magnitudes stay in their range and distribution',
     'Simulated magnitudes are never below the minimum nor above the maximum if one is given (any number, zero included), follow the (truncated) exponential distribution of the given b-value, and come in the requested number; binned ones lie on the bin grid at or above completeness, and no more than half a bin above the maximum. Dithering moves every magnitude only within its own bin, so that binning the result gives the original magnitudes back, in the same order.',
     ['inputs', 'schedules'], 'all random-generator states in a range combined with a lattice of minimum, maximum, b-value and bin widths, including zero and negative magnitudes',
     'Tests check one or two parameter sets with positive magnitudes.',
     ['seismostats/utils/simulate_distributions.py'],
     [('simulate_magnitudes', 'seismostats/utils/simulate_distributions.py'), ('dither_magnitudes', 'seismostats/utils/simulate_distributions.py')],
     ['returned arrays'])

prop('P22', 'Sequence helpers agree with their definitions for every event order',
     'Finding the next larger event returns for each event the first later event exceeding it by at least the threshold (none if there is none), and making a catalog more incomplete removes exactly the events that follow a larger event by less than the given dead time, and returns the magnitudes and times of the others, matched and in time order. The Shi-Bolt uncertainty (of b or beta; anything else is refused), the conversion between b and beta, the bootstrap uncertainty and the magnitude-scale conversion equal their formulas, and none of them modifies its input.',
     ['inputs', 'schedules'], 'all magnitude sequences up to a length over a small alphabet with all listing orders and time spacings',
     'Each event interacts with all earlier ones; tests use a single short sequence.',
     ['seismostats/analysis/bvalue/utils.py', 'seismostats/analysis/magnitudes.py'],
     [('find_next_larger', 'seismostats/analysis/bvalue/utils.py'), ('make_more_incomplete', 'seismostats/analysis/bvalue/utils.py')],
     ['returned arrays'])

prop('P23', 'Options only change warnings, never results',
     'Setting an option makes reading it return the new value until it is set again, unknown options are refused and leave the others as they are, and whatever the history of option changes, every analysis returns the same values or refuses the same inputs; only the emission of warnings may differ, and with warnings off the package itself emits none.',
     ['histories', 'configurations'], 'all histories of option changes interleaved with analyses on ordinary, empty and out-of-range data',
     'Tests run with one option setting; results that depend on it go unseen.',
     ['seismostats/utils/_config.py', 'seismostats/analysis/estimate_mc.py', 'seismostats/analysis/bvalue/base.py', 'seismostats/analysis/avalue/base.py', 'seismostats/analysis/b_significant.py'],
     [('set_option/get_option', 'seismostats/utils/_config.py'), ('guarded warnings', 'seismostats/analysis')],
     ['option values', 'results and exceptions', 'warnings emitted'],
     [('options table', 'process-wide option values', 'seismostats/utils/_config.py')])

prop('P24', 'Plots draw exactly the data and never change it',
     'The curves and points drawn for a data set equal the computed quantity: the frequency-magnitude counts, the cumulative counts, the cumulative event count in time above each completeness, the magnitudes in time with the completeness steps, the b-value with its confidence band for each completeness and along a series of events, the mean autocorrelation with its band and significant values, the event positions with dot sizes growing with magnitude. Plotting never modifies the catalog or any argument, so the same call draws the same thing again, on the axes given if one is given.',
     ['inputs', 'histories'], 'all small data sets and option combinations, each call repeated',
     'Tests only check that plotting does not fail.',
     ['seismostats/plots/basics.py', 'seismostats/plots/statistical.py', 'seismostats/plots/seismicity.py', CAT],
     [('plot functions', 'seismostats/plots/basics.py')], ['line and scatter data of the axes', 'arguments after the call'])

prop('P25', 'Lilliefors p-values judge exactly the sample of the estimate',
     'For every sample of continuous magnitudes, the Lilliefors p-value is the tabulated one for the largest distance between the distribution of the excesses over completeness and the exponential distribution of the same mean, whatever the order of the magnitudes; samples with magnitudes below completeness or too few values are refused. The p-value of a b-value estimate is that of exactly the magnitudes used (measured from completeness) or magnitude differences used (measured from their threshold), for binned data averaged over the given number of ditherings within the bins, and obtaining it changes nothing in the estimate.',
     ['inputs', 'histories'], 'all small samples over a lattice of excesses; all small event sequences, estimators, thresholds and scripted answers of the random generator',
     'The test suite compares one p-value of one fixed sample and never asks an estimator for it.',
     ['seismostats/analysis/lilliefors.py', 'seismostats/analysis/bvalue/base.py', 'seismostats/utils/simulate_distributions.py'],
     [('ks_test_gr_lilliefors', 'seismostats/analysis/lilliefors.py'), ('p_lilliefors', 'seismostats/analysis/bvalue/base.py')],
     ['p-values', 'estimator attributes after the call'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
