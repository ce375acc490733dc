#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay reviewable as text)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=m.strip(),where=files[0]) for m in mech.split(', ')])))
S='src/craterstats/'
p('C01','Plotted densities and error bars follow the published definitions',
 "For every crater count, binning and diameter range, each presentation plots exactly the bins that hold craters: cumulative plots cumulative number per area at the lower bin edge; incremental, Hartmann, differential and R plot the bin count per area (per bin width where applicable, scaled by d*(sqrt2-1) for Hartmann and d^3 for R, with the exponential binning-bias correction for differential) at the bin mean. Every error bar is the plotted density (for the differential plot before the binning-bias correction) divided by the square root of the unweighted number of craters behind that point (cumulative number for the cumulative plot). When a range is given only bins whose mean lies strictly inside it are kept (its lower limit is dropped when all points are to be shown), the reported crater numbers are sums over exactly those bins, and the reported bin range is the range extended to bin boundaries, open limits being replaced by the data limits.",
 ['inputs','configurations'],'all crater lists, binnings, ranges, presentations and correction flags',
 'tests sample one flat synthetic distribution and the bin ranges of the cumulative form only',
 [S+'Cratercount.py'],'Cratercount.getplotdata and the binned arrays it reads')
p('C02','Binning conserves craters and keeps bin edges consistent',
 "Binning a crater list counts every crater once by number and once by its fraction against the same bin boundaries, and the cumulative numbers are the sums of the counts of that bin and all larger ones. The lower edge, upper edge, width and geometric mean stored for each bin come from the same boundary pair, boundaries are exactly those of the named binning style (with the requested fractional offset) and enclose the data; the unbinned style gives one zero-width bin per crater in ascending order, each crater keeping its own fraction. Binning is recomputed from the crater list whenever a different style is requested and never for pre-binned data.",
 ['inputs','configurations'],'all crater lists, all seven binning styles and offsets',
 'tests check one 100-crater list; edge alignment and pairing must hold for every list',
 [S+'Cratercount.py'],'Cratercount.apply_binning, generate_bins, MakeBinGeometricMean')
p('C03','Diameter range limits are decoded and snapped outward to bin boundaries',
 "A range limit given as a number is taken literally; one given as bin number bN selects the mean diameter of the N-th occupied bin counted from 1 (negative N from the largest bin, clipped to the occupied bins) and always snaps. An upper limit below the lower limit is raised to it. Unless unbinned, a snapping lower limit greater than zero moves to the lower edge of the bin containing it and a snapping upper limit not beyond the data moves to the upper edge of the bin containing it.",
 ['inputs'],'all limits (numeric, textual, bin-relative), binnings and snap settings',
 'no test exercises range decoding at all',
 [S+'Cratercount.py'],'Cratercount.decode_range')
p('C04','All forms of a production function are mutually consistent',
 "For every polynomial production function and every diameter, the differential form is minus the derivative of the cumulative form with respect to diameter, the relative form is the differential form times diameter cubed, and the Hartmann form is the differential form times diameter times (2^1/4 - 2^-1/4). An offset a0 given by the caller (zero included) replaces the constant term in every form, so all forms scale together; if none is given the function's own constant is used. Tabulated functions derive all forms from the one set of cumulative values they hold, with the same interpolation grid and bin geometry.",
 ['inputs'],'all polynomial and tabulated functions, diameters and offsets',
 'tests only check coefficients and that fitting recovers an offset',
 [S+'Productionfn.py',S+'miscellaneous.py',S+'gm/maths/poly.py'],'Productionfn.evaluate/getplotdata, bin_bias_correction')
p('C05','Impact rate, cumulative density and age are consistent conversions',
 "For every chronology function the impact rate is the exact time derivative of the cumulative 1-km density, a density offset is the base-10 logarithm of that density, and converting an offset or density back to an age inverts that same density curve by interpolation over 0-5 Ga. Plot data for the chronology use the density and the rate evaluated at the very times returned.",
 ['inputs'],'all chronology coefficient sets and ages',
 'tests check a single function at a few times; the derivative relation is only checked at t=0',
 [S+'Chronologyfn.py'],'Chronologyfn.N1/phi/a0/t/getplotdata')
p('C06','Poisson age likelihood uses the right counts, expectation and normalisation',
 "The Poisson age distribution counts craters with diameter in [lower, upper) by number (for pre-binned data, whole bins inside the range), takes as expectation the production-function number between the two limits times the area, scaled over the sampled ages, and weights the Poisson probability with the impact rate at each age. For a buffered count the expectation integrates (area + perimeter*d/2 + pi*d^2/4) times the differential production function, and a count without a perimeter is refused. The distribution is normalised with the same time steps from which the cumulative fraction is built, and percentiles, cumulative fractions and relative probabilities are interpolations on that one distribution.",
 ['inputs','configurations'],'all counts, ranges, areas, perimeters, chronology systems',
 'tests check three rounded table rows for one crater file',
 [S+'Craterpdf.py'],'Craterpdf.__init__, t, cumulative_fraction, median1sigma')
p('C07','Age estimates use the requested method and keep best/lower/upper order',
 "Each dated overplot is evaluated with exactly the method, binning, range and crater count it was given (cumulative fit, differential fit, Poisson or buffered Poisson, the Poisson range limited to the production function's validity). Ages and offsets are triples ordered best value, lower limit, upper limit in every place they are produced or displayed: the printed plus error is upper minus best and the minus error is best minus lower, for ages and for N(d) alike. The reported N(d_ref) is the production function at the reference diameter with the best-fit offset.",
 ['inputs','configurations'],'all overplot types, ranges and chronology systems; all output sites',
 'tests compare five rounded rows of one file; the plot text and sequence labels are never checked',
 [S+'Craterplot.py',S+'Productionfn.py',S+'Craterplotset.py',S+'miscellaneous.py'],'Craterplot.calculate_age, Productionfn.fit, make_legend_label, create_summary_table')
p('C08','Resurfacing correction applies only to resurfacing-corrected cumulative fits',
 "The resurfacing correction is applied exactly when an overplot is a cumulative fit with the correction switched on; every other overplot and presentation uses uncorrected counts. The correction adds one constant, found by repeatedly fitting the production function and taking the excess of the fit over the uncorrected cumulative density at the largest diameter in the range until it changes by less than 0.0001 or 20 repeats are exceeded; with fewer than two points it is zero.",
 ['inputs','configurations'],'all overplots, types, flags and ranges',
 'one table row exercises one corrected fit',
 [S+'Craterplot.py',S+'Cratercount.py'],'Cratercount.resurf_adj and its callers')
p('C09','Summary table has one correct row per dated overplot',
 "The summary table contains exactly one row for each overplot with an age estimate, in overplot order, and every row has the values of its own overplot under the headings they belong to (number of headings equals number of values; ages, offsets and N(d) as best, lower, upper). The age rank column orders the rows from oldest to youngest. Rows of fits whose resurfacing setting is off report the range extended to bins, all other rows the requested range, and the formatted range states the same limits.",
 ['inputs','configurations'],'all combinations of overplots in one table',
 'tests build tables with a single row only',
 [S+'Craterplotset.py'],'Craterplotset.create_summary_table')
p('C10','Every command-line setting reaches the plot it configures',
 "Every setting given on the command line takes effect with exactly the value given, including zero, and settings not given take their documented default, which depends on the presentation where documented. Plot ranges given by the user override presentation defaults except for Hartmann plots, whose ranges are those of the tabulated function or else the presentation default; chronology system, equilibrium function, epochs and presentation are those whose names match the abbreviation, and the surface area used for whole-globe limits is that of the system's body.",
 ['configurations'],'all option combinations',
 'tests never construct settings from the command line',
 [S+'cli.py',S+'constants.py'],'cli.construct_cps_dict, get_parser, main')
p('C11','Overplot definitions parse, inherit and resolve correctly',
 "Each overplot on the command line takes the values it specifies, converted to the matching key, type, colour, symbol and binning; unspecified source, symbol, snapping, isochron, error-bar, colour and binning settings carry over from the previous overplot and everything else returns to its default. The overplot type carries over only when no new default applies as documented, i.e. it is inherited from the previous overplot. Relative sources resolve against the directory of the input file when one is used, and using an overplot before any source is given is refused.",
 ['configurations','histories'],'all sequences of overplot definitions',
 'tests cover only the abbreviation matcher',
 [S+'cli.py',S+'Craterplot.py'],'cli.construct_plot_dicts, AppendPlotDict, Craterplot.UpdateSettings')
p('C12','Parallel lookup tables stay aligned and every choice is handled',
 "Every presentation, overplot type, binning style, body and randomness measure that can be selected has its own entry in each table that describes it and a branch that handles it, and tables matched by position list the same choices in the same order. No selectable value falls through to another value's handling or to none, and every chronology system, equilibrium function and epoch system on offer can be evaluated.",
 ['configurations'],'all selectable values of all enumerated settings',
 'tests touch two presentations and two types',
 [S+'constants.py',S+'cli.py',S+'Craterplotset.py',S+'Cratercount.py'],'PRESENTATIONS, OPLOT_TYPES(_SHORT), DEFAULT_?RANGE, BINNINGS, PLANETS/SURFACE_AREAS, MEASURES and their dispatch sites')
p('C13','Each run writes exactly the requested output files',
 "A plot run writes one image per requested image format (three for an uncertainty plot, one per measure for a randomness analysis), a table when csv is requested (never for uncertainty plots), and a settings file only when settings were not themselves read from a file, all under the resolved output name. Each image written under a name holds the plot that name says, in every requested format.",
 ['configurations'],'all presentations, format sets and option combinations',
 'no test runs the output stage',
 [S+'cli.py'],'cli.write_output_files, set_default_filename, main')
p('C14','A saved settings file reproduces the command that wrote it',
 "The settings file written after a run, read back as an input file, yields exactly the original argument list, for arguments with spaces, quotes, hash signs, leading minus signs, or no characters at all. Comment lines and blank lines in a settings file are ignored, settings files are found relative to where the user runs the command, and an included file never changes which file is regarded as the input.",
 ['inputs','histories'],'all argument lists',
 'no test writes or reads a settings file',
 [S+'cli.py'],'cli.main (settings content), LoadFromFile')
p('C15','Readers keep each crater together with its own attributes',
 "Reading any crater file yields each crater's diameter paired with its own fraction (and position, where given), whatever the order in the file; fractions default to one only when the file has no fraction column. The area, perimeter and planetary radius are those given in the file (for buffered lists a unit area with fractions equal to the reciprocal reference areas; for statistics files the cumulative number over the cumulative density).",
 ['inputs'],'all .diam, .scc, .stat and shapefile inputs',
 'tests read files with constant fractions, so lost pairing is invisible',
 [S+'Cratercount.py',S+'Spatialcount.py'],'ReadDiamFile, ReadSCCfile, ReadStatFile, ReadSHPfile, readSCCfile, readSHPfiles')
p('C16','Files the program writes carry each quantity under its own heading',
 "In every data file written (binned statistics, spatial count, randomness results, shapefile attributes) each column holds the quantity its heading names, computed from the same crater or bin as the rest of its row, and the columns a reader of that format takes are the ones the writer puts there. Spatial-count output numbers the boundary parts and the craters exactly as held in memory, and randomness results list each bin's trials and score under that bin.",
 ['inputs'],'all crater counts and analyses written to file',
 'no test writes any of these files',
 [S+'Cratercount.py',S+'Spatialcount.py',S+'Randomnessanalysis.py'],'WriteStatFile, writeSCCfile, writeSHPfiles, Randomnessanalysis.write/read')
p('C17','Merging crater counts conserves craters, area and perimeter',
 "A merged crater count contains every crater of every input exactly once, each with its own fraction, and its area is the sum of the input areas and its perimeter the sum of the input perimeters. The crater columns and headings match what the reader of the merged format expects; fewer than two inputs or binned inputs are refused.",
 ['inputs'],'all sets of input files',
 'no test merges counts',
 [S+'miscellaneous.py'],'merge_cratercounts')
p('C18','One command never changes the result of a later command',
 "Running several commands in one process gives each the result it would have had alone: default settings, lookup tables and shared marker definitions are never modified by a run. Parsing settings, building plots or drawing them works on private copies. Drawing an overplot, a panel or an epoch system into a plot leaves the markers, colours and greys of that plot as they were.",
 ['histories'],'all sequences of commands in one process',
 'tests run single calls',
 [S+'cli.py',S+'constants.py',S+'Craterplotset.py',S+'Craterplot.py',S+'Randomnessanalysis.py'],'DEFAULTS deep copy, MARKERS/PALETTE copies')
p('C19','Evaluating data, functions and ages does not alter them',
 "Obtaining plot data, legend text, ages, data ranges or function values never changes the crater list, the binned counts, the function definition or the diameter range it was asked about, so that asking again, or in another order, gives the same answer.",
 ['histories'],'all sequences of queries on the same objects',
 'tests do not repeat or reorder queries',
 [S+'Cratercount.py',S+'Productionfn.py',S+'Chronologyfn.py',S+'Craterpdf.py',S+'Craterplot.py'],'query methods versus stored arrays')
p('C20','Monte Carlo trials are independent, reproducible and in trial order',
 "For a given source and number of trials the randomness trials are the same on every run, whatever the number of worker processes and however they are scheduled: each trial's random numbers are determined by the analysis seed and the trial's own index, and results are stored in trial order, one per trial. Different trials of a bin never share a random sequence.",
 ['schedules'],'all worker counts and schedules',
 'no test runs the parallel analysis',
 [S+'Randomnessanalysis.py'],'montecarlo_pp, montecarlo_serial, run_trial')
p('C21','Random crater configurations have the right number, place and spacing',
 "Each simulated configuration has exactly as many points as the bin has craters, each lies inside the mapped area, and candidate points are drawn uniformly by surface area over the enclosing region. A new point removes only points closer than half the crater diameter, and the running count and the cell index always describe exactly the points kept, each filed under its own cell.",
 ['inputs','histories'],'all areas, diameters, counts and random draws',
 'no test simulates configurations',
 [S+'Randomnessanalysis.py'],'sprinkle_discs_pp, random_points_pp')
p('C22','Randomness measures are computed on the sphere from the points given',
 "The neighbour measure is the mean over all points of the great-circle distance to the k-th nearest other point (second nearest for the standard measure), searched over enough neighbouring cells that no nearer point is missed; the area measure is the standard deviation of the areas of the points' spherical Voronoi cells clipped to the mapped area. Longitudes and latitudes are converted between degrees and radians exactly once and never interchanged, and the points reported with a measure are those that produced it.",
 ['inputs'],'all point configurations',
 'no test evaluates a measure',
 [S+'Randomnessanalysis.py'],'evaluate_randomness, kth_nearest_neighbour_pp, sdaa')
p('C23','Randomness scores compare the real bin with its own simulated trials',
 "For each bin and measure the score is (real value - mean of that bin's trials) / standard deviation of those trials and the percentile is the fraction of those trials below the real value; the real value uses exactly the craters of that bin. Trials are rerun only when too few are stored, bins with too few craters for a measure are skipped, stored results read back are assigned to the measure and bin they were written for, and the area measure is plotted with its sign reversed in every plot. The panels beside a map show each examined bin once, in order and side by side, with its own scores, and the caption of a map gives the diameter range of its bin and the number of craters shown.",
 ['inputs','histories'],'all bins, measures and stored results',
 'no test computes scores',
 [S+'Randomnessanalysis.py',S+'Craterplot.py'],'calculate_stats, run_montecarlo, get_bin_craters, plot_n_sigma, read')
p('C24','Spherical geometry keeps units and coordinate order',
 "Everywhere a position, angle, length or area is handled, degrees and radians, metres and kilometres, and longitude and latitude are converted exactly where needed: trigonometric functions receive radians, map libraries receive longitude before latitude in degrees, projected lengths are in metres while diameters, radii and distances are in kilometres. Areas and perimeters read from spatial data are on the sphere with the planetary radius given by that data.",
 ['inputs'],'all spatial inputs',
 'no test reads or draws spatial coordinates',
 [S+'Spatialcount.py',S+'Randomnessanalysis.py'],'find_rims, llr2xyz, readSHPfiles, readSCCfile, find_enclosing_polygon, random_points_pp, sdaa')
p('C25','Crater fractions from maps follow the overlap with the mapped area',
 "A mapped crater fully covered by the area has fraction one; otherwise its fraction is the linear penetration corresponding to the ratio of overlapping to total crater area, and a crater with no overlap is left out. The diameter is that of the spherical cap with the crater's area, and diameter, fraction and centre of each kept crater stay together. The area-to-penetration conversion inverts the circular-segment area formula over its full range.",
 ['inputs'],'all shapefile pairs',
 'no test reads a shapefile',
 [S+'Spatialcount.py',S+'miscellaneous.py'],'readSHPfiles, fractional_crater_transform')
p('C26','Every internal reference resolves',
 "On every path of the program, every name, imported attribute, option field, method and constructor or call argument used refers to something that exists and accepts that use, so no input can end a run with an internal name, attribute or argument error.",
 ['inputs','configurations'],'all paths through all modules',
 'tests execute a small part of the paths; error and rarely used branches are never run',
 [S],'name, attribute, option and call-signature resolution over the whole package')
p('C27','Formatted ages, densities and ranges state the value they were given',
 "An age is shown in the largest unit (Ga, Ma, ka, a) in which it is at least one, with the requested significant figures, and its plus and minus errors are in that same unit and in that order; a density shows mantissa, exponent and errors scaled by the same power of ten. A diameter range is shown in metres when its upper limit is below 1 km and in kilometres otherwise, both limits in the same unit, and an unbounded range is shown as unconstrained. The LaTeX and MathML forms carry the same numbers.",
 ['inputs'],'all values, errors, units and precisions',
 'tests check a handful of values',
 [S+'miscellaneous.py',S+'gm/string/scientific_notation.py',S+'gm/string/sigfigs.py',S+'gm/string/diameter_range.py'],'str_age, scientific_notation, sigfigs, diameter_range')
p('C28','Epoch boundaries and isochrons are placed by the active functions',
 "Epoch boundary times not given explicitly are the ages at which the active chronology and production functions give the defining densities (per million square km) at the defining diameters, in order, starting from the present; explicit times are used as given. Epoch bands, dividing lines and names are drawn between consecutive boundaries with each epoch's own shade and style, and isochrons and epoch curves are those of the same production function cut only where they exceed 0.8 of the equilibrium curve.",
 ['inputs','configurations'],'all epoch systems, chronology systems and equilibrium functions',
 'one test checks one epoch system to 1%',
 [S+'Epochs.py',S+'Productionfn.py'],'Epochs.__init__, oplot, chronology_oplot, sequence_oplot, Productionfn.getisochron')
p('C30','Sequence probabilities combine the two age distributions consistently',
 "The probability that one unit is older than another is the sum over age of the first unit's probability times the second unit's cumulative fraction (bin mid-points) at the same age. In the probability table (written only for two or more units) the entry in row y and column x is the probability that unit x is older than unit y, its mirror entry the complement, and every Poisson-dated visible unit, buffered or not, takes part under its own name. The simultaneous-formation probability below it is the share of the joint age distribution - the product of all units' distributions with expectations rescaled from their own median age to the mean of the medians - that is less likely than the observed medians.",
 ['inputs','configurations'],'all sets of dated units',
 'no test builds a sequence table',
 [S+'Craterpdf.py',S+'Craterplotset.py'],'calculate_sequence_probability, create_sequence_table, relative_probability')
p('C31','Uncertainty maps evaluate every age-area cell with its own inputs',
 "Each cell of the uncertainty map uses the age of its own column and the area of its own row: expected number = production-function number above the minimum diameter at that age times that area, simulated number drawn with that expectation, and age error and age ratio computed from the distribution for that number and area. The results stored under each name are that quantity, on the same grid, and each of the three plots shows its own quantity. The limits drawn stand where they apply: the area of the globe of the chronology system, the age at which the surface saturates, and nothing is shown beyond them.",
 ['inputs','configurations'],'all grids, minimum diameters and chronology systems',
 'no test computes an uncertainty map',
 [S+'Craterplotset.py'],'compute_age_area, age_area_plot, calculate_time_axis_params')
p('C32','Format conversion writes what it reports and only supported conversions',
 "A conversion reads the given source, writes it in the requested format under the output name (or into the output directory) the user gave, else named after the source, reports that name to the user, and reports a conversion as written only if a file was written; every other combination of formats is reported as unsupported. The settings of a map image are saved beside it unless they were read from a file.",
 ['configurations'],'all source/target format pairs and output names',
 'no test converts files',
 [S+'cli.py'],'cli.convert_format')
p('C33','Numerical fits and spatial library results are accurate',
 "The fitted offset minimises the weighted residual over the selected points, and areas, intersections and Voronoi cells returned by the geometry libraries are correct to their documented precision for every input polygon and point set.",
 ['inputs'],'all data sets',
 'quantifies over floating-point behaviour of third-party solvers',
 [S+'Productionfn.py',S+'Spatialcount.py'],'scipy curve_fit, spherely, SphericalVoronoi')
p('C34','Automatic axis ranges always contain the data',
 "When axis ranges are not given, the axes of a crater-count plot contain the data of every overplot that has any: the x axis starts at least 0.3 decades below the smallest diameter and ends at least 0.8 decades above the largest, and the y axis leaves at least 0.3 decades (0.6 on differential plots) below the smallest and above the largest density, also after the adjustment of the aspect ratio and with a randomness strip. The data range of an overplot is the smallest and largest diameter and density of exactly the points that overplot draws (same binning, range, correction and production function). Overplots without data are left out, a plot without any data has the standard axes of its presentation, and a range that is given is kept exactly while the other one still contains the data.",
 ['inputs','configurations'],'all data ranges of any number of decades, all sets of overplots, presentations and given ranges',
 'tests check one file whose data happen to fit',
 [S+'Craterplotset.py',S+'Craterplot.py',S+'gm/maths/range.py'],'Craterplotset.autoscale, Craterplot.get_data_range')
p('C35','Axes, ticks and legend say what is plotted',
 "The axes of a plot have exactly its x and y ranges (logarithmic density axis; the axis carrying the minor ticks shows the same diameters in the same place), and their titles name the quantity and unit of the presentation: densities per km2, per km3 for differential plots, equivalent counts per root-2 bin on Hartmann plots unless every overplot has root-2 bins, and for chronology and rate plots the reference diameter actually used, fractions included. Diameter ticks stand at their labelled diameters: powers of ten in m or km, or powers of two from 1/1024 to 1024 km, only those in range and for any range. Time axes run from the oldest to the youngest age (oldest 3 to 4.5 Ga); below 1 Ga they change at 3 Ga from linear to logarithmic at one meeting point and together fill the frame, and each labelled age stands at its age. Every legend entry stands next to the symbols of its own overplot, in overplot order, fits only when an age, resurfacing or density item is in the legend. Titles break at every |. Bin labels name the boundary they stand at.",
 ['inputs','configurations'],'all ranges, presentations, styles, binnings, reference diameters and overplots',
 'no test looks at axes, ticks, titles or legends',
 [S+'Craterplotset.py',S+'miscellaneous.py',S+'gm/plotting/ticks.py'],'Craterplotset.CreatePlotSpace, create_time_axis_plotspace, calculate_time_axis_params, draw, Hartmann_bins, ticks')
p('C36','Age distribution panels show the distribution itself',
 "Where a Poisson-dated overplot shows its age, a panel beside the age draws its whole age distribution from age zero (the vertical axis starts at zero density): the 1-sigma interval filled, the median marked, the axis up to the 99.7% age or the given limit, with every tick label naming the age it stands at (unit on the last). No other overplot has a panel. On a sequence plot every dated visible unit has a row of its own, equally spaced in plot order with its name and age, on each of the time axes: for Poisson dates the distribution mirrored about the row between its 0.0001 and 0.9999 fractions with the middle 68% and the median marked, the peak always 0.45 of the row spacing from the row, otherwise a bar from the youngest to the oldest age with the best age marked.",
 ['inputs','configurations'],'all distributions, age limits, overplot types and numbers of units',
 'tests run a plot without looking at what it draws',
 [S+'Craterpdf.py',S+'Craterplot.py'],'Craterpdf.plot, Craterpdf.violin_plot, Craterplot.overplot, overplot_sequence_element')
p('C29','Structured text files are read exactly as written',
 "Function definitions, spatial counts and stored results kept as structured text are read exactly as written, however they are laid out: every keyword with its value (quotes removed, the text inside untouched), vectors in order, structures with their own keywords, tables column by column with missing cells empty, text blocks whole, repeated keywords as a list in the order of the file. Comment lines, comments after a semicolon outside quotes, blank lines, indentation, white space around the equals sign and a byte-order mark make no difference, and nothing is read that was not written.",
 ['inputs','configurations'],'all definitions of the functions file and all documents within the format',
 'tests read one document of each kind; layout, quoting and repetition combine freely',
 [S+'gm/file/read_textstructure.py',S+'gm/file/read_textfile.py',S+'config/functions.txt'],'read_textstructure, read_textfile, quoted_split, strip_quotes')
p('C37','Listings, demonstrations and user functions are complete and lasting',
 "The definitions a command knows are the built-in ones followed by those of the user's functions file; once set, that file is used by every later command, from any directory, and if it or its configuration is missing only the built-in ones remain. Setting it where it cannot be remembered is refused. The listings show every chronology system, equilibrium function and epoch system that can be selected, each under its heading and in order, and every plot symbol with its own code and every colour in the order of its number. The demonstration runs each of its commands, as quoted, with an output name of its own, and every one of these commands is accepted and finds its data.",
 ['configurations','histories'],'all installations, user files, working directories and demonstration commands',
 'no test sets user functions, lists functions or runs the demonstration',
 [S+'miscellaneous.py',S+'cli.py'],'Functionslist, list_symbols_and_colours, demo')
p('C38','Repeating a command repeats its results',
 "The same command on the same inputs writes and draws the same in every run: nothing depends on the order in which the elements of a set of texts (output formats, measures, source names, legend letters, keys of stored results, numbers of trials) happen to be met, which differs from one process to the next. In particular the default output name, the order of measures in the file of randomness results and beside the plot, the pairing of each measure with its number of trials, and every text drawn are the same in every run. (The uncertainty maps, drawn from random samples, and the order in which several output files are written are not meant.)",
 ['process histories'],'all orders of iteration',
 'the order is fixed within a process, so a test sees one order only',
 [S+'cli.py',S+'Craterplot.py',S+'Craterplotset.py',S+'Randomnessanalysis.py',S+'Cratercount.py'],'set_default_filename, randomness_analysis, oplot_n_sigma, autoscale, read_ra_file')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
