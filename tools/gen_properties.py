#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here, one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'Binned flow-map files round-trip every bin and the grid geometry',
     'Writing a flow map to the binned (GMX_FLOW) format and reading the file back yields, for every bin of the grid, the same number, temperature, mass and flow values (to 32-bit float precision) if the bin has non-zero mass and zeros otherwise, each attached to the same grid position it had. The shape, bin spacing and origin come back unchanged (to the six decimals stored), coordinates are those of the bin centres (origin plus half a spacing plus a whole number of spacings) in x-major order, and this holds for every shape and every number of filled bins, including none.',
     ['inputs'], 'all grid shapes, spacings, origins, bin values and patterns of empty bins, hence all header lengths and payload sizes',
     'The tests read two fixed stored files and write one fixed map of a single size; the header/payload boundary, empty maps and sparse patterns depend on the number of filled bins and on header length, which tests sample at one point.',
     ['strata/dataformats/gmx_flow_version_1/read.py', 'strata/dataformats/gmx_flow_version_1/write.py'],
     [('write_data, write_header', 'strata/dataformats/gmx_flow_version_1/write.py'),
      ('read_data, read_header, read_values', 'strata/dataformats/gmx_flow_version_1/read.py')],
     observe=['contents of the file', 'dictionaries returned by the reader'])

prop('C02', 'Simple map files round-trip values and recover the grid geometry',
     'Writing a regular flow map, ordered x-major, to the simple binary or plain-text format and reading it back yields the same values for every field and bin in the same order, to 32-bit float precision (binary) or six decimals (text). The reader recovers the number of bins along each axis, the spacing and the origin of any regular grid with at least two bins along each axis from the coordinates alone, to the five coordinate decimals it keeps, and the returned coordinates are exactly that regular grid.',
     ['inputs'], 'all grid shapes and geometries, all field values',
     'Tests use one 3x4-like grid and one file; grid inference has to be right for every shape including single rows and columns, and for coordinates carrying rounding noise.',
     ['strata/dataformats/simple/read.py', 'strata/dataformats/simple/write.py'],
     [('write_data', 'strata/dataformats/simple/write.py'), ('read_data, calc_information, read_binsimple, read_plainsimple', 'strata/dataformats/simple/read.py')],
     observe=['contents of the file', 'dictionaries returned by the reader'])

prop('C03', 'File-format detection and conversion never lose or relabel data',
     'A map file is read with the reader of the format it was written in, whatever its contents, and converting a series of files writes exactly one output per input, numbered from the same begin number in the same order, in the requested format, holding the values of every bin that the target format stores under the same labels. Asking for an unknown output format is refused with an error and writes nothing.',
     ['inputs', 'configurations'], 'all maps, all supported source and target formats, all begin/end ranges and extensions',
     'Tests convert one small map along a few format pairs; per-label mix-ups, off-by-one numbering and format confusion depend on file contents and ranges not sampled.',
     ['strata/dataformats/read.py', 'strata/dataformats/write.py', 'strata/convert.py'],
     [('guess_read_module, read_data_file, read_from_files', 'strata/dataformats/read.py'), ('write, flowdata_to_dict', 'strata/dataformats/write.py'), ('convert', 'strata/convert.py')],
     observe=['files written', 'exceptions'])

prop('C04', 'File discovery yields exactly the consecutive existing run of map files',
     'Discovering the data files of a base path yields, in increasing order, the paths made of the base, a five-digit zero-padded number and the extension, for every number from begin up to but excluding the first number that exceeds end or whose file does not exist, and nothing else. If not even the first file exists nothing is yielded and a warning is given.',
     ['inputs', 'configurations'], 'all base paths, extensions, begin and end numbers (including no end) and all sets of existing files',
     'Tests list a handful of directories with fixed gaps; the guarantee quantifies over every set of existing files and every range.',
     ['strata/utils.py'],
     [('gen_filenames', 'strata/utils.py'), ('find_datamap_files', 'strata/utils.py'), ('pop_fileopts', 'strata/utils.py')],
     observe=['yielded paths', 'warnings'])

prop('C05', 'Input files are bundled completely and output files numbered predictably',
     'When files are processed in bundles of size g, every bundle holds g consecutive files, bundles are consecutive and disjoint (or shifted by one file each when rolling), they start at the begin number, never reach past the end number or a missing file, and an incomplete final bundle is dropped. The outputs paired with them are numbered consecutively from the begin number divided by g rounded up (or from the begin number itself when rolling, or when files are paired one to one), using the output extension if one is given and the input extension otherwise.',
     ['inputs', 'configurations'], 'all begin/end numbers, bundle sizes, rolling flags, extensions and sets of existing files',
     'Tests check a few bundle sizes on fixed file sets; numbering and truncation are arithmetic facts over all begin/group/end combinations.',
     ['strata/utils.py'],
     [('find_datamap_files (yield_groups)', 'strata/utils.py'), ('find_groups_to_singles', 'strata/utils.py'), ('find_singles_to_singles', 'strata/utils.py')],
     observe=['yielded (inputs, output) pairs'])

prop('C06', 'Writing output never destroys an existing file',
     'Whenever any output of the tool is written to a path where a file already exists, the old file survives with its contents intact in the same directory under the name #name.N#, N being the smallest positive number for which no such backup existed, and no other existing file is changed. Missing directories on the way to the path are created, and the output then has exactly the contents it would have had if the path had been free.',
     ['inputs', 'histories'], 'all output paths (with or without directory part), all sets of pre-existing files and earlier backups, all repeated writes',
     'Tests back up one file once or twice; the guarantee is about every set of existing backups and every sequence of writes.',
     ['strata/utils.py', 'strata/dataformats/gmx_flow_version_1/write.py', 'strata/dataformats/simple/write.py', 'strata/spreading/collect.py', 'strata/interface/collect.py', 'strata/sample_average.py'],
     [('prepare_path', 'strata/utils.py')],
     state=[('directory contents', 'files that exist before the write', 'file system')],
     observe=['directory listing and file contents after the call'])

prop('C07', 'Sample averages of maps are the correctly weighted means',
     'Averaging any number of maps that share coordinates gives, in every bin, the arithmetic mean of mass and of number density, the mass-weighted mean of both flow components and the number-weighted mean of the temperature, with zero where the total weight of a bin is zero, and the coordinates of the input maps. Maps whose coordinates differ are refused, averaging no maps gives an empty result, and the input maps are left unmodified.',
     ['inputs'], 'any number of maps of any size with any non-negative weights, including bins empty in some or all maps',
     'Tests average two or three tiny maps; weighting errors cancel for equal weights, and empty bins in some but not all maps are hardly sampled.',
     ['strata/dataformats/simple/average.py'],
     [('average_data', 'strata/dataformats/simple/average.py')],
     observe=['returned record'])

prop('C08', 'Combining bins of a map conserves totals and weights intensives',
     'Combining nx by ny bins of a map gives for each new bin the sum of mass and number over exactly the old bins it covers, the mass-weighted mean of the flow and the number-weighted mean of the temperature over them, and zero where that weight is zero. The new grid covers the old bins from the origin in whole blocks, dropping only the trailing bins that do not fill one, in x-major order with spacing multiplied by nx and ny, and each new position is the mean of the positions of the bins it covers.',
     ['inputs'], 'all grid shapes, geometries, values and block sizes, divisible or not',
     'Tests combine one 4x6-like map with one block size per axis; index arithmetic for unequal axes, non-divisible shapes and empty weights needs all shapes.',
     ['strata/dataformats/simple/average.py'],
     [('combine_bins', 'strata/dataformats/simple/average.py')],
     observe=['returned data and info'])

prop('C09', 'The averaging command writes one correctly aligned map per bundle',
     'The map averaging operation writes exactly one output map per input bundle whose stored shape, origin and spacing describe the stored bins, with every bin value the weighted average of the corresponding bins of the bundle after the requested limits, recentering, bin combination and supersampling were applied. Recentering shifts each map by the whole number of bins closest to its reference position and keeps exactly the x range common to all shifted maps, so that equal shifted positions are averaged together; limits keep exactly the bins inside them; progress output being disabled changes nothing.',
     ['inputs', 'configurations'], 'all bundles of maps on one grid, all recentering positions, limits, combination and supersampling factors, quiet or not',
     'Tests exercise the averaging and recentering helpers on one or two maps and never the combined pipeline with options, so mismatches between data and header information are not seen.',
     ['strata/average.py'],
     [('average', 'strata/average.py'), ('recenter_maps', 'strata/average.py'), ('cut_system', 'strata/average.py')],
     observe=['files written', 'recentered maps and their info'])

prop('C10', 'Flow-map averages on a common grid count every map in its place',
     'Averaging flow maps with equal bin spacing places every map on one common regular grid spanning all of them, at the offset given by its own coordinates, counts bins outside a map as empty, and gives in every grid bin the arithmetic mean over the maps (or the weighted mean for fields given a weight, zero where the weight is zero). The result has the shape, origin and spacing of that common grid; maps with unequal or missing spacing are refused, and the input maps are left unmodified.',
     ['inputs'], 'any number of y-major maps of any shapes and offsets that are whole bins apart, any values and non-negative weights, with or without empty maps',
     'Tests place two or three small maps at fixed offsets; the placement arithmetic has to be right for all offsets and shapes.',
     ['droplets/average.py'],
     [('average_flow_data', 'droplets/average.py'), ('average_data', 'droplets/average.py'), ('get_combined_grid', 'droplets/average.py'), ('transfer_data', 'droplets/average.py')],
     observe=['returned flow map'])

prop('C11', 'Downsampling a flow map aggregates exactly the covered bins',
     'Downsampling a regular flow map by nx by ny bins, optionally within coordinate limits, gives for each new bin the sum over exactly the covered bins inside the limits, or the weighted mean for fields given a weight (zero where the weight sums to zero), whatever the order of the input records. The new grid has the old spacing times nx and ny, the old shape divided by nx and ny rounded down, positions at the mean of the covered positions, and the input map is left unmodified.',
     ['inputs'], 'all regular maps in any record order, all block sizes and limits, all values and weights',
     'Tests downsample small fixed maps; correctness for every record order, non-divisible shape and limit needs all inputs.',
     ['droplets/resample.py'],
     [('downsample_flow_data', 'droplets/resample.py'), ('_combine_bins', 'droplets/resample.py'), ('_cut_system_limits', 'droplets/resample.py'), ('_get_downscaled_grid_info', 'droplets/resample.py')],
     observe=['returned flow map'])

prop('C12', 'Supersampling splits bins evenly and smooths by the stated stencil',
     'Supersampling a regular flow map by a factor n gives a grid with n times as many bins along each axis, spacing divided by n, its first position at the smallest old coordinates, in which each fine bin holds the plain mean (or weighted mean, zero for zero weight) of the fine bins within n-1 steps along each axis, every fine bin initially holding the value of the coarse bin that contains it. A factor of one or none returns an equal copy; the result does not depend on the record order of the input and the input map is left unmodified.',
     ['inputs'], 'all regular maps in any record order, all factors, values and weights',
     'Tests check a few factors on tiny maps; stencil clipping at edges and index arithmetic for unequal axes need all shapes and factors.',
     ['droplets/resample.py'],
     [('supersample_flow_data', 'droplets/resample.py'), ('_supersample_data_on_grid', 'droplets/resample.py'), ('_transfer_data_to_finer_grid', 'droplets/resample.py')],
     observe=['returned flow map'])

prop('C13', 'Selecting or translating bins keeps exactly the right bins, unaliased',
     'Limiting a flow map by values of any field keeps exactly the bins whose value lies within the closed limits (no limit meaning unbounded on that side), with all their fields intact and in the original order, and updates the bin count; cutting along both axes keeps exactly the bins within both limits and reports the resulting shape. Copying, limiting, cutting and translating return new maps that share no data with the original, translation changes only the named field by the given amount, and unknown fields are refused.',
     ['inputs'], 'all maps, fields, limits (including none and empty results), translation values and subsequent modifications',
     'Tests select with a few limits on fixed data; inclusive bounds, field integrity and non-aliasing are for-all statements.',
     ['droplets/flow.py', 'droplets/data_utils.py'],
     [('FlowData.lims, cut, translate, copy', 'droplets/flow.py'), ('get_lim_indices', 'droplets/data_utils.py')],
     observe=['returned objects', 'the original object afterwards'])

prop('C14', 'The flow-map container stores fields and grid information faithfully',
     'A flow map built from labelled arrays of equal size stores every value under its label in flattened order with its data type (or the requested one), refuses arrays of unequal size, and keeps shape, origin, spacing and bin count exactly as given, refusing malformed values and unknown information. The size is shape times spacing per axis or undefined if either is unset, and sorting reorders whole records by y and then x without changing the set of records.',
     ['inputs', 'histories'], 'all labels, sizes, values, data types and information dictionaries, in any order of setting',
     'Tests construct a few objects; field mix-ups and partial updates depend on label order and counts not sampled.',
     ['droplets/flow.py'],
     [('FlowData.set_data, set_info, size, sort', 'droplets/flow.py')],
     observe=['attributes and data of the object', 'exceptions'])

prop('C15', 'The outermost-cell interface search returns the true droplet edges',
     'For each height within the limits, from bottom to top, the outermost search yields the record indices of the left- and rightmost cell of that height that is part of the droplet, and skips heights without one. A cell is part of the droplet exactly if its own value reaches the cutoff and at least the required number of other cells within the closed cutoff radius do too; the cutoff defaults to the midpoint of the extreme values, and the result does not depend on the order of the records.',
     ['inputs'], 'all maps in any record order, all cutoffs, radii, neighbour counts and height limits',
     'Tests use a few hand-made droplets; neighbour counting and edge selection must hold for every field pattern.',
     ['droplets/interface.py'],
     [('get_interface (outermost search)', 'droplets/interface.py'), ('_cell_is_droplet', 'droplets/interface.py'), ('_get_indices_in_radius', 'droplets/interface.py')],
     observe=['yielded index pairs'])

prop('C16', 'The connected interface search finds the longest periodic filled run',
     'For each height the connected search yields the record indices of the first and last cell of a longest run of consecutive droplet cells along x, where the last cell of the layer is followed by the first, nothing for a height without droplet cells, and the whole layer if all its cells are filled. Neighbour cells within the cutoff radius are counted across the periodic x boundary, and the result does not depend on the order of the records.',
     ['inputs'], 'all maps in any record order, all filling patterns including full, empty and boundary-crossing layers, all radii smaller than half the box',
     'Tests use a few hand-made layers; the run search is a state machine whose resets and wrap-around only go wrong for particular patterns.',
     ['droplets/interface.py'],
     [('get_interface (search_longest_connected)', 'droplets/interface.py'), ('find_interface_edges_in_layer', 'droplets/interface.py')],
     observe=['yielded index pairs'])

prop('C17', 'Periodic unwrapping follows droplet edges across the box boundary',
     'For every history of a droplet whose true edges move by less than a quarter of the box per step with at most one of them crossing a box boundary per step, and which stays narrower than the box, the reported edge positions differ from the true ones by the same whole number of box lengths throughout, so that widths are exact and movements are continuous. The first frame counts an edge pair whose left lies ahead of its right as wrapped once, and box-relative positions are always recovered by removing whole box lengths.',
     ['histories', 'inputs'], 'all edge trajectories satisfying the stated motion bounds, of any length, and all box sizes',
     'Tests step through a few crossings; the guarantee is an induction over histories of any length in both directions.',
     ['strata/spreading/collect.py'],
     [('init_periodic_info, check_and_update_periodic_info, add_pbc_multipliers_to_edges', 'strata/spreading/collect.py')],
     state=[('PeriodicInfo', 'previous edge positions and per-edge box multipliers', 'strata/spreading/collect.py')],
     observe=['absolute edge positions per frame'])

prop('C18', 'The spreading record has one correct row per wetted map',
     'Collecting spreading data gives one time and radius for every map in which a wetted layer is found and none for the others: times count from the initial time in steps of dt starting at the first wetted map, and the radius is half the distance between the unwrapped edges at the floor. If an output file is requested its rows hold exactly those times, radii and edges (to three decimals), preceded by a header naming the time and file of the first wetted map, for every collection independently of earlier ones in the same process.',
     ['inputs', 'histories'], 'all series of maps, including leading dry maps, all time steps, floors and repeated collections',
     'Tests collect one or two series; time keeping over dry maps and process-wide state need all histories.',
     ['strata/spreading/collect.py'],
     [('collect', 'strata/spreading/collect.py'), ('get_spreading_edges', 'strata/spreading/collect.py'), ('write_spreading, output_impact_time', 'strata/spreading/collect.py')],
     state=[('header-written flag', 'whether the impact header has been written', 'strata/spreading/collect.py')],
     observe=['returned array', 'output file'])

prop('C19', 'Contact-line extraction returns exactly the cells of the stated region',
     'For each side, the extracted contact-line cells are exactly the records of the map whose height lies between the bottom interface layer and the highest interface layer within the extraction height, and whose x lies in the smallest closed interval that holds the interface positions of those layers and the inner box edge measured from the interface at the synchronisation height, with all fields intact. A map without interface gives no cells, and moving extracted cells to the origin shifts coordinates only, by the innermost x and lowest y.',
     ['inputs'], 'all maps, extraction areas, synchronisation heights and interface shapes',
     'Tests extract from one droplet shape; region bounds depend on the interface shape in every layer.',
     ['droplets/contact_line.py'],
     [('get_contact_line_cells', 'droplets/contact_line.py'), ('adjust_cell_coordinates', 'droplets/contact_line.py')],
     observe=['returned records'])

prop('C20', 'Contact-line collection and merging keeps every bin value in place',
     'Merging a left and a right contact-line map puts both on one common grid and gives in every bin the value of whichever map is non-zero there, the mean if both are (weighted by mass for flow and by number for temperature), and zero otherwise, in x-major order. The contact-line collection and sampling operations complete and write one map or row per bundle of input files, quiet or not.',
     ['inputs', 'configurations'], 'all pairs of edge maps on grids whole bins apart, all values; all averaging, rolling, recentering and fuse settings',
     'No test runs the contact-line collection or the merge at all.',
     ['strata/contact_line_analysis.py'],
     [('combine_flow_data', 'strata/contact_line_analysis.py'), ('extract_contact_line_bins, sample_contact_line_edges, get_averaged_contact_line_edges, add_adjusted_flow', 'strata/contact_line_analysis.py')],
     observe=['returned flow map', 'files written'])

prop('C21', 'Centre of mass, inertial energy and flow angle follow their definitions',
     'The centre of mass is the mass-weighted mean of the coordinates and is refused for zero total mass; the inertial energy of each bin is half its mass times its squared speed; the flow angle is the angle in degrees from the positive x axis of each flow vector, or of the (optionally weighted) summed flow for the mean. None of them modifies the map.',
     ['inputs'], 'all maps, labels and weights',
     'Tests evaluate single small maps; sign, weighting and mutation errors need all inputs.',
     ['droplets/sample.py'],
     [('sample_center_of_mass', 'droplets/sample.py'), ('sample_inertial_energy', 'droplets/sample.py'), ('sample_flow_angle', 'droplets/sample.py')],
     observe=['returned values', 'the map afterwards'])

prop('C22', 'Viscous dissipation is evaluated from second-order gradients on the grid',
     'The viscous dissipation of every bin is the stated quadratic form 2*mu*(ux^2+vy^2-(ux+vy)^2/3)+mu*(vx+uy)^2 in the velocity gradients, taken with the grid spacing of the matching axis by second-order central differences inside and second-order one-sided differences at the edges, of the flow or of the weighted flow, divided in that case by the squared weight. It does not depend on the record order of the map, is exact for flow fields quadratic in position, and refuses maps without shape or spacing.',
     ['inputs'], 'all regular maps with at least three bins along each axis in any record order, all spacings, viscosities and weights',
     'Tests use a few fields mostly on square grids with equal spacing, where exchanged axes or spacings cannot be seen.',
     ['droplets/sample.py'],
     [('sample_viscous_dissipation', 'droplets/sample.py')],
     observe=['returned array'])

prop('C23', 'Angular sampling bins every cell once into the right angle interval',
     'Sampling per angle around a point assigns every cell within the radius limits and angle limits to exactly the nearest sampling angle after the documented half-interval adjustment, and gives for every angle the plain or weighted mean of its cells, zero where no cell or no weight falls. The sampling angles are the regularly spaced angles within the limits and the map is left unmodified.',
     ['inputs'], 'all maps, origins, radius limits, angle limits with a lower limit, a range and a rest to the full circle that are multiples of the interval size, all interval sizes and weights',
     'Tests sample a few points at fixed angles; quadrant and interval boundaries need all positions.',
     ['droplets/sample.py'],
     [('sample_per_angle_from', 'droplets/sample.py')],
     observe=['returned record'])

prop('C24', 'Sampled map values include exactly the bins passing the cutoff',
     'Sampling a quantity of a map gives the mean and standard deviation, or the sum, over exactly the bins whose cutoff field is at least the cutoff (its midrange if none is given) or over all bins without a cutoff field, of the field, the inertial energy, the viscous dissipation in the same bins, or the mass-weighted mean flow angle. Sampling a series returns one value per requested label and map with times in steps of dt, restricted to the coordinate limits.',
     ['inputs'], 'all maps in any record order, labels, cutoffs, limits and series lengths',
     'Tests hardly touch the value sampling; which bins are included depends on values and record order.',
     ['strata/sample_average.py'],
     [('sample_value', 'strata/sample_average.py'), ('sample_average_files', 'strata/sample_average.py')],
     observe=['returned times and values'])

prop('C25', 'Slip length is the mean regression intercept over the map columns',
     'The slip length of a map is the mean over its columns of constant x of the floor height minus the height at which the least-squares line of height against flow in that column reaches zero flow, and the spread returned with it is the standard deviation over the columns.',
     ['inputs'], 'all x-major regular maps of any shape with varying flow in every column, all floors',
     'Tests use one or two linear profiles; column assignment only matters for maps whose columns differ.',
     ['strata/sample_average.py'],
     [('sample_slip_length', 'strata/sample_average.py')],
     observe=['returned mean and deviation'])

prop('C26', 'Interface area and length equal the trapezoid and polyline measures',
     'The area of an interface given as left side upwards followed by right side downwards is the trapezoidal integral of its width over height, and its length is the sum of the distances between consecutive points. An interface whose two sides do not share heights is refused for the area, and sampling a series returns the value and time of every readable interface.',
     ['inputs'], 'all interfaces of any number of points',
     'Only trivial interfaces are tested.',
     ['strata/interface/sample.py'],
     [('get_area_of_interface', 'strata/interface/sample.py'), ('calc_length', 'strata/interface/sample.py'), ('sample_interfaces', 'strata/interface/sample.py')],
     observe=['returned times and samples'])

prop('C27', 'Contact angles are measured from the right points on both sides',
     'The contact angle of each side is the angle, measured through the liquid, between the base and the line from the lowest interface point of that side to the interface point selected by the requested height (the highest layer not above it when measured on a map, the nearest one when measured on a collected interface), so that mirroring a droplet exchanges the two angles. The angle of the circular-segment estimate is twice the arctangent of twice the height over the base width.',
     ['inputs'], 'all droplets and interfaces of at least two layers, all heights that select a layer above the base',
     'Tests measure one or two shapes; point selection and left/right symmetry need all shapes.',
     ['droplets/interface.py', 'strata/interface/angle.py'],
     [('get_contact_angle', 'droplets/interface.py'), ('measure_angle, fit_angle_from_segment, read_interface_file', 'strata/interface/angle.py')],
     observe=['returned angles'])

prop('C28', 'Averaged interfaces are height-wise means over all bundled interfaces',
     'Averaging collected interfaces gives, for every height present on that side in all of them, the mean of their positions at that height, separately for the left and right side, ordered up the left side and down the right side, and drops the other heights.',
     ['inputs'], 'all bundles of interfaces with equal or different numbers of layers',
     'Tests average two or three interfaces; label alignment of unequal heights needs all combinations.',
     ['strata/interface/view.py'],
     [('average_interfaces, stitch_edge_series', 'strata/interface/view.py')],
     observe=['returned series'])

prop('C29', 'Spreading curves are scaled and synchronised without distortion',
     'Scaling spreading curves divides all times by the time factor and all radii by the radius factor of that curve, and synchronising shifts each curve in time, and nothing else, such that the times at which the curves come closest to the common radius all coincide with the earliest of them. The input curves are left unmodified, and factors that cannot be matched to the curves are refused.',
     ['inputs'], 'all lists of curves, factors and radii',
     'Tests scale and synchronise two or three short curves.',
     ['strata/spreading/view.py'],
     [('scale_spreading_data, sync_time_at_radius, combine_spreading_data', 'strata/spreading/view.py')],
     observe=['returned series'])

prop('C30', 'Power-law fits recover amplitude and index of spreading data',
     'For spreading data that follow a power law exactly within the chosen time limits, the fit returns its amplitude and index, using only data with positive time inside the limits, and the fitted curve evaluates that law at the times inside the output limits.',
     ['inputs'], 'all power laws, sampling times and limits',
     'No test covers fitting.',
     ['strata/spreading/fit.py'],
     [('get_fitting_parameters, get_fitted_data, get_inds_in_limits', 'strata/spreading/fit.py')],
     observe=['returned parameters and series'])

prop('C31', 'Derived fields for viewing are aligned with the bins they describe',
     'Adding flow magnitude, radial flow, viscous dissipation, density gradients or evaporation to a map keeps every existing field and adds in each bin the value computed from that bin and its grid neighbours with the spacing of the matching axis, whatever the record order and grid shape; the data selected for a flow plot are exactly the bins with flow inside the limits and at or above the cutoff.',
     ['inputs'], 'all regular maps in any record order, with unequal shapes and spacings along the axes',
     'Tests use a few maps, mostly with equal spacing along both axes.',
     ['strata/view_flowmap.py'],
     [('add_absolute_flow, add_radial_flow, add_viscous_dissipation, add_density_gradient, add_evaporation', 'strata/view_flowmap.py'), ('get_quiver_data', 'strata/view_flowmap.py')],
     observe=['returned or modified records'])

prop('C32', 'Collected interfaces are periodic-corrected per height over the series',
     'Each collected interface lists the left edge positions from the bottom layer upwards and then the right edge positions downwards, with heights relative to the lowest layer and x optionally recentred on the midpoint of the base or the centre of mass. Every layer is unwrapped with the periodic history of its own height even if the set of layers changes between maps, new heights inheriting the history of the nearest known height.',
     ['inputs', 'histories'], 'all series of interfaces of at least two contiguous layers whose layer sets change between maps, all layer spacings',
     'Tests transfer a few fixed arrays; the height-to-row mapping is floating-point index arithmetic that must be right for all spacings and offsets.',
     ['strata/interface/collect.py'],
     [('get_interface_coordinates, update_interface_with_pbc_info', 'strata/interface/collect.py'), ('get_yindex_data, get_yindex_for_value, transfer_values, fill_pbc_info_for_empty_y_values, create_interface_array', 'strata/interface/collect.py')],
     state=[('per-height periodic history', 'PeriodicInfo per interface layer with its height index', 'strata/interface/collect.py')],
     observe=['returned interface arrays', 'interface files'])

with open(OUT, 'w') as fp:
    for p in P:
        fp.write(json.dumps(p) + '\n')
print(len(P), 'properties')
