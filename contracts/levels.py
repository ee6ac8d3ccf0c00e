"""What is claimed per property.  proof: deductive obligations exist (contracts/pf_*.py)."""
BOUNDED = 'Bounded: contracts evaluated on the real functions for generated inputs (labelled bounded, not proved).'
LEVELS = {}
for _i in range(1, 33):
    LEVELS['C%02d' % _i] = {'level': 'exploration', 'note': BOUNDED, 'technique': 'runtime-checked contracts on the real functions (bounded stand-in)'}
PROOF = 'contracts on the real functions, obligations generated from the current source and discharged by SMT (pv: symbolic interpreter + z3/cvc5)'

def proved(prop, note, **kw):
    LEVELS[prop] = dict({'level': 'proof', 'proof': True, 'technique': PROOF,
                         'note': note + '  Trusted: pv and its numpy models, exact real arithmetic.  Runtime contracts on generated inputs '
                         'run beside the proof as a bounded check of machine arithmetic and give the failing inputs.'}, **kw)

proved('C01', 'The real writer and reader one after the other on a ghost file: every bin, position, shape, spacing and origin for any grid and any '
       'pattern of empty bins (the search for the end of the header in blocks of the file: bounded only).')
proved('C02', 'Writing and reading the binary and the plain-text form on ghost files, the recovery of shape, spacing and origin from the '
       'coordinates of any grid of at least two bins per axis, and the grid returned; coordinates exact before they are rounded; '
       'np.savetxt/genfromtxt by assumed contracts; whether a simple file is text: bounded only.')
proved('C03', 'Dispatch of the writers and readers, the first bytes that tell the formats apart, and the conversion of series of any number of '
       'files, on the contracts of the file pairs (C05) and of reading and writing (C01, C02); binary files that spell the marker of the '
       'other format are excluded; binary and plain text of the simple format: bounded only.')
proved('C04', 'gen_filenames and find_datamap_files over a ghost directory, any numbers and any set of existing files.')
proved('C05', 'Bundles, rolling bundles, pairs and output numbers for any numbers, any bundle size and any set of existing files.')
proved('C06', 'prepare_path over a ghost directory (any set of backups), and each of the ten output functions through it; assumes POSIX '
       'paths whose directory is not the root.')
proved('C07', 'average_data: weighted means, shared coordinates, refusal and frame for any number of maps and bins.')
proved('C08', 'combine_bins: sums, weighted means, positions, spacing and shape for any grid and block size.')
proved('C10', 'average_flow_data: common grid, means, refusal, frame and empty maps for any number of maps on any lattice.')
proved('C11', 'Downsampling for maps of any size with no, some or all limits: cells, sums, means, positions and shape.')
proved('C12', 'Supersampling for any factor: piecewise constant or weighted values, positions, spacing, factor one and none.')
proved("C13", "Limits, cuts, copies, translations and index selection for maps of any size and any limits.")
proved('C14', 'FlowData construction, information, size and sorting of regular maps for any size.')
proved('C15', 'Droplet cells, records in the radius and the outermost droplet cells of every height, for records at any distinct positions '
       'and any limits (the default cutoff and radius: bounded only).')
proved('C16', 'Of every height, the edges of the longest stretch of droplet cells across the periodic boundary, or none without droplet cells, '
       'for maps of any cells within one period; by loop invariants of the search and on the contract of _cell_is_droplet (proved under C15), '
       'whose system of cells is shown to be the cells and periodic images within the radius.')

proved('C17', 'Periodic unwrapping: induction step over the state, for all histories.')
proved('C21', 'Centre of mass, inertial energy and flow angles for maps of any size and record content.')
proved('C22', 'Viscous dissipation for any grid of at least three bins per axis and any record order.')
proved('C24', 'Sampled means, deviations and sums for maps of any size, any cutoff and every quantity (sampling a series of files: bounded only).')
proved('C25', 'Mean and deviation of the regression intercepts for any number of columns and records; the least-squares formula of '
       'scipy.stats.linregress is assumed.')
proved('C26', 'Area and length of interfaces with any number of points.')
proved('C28', 'Any number of interfaces of any numbers of layers at any heights (each height once per side, compared exactly), up the left and '
       'down the right side; on a model of Series and DataFrame (pandas_model.py, trusted).')
proved('C29', 'Any number of curves of any lengths, one factor or one per curve (not zero), any common radius; on a model of the pandas Series '
       '(pandas_model.py, trusted).')
proved('C30', 'Any number of curves of any lengths, limits given or not, with two different positive times inside the limits; on the contract of '
       'scipy leastsq (returns the parameters that leave no residual, which are shown to be unique), the identities of log10 and powers, '
       'and a model of the pandas Series (pandas_model.py, trusted).')
proved('C31', 'Derived fields for regular maps of any size, spacing and record order (at least two, for dissipation three bins per axis), '
       'and the bins of a flow plot for any limits and cutoff.')
proved('C27', 'Contact angles of maps (on the contract of get_interface), of collected interfaces, of circular segments and of a series, for '
       'any number of points, layers and files; the identity of arccos(x/r) and atan2(y, x) for y > 0 is assumed.')
proved('C19', 'Contact-line regions on the contract of get_interface: any map, any number of layers, any extraction area and height; moving '
       'cells to the origin.')
proved('C20', 'Merging two contact-line maps of any size and offset (on the contracts of get_combined_grid and transfer_data, which are '
       'proved too); the collection and sampling operations are bounded only.')
proved('C18', 'Times, radii, lines and impact of collections of any number of maps (on the contracts of the edge search and of the periodic state, '
       'proved under C16 and C17), the edges at the floor and the text written; rounding to single precision in the returned array is not modelled.')
proved('C32', 'Interfaces of series of any length on the contract of get_interface, unwrapped with the history of their height: rows of heights with '
       'rounding noise, transfer and filling of histories, recentring, one file per map.')
proved('C09', 'The command on bundles of any number of maps on one grid with any limits, recentring, combined and supersampled bins (on the '
       'contracts of the edge search, average_data, combine_bins and supersampling, which are proved too), recentring of any number of maps '
       'and limits; assumes that shifted maps have a common range and limits keep at least one bin.')
proved('C23', 'Maps with any number of cells, any origin, radius limits, lower angle limits, interval sizes and numbers of intervals, weighted '
       'or not, up to the full circle or at least one interval short of it; the angle of a cell is the remainder modulo 360 of plus or minus '
       'arccos(x/r) in degrees and arccos is uninterpreted; cells at the origin itself have no angle.')
NOT_APPLICABLE = {}
