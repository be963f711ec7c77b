IDX1 = 'pyebsdindex/_ebsd_index_single.py'; IDXP = 'pyebsdindex/_ebsd_index_parallel.py'
BD = 'pyebsdindex/band_detect.py'; RF = 'pyebsdindex/radon_fast.py'; PAT = 'pyebsdindex/ebsd_pattern.py'
NL = 'pyebsdindex/nlpar_cpu.py'; NLCL = 'pyebsdindex/opencl/nlpar_cl.py'; NLR = 'pyebsdindex/opencl/nlpar_clray.py'
BDCL = 'pyebsdindex/opencl/band_detect_cl.py'; PC = 'pyebsdindex/pcopt.py'; TV = 'pyebsdindex/tripletvote.py'
RL = 'pyebsdindex/rotlib.py'; CS = 'pyebsdindex/crystal_sym.py'; CM = 'pyebsdindex/crystallometry.py'
EF = 'pyebsdindex/ebsdfile.py'; IPF = 'pyebsdindex/EBSDImage/IPFcolor.py'; SI = 'pyebsdindex/EBSDImage/scalarimage.py'

prop('D01', 'Parallel indexing returns each pattern\'s result at that pattern\'s row',
 'When a data set is indexed in parallel, the requested range is split into chunks that together cover every requested pattern exactly once, each worker reads exactly the patterns of its chunk, and the chunk\'s index solutions and detected bands are stored at exactly the rows of those patterns. A negative start counts from the end of the data set and a non-positive count means everything up to the end. This does not depend on range start, range length, chunk size, number of workers, or the order in which workers finish.',
 ['schedules', 'inputs', 'configurations'], 'every (start, count, chunk size, worker count, input mode, completion order)',
 'Tests index ten patterns in one chunk with start 0, so the offset arithmetic, the tail chunk and out-of-order completion are never reached.',
 [IDXP, IDX1], [('job boundary construction', IDXP + ': index_pats_distributed'), ('result placement by job bounds', IDXP + ': index_pats_distributed'), ('job pattern count', IDXP + ': CPUGPUJob')],
 'gated value-flow analysis of the chunk bounds, worker arguments and result stores (symbolic normal forms compared with the obligation), over the resolved program',
 'Decides the index arithmetic and the data path of every result store for all inputs; assumes Ray delivers each task\'s own return value and that the per-pattern computation is independent of its chunk.')

prop('D02', 'A failed or restarted worker never loses or double-counts work',
 'In parallel indexing, every chunk whose worker raises, reports an error, or is killed because it appears stuck is handed out again exactly once, a chunk is counted as finished only when its result has been stored, and the call cannot return before every chunk has been counted.',
 ['fault_sequences', 'schedules'], 'every sequence of worker failures, error reports and restarts, in every completion order',
 'Worker faults are never injected by the tests; the recovery branches are not executed at all.',
 [IDXP], [('retry queues', IDXP + ': index_pats_distributed'), ('workers report status with their job', IDXP + ': GPUWorker.findbands, CPUWorker.indexpoles')],
 'typestate / must-pass-through analysis of a job token over the control-flow graph of the scheduling loop',
 'Path rule over the resolved control flow, all paths of one scheduling step; also that every failure is caught, that a failure never leaves queued chunks without a worker and that at least one worker is started; assumes Ray semantics (a failed task raises from get). Termination when a job fails for ever is not claimed.')

prop('D03', 'Indexing options reach the computation they name, in every entry point',
 'Every option a caller passes to single-process indexing, parallel indexing or the reusable indexer is delivered to the quantity of that name in the band detector or indexer and to no other, an omitted option has the same default in the single-process and parallel entry points, and an option whose default is overridden is never silently replaced.',
 ['configurations', 'inputs'], 'every option and combination of options, both entry points, every input mode',
 'Tests vary three options; swapping or dropping any of the others goes unnoticed.',
 [IDX1, IDXP, BD], [('option plumbing', IDX1 + ': index_pats, EBSDIndexer.__init__'), ('option plumbing', IDXP + ': index_pats_distributed'), ('detector set-up', BD + ': BandDetect.__init__')],
 'source-to-sink value-flow analysis per option (each formal parameter tracked to the object attribute it must reach)',
 'Decides delivery of the value for every option; what the numerical stage does with it afterwards is not decided here.')

prop('V01', 'Each vendor\'s pattern-centre convention is applied identically everywhere',
 'For every supported vendor name the pattern-centre components are converted to detector pixels with the same formula during indexing and during both pattern-centre optimisers, and the optimisers\' conversion to their internal convention and back is the identity. A vendor name outside the supported set is rejected before any result is produced.',
 ['inputs', 'configurations'], 'every vendor name, every pattern-centre value and every (also non-square) pattern size',
 'Tests use one square pattern size and two vendors, for which several wrong formulas coincide.',
 [RF, IDX1, PC], [('PC to pixel conversion', RF + ': Radon.radon2pole'), ('detector frame', IDX1 + ': EBSDIndexer._detector2refframe'), ('optimiser conversion', PC + ': optimize, optimize_pso')],
 'sparse conditional constant propagation over the vendor name plus polynomial normal forms of the conversion, compared between siblings',
 'Exact for all real-valued inputs (floating-point rounding ignored).')

prop('M01', 'Inputs handed in by the caller are never modified',
 'Indexing, background collection, pattern-centre optimisation, pattern-file writing, result-file writing and map creation leave the patterns, pattern centre, phase list, index data and option arrays passed by the caller exactly as they were, and repeated calls with default arguments start from the same defaults.',
 ['inputs', 'histories'], 'every public entry point, every argument, every sequence of calls',
 'Tests never compare an argument before and after the call, and never call twice with a shared argument.',
 [IDX1, IDXP, BD, RF, PC, EF, IPF, SI, TV], [('copies before in-place work', RF + ': Radon.radon2pole'), ('chunk copy', BD + ': BandDetect.find_bands')],
 'interprocedural may-alias / side-effect (mutation) analysis from public parameters and default objects to in-place writes',
 'May-analysis over views, attributes and containers with explicit numpy/h5py models; a value escaping to an unknown external callee is assumed unmodified unless the callee is listed as mutating.')

prop('S01', 'Unindexed patterns are marked and reported consistently',
 'A pattern for which no orientation is found carries phase -1, zero matched bands and a fit of 180 degrees in every result layer, the best-solution layer is chosen only among phases with a solution, and the text and HDF5 writers and the map images all recognise exactly that marking and show such points as not indexed.',
 ['inputs'], 'every pattern and phase list, including patterns with too few bands and patterns no phase matches',
 'The test patterns all index; no test exercises a pattern that does not.',
 [IDX1, EF, IPF, SI], [('sentinel initialisation and best-phase choice', IDX1 + ': EBSDIndexer._indexbandsphase'), ('writers', EF + ': writeang, writeoh5'), ('images', IPF + ': makeipf; ' + SI)],
 'value-flow analysis of sentinel definitions and guards, cross-checked between producer and all consumers',
 'Decides the sentinel values, the guards and the masks; not the numerical quality of accepted solutions.')

prop('F01', 'Pattern-file headers are read and written with one field layout',
 'For each supported binary pattern format the header fields (dimensions, pattern offset, scan size, step size, type) are read and written in the same order, with the same width, byte order and meaning, for every header version the library writes, and the total number of patterns is derived from the file size and pattern size of that format.',
 ['inputs', 'configurations'], 'every header version, bit depth and field value of the up1/up2, ebsp and tfpat formats',
 'No binary pattern file is read or written by any test.',
 [PAT], [('UP header', PAT + ': UPFile.read_header/write_header'), ('EBSP header', PAT + ': EBSPFile.read_header/write_header'), ('TFPAT header', PAT + ': TFPatFile.read_header/write_header')],
 'extraction of the typed read/write sequence per format from the control-flow graph and sibling comparison against the format table',
 'Decides field order, type and destination on every path; does not decide the contents of foreign files.')

prop('F02', 'Pattern k is located at the same place by readers and writers',
 'For every binary pattern format, reading or writing patterns k to k+n-1 touches exactly those patterns: the byte position is the header offset plus k times the stored size of one pattern, n whole patterns are transferred and returned in order with the recorded height and width, and a request is clamped to the patterns the file holds. A rectangular (column, row) request returns the patterns row by row at column + row times the number of columns. Writing stores every value that the file\'s type can hold unchanged, and copying a file gives the same header and length (with the same patterns unless an empty copy is asked for).',
 ['inputs'], 'every start, count, rectangular region, bit depth and pattern shape',
 'The single HDF5 sample used by the tests is always read from pattern 0 as a contiguous range.',
 [PAT], [('pattern readers/writers', PAT + ': *.pat_reader, *.pat_writer'), ('range normalisation', PAT + ': EBSDPatternFile.read_data/write_data')],
 'gated value-flow analysis of seek positions, transfer counts and reshape dimensions as polynomial normal forms',
 'Exact for all integer inputs on every path; the operating system and HDF5 library are trusted.')

prop('H01', 'Pattern files are closed again and inputs are opened read-only',
 'Every file the library opens to read or write patterns or results is closed on every path that leaves the function normally, and reading patterns, headers or metadata never opens the caller\'s file in a mode that can change it.',
 ['inputs', 'histories', 'fault_sequences'], 'every reader and writer, every normal exit path',
 'Leaked handles and writable opens do not change any value a test compares.',
 [PAT, EF], [('open/close pairs', PAT + ', ' + EF)],
 'open/close typestate analysis over control-flow paths plus an open-mode effect rule on the call graph',
 'Normal exits only; exits by exception inside numpy/h5py calls are not required to close.')

prop('N01', 'NLPAR never writes to the file it reads its patterns from',
 'Whatever file names and options are given, the file NLPAR writes to is never the file the input patterns come from, and the input file\'s patterns are unchanged after processing, on the CPU, GPU and multi-process paths.',
 ['inputs', 'configurations'], 'every pair of input and output names, formats and every NLPAR implementation',
 'No test runs NLPAR at all.',
 [NL, NLCL, NLR, PAT], [('output naming', NL + ': NLPAR.setoutfile'), ('copy before write', PAT + ': *.copy_file')],
 'object-identity data-flow: every pattern write in the NLPAR classes must be on the output file object, and output set-up must pass a same-file guard',
 'Decides object identity and the presence of the guard on all paths; links to the same file through different names on disk are outside the analysis.')

prop('N02', 'NLPAR processes every pattern once and stores it at its own position',
 'For every scan size, chunk size and search radius the NLPAR tiles lie inside the scan and cover it completely, each tile is read together with the neighbours its search radius needs, every filtered pattern and every noise estimate is stored at the position it belongs to, and, given the noise estimates, the result does not depend on how the scan is cut into tiles or on a tile having to be processed again, on the CPU, GPU and multi-process paths.',
 ['inputs', 'configurations', 'fault_sequences'], 'every scan size, chunk size, search radius, implementation and failed tile',
 'No test runs NLPAR at all.',
 [NL, NLCL, NLR, 'pyebsdindex/opencl/clnlpar.cl'], [('tile computation', NL + ': NLPAR._calcchunks'), ('tile loops', NL + ': NLPAR.calcnlpar, calcsigma; ' + NLCL + ': NLPAR.calcnlpar_cl, calcsigma_cl; ' + NLR)],
 'constant propagation over tile computation, host code, Ray task loop and OpenCL kernel for small constant scans with every pattern, noise estimate and setting symbolic; the expression stored at each position is compared with the one a single tile gives',
 'Exact for each scan, tile size and radius followed (a fixed set); other sizes are not decided. Saturated patterns and equal lanes are outside this property (see N03).')

prop('N03', 'NLPAR neighbour weights are the same on CPU and GPU',
 'The CPU and GPU implementations of NLPAR estimate the noise of a pattern by the same formula, weigh each neighbour by the same function of the pattern distance over the unmasked, unsaturated pixels, both patterns\' noise estimates, the search settings and lambda, and normalise by the sum of the weights they applied.',
 ['inputs', 'configurations'], 'every pattern neighbourhood and parameter setting',
 'No test runs NLPAR at all, and the GPU kernels cannot run on the test machines.',
 [NL, NLCL, NLR, 'pyebsdindex/opencl/clnlpar.cl'], [('CPU kernel', NL + ': NLPAR.nlpar_nb, sigma_numba'), ('GPU kernel', 'pyebsdindex/opencl/clnlpar.cl: calcnlpar, calcsigma')],
 'the expression stored for a point inside a scan, extracted through host code and kernel of each implementation, compared as functions by interpreting both extracted expressions over common valuations',
 'Search radius 1 and 2, two vectors of pixels, with masked and saturated ones; windows at the border of a scan are placed differently by design and floating-point effects are not decided.')

prop('Y01', 'Each Laue class uses exactly its own rotation group',
 'For every Laue class the symmetry operators used for indexing and colouring are unit quaternions that form exactly the proper rotation group of that class: the right number of distinct rotations, closed under composition, about the conventional axes, each represented once.',
 ['configurations'], 'all eleven Laue classes',
 'Tests index cubic and a few hexagonal structures only; a wrong operator in another table still indexes the sampled patterns.',
 [CS, TV], [('operator tables', CS), ('dispatch by Laue id', CS + ': laueid2symops')],
 'constant propagation of the operator tables through the dispatcher, followed by a complete check of the finite tables',
 'Exact and exhaustive for the finite tables.')

prop('Y02', 'Every space group maps to its Laue class',
 'Each of the 230 space-group numbers is assigned its crystallographically correct Laue class everywhere a space group is converted: by the conversion function itself, in the symmetry operators looked up by space group, and in the indexer that is set up for a space group.',
 ['inputs'], 'all 230 space groups',
 'Tests use three space groups.',
 [CS, TV], [('space group table', CS + ': spacegroup2lauenumber')],
 'sparse conditional constant propagation over the space-group number (each of the 230 values)',
 'Exhaustive over 1..230.')

prop('R01', 'Rotation algebra is one algebra in every broadcasting variant',
 'Quaternion multiplication, rotation of vectors, conjugation and normalisation compute the same formula in every scalar, one-to-many, many-to-one and elementwise variant, with the documented handedness, and each output row depends only on its own input rows.',
 ['inputs'], 'every pair of inputs of every supported shape',
 'The rotation library is exercised only through complete indexing runs; most variants are never called by a test.',
 [RL], [('quaternion kernels', RL + ': quat_multiply*, quat_vector*, quat_conjL, quatnormL')],
 'global value numbering to polynomial normal form of each kernel and comparison with the algebra\'s defining polynomial',
 'Exact over the reals for every row; floating point not modelled.')

prop('R02', 'Rotation conversions agree with one convention and stay in bounds',
 'Every conversion between quaternions, matrices, axis-angle, Rodrigues, Euler and homochoric forms follows one handedness convention, converts row i of its input to row i of its output, writes only inside the row it owns, and passes the caller\'s convention through composite conversions.',
 ['inputs'], 'every rotation, including identity, half-turn and degenerate Euler cases, and every batch size',
 'Tests touch a few conversions at generic rotations; identity and half-turn branches are not reached.',
 [RL], [('conversion kernels', RL)],
 'value numbering of each conversion with polynomial/trigonometric normal forms, and a per-row write-region analysis',
 'Exact over the reals for the algebraic conversions; branch thresholds and rounding are not decided.')

prop('C01', 'Crystal geometry matrices are mutually consistent for every lattice',
 'For all lattice parameters the direct and reciprocal metric and structure matrices are the standard ones (metric is structure-transpose times structure, reciprocal is the inverse), and plane and direction conversions, lengths and angles all use them, with three- and four-index notation converted consistently.',
 ['inputs'], 'all lattice parameters (triclinic included) and all indices',
 'Tests use cubic and hexagonal lattices where off-diagonal terms vanish.',
 [CM], [('matrices', CM + ': Crystal')],
 'polynomial normal forms of matrix entries modulo the trigonometric identities, compared with the defining relations',
 'Exact over the reals.')

prop('G01', 'Host code and device kernels agree on every kernel\'s interface',
 'Every device kernel the library launches exists, receives exactly the parameters it declares in order and with the declared scalar width, and, for every setting the host code permits, it stays within the buffers and private arrays it is given.',
 ['configurations', 'inputs'], 'every kernel launch and every permitted setting',
 'No GPU is available to the tests; the kernels are only compiled, never launched.',
 [BDCL, NLCL, 'pyebsdindex/opencl/clkernels.cl', 'pyebsdindex/opencl/clnlpar.cl'], [('kernel launches', BDCL + ', ' + NLCL), ('kernel declarations', 'pyebsdindex/opencl/*.cl')],
 'cross-language interface check (argument types by reaching definitions against the kernel signatures in the clang syntax tree) and abstract interpretation of host buffers and of the kernels\' access ranges for extreme work items',
 'Arity, order and type are decided for every launch; accesses and buffer sizes for constant configurations (uneven image sizes, uneven pattern counts, largest search radius), not for all sizes; the contents of never-written device memory are not decided.')

prop('G02', 'Without a usable GPU every operation gives the CPU result',
 'If OpenCL is missing or a device fails at any point of band detection, the call still returns the result the CPU implementation gives for the same patterns and settings, and importing the package never requires OpenCL or Ray.',
 ['fault_sequences', 'configurations'], 'every failure point of the GPU path and every combination of installed optional packages',
 'The tests run without OpenCL, so device failures in mid-computation never occur.',
 [BDCL, 'pyebsdindex/__init__.py', 'pyebsdindex/ebsd_index.py', 'pyebsdindex/nlpar.py'], [('fallback', BDCL + ': BandDetect.find_bands'), ('optional imports', 'pyebsdindex/__init__.py, ebsd_index.py, nlpar.py')],
 'must-handle (exception coverage) and effect analysis of the GPU path, import-graph reachability with optional imports removed',
 'Decides control flow and argument identity of the fallback; the device result itself is not decided.')

prop('B01', 'Band detection treats every pattern alike regardless of chunking',
 'The patterns of a call are split into consecutive blocks that cover each pattern exactly once, each pattern\'s bands are stored at that pattern\'s row and do not depend on which other patterns are in the call, and bands that are not found are not marked as valid, so they carry no weight in pattern quality and indexing, on the CPU and GPU paths.',
 ['inputs', 'configurations'], 'every number of patterns, chunk size and number of bands',
 'Tests detect bands of ten patterns in one block.',
 [BD, BDCL], [('chunk loop', BD + ': BandDetect.find_bands'), ('band storage', BD + ': BandDetect.band_label')],
 'abstract interpretation tracking which pattern each value belongs to (pattern axis), value-flow analysis of block bounds and stores, clang syntax tree of the device kernels',
 'Block bounds are followed for constant pattern counts and block sizes; the stages are decided for any number of patterns; device kernels by the form of their index expressions.')

prop('T01', 'Exported .ang and .oh5 files describe the same scan consistently',
 'Every indexed point is exported in scan order at x = column times step, y = row times step, with its own orientation, quality, fit and phase, and the phase number written for a point identifies the header entry of the phase it was indexed as, for any number of phases and scan size.',
 ['inputs'], 'every number of phases, scan size, and pattern of unindexed points',
 'No test writes a result file.',
 [EF], [('.ang writer', EF + ': writeang'), ('.oh5 writer', EF + ': writeoh5')],
 'value-flow analysis from result fields to output columns and header entries',
 'Decides which value reaches which column; text formatting precision is not decided.')

prop('K01', 'Parallel and shared-memory kernels are free of data races',
 'In every loop that is executed by several threads, each iteration writes only memory locations that no other iteration reads or writes, so the result does not depend on the number of threads or their schedule.',
 ['schedules'], 'every thread count and schedule of every parallel kernel',
 'A race shows only under particular schedules; tests compare nothing that depends on them.',
 [NL, RL, RF, BD, TV, IPF], [('parallel kernels', NL + ': sigma_numba, nlpar_nb, opt_lambda.d2norm'), ('compiled kernels', 'numba.jit functions throughout')],
 'loop-dependence analysis (affine subscripts, privatisation) of every parallel loop in compiled kernels',
 'Sound for affine subscripts in the parallel index; anything else is reported.')

prop('E01', 'Process-wide state is restored after parallel work',
 'After parallel indexing or multi-process NLPAR returns, the workers it started are shut down and every environment variable it changed has the value (or absence) it had before.',
 ['histories', 'configurations'], 'every call sequence and prior value of the environment, every normal exit',
 'Tests do not look at the environment after a call.',
 [IDXP, NLR], [('environment save/restore', IDXP + ': index_pats_distributed'), ('shutdown', IDXP + ', ' + NLR)],
 'acquire/release typestate analysis over all normal exits',
 'Normal exits only.')

prop('P01', 'Pattern-centre optimisers restore the indexer and keep their best result',
 'After either optimiser returns, the indexer\'s vendor, pattern centre and settings are what they were before, every candidate the swarm evaluates lies inside the requested bounds, the best candidate reported is the lowest cost seen and never gets worse from one iteration to the next.',
 ['inputs', 'histories'], 'every start point, bounds, vendor and random sequence',
 'Tests check one converged result each.',
 [PC], [('restore', PC + ': optimize, optimize_pso'), ('swarm update', PC + ': PSOOpt')],
 'save/restore typestate and value-flow (dominance of bound enforcement over evaluation, guarded monotone update)',
 'Normal exits; optimality and convergence are not decided.')

prop('A01', 'No supported call path fails on an unresolved name or mismatched call',
 'Every module imports with the supported dependencies, and every name, attribute of the package\'s own modules and classes, and call of the package\'s own functions on any path resolves to a definition that accepts those arguments.',
 ['inputs', 'configurations'], 'every statement of every module, however rarely executed',
 'Most branches are not executed by the eleven tests, and Python reports such errors only on execution.',
 ['pyebsdindex/*'], [('whole package', 'pyebsdindex/')],
 'name resolution, attribute resolution and call-signature matching over the whole package',
 'Complete for names, module attributes and statically resolved calls; duck-typed receivers are resolved only where the class is known.')

prop('L01', 'Built-in phases are complete and physically consistent',
 'Every built-in phase has a lattice that obeys the constraints of its space group, a reflector list consistent with that space group\'s lattice centring, and the Laue class that its space group implies.',
 ['configurations'], 'every built-in phase and every way a user adds a phase',
 'Tests index with three of the built-in phases.',
 [TV], [('phase library', TV + ': addphase')],
 'constant propagation of the phase tables and complete check of the finite data',
 'Exhaustive over the built-in phases.')

prop('I01', 'Inverse-pole-figure colours respect crystal symmetry reduction',
 'The direction coloured for a pixel is the sample direction rotated into the crystal frame of that pixel\'s own orientation and phase, reduced with the Laue class of that phase, and pixels are placed in the image in scan order.',
 ['inputs'], 'every orientation, phase, Laue class and scan shape',
 'No test makes a map.',
 [IPF], [('makeipf', IPF)],
 'value-flow analysis of the colour pipeline',
 'Decides the data path; not the colour formula.')

prop('X01', 'Recovered orientations are accurate on any pattern',
 'For any pattern of sufficient quality the orientation, phase and fit returned match the true crystal orientation within the resolution of the settings.',
 ['inputs'], 'every pattern', 'Tests sample ten patterns.',
 [IDX1, TV], [('triplet voting', TV)], na='Quantifies over numerical accuracy of image processing and voting on run-time data; no static argument in reach bounds it.')
prop('X02', 'Band positions are accurate to sub-pixel resolution',
 'Detected band centres agree with the true Radon peaks within sub-pixel error for every pattern.',
 ['inputs'], 'every pattern', 'Tests do not check band positions.',
 [BD, RF], [('peak interpolation', BD + ': band_label_numba')], na='A numerical accuracy statement about run-time image content; not decidable from program structure.')
prop('X03', 'PC optimisation converges to the true pattern centre',
 'Both optimisers converge to the pattern centre that minimises the fit for every pattern set.',
 ['inputs'], 'every pattern set and start value', 'Two starts are tested.',
 [PC], [('optimisers', PC)], na='Convergence of Nelder-Mead and of a random swarm on run-time data cannot be bounded statically.')
