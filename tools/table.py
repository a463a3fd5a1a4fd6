CORE = 'surfalize/surface.py surfalize/profile.py surfalize/base.py'
SOUND = 'Decided over all paths of the analysed public entry points, with every input symbolic; constructs the analysis cannot resolve are counted as undecided in the evidence and never reported. '

prop('C01', 'Reported quantities always reflect the current heights and geometry',
     'A quantity reported by a surface or profile (roughness and functional parameters, curves, orientation, period, ...) is always the one that a freshly made topography with the same heights and steps would report, whatever was queried before. In particular, after any in-place operation, after writing single heights, and for every combination of arguments, no earlier result is served again for a state or for arguments it was not computed from. Querying or editing a reported result never changes what is reported later.',
     'histories inputs', 'all interleavings of queries (with any arguments), in-place operations and element writes on one topography',
     'Tests query a fresh object, or one operation followed by one query; the number of query/modify/query histories is unbounded.',
     CORE + ' surfalize/cache.py surfalize/abbottfirestone.py surfalize/autocorrelation.py surfalize/fourier.py',
     [('memoizing decorator and per-object cache', 'surfalize/cache.py'), ('cache reset when heights are replaced or written', 'surfalize/base.py, surfalize/surface.py, surfalize/profile.py')],
     ['values returned by public parameter methods', 'exported dictionaries of parameters'],
     'interprocedural typestate analysis of the result cache over a value-flow interpretation of every public operation',
     SOUND + 'A write to any field read by a memoized method must be followed by a cache reset on every path; the memo key must contain the method and every argument; memoized results may not be modified or aliased to the caller. Assumes that the height array is reached only through the topography.',
     [('per-object result cache', 'derived results already computed', 'surfalize/cache.py')])

prop('C02', 'In-place and copying modes agree, and copying never touches the original',
     'Every operation that offers an in-place switch returns, without it (also by default), a new topography and leaves the heights, steps and extents of the original exactly as they were; with it, it modifies and returns the original itself. Both modes produce the same heights and the same steps. Everything else a user can call on a topography (parameters, arithmetic, slicing, plotting, saving) leaves its heights and geometry unchanged, and so does a call that is rejected with an error.',
     'inputs histories', 'all operations, all their options, all heights and steps',
     'Tests run each operation on a few arrays and seldom compare the original afterwards, in both modes and for all option combinations.',
     CORE, [('result construction and in-place replacement', 'surfalize/base.py, surfalize/surface.py, surfalize/profile.py')],
     ['returned object', 'heights, steps and extents of receiver and result'],
     'interprocedural effect and alias analysis plus algebraic comparison of the value-flow terms of both modes',
     SOUND + 'Equality of both modes is decided on an exact algebraic normal form of the stored heights.')

prop('C03', 'No two topographies share heights, and results are writable',
     'The heights of a topography produced by any operation, slice, profile extraction, arithmetic or file reader belong to it alone: writing heights through one topography never changes another. They can always be written element by element, while the array handed out for reading cannot be used to modify the topography behind its back. Containers of results handed out to the caller are not the ones later calls report from.',
     'histories inputs', 'all operations and readers, all subsequent element writes to any of the topographies involved',
     'Aliasing only shows when a result is modified and the other object is inspected afterwards; tests do so for almost no operation.',
     CORE + ' surfalize/file/common.py surfalize/file/sflz.py surfalize/file/plux.py', [('copying of views before constructing results', 'surfalize/surface.py, surfalize/profile.py'), ('array reading', 'surfalize/file/common.py')],
     ['heights of both topographies after an element write', 'element assignment on results'],
     'interprocedural alias (storage-root) analysis through views, slices and reader code',
     SOUND + 'numpy operations not listed as view-producing are taken to return fresh arrays.')

prop('C04', 'Extents always equal (number of points - 1) times the step',
     'For every topography, however it was created, loaded, sliced, cropped, zoomed, resampled, rotated, converted or modified, the extent in each direction is exactly (number of points - 1) times the step in that direction. Results keep the step of the direction their points run along, a profile along an image row has the horizontal step and one along a column the vertical step, and an oblique profile has the distance between its sampled points.',
     'inputs histories', 'all sequences of operations, all heights, non-square shapes and unequal steps',
     'Most fixtures have square shapes or equal steps, on which exchanged or stale extents cannot be seen.',
     CORE, [('recomputation of extents', 'surfalize/surface.py, surfalize/profile.py')],
     ['step and extent attributes of every topography'],
     'symbolic shape inference and algebraic normalisation over interprocedural value flow',
     SOUND + 'The number of points is inferred symbolically from the construction of the height array; extents must be algebraically equal to (n-1)*step.')

prop('C05', 'Quantities that need complete data reject missing points',
     'Every operation that is documented to need complete data (fit-based levelling aside) raises a ValueError for a topography with any missing height, before computing, storing or modifying anything. It does so for every way of reaching it, including by name through the bulk-parameter functions, and the missing-point flag is true exactly when some height is missing.',
     'inputs histories', 'all heights with missing points at any position, all public entry points that lead to a guarded quantity',
     'Tests check the rejection for one or two methods; the guarantee is about every guarded quantity, order of decorators and every path.',
     CORE + ' surfalize/utils.py', [('guard decorator', 'surfalize/surface.py, surfalize/utils.py'), ('missing-point flag', 'surfalize/base.py')],
     ['exception raised', 'state of the topography afterwards'],
     'path-sensitive abstract interpretation under the assumption that heights are missing',
     SOUND + 'The set of guarded operations is fixed from the documented state of the repository.')

prop('C06', 'Missing points stay where they are and never corrupt other heights',
     'Operations that accept missing heights (centering, zeroing, mirroring, cropping, thresholding, outlier removal, levelling, polynomial detrending, the basic statistics and area parameters, and copying, slicing and profile extraction) compute their result from the measured heights alone: a missing point stays missing at its position and never turns a measured height or a reported value into a missing one. Centering subtracts the mean of the measured heights, zeroing their minimum, and mirroring negates every height.',
     'inputs', 'all heights with missing points at any position and any admissible number of them',
     'Missing points are present in few fixtures; whether one slips into a sum depends on every single reduction in the code.',
     CORE, [('reductions that skip missing heights', 'surfalize/surface.py, surfalize/base.py'), ('plane and polynomial fits on measured points', 'surfalize/surface.py, surfalize/mathutils.py')],
     ['heights of results', 'values of parameters'],
     'taint analysis of missing heights (clean/missing/poisoned lattice) over value-flow terms, with exact comparison of the simple formulas',
     SOUND + 'numpy reductions are classified by their documented treatment of NaN.')

prop('C10', 'Batch results are what the surface methods report, step by step',
     'Every surface method declared for batch use is offered by a batch; executing the batch loads every registered file and calls exactly the registered methods on the loaded surface itself, once each, with the arguments given at registration and always in place, in the order of registration (without chaining, all operations in order before all parameters). The value a method returns appears unchanged in the row of its file, under the method name, the custom name given, or the declared labels in the order of the values. Custom functions and bulk registration behave the same, in parallel and in serial execution.',
     'inputs schedules', 'all batch methods, all arguments, all sequences of steps, both execution modes',
     'Tests execute a few chained steps and seldom compare with direct calls; there are some sixty replicated methods with generated signatures.',
     'surfalize/batch.py surfalize/base.py surfalize/surface.py', [('generated batch methods', 'surfalize/batch.py'), ('declaration of batch methods with fixed arguments and labels', 'surfalize/base.py')],
     ['calls that reach the surface', 'columns and values of the result'],
     'interprocedural value-flow interpretation of registration and execution, comparing recorded call bindings and row contents with the registration',
     SOUND + 'Loading and surface methods are replaced by symbolic results; steps run in the order in which the worker calls them.')

prop('C11', 'Processing one file never affects the processing of another',
     'While a batch processes a file it modifies only the surface and the row of that file: registered steps and their arguments, the batch, and module- or class-level state stay untouched, so results depend neither on the other files nor on scheduling nor on earlier executions. Every file is measured on a surface loaded for it alone, surface methods never modify the arguments they are given, and registering a step changes nothing but the batch it is registered with.',
     'schedules histories', 'all interleavings of worker threads, all step sequences, repeated executions',
     'Interference between workers needs particular schedules; tests run a handful of small files.',
     'surfalize/batch.py surfalize/surface.py', [('per-file task run by a thread pool', 'surfalize/batch.py')],
     ['rows of the result under different schedules', 'registered steps after execution'],
     'interprocedural effect analysis of the per-file task (write sets against objects that exist before execution)',
     SOUND + 'Effects of third-party code on its arguments are not analysed.')

prop('C12', 'A batch reports every file exactly once',
     'The result of a batch contains exactly one row per registered file, named after that file and holding that file\'s values, however the files were registered (constructor, single file, list, directory, file object), also when files in different directories have the same name, in both execution modes, and again when executed a second time. The completion callback is called exactly once per file with that row, and merging additional data neither drops the row of a file nor adds rows; a directory contributes the files with a requested extension directly inside it.',
     'inputs schedules', 'all numbers of files, all ways of registering them, both execution modes',
     'Tests count rows for one list of files in one mode.',
     'surfalize/batch.py', [('dispatch and collection of rows', 'surfalize/batch.py')],
     ['rows of the result', 'callback invocations'],
     'value-flow interpretation of dispatch over symbolic files with counting of row objects and callback calls',
     SOUND + 'Batches of up to three files are unrolled; the dispatch code treats files uniformly. Additional data that lists a file more than once is not covered.')

prop('C13', 'Only calculation errors of measurements are tolerated in a batch',
     'With errors ignored (the default), a calculation error or any subclass of it raised by a measurement marks exactly that measurement of that file as missing, for all its labels, and leaves the other measurements of the file in place. Every other exception, every error of an operation or of loading, and with errors not ignored every calculation error, reaches the caller of the execution. A fit of a built-in measurement that does not converge is a calculation error. This holds for built-in and custom steps, in both execution modes and step orders.',
     'inputs', 'all exception classes, all kinds of steps, all option combinations',
     'Tests provoke one failing fit; the combinations of step kind, exception class and options are not enumerated.',
     'surfalize/batch.py surfalize/exceptions.py', [('exception handling around a measurement', 'surfalize/batch.py')],
     ['exception leaving execute()', 'missing values in the row'],
     'interprocedural exception-flow analysis with injected exception classes at every step',
     SOUND + 'Injected classes: every subclass of the calculation error and eight other exception classes.')

prop('C14', 'Two measurements never share one batch column name',
     'Registering a measurement under a name that is already in use (by method name, by custom name, by bulk registration, or the same custom function again) is rejected with an error and leaves the registered steps unchanged, so no column silently overwrites another. A rejected bulk registration registers none of its measurements. Measurements with different names, different custom functions, repeated operations, and the same method under another name are accepted and keep a column each; a batch without steps is rejected when executed.',
     'inputs histories', 'all sequences of registrations through every registration path',
     'Tests register one duplicate.',
     'surfalize/batch.py', [('duplicate check when a step is registered', 'surfalize/batch.py')],
     ['exception at registration', 'columns of the result'],
     'value-flow interpretation of registration sequences with path-sensitive exception flow',
     SOUND + 'Columns that a custom function names itself are not known before it runs and are not covered.')

prop('C15', 'Loading and saving leave files as they should',
     'Loading from or saving to a file object leaves the object open and returns it to the position where it stood, whether the call succeeds, fails, or falls back to other formats. Files given by path are opened in binary mode for reading only when loading, and are closed on every exit; loading never writes. A save request that is rejected opens nothing, so an existing file keeps its content.',
     'inputs histories', 'all formats, all ways of identifying them, paths and file objects, succeeding and failing readers and writers',
     'Tests load valid files; the exits through failing readers and through fallbacks are numerous and rarely taken.',
     'surfalize/file', [('context manager for paths and file objects', 'surfalize/file/common.py'), ('readers and writers', 'surfalize/file/')],
     ['position and state of the file object', 'open file descriptors', 'content of an existing file'],
     'path-sensitive typestate analysis of file objects over every exit of loading and saving',
     SOUND + 'Readers and writers are replaced by calls that succeed or fail; their own treatment of the file object is analysed separately.')

prop('C16', 'A file is read and written in the right format',
     'Loading uses the reader of the explicitly given format, else of the suffix (in any case of letters); if there is none or it fails, the reader whose signature is exactly at the start of the file, and last any reader that can read it. The chosen reader gets the file at its start together with the options of the caller, and the returned surface holds exactly the heights, point spacings and named image layers that reader found; if nothing can read the file, the error of the designated reader or an unsupported-format error is raised. Saving uses the writer of the explicit format, else of the suffix, passes the surface and all options on, and rejects anything else; all documented formats are registered, without overlapping signatures.',
     'inputs', 'all registered suffixes, spellings, signatures and combinations of succeeding and failing readers',
     'Tests load each example file in its own format; precedence, detection and fallbacks are combinations of all of them.',
     'surfalize/file/common.py surfalize/surface.py', [('reader and writer dispatch', 'surfalize/file/common.py'), ('registrations', 'surfalize/file/')],
     ['reader that produced the surface', 'exception raised', 'arguments that reach reader and writer'],
     'interprocedural interpretation of registration and dispatch over an abstract file with concrete leading bytes and position',
     SOUND + 'Any exception class may be raised by a reader; seven are used as representatives.')

prop('C18', 'A saved topography loads back unchanged',
     'Loading what was saved in any of the binary formats (to a file or a buffer, with any compression, data type and comment option) succeeds and gives back the same number of rows and columns, the same point spacings and, apart from rounding to the stored number type, the same heights at the same points. Exactly the missing points come back as missing; heights stored as integers use a range that fits the type and never the code of missing points. Image layers that were saved come back under their names, in their shape, and the file starts with the signature of its format.',
     'inputs', 'all topographies, with and without missing points and image layers; every binary writer and its options',
     'Tests write one example surface per format; layouts, scalings and codes have to match for every extent, spacing, height range and layer name.',
     'surfalize/file/sur.py surfalize/file/sflz.py surfalize/file/sdf.py surfalize/file/al3d.py surfalize/file/tmd.py', [('writers and readers', 'surfalize/file/'), ('layouts', 'surfalize/file/common.py')],
     ['heights, spacings, extents, layers read back', 'leading bytes'],
     'interprocedural interpretation of writer and reader over an abstract byte stream of packed fields and serialised arrays, algebraic comparison of the value-flow terms that come back, interval evaluation of integer scalings',
     SOUND + 'Layer names and comments are represented by a few constants; the text variant of SDF is not covered.')


prop('C30', 'Roughness parameters follow their documented definitions',
     'For any heights and steps without missing points, height parameters (Sa, Sq, Sp, Sv, Sz, Ssk, Sku and the profile versions, where Rp, Rv, Rz are means over sections of the centred profile), slopes (Sdq, Rdq), surface area (two triangles per pixel) with Sdr, aspect ratio, step height and cavity volume are exactly what their definitions say. The material-ratio parameters (k, pk, vk, pkx, vkx, ak1, ak2, mr, mc, mr1, mr2, xp, dc, Vm, Vv, Vmp, Vmc, Vvv, Vvc) follow from one ratio curve of quantiles from 0 to 100 % and one straight line fitted to a 40 % section of it, equally for surfaces, profiles and the curve itself. Minimum, maximum, mean, median and standard deviation are those of the heights, the threshold between two levels is the one of Otsu, and parameters asked for by name (roughness_parameters, without names all ISO parameters) have the value of the method of that name. Without arguments the documented defaults apply (2.5 and 50 % for height differences, 10 and 80 % for volumes, 5 sections, threshold 0.5).',
     'inputs', 'all heights, shapes and pairs of steps; all parameters with default and with arbitrary arguments',
     'Tests compare a few measured values with tolerances; two formulas can agree on these and differ for other extents, unequal steps or other arguments.',
     CORE + ' surfalize/abbottfirestone.py surfalize/mathutils.py', [('height and hybrid parameters', 'surfalize/surface.py, surfalize/profile.py'), ('material ratio curve', 'surfalize/abbottfirestone.py')],
     ['values returned by parameter methods'],
     'interprocedural value-flow interpretation and comparison of exact algebraic normal forms (over symbolic heights, extents and steps) with reference definitions',
     SOUND + 'Sums, moments, extrema, differences, slices, masks and roots are normalised; quantiles, fits and integrals are uninterpreted functions of their (normalised) arguments. The search for the flattest section and the periods and autocorrelation lengths are not covered.')
prop('C31', 'Operations compute the documented heights and point spacing',
     'For any heights, steps and arguments: centring, zeroing, inverting, outlier removal, percentage threshold, Gaussian filters (lowpass, highpass, bandpass, both; cutoff in µm converted with the step of each axis), zoom, filling, arithmetic, slicing with strides, cropping (box in µm measured from the bottom, or in pixels) and alignment (rotation by the negative orientation angle) give exactly the heights and steps that follow from their definitions. Horizontal and vertical profiles are taken at the closest data point and averaged over the requested number of rows or columns; oblique profiles are interpolated along the line between two points and keep its length. Levelling, detrending and step-height levelling subtract precisely the trend they return, fitted to the measured points only with all terms up to the requested degree.',
     'inputs', 'all heights, shapes, pairs of steps and arguments; with and without missing points',
     'Tests check a handful of shapes and mostly equal steps; an exchanged axis, an off-by-one or a missing term agrees with them.',
     CORE + ' surfalize/filter.py', [('operations', 'surfalize/base.py, surfalize/surface.py, surfalize/profile.py'), ('Gaussian filter', 'surfalize/filter.py')],
     ['heights and steps of results of operations'],
     'interprocedural value-flow interpretation and comparison of exact algebraic normal forms (heights, steps and arguments symbolic) with reference definitions',
     SOUND + 'Filters, interpolation, rotation and least squares are uninterpreted functions of their (normalised) arguments. Filling of missing points works in pixel space; numeric accuracy is not covered.')
prop('C07', 'Spectral and autocorrelation quantities follow their definitions',
     'The autocorrelation function is the convolution of the mean-free heights with their mirror image divided by the number of overlapping points (lag zero at the centre shape//2); Sal and Str come from the closest and farthest edge points of its central region above s times the central value, with lags in µm by the step of each axis. Period, period in x and y, orientation (method fft), dominant wavelength Ssw, texture direction Std and the angular power spectrum come from the two-dimensional Fourier transform of the mean-free heights with the frequency axis of each direction, in the same way from the surface and from its transform object, for every shape, extent and pair of steps. The period of a profile is that of the most prominent peak of its spectrum. The aspect ratio is mean depth over period, and the documented defaults (s = 0.2, angle step 1 for the spectrum and 0.5 for Std) apply when an argument is left out.',
     'inputs', 'all heights, shapes, pairs of steps, thresholds and angle steps',
     'Tests compare a few measured values on nearly square pixels; an exchanged axis or a wrong normalisation shows only for other shapes and steps.',
     CORE + ' surfalize/fourier.py surfalize/autocorrelation.py surfalize/mathutils.py', [('autocorrelation', 'surfalize/autocorrelation.py'), ('Fourier transform', 'surfalize/fourier.py')],
     ['values returned by these methods'],
     'interprocedural value-flow interpretation, one path at a time, and comparison of exact algebraic normal forms with reference definitions; differences are followed down to the operations that differ',
     SOUND + 'Fourier transform, labelling, interpolation and sorting are uninterpreted functions of their (normalised) arguments. A computation built from other operations altogether is reported as not comparable, not as a violation.')
prop('C20', 'Every reader understands its format exactly',
     'For every file that follows the layout of its format, the reader of each supported format (al3d, dat, fits, gwy, nms, opd, os3d, plu, plux, binary sdf, sur plain and compressed, tmd, vk4, vk6, vk7, x3p, xyz, zmg) returns the heights in micrometres computed from the stored values by the scale, offset, unit and number type the file declares, with the rows, columns and orientation the format prescribes, and the point spacings of each axis in micrometres. Exactly the points the format marks as not measured are missing, and image layers are the stored images under their names; variable parts of a file (comments of any length, blocks and tags in any order, skipped or padded sections, optional layers) change none of this. Lengths are converted between m, dm, cm, mm, µm (in every spelling), nm and pm by exact powers of ten.',
     'inputs', 'all extents, spacings, scales and units of files of every supported format, with the variants of each layout',
     'Tests read one or two example files per format; other extents, units, data types, block orders, comments and sentinels never occur in them.',
     'surfalize/file', [('readers', 'surfalize/file/'), ('layouts, arrays and units', 'surfalize/file/common.py')],
     ['heights, spacings, missing points and image layers of a loaded file'],
     'interprocedural interpretation of each reader over an abstract file given by a specification of its format (symbolic fields and extents, exact symbolic positions), algebraic comparison of the value-flow terms returned',
     SOUND + 'The layouts are transcribed from the readers and from public format descriptions; metadata, the text variant of SDF, the PNG layer of OS3D and files that break their format are not covered.')
prop('C28', 'Requests outside the documented range are rejected',
     'Outside the documented range a call raises ValueError instead of returning a value: profile positions and crop regions outside the topography, more profiles than rows or columns, an n_sections below 1 or above the number of points, percentage thresholds that add up to 100 or more. The same holds for arithmetic with operands of another size, point spacing or type, for unknown option values (axes, methods of orientation, alignment and outlier removal, filter types, layers, roughness parameters, homogeneity parameters), a bandpass filter with missing or reversed second cutoff, a filter of type both in place, and an interactive 3d plot that is to be saved. Every request inside the range, with its boundaries, is accepted.',
     'inputs', 'all heights, extents and steps, and all values of the arguments, boundaries included',
     'Tests try a few values well inside and well outside the range; an exchanged axis, a shifted boundary or a dropped condition shows only for values next to a boundary or for other extents.',
     CORE, [('argument checks of operations', 'surfalize/surface.py, surfalize/profile.py, surfalize/base.py'), ('filters', 'surfalize/filter.py')],
     ['ValueError raised or not'],
     'path-sensitive interpretation with symbolic extents, steps and arguments; linear arithmetic (Fourier-Motzkin) decides whether an accepted path meets the rejected region and the reverse',
     SOUND + 'Ranges of numbers that no code or documentation states are not covered.')
prop('C26', 'Command line options do what they are documented to do',
     'The commands show and report apply exactly the requested operations with their values (0 included), in the order fill, level, center, zero, threshold, outlier removal (both followed by filling), highpass, lowpass, bandpass, to what is plotted and listed; more than one filter, or zero together with center, is rejected, and the documented spellings and numbers of values are accepted. Convert writes every supported file of a folder once (and nothing else), or the single file given, unchanged under its own name with the new suffix (or the given name), in the requested format (for a single file that of the output suffix, if it has one), compressed and with image layers exactly as requested; formats that cannot be written and compression of other formats than sur are rejected. A report lists each parameter under its own name with its own value and unit for every file, and never overwrites another file.',
     'inputs', 'all commands and combinations of options, files and folders with supported and other files',
     'No test runs the command line; options, their combinations and the mixture of files in a folder are too many to sample.',
     'surfalize/cli.py', [('commands and options', 'surfalize/cli.py')],
     ['what is plotted, written and listed', 'options accepted and rejected'],
     'interprocedural interpretation of the commands over the enumerated option combinations and an abstract folder; loading, surface operations, plots and report are recorded as effects',
     SOUND + 'The parsing of the arguments by click and the appearance of plots and reports are not covered.')
prop('C25', 'Every branch of every function is wired correctly',
     'No call of the package with arguments of the documented kinds and names can end in NameError, UnboundLocalError or AttributeError, or in a TypeError for a wrong number or name of arguments, raised by the package\'s own wiring, whatever branch it takes: every name that is read is defined and assigned on every path to its use, and every attribute or method taken from the package\'s own objects, classes and modules exists. Every call of one of the package\'s own functions and methods passes the arguments it requires and only ones it accepts. Format strings (str.format, struct) and sequence assignments fit the values they are given.',
     'histories', 'all paths through all functions of the package, nested functions and error branches included',
     'The test suite never enters many branches (command line, plots, error messages, rare file variants); a misspelt name or a forgotten argument in one of them goes unnoticed.',
     'surfalize', [('all modules', 'surfalize/')],
     ['exceptions raised'],
     'path-wise definite-assignment dataflow analysis, scope resolution, class-hierarchy attribute lookup and call-signature checks over the syntax trees, with receiver classes from the interprocedural value-flow interpretation',
     'Functions, attributes and arguments of other packages (numpy, pandas, matplotlib, ...) are not covered, nor are attributes of values whose class does not follow from the source.')
prop('C22', 'The state of the process and of the caller is left alone',
     'No function of the library changes settings of the process or of other libraries (warning filters, numpy error handling, matplotlib configuration and styles, working directory, pandas options, the global random generator) beyond its own duration; the command line program is exempt. A plot that is given axes draws on these and on no other figure, plots never touch or close figures they have not made, and colormaps of the caller or of matplotlib are not modified. Public methods and saving change neither the objects passed to them as arguments (axes and open files apart) nor objects shared between calls: default arguments and data of modules and classes.',
     'histories', 'all functions of the package, all paths through them, whatever was called before',
     'Tests look at return values; what a call leaves behind in the process or in objects of the caller shows only in what the caller does next.',
     'surfalize', [('plots', 'surfalize/surface.py, surfalize/profile.py, surfalize/fourier.py, surfalize/autocorrelation.py, surfalize/abbottfirestone.py, surfalize/plotting.py'), ('probing of readers', 'surfalize/file/common.py'), ('all modules', 'surfalize/')],
     ['settings and objects after a call'],
     'interprocedural effect analysis: every function is interpreted with unknown arguments, its library calls and writes are compared with the operations that change process state, pyplot state, arguments and shared objects',
     'Effects inside other packages that do not follow from the name of the operation called are not covered; results kept in memo tables are left to the properties about results.')
prop('C32', 'Plots show the measured data at their coordinates',
     'Plots draw the data of the object unchanged, each value at its own coordinates: topography and image layers over (0, width, 0, height), profiles over 0 to their length, the autocorrelation function over lags around zero, the Fourier spectrum (windowed, mean-free, logarithmic and cropped exactly as requested) and the angular spectrum at the frequencies and angles of their bins. The Abbott plot shows the histogram and the material ratio curve, the study of functional parameters the equivalent line with Spk, Sk, Svk, Smr1 and Smr2 at their places, the 3d plot every height at its point with colours, scale, level of detail and camera as requested. Every option of plot_2d, plot_3d, show and the other plot methods has an effect on what is drawn, and requested colour limits are used.',
     'inputs', 'all heights, extents, steps and options',
     'Tests at most check that a plot is made; a transposed extent or an exchanged axis shows only for topographies that are not square, an option without effect only when it is used.',
     'surfalize', [('topographies, spectra, 3d plots', 'surfalize/surface.py, surfalize/fourier.py, surfalize/autocorrelation.py'), ('profiles and material ratio curves', 'surfalize/profile.py, surfalize/abbottfirestone.py'), ('3d plots', 'surfalize/plotting.py')],
     ['arrays, coordinates and limits handed to the plotting library'],
     'path-wise comparison of the symbolic arguments of the calls of the plotting library with reference definitions; influence analysis of options',
     SOUND + 'Labels, fonts, sizes and colours are not covered, nor is the drawing done by matplotlib and pyvista; a drawing in another form than the current one is left undecided.')
prop('C27', 'Filename templates extract exactly what they describe',
     'A template (of a batch or applied to a result) matches exactly the file names it describes: every text outside of <...>, every prefix and suffix literally and in its place, int as digits, float as digits with an optional decimal point or comma, str as any text. For each matching name every parameter is taken from its own place, a decimal comma is read as a point, and the value is converted to its own type. The parameters become columns directly after the file name in the order of the template, no other column is changed, and malformed templates (unclosed or nested expressions, missing or unknown types) raise ParsingError.',
     'inputs', 'all file names, for templates with every combination of types, prefixes, suffixes and characters special to regular expressions',
     'The tests use two templates without special characters; parameters of type str, literal special characters and malformed templates are not tested.',
     'surfalize/batch.py', [('FilenameParser, BatchResult, Batch', 'surfalize/batch.py')],
     ['columns and values of the result'],
     'interprocedural interpretation of the template parser on an enumerated set of templates (string operations folded symbolically); normal forms of the regular expressions; abstract tables for columns and conversions',
     SOUND + 'Templates outside of the enumerated set are covered only through the code they share with it; names that do not match are not covered.')
prop('C24', 'Equality and hash of topographies agree with their contents',
     'Two topographies are equal exactly if their point spacings in x and y and their sizes are the same, the same points are missing, and no measured height differs by more than 1e-10 µm, in whichever order they are compared; a topography never equals an object of another type, and comparing raises no exception. Equal topographies have equal hashes: the hash uses nothing that equality ignores or compares with a tolerance, so topographies can be used as keys and members of sets.',
     'inputs', 'all pairs of topographies, in every combination of what agrees and what differs between them',
     'Tests compare a few pairs that differ in one place; differences of sign, of one axis only, or hashes of nearly equal topographies do not occur in them.',
     'surfalize/surface.py', [('__eq__, __hash__', 'surfalize/surface.py')],
     ['results of ==, != and hash'],
     'interpretation of the comparison under every combination of agreement and difference of two symbolic topographies (truth table over recognised conditions, undecided ones in both ways); dependency analysis of the hash',
     SOUND + 'Comparisons written with other library functions than those recognised are left undecided.')

prop('C21', 'Damaged and foreign files are rejected',
     'Reading always ends, and never returns heights that are not in the file. A file of a supported format that ends before or inside of its heights is rejected with an error; so is one that the reader recognises as not its own or not supported: wrong identification or version, a first block, tag or entry that is not the one the format starts with, missing heights or missing parts of an archive, a checksum that differs, several surfaces, profiles or arrays that are not two-dimensional, unknown number types, and declared sizes that contradict the extents (dat, opd, vk4, tmd, x3p, xyz).',
     'inputs fault_sequences', 'all extents and contents, for every format the package reads, every place before the end of the heights at which a file is cut off, and an enumerated list of contradictions',
     'Tests read undamaged files; an interrupted copy of a file does not occur in them, and what it gives depends on the place where it ends.',
     'surfalize/file', [('readers', 'surfalize/file/*.py'), ('arrays, layouts', 'surfalize/file/common.py')],
     ['exceptions raised and surfaces returned'],
     'abstract interpretation of every reader over damaged variants of the specifications of the formats: reads at the end of the file are short, sizes are compared symbolically, a round of a loop that leaves everything as it was is a loop without end',
     SOUND + 'Heights that are damaged without changing the structure of the file, and contents of compressed data, are not covered; which exception is raised is not prescribed.')

prop('C08', 'Orientation, period and homogeneity of a texture are recovered',
     'For a topography with a periodic texture the reported period, orientation and homogeneity are those of the texture, within the resolution of the spectrum.',
     'inputs', 'all periodic textures, sizes, steps and noise levels',
     'Tests use a few synthetic textures.', 'surfalize/surface.py surfalize/fourier.py surfalize/mathutils.py',
     [('peak search and sinusoid fit', 'surfalize/surface.py, surfalize/mathutils.py')], ['values of period, orientation, homogeneity'],
     na='whether an iterative fit or a peak search finds the texture is a question of numerical convergence on runtime values; the structural part (which spectrum, axes, steps and conversions they use) is decided by C07 and C30.')

prop('C09', 'Results are accurate to rounding',
     'Parameters, levelled and filtered heights agree with the exact value of their definition up to rounding, also for large offsets, large arrays and integer heights.',
     'inputs', 'all heights and sizes', 'Tests compare a few arrays with tolerances.', CORE + ' surfalize/filter.py surfalize/mathutils.py',
     [('numerical evaluation', 'surfalize/surface.py, surfalize/mathutils.py')], ['values of parameters and heights'],
     na='error bounds of floating-point reductions, least squares and FFTs depend on runtime magnitudes; C30, C31 and C07 decide the real-valued formula, not its rounding.')

prop('C17', 'A conversion loses no more than the resolution of the target format',
     'Heights written to a scaled integer format come back within one quantisation step of the format, and repeated conversion does not drift.',
     'inputs', 'all heights and all writable formats', 'Tests convert a few surfaces.', 'surfalize/file/sur.py surfalize/file/sdf.py surfalize/file/sflz.py',
     [('scaling to integers', 'surfalize/file/sur.py')], ['heights after saving and loading'],
     na='the quantisation error is a bound on runtime values; C18 decides that scaling and its inverse agree as formulas, including at the smallest and largest height.')

prop('C29', 'A parallel batch terminates and gives the results of a sequential one',
     'Executing a batch with several workers always terminates, whatever the workers do, and uses no more memory than the number of workers requires.',
     'schedules crash_points', 'all schedules of worker processes and threads, including workers that die',
     'Tests run one schedule of a small batch.', 'surfalize/batch.py', [('worker pool', 'surfalize/batch.py')], ['termination and memory of execute'],
     na='termination depends on the scheduler, the process pool of the standard library and death of workers, none of which is in the source of the package; that both modes report the same rows is decided by C10 to C13.')
