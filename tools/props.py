"""the properties: statement, quantifier, anchors, deciding method"""
AI = ('abstract interpretation of the source (interprocedural value numbering with gated joins and loop summaries); '
      'the extracted value of every output is compared with the specified expression by identity testing of the two terms, case by case')
LEVEL = 'every input symbolic; identities of extracted expressions are tested at random points of the admissible domain, not proved'
PROPS = []


def P(id, title, statement, forall, why, files, mech, over=('inputs',), technique=AI, level=LEVEL, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), forall=forall, why=why, files=files, mech=mech,
                      technique=technique, level=level, **kw))


KIN = 'rsbeams/rsstats/kinematic.py'
P('K01', 'Kinematic quantities obey the relativistic relations',
  'Whichever one of momentum, velocity, energy, kinetic energy, beta*gamma, magnetic rigidity, beta or gamma is given, and for every positive mass, '
  'the converter returns the momentum, velocity, total energy, kinetic energy, beta*gamma, rigidity, beta and gamma of one and the same particle: '
  'beta=sqrt(1-1/gamma^2), E=gamma m c^2, T=E-m c^2, p c=beta gamma m c^2, v=beta c, B rho=p/e. '
  'The quantity that was given comes back with its own value.',
  'all eight starting quantities, all values and masses, all combinations of input, output and mass units',
  'tests convert a few tabulated electrons and protons; the relations are identities in the value and the mass',
  [KIN], [('start_* functions compute beta and gamma', KIN), ('calculate_* functions derive the outputs', KIN)])
P('K02', 'Kinematic results are in the units and under the labels requested',
  'For every combination of input unit, output unit and mass unit the returned numbers are in the output unit (SI or eV) and are those of the same '
  'particle, the printed text names the unit each number is in, and calling the converter again gives the same answer. '
  'The command line tool gives the same result as the class for the same request.',
  'all inputs, all unit combinations, repeated calls',
  'tests do not read the labels, do not call a converter twice and exercise few unit combinations',
  [KIN], [('Converter.__call__', KIN), ('main', KIN)], over=('inputs', 'configurations', 'histories'))
SW = 'rsbeams/rsdata/switchyard.py'
P('S01', 'Readers deliver coordinates in the documented frame and units',
  'Reading an elegant SDDS file gives x, ux=x\' p, y, uy=y\' p, ct=c t and pt=p, reading an OPAL file gives x, px, y, py of the requested step '
  '(the last step if none is requested), each particle in its own row. '
  'Charge, mass and total charge of the species are those of the file or of an electron.',
  'every file content, every step number including 0, files with and without a charge',
  'tests read two files and compare array shapes; units and column assignment are not compared with the file',
  [SW], [('read_elegant', SW), ('read_opal', SW)])
P('S02', 'Writers store each coordinate in the column, unit and scale of the format',
  'Writing to elegant, genesis or OPAL stores every coordinate of every particle in the column the format defines for it, converted to the unit the format uses '
  '(slopes are transverse over total momentum, times are path length over c), together with the particle count and total charge, in the requested file. '
  'Writing an elegant file and reading it back gives the original six coordinates.',
  'every six-dimensional coordinate array and total charge',
  'no test reads back what a writer has written',
  [SW], [('Switchyard.write_elegant', SW), ('Switchyard.write_genesis', SW), ('Switchyard.write_opal', SW)])
P('S03', 'The switchyard registers, dispatches and reports faithfully',
  'Reading with a supported code registers exactly one species under the requested or the default name, passes all options on to the reader, and leaves every other registered species '
  'alone, including one that already has that name. Writing dispatches to the writer of the requested format and returns the file name, '
  'and an unsupported code raises an error, registers nothing and writes nothing.',
  'all codes, names, options and sequences of reads',
  'tests read one file per format into an empty switchyard',
  [SW], [('Switchyard.read', SW), ('Switchyard.write', SW), ('Switchyard._species_insert', SW)], over=('inputs', 'histories'))
BU = 'rsbeams/rsptcls/bunch.py'
P('B01', 'Bunch Twiss parameters and matched widths stay consistent',
  'After constructing a bunch and after any sequence of setting betax, alphax, betay, alphay (as attributes or through set_transverse_coordinates), the attributes and '
  'print_Twiss report the values last set and gamma=(1+alpha^2)/beta of the same plane; a nonlinear bunch keeps its two beta functions equal. '
  'A Gaussian StandardBunch has rms widths sqrt(emit beta) and sqrt(emit gamma) in each plane and stdz, dpop longitudinally, from six independent normal samples, '
  'including when a width or emittance is set to zero.',
  'every Twiss parameter, emittance and width, every history of setters',
  'tests construct one bunch per class with default parameters',
  [BU], [('StandardBunch property setters', BU), ('distribute_Gaussian', BU), ('print_Twiss', BU)], over=('inputs', 'histories'))
P('B02', 'Generated bunches lie on the matched invariant of their distribution',
  'Every particle of a KV, waterbag or nonlinear Gaussian bunch has the value of the (linear or elliptic-potential) Hamiltonian the distribution prescribes, in the normalised coordinates '
  'of the Twiss parameters in force, with momentum direction uniform over the full circle and positions drawn uniformly from a symmetric box that holds the whole region the invariant allows; npart particles are produced in the columns x, px, y, py with identifiers 0 to npart-1, '
  'and generating changes no parameter, so that generating again gives the same distribution. '
  'With a quiet start every sample contributes four particles with the same invariant that sum to zero in each coordinate. '
  'Potential and Hamiltonian are those of the elliptic potential, which is the harmonic one for t=0; Gaussian levels above the cutoff are rejected.',
  'every Twiss parameter, emittance, t, c, cutoff and every sequence of random numbers',
  'the particles are random: a test sees one sample and asserts shapes; the invariant must hold for every draw',
  [BU], [('distribute_KV', BU), ('distribute_waterbag', BU), ('distribute_Gaussian', BU), ('exact_centroids', BU), ('compute_potential', BU)],
  over=('inputs', 'schedules'))
P('B04', 'Bunch and insert parameters reject invalid values without changing state',
  'Setting betax, betay, c or cutoff to a value that is not positive, or t to a negative value, raises ValueError and leaves every attribute as it was; '
  'every admissible value is accepted and read back unchanged. A KV bunch with different planar emittances is refused.',
  'every value of every validated attribute of StandardBunch, NonlinearBunch and NonlinearInsert',
  'tests try one bad value per setter and do not look at the state afterwards',
  [BU, 'rsbeams/rslattice/nonlinear.py'], [('property setters', BU), ('NonlinearInsert.c', 'rsbeams/rslattice/nonlinear.py')])
DE = 'rsbeams/rsphysics/decoherence.py'
P('X01', 'Decoherence centroids follow the defining phase-space integral',
  'For tune-shift coefficients mu of any order, CentroidPosition returns Z/(2 pi n) times the integral of cos(2 pi nu0 n - sum_k mu_k a^k/(2 pi n)^(k-1)) over a from 0 to 2 pi n, '
  'through integrate_any_order and through the closed forms for one and for two coefficients alike, and Z itself for turn 0. '
  'An omitted turn means the last turn N; calculate_centroids gives the value of every turn 0..N-1 in order, with any number of worker processes.',
  'all coefficients, amplitudes, tunes, turns and pool sizes',
  'tests compare a few turns of the closed forms with one another',
  [DE], [('CentroidPosition.integrate_any_order', DE), ('integrate_first_order, integrate_second_order', DE), ('calculate_centroids', DE)], over=('inputs', 'configurations'))
PHS = 'rsbeams/rsptcls/phases.py'
P('X02', 'Phase advance and tune are the angles and frequencies they claim to be',
  'phase_advance returns the angle between two phase-space vectors taken in the requested direction (clockwise by default), in [0, 2 pi), for every pair of vectors in every quadrant. '
  'tune_fft returns the position of the largest peak of the spectrum over exactly the turns t_i to t_f requested (from turn 1 by default), as a fraction of that number of turns folded to at most one half.',
  'every pair of vectors, every coordinate history, every turn window including one starting at 0',
  'tests use a few angles and one sinusoid',
  [PHS], [('phase_advance', PHS), ('tune_fft', PHS)])
NLI = 'rsbeams/rslattice/nonlinear.py'
P('L04', 'The nonlinear insert follows from its current parameters',
  'generate_sequence computes slice positions, focal length, beta function, knll = t l/n c^2/beta and cnll = c sqrt(beta) from the length, phase advance, t, c and number of slices currently '
  'set, also when any of these was changed after a previous call, and create_madx writes one nllens element per slice with these values in order.',
  'every parameter set and every sequence of parameter changes',
  'tests generate one insert with one parameter set',
  [NLI], [('NonlinearInsert.generate_sequence', NLI), ('create_madx', NLI)], over=('inputs', 'histories'))
CO = 'rsbeams/rsphysics/rsconst.py'
P('C01', 'Physical constants agree with their definitions and with one another',
  'Every constant of rsconst has the value its name stands for in the stated unit system: SI values to 1e-6, CGS and eV values derived from them by the exact conversion '
  'factors, and numerical constants such as sqrt(2/pi).',
  'every constant of the module',
  'no test reads the constants',
  [CO], [('module constants', CO)], over=('configurations',))
ST = 'rsbeams/rsstats/stats6d.py'
P('T01', 'Six-dimensional statistics are those of the array passed in',
  'For every 6xN array calc_avg6d, calc_variance6d, calc_rms6d, calc_min6d, calc_max6d and calc_correlations6d return mean, variance, rms about the mean, extrema and covariance matrix (all normalised by N) '
  'of each coordinate without changing the array; sub_avg6d and normalize_rms6d subtract the mean of and divide by the rms of each coordinate in place. '
  'rm_correlations6d rotates every particle by the transposed eigenvectors of that covariance matrix, specify_significant_figures rounds to exactly the requested number of figures, '
  'and every rotation of jacobi_eigen_solver6d keeps the eigenvector matrix V orthonormal and V S V^T equal to the matrix passed in.',
  'every particle array, every order of the in-place operations',
  'tests do not cover stats6d beyond a single distribution',
  [ST], [('calc_*6d', ST), ('sub_avg6d, normalize_rms6d', ST), ('rm_correlations6d', ST), ('jacobi_eigen_solver6d', ST)], over=('inputs', 'histories'))
SA = 'rsbeams/rsstats/sample.py'
P('T02', 'Samples are drawn by inverting the cumulative distribution',
  'sample(n, dist, a, b) evaluates the inverse of the normalised cumulative distribution of dist on the grid of wn points from a to b at n uniform (random) or Halton numbers, for both inversion methods and '
  'with the extra arguments passed on to dist; cdf_on_grid returns that cumulative distribution. '
  'Halton samples are reproducible from call to call, and unsupported methods are rejected.',
  'every distribution function, interval, grid and sample size, both methods and both inversions',
  'samples are random: tests can only check moments of one draw',
  [SA], [('sample', SA), ('cdf_on_grid', SA)], over=('inputs', 'configurations'))
RD, RP, RT, RB = ['rsbeams/rsptcls/%s.py' % f for f in ('RsDistrib6D', 'RsPhaseSpace6D', 'RsTwiss2D', 'RsPtclBeam6D')]
P('R01', 'Matched six-dimensional beams reproduce the Twiss parameters asked for',
  'make_twiss_dist_6d maps a normalised distribution to one with covariance emit*[[beta,-alpha],[-alpha,gamma]] in each of the planes x, y, z, for either sign of alpha and any beta, particle by particle; '
  'calc_twiss6d returns emittance, beta and alpha of the particles as they are (emit^2 = determinant of the plane\'s covariance matrix). '
  'A RsPtclBeam6D is built from exactly the parameters given, plane by plane, and its beta0, gamma0, beta0*gamma0 and peak current follow from momentum, mass, charge and rms length.',
  'every Twiss parameter set and particle array',
  'tests construct no six-dimensional distribution with correlated planes',
  [RD, RB, RT], [('RsDistrib6D.make_twiss_dist_6d', RD), ('RsDistrib6D.calc_twiss6d', RD), ('RsPtclBeam6D', RB)])
P('R02', 'Phase-space containers keep array, count and file consistent',
  'RsPhaseSpace6D allocates a 6 by n array of zeros for every positive n, accepts exactly the arrays of six rows and at least one column (taking the count from them), reads back from the file write_array wrote, and is '
  'unchanged after a count, name or file was rejected. Its getters and those of Species return the rows or columns they name. '
  'offset_component and multiply_component change exactly the coordinate addressed and refuse indices outside 0..5.',
  'every array, count, file name and component index',
  'tests cover neither rejected input nor the file round trip',
  [RP, RD, 'rsbeams/rsptcls/species.py'], [('RsPhaseSpace6D', RP), ('Species', 'rsbeams/rsptcls/species.py'), ('offset_component', RD)], over=('inputs', 'histories'))
P('R03', 'Generated six-dimensional distributions have the shape requested',
  'RsDistrib6D accepts exactly a positive count, a positive cut and the types uniform and gaussian; every coordinate of every particle is drawn independently, and a draw is accepted only inside the unit sphere '
  '(uniform, in position and in momentum space separately) or with squared value below the cut (gaussian). '
  'The finished distribution is decorrelated and has mean zero and rms one in every coordinate.',
  'every particle count, cut and sequence of random numbers',
  'the particles are random: a test sees one draw',
  [RD], [('make_unif_distrib', RD), ('make_gauss_distrib', RD), ('clean_phase_space_6d', RD)], over=('inputs', 'schedules'))
SD, DT, SDU = ['rsbeams/rsdata/%s.py' % f for f in ('SDDS', 'datatypes', 'utils')]
SDA = ('abstract interpretation of the source over a symbolic output file: the sequence of texts and binary records written is extracted as a term and '
       'compared, piece by piece, with the layout the SDDS protocol prescribes for the registered parameters and columns')
P('D01', 'A saved SDDS file has the layout the protocol prescribes',
  'save_sdds writes the SDDS1 line, one &parameter or &column namelist per registered parameter and column in the order of their creation with the name, type and every attribute given, '
  'and a &data namelist announcing the mode the body is written in. The body holds for binary mode the row count, the parameter values and the columns row by row in the declared types '
  '(strings as length and characters), for ascii mode one line per parameter without fixed value, the row count and one line per row. Saving twice writes the same file.',
  'every set of parameters and columns of every supported type, all attribute values, both modes, any number of rows, repeated saves',
  'tests write a few files and compare two or three values; the layout must hold for every combination of types, modes and attributes',
  [SD, DT], [('writeSDDS.save_sdds', SD), ('writeSDDS.create_column, create_parameter', SD)], over=('inputs', 'configurations', 'histories'), technique=SDA,
  level='every value, name and attribute symbolic; representative combinations of types, modes, attributes and numbers of parameters and columns enumerated')
P('D02', 'A save that cannot succeed leaves an existing SDDS file untouched',
  'save_sdds with an unsupported mode or with columns of different lengths writes nothing to the target, and nothing that can fail for the registered data runs after the '
  'file was truncated; the file is closed when save_sdds returns. create_parameter and create_column refuse unsupported types and a parameter with both data and a fixed value.',
  'every mode, column set and type',
  'tests do not look at the target file after a failed save',
  [SD], [('writeSDDS.save_sdds', SD), ('writeSDDS._write_binary, _write_ascii', SD)], over=('inputs', 'fault_sequences'), technique=SDA,
  level='every value symbolic; representative combinations of types and modes enumerated')

SDR = ('abstract interpretation of readSDDS over headers the analysis builds and a body of unknown bytes or lines: the offset, count and type of every read is extracted as a term '
       'of the page number and of the counts stored in the file, loops summarised by induction, and compared with the positions the layout announced by the header implies')
P('D03', 'Reading an SDDS file takes every value from where the layout puts it',
  'readSDDS.read() returns for every page each parameter and column, under its name and in its type, from exactly the bytes (binary) or tokens of the lines (ascii) the SDDS layout gives them: row count, parameters in order, '
  'fixed parameters from the header, rows column by column, strings as length and characters, ascii files with and without row counts. '
  'Every page stored is read, in order, once, with buffer=True and with buffer=False alike.',
  'every number of pages and rows, every value and string length, every combination of column and parameter types, both modes, buffered or not',
  'tests read a handful of sample files whose values they compare in a few places',
  [SD, DT, SDU], [('readSDDS.read', SD), ('readSDDS._get_reader and the page readers', SD)], over=('inputs', 'configurations'), technique=SDR,
  level='number of pages, rows, string lengths and all values unbounded; representative combinations of types, modes, fixed values enumerated')
P('D04', 'Pages asked for are the pages read, whatever was read before',
  'readSDDS.read(pages=...) returns exactly the requested pages, in file order, each once, wherever they lie in the file; reading again replaces what an earlier read returned and starts from the first page again. '
  'This holds for ascii and binary files, with and without row counts, buffered or not.',
  'every file, page selection and sequence of reads',
  'tests read pages in one or two selections from one file',
  [SD], [('readSDDS.read', SD)], over=('inputs', 'histories'), technique=SDR,
  level='number of pages, rows and all values unbounded; representative page selections enumerated')
P('D05', 'The accessors of an SDDS reader return what the header says',
  'parameter_symbol, _units, _description, _format_string, _type and _fixed_value and their column_ counterparts return the text or value of that field of that entry of the header, and an empty text (None for the fixed value) '
  'where it has none, whatever the order of the fields, comments, blank lines, entries spread over lines or characters such as = and , in quoted texts. '
  'A header without SDDS identifier, with unknown types, unknown entries, or fixed values that do not fit the type is refused; the body is read from right behind the header.',
  'every header in the namelist format',
  'tests check a few attributes of sample files',
  [SD, DT, SDU], [('readSDDS.__init__', SD), ('parameter_*/column_* accessors', SD), ('Datum, Structure', DT)], over=('inputs',), technique=SDR,
  level='representative headers: every attribute, type, quoting, layout and order enumerated')
BEA, ELE, LTP, T3P, LIM, FOW, PKF = ['rsbeams/rslattice/%s.py' % f for f in ('Beamline', 'Element', 'lte_parser', 'trace3d_parser', 'templates/lattice_importer', 'formatted_writer')] + ['rsbeams/pkcli/lattice.py']
LAT = ('abstract interpretation of the source over symbolic lattices (element parameters and lengths unknown, objects and heap tracked): the element sequence, parameter terms and file texts '
       'extracted and compared with those the description of the lattice implies, terms by identity testing')
P('L01', 'Element parameters are found whatever the case of their name',
  'Element.parameters stores every parameter once under its name without regard to case: set by item, constructor, update or setdefault in one spelling, it is found by [], get, in, setdefault and pop, and deleted, in every other. '
  'The type is kept in lower case without surrounding blanks, the name as given, and elements never share their parameters.',
  'every name and value of a parameter, every sequence of accesses',
  'tests use one spelling per name',
  [ELE], [('AgnosticDict, Element', ELE)], over=('inputs', 'histories'), technique=LAT, level='parameter names and values symbolic where possible; every access method enumerated')
P('L02', 'A beamline is the sequence of the elements put into it',
  'However a StructuredBeamline was built (elements added, names used again, elements added to sub-lines, sub-beamlines nested and used again), get_beamline_elements yields the elements in order with their multiplicity, '
  'length is the sum of the lengths of these (read-only), edge of an element the length of line in front of its first occurrence, and a name used again in a line is the same Element. '
  'edit_element changes exactly the parameters of the elements selected (by exact name, or position in the line), and load_beamline restores from the file of save_beamline the same elements, with all their parameters, in the same order.',
  'every sequence of beamline operations',
  'tests build one or two lines',
  [BEA, ELE], [('StructuredBeamline', BEA), ('Element', ELE)], over=('histories', 'inputs'), technique=LAT,
  level='element parameters symbolic; enumerated and pseudo-random sequences of operations')
P('L03', 'The matrix of a beamline is the product of the matrices of its elements',
  'generate_matrix gives for every drift and every quadrupole, focusing, defocusing or without strength, the real transfer matrix of its length and strength, and an element of another type is an error; '
  'the matrix of a line, sub-beamlines included, is the product of these in the order the beam meets them, and concatenate=False returns them one by one. '
  'Parameters given by name stay variables, in order of occurrence, of the function returned, whatever their names.',
  'every line of drifts and quadrupoles, every length and strength of either sign',
  'tests evaluate one line numerically',
  [BEA], [('StructuredBeamline.generate_matrix, matrices', BEA)], technique=LAT, level='all parameters symbolic; representative lines enumerated')
P('L05', 'TRACE 3-D and TraceWin files give their elements in beamline units',
  'Trace3d and TraceWin add one element per element line of the file, in order, with the name (TRACE 3-D) and type of that line, with every parameter under its name converted from file units (mm, degrees, MV) to m, rad and V '
  '(cavities: phase convention, cells, frequency in force), whatever the spacing, case, comments and other lines. '
  'handle_bends and handle_cavities attach edges to their bends and the drifts around a cavity to it, and leave all other elements as they were; files are closed.',
  'every file of supported elements, every value',
  'tests parse one sample file each',
  [T3P], [('Trace3d', T3P), ('TraceWin', T3P)], technique=LAT, level='all numbers of the file symbolic; representative element sequences and spellings enumerated')
P('L06', 'Beamlines imported from elegant and Sirepo are the lines of the file',
  'BeamlineParser (elegant lte files) and parse_json (Sirepo models, from memory or file) return the beamline named, whatever its case, with the elements in the order its definition implies: lines of lines, reversed (-) and repeated (n*) items, '
  'definitions in any order, continued lines, comments. Types, names and every parameter value, rpn variables and cached expressions included, are those of the file; the source model is not changed, the file closed, parsing again '
  'gives the same line and a missing line is an error.',
  'every file or model of elements and lines, every parameter value',
  'tests import one sample lattice each',
  [LTP, LIM], [('BeamlineParser', LTP), ('parse_json', LIM)], over=('inputs', 'histories'), technique=LAT, level='all numbers symbolic; representative definitions and layouts enumerated')
P('W01', 'A Warp lattice written from elegant is the same machine',
  'elegant_to_warp writes a Python file that defines every element of the elegant line once and joins them in line order: drifts and bends with length, bends with radius length/angle, '
  'quadrupoles and sextupoles with length and gradient -k times the magnetic rigidity of p_central_mev, elements Warp does not know as drifts of their length (or none). '
  'The run_setup command is found wherever it is, and the output file is replaced and closed.',
  'every elegant lattice of the supported types, every parameter value and momentum',
  'tests do not cover the Warp writer',
  [FOW, PKF], [('elegant_to_warp', PKF), ('WarpWriter', FOW)], technique=LAT, level='all numbers symbolic; every supported element type, representative lines')
EFF = ('interprocedural effect and alias analysis over the syntax trees (roots: parameters, fields, default values, class attributes, module variables), '
       'against a frozen table of what each public function may change')
ALL = ['rsbeams/rsdata', 'rsbeams/rslattice', 'rsbeams/rsphysics', 'rsbeams/rsptcls', 'rsbeams/rsstats', 'rsbeams/rsplot', 'rsbeams/pkcli']
P('H01', 'Files and worker pools are released on every path',
  'Every file and every pool of worker processes that a function of the package opens is closed when the function ends, whether it returns or an error occurs while reading, parsing, '
  'computing or writing. A readSDDS object that is not buffered keeps its file, but closes it if it cannot be constructed.',
  'every acquire site and every path from it, exceptional ones included', 'tests run in one process that ends soon, and do not provoke errors between open and close',
  ['rsbeams/rsdata/SDDS.py', 'rsbeams/rsdata/switchyard.py', 'rsbeams/rslattice/Beamline.py', 'rsbeams/rsphysics/decoherence.py'],
  [('calculate_centroids', 'rsbeams/rsphysics/decoherence.py'), ('readSDDS.__init__', 'rsbeams/rsdata/SDDS.py'), ('load_beamline', 'rsbeams/rslattice/Beamline.py')],
  over=('inputs', 'fault_sequences'), technique='typestate analysis: every acquire site is followed through the statements after it, with an exceptional exit at every call, to a release on every exit',
  level='all paths of the syntax tree; a resource that escapes into a container is undecided')
P('H02', 'Functions leave the data they are given and report on unchanged',
  'No public function or method changes an array, list, dictionary or object passed to it, except those made to work in place (sub_avg6d, normalize_rms6d, rm_correlations6d, the matrix of '
  'jacobi_eigen_solver6d, the Twiss dictionary filled by calc_twiss6d, the list extended by exact_centroids, the axes plotted on). '
  'Methods that report - getters, properties, calculations, writers, exporters, print and save methods - leave the data of their object as it was.',
  'every public function, every argument, every attribute', 'tests compare results, rarely the arguments after the call',
  ALL[:5], [('calc_* functions', 'rsbeams/rsstats/stats6d.py'), ('Switchyard.write_*', 'rsbeams/rsdata/switchyard.py'), ('get_beamline_elements', 'rsbeams/rslattice/Beamline.py')],
  over=('inputs', 'histories'), technique=EFF, level='flow-sensitive, all calls inside the package followed; effects of library calls from a table')
P('H03', 'Calls and objects are independent of one another',
  'No call changes a default value, data stored on a class or a module variable, objects never share lists, dictionaries or arrays with the class, with a default value or with one another through them, '
  'and no result is remembered in a way that outlives a change of what it was computed from. '
  'The state of the process (random generators unless a seed is given, numpy error handling, working directory, environment, matplotlib settings) is left alone.',
  'every function, every sequence of calls and objects', 'tests make one object and one call at a time in a fresh process', ALL,
  [('class attributes', 'rsbeams/rslattice/Beamline.py'), ('default arguments', 'rsbeams/rsdata/datatypes.py'), ('module tables', 'rsbeams/rsplot/util.py')],
  over=('histories',), technique=EFF, level='flow-sensitive, all calls inside the package followed')
P('H04', 'Every path refers to things that exist',
  'Every name used by a function of the package is defined, every attribute and method used on self, on an object the function made or on a module of the package exists, every call of package code fits '
  'the parameters of what it calls, and every format has as many places as values - on every path, including the ones only errors or rare options take.',
  'every statement of every function', 'tests run a fraction of the statements; a branch no test enters can fail as soon as a user does', ALL,
  [('property setters', 'rsbeams/rsptcls/bunch.py'), ('imports', 'rsbeams/rsphysics/rsconst.py')], over=('inputs', 'programs'),
  technique='name resolution, member resolution and call signature checking over the whole package', level='definite errors only')
P('H05', 'Data is never run as code',
  'Nothing read from a file, a command line or a lattice is evaluated or executed: no eval, exec, compile, pickle, unsafe yaml, shell or symbolic parser is ever given anything but constant text.',
  'every call in the package', 'tests read harmless files', ALL, [('load_beamline', 'rsbeams/rslattice/Beamline.py'), ('lattice readers', 'rsbeams/rslattice')],
  technique='sink query over resolved calls of the whole package', level='every call whose target resolves; aliased sinks are resolved through imports')
BPL = 'rsbeams/rsplot/beam_plots.py'
UTL = 'rsbeams/rsplot/util.py'
P('P01', 'The magnet profile and beamline plots show every element and quantity',
  'plot_profile draws one box per element that has a colour, from where the element starts over its length, centred on the beamline, in the colour of its type and scaled with the axis, and a line from the start to the end. '
  'beamline_profile shows the quantities asked for against s, each under its own label with units (format_symbol translates elegant symbols without losing text), '
  'with the ranges asked for above the magnets, and saves only when asked.',
  'all element lists, positions, scales, symbols and quantities', 'tests look at no plot', [UTL, BPL], [('plot_profile', UTL), ('format_symbol', UTL), ('beamline_profile', BPL)],
  technique=AI, level=LEVEL)
P('P02', 'Phase space plots show the density, projections and current of the beam',
  'phase_space, longitudinal_phase_space and phase_space_projection show the histogram of the particles of the page and columns asked for, the right way up, with the extent of the data in the units of the labels. '
  'The projections have the centres and counts of the bins, and the current is charge per time of each bin, in the unit of its label.',
  'all particles, pages, columns, bins and files with and without parameters or charge', 'tests look at no plot', [UTL, BPL], [('phase_space', BPL), ('longitudinal_phase_space', BPL)],
  technique=AI, level=LEVEL)
P('P03', 'Histogram points, six-dimensional scatter and contour plots show their data',
  'get_histogram_points and get_current_from_t return the centres and values of the bins of their data. RsScatterPS6D draws each coordinate pair of its particles with limits that contain them under the labels and title it was given. '
  'gen_contour_levels and scatter_contour draw the contours of the density of the particles at the levels asked for and, as points, exactly the particles outside of the outline (all of them in a scatter plot), on the scales asked for.',
  'all data, bins, levels, divisions, scales and labels', 'tests look at no plot', [UTL, 'rsbeams/rsplot/RsScatterPS6D.py', 'rsbeams/rsplot/plot_ptcls.py'],
  [('get_histogram_points', UTL), ('RsScatterPS6D', 'rsbeams/rsplot/RsScatterPS6D.py'), ('scatter_contour', 'rsbeams/rsplot/plot_ptcls.py')],
  technique=AI, level=LEVEL)
P('T03', 'The Jacobi eigen solver converges to eigenvectors within its sweeps',
  'For every symmetric 6x6 matrix jacobi_eigen_solver6d returns eigenvectors to working precision within its maximum number of sweeps.',
  'all covariance matrices', 'tests diagonalise a few matrices', ['rsbeams/rsstats/stats6d.py'], [('jacobi_eigen_solver6d', 'rsbeams/rsstats/stats6d.py')],
  na='convergence is a statement about floating point sequences: the number of sweeps needed and the residue depend on the values of the matrix. No sound static argument here bounds them; '
     'the invariants of every rotation are decided in T01')
P('R04', 'Samples have the moments asked for up to their statistical error',
  'The empirical moments of generated bunches and samples agree with the distribution requested within the statistical error of the number of particles.',
  'all particle numbers and seeds', 'tests look at one seed', ['rsbeams/rsptcls/bunch.py', 'rsbeams/rsptcls/RsDistrib6D.py', 'rsbeams/rsstats/sample.py'],
  [('distribute_*', 'rsbeams/rsptcls/bunch.py')],
  na='the moments depend on the numbers the generator returns at run time; B01, B02, R03 and T02 decide that each particle is the right function of independent draws instead')
P('X03', 'Decoherence integrals and tunes are numerically accurate',
  'The centroid integrals agree with the exact integral to the tolerance of the quadrature for every coefficient, and the tune is within one over the number of turns of the true tune.',
  'all coefficients, turns and signals', 'tests compare a few turns', ['rsbeams/rsphysics/decoherence.py'], [('CentroidPosition.calculate_centroids', 'rsbeams/rsphysics/decoherence.py')],
  na='accuracy of scipy.integrate.quad on oscillating integrands and spectral leakage are run-time numerical quantities; X01 and X02 decide which integral and which window are evaluated')
