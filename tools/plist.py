PROPS = []


def P(id, title, statement, over, forall, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, **kw))


GT = ('graded type inference over the type-checked syntax trees of all translation units (libTooling exporter + equation solving), '
      'no execution')

P('U01', 'Physical quantities keep their SI units in every formula and every output',
  'Every physical quantity TEUFEL computes, stores, returns or writes carries the SI unit its interface documents. '
  'Sums, differences, comparisons and assignments only ever combine quantities of the same unit, and arguments of '
  'transcendental functions are pure numbers; hence results do not depend on the choice of the system of units.',
  ['inputs', 'configurations'], 'all particles, beams, fields, devices, observers and option combinations; every executed formula',
  'A wrong factor (c, dt, e, a missing division by a length) shifts results by amounts that a test with one parameter set and a '
  'tolerance, or with unit-valued factors, does not see; most code paths (optional devices, writers) are in no test at all.',
  ['src/particle.cpp', 'src/bunch.cpp', 'src/beam.cpp', 'src/fields.cpp', 'src/undulator.cpp', 'src/wave.cpp', 'src/fel1d.cpp',
   'src/mesh.cpp', 'src/source_screen.cpp', 'src/screen.cpp', 'src/logger.cpp', 'src/dipole.cpp'],
  [('named constants and documented units of the class members', 'src/global.h, class headers'),
   ('Vay stepper, Lienard-Wiechert fields, device fields, FEL equations', 'src/*.cpp')],
  tech=GT + ': physical-unit type system',
  note='Exact for unit errors in analysed formulas; pure numbers (wrong numeric prefactors, signs) are outside. Trusts the declared '
       'units of public members/methods (lib/grade.py) and clang.')

P('U02', 'Results follow a shift of the origin of time and of space',
  'Absolute times and positions are never confused with durations and displacements: shifting the origin of the clock or of the '
  'coordinate system of a whole set-up shifts all absolute results by the same amount and leaves everything else unchanged.',
  ['inputs', 'configurations'], 'all start times, positions of sources, observers and devices',
  'All tests start at t=0 and most place the origin at the source, where an offset that is added twice or forgotten is invisible.',
  ['src/particle.cpp', 'src/bunch.cpp', 'src/beam.cpp', 'src/fieldtrace.cpp', 'src/screen.cpp', 'src/point_observer.cpp',
   'src/snapshot.cpp', 'src/source_screen.cpp', 'src/mesh.cpp', 'src/wave.cpp', 'src/undulator.cpp', 'src/dipole.cpp'],
  [('LocalizedField shifts (t,X) by (t0,origin) before the local field is evaluated', 'src/fields.cpp'),
   ('FieldTrace sample times t0+i*dt', 'src/fieldtrace.cpp'), ('retarded time search', 'src/particle.cpp')],
  tech=GT + ': origin-weight (affine) type system',
  note='Sound for sums, interfaces, comparisons and products whose weights are decided by the structure; interpolation/accumulation '
       'results have undecided weight and are not reported.')

P('U03', 'Vector formulas are mirror covariant',
  'Reflecting sources, external fields and observers at a coordinate plane reflects trajectories, and radiated and external fields '
  'accordingly (electric field polar, magnetic field axial): no formula of the frame-independent part of the code adds, assigns or '
  'returns quantities of different mirror parity, i.e. no vector components or E/B are mixed up.',
  ['inputs'], 'all positions, momenta and field directions',
  'Tests use one particular geometry each (motion along z, fields along x or y), where mixed-up components that vanish there cannot show.',
  ['src/particle.cpp', 'src/bunch.cpp', 'src/beam.cpp', 'src/dipole.cpp', 'src/fields.cpp', 'src/vector.cpp', 'src/fieldtrace.cpp',
   'src/screen.cpp', 'src/snapshot.cpp', 'src/point_observer.cpp'],
  [('Vector/ElMagField algebra', 'src/vector.cpp, src/fields.cpp'), ('Vay push and retarded fields', 'src/particle.cpp'),
   ('edge fields of dipoles', 'src/dipole.cpp')],
  tech=GT + ': Z2^3 mirror-parity type system',
  note='Decides parity consistency, a necessary condition of covariance; overall signs and numeric factors are outside. Devices with '
       'built-in axes (undulators, waves, FEL, meshes) are exempt by name.')

VN = ('abstract interpretation of the type-checked trees into value numbers and effect summaries (helpers inlined, loops in closed form), '
      'no execution of the repository')
RI = '; formulas compared by random interpretation of the value-number terms'

P('S01', 'Packed particle, bunch and beam state is restored unchanged',
  'A particle rebuilt from the buffer written by serialize() has the charge, mass and last trajectory point (time, position, momentum, '
  'acceleration) of the original; one rebuilt from serializeTraj() has every trajectory point and everything needed to continue '
  'tracking. Bunch/Beam bufferStep and setStepFromBuffer, bufferProbe, bufferCoordinates and Distribution buffers transport every '
  'particle\'s values in the same order, exactly fill the announced size and return the end of what they wrote; a step received is counted.',
  ['inputs', 'histories'], 'all particles with any number of trajectory points, all bunch and beam sizes',
  'These buffers carry the particles between MPI ranks; the unit tests run on one rank and never compare a restored object with the '
  'original.',
  ['src/particle.cpp', 'src/bunch.cpp', 'src/beam.cpp'],
  [('serialize/serializeTraj and the buffer constructors', 'src/particle.cpp'), ('bufferStep/setStepFromBuffer', 'src/bunch.cpp, src/beam.cpp')],
  tech=VN + RI + ': buffer layout, writer against reader',
  note='What the methods of the restored object return equals the original at random points, for particles of 0 to 3 trajectory points, '
       'bunches of 0 to 3 particles, beams of 0 to 3 bunches and distributions up to 4 x 7. Assumes that all trajectory arrays have NP entries (I01).')

P('V01', 'Particle tracking follows the published Vay scheme',
  'InitVay() and StepVay() realise the leap-frog scheme of J.-L. Vay (Phys. Plasmas 15, 056701): the field is sampled exactly once per '
  'step, at the half-step time and position, time advances by the time step, the position by the velocity at the step boundary, the '
  'momentum by the two half kicks of eqs. (3), (11), (12), (13), and the stored acceleration is q/m (E/c + beta x B) with the charge and '
  'mass of the particle.',
  ['inputs', 'histories'], 'all charges, masses, momenta, fields and time steps, any number of steps',
  'Tests follow a few particles in special fields (pure E, pure B, crossed) with tolerances; terms that vanish there, like the component '
  'of u along B in a strong field, are not seen.',
  ['src/particle.cpp'], [('InitVay, StepVay', 'src/particle.cpp')],
  tech=VN + RI,
  note='Equality of the extracted update formulas with the scheme as algebraic functions (probability of a false match negligible); '
       'floating-point rounding is outside.')

P('V02', 'Radiated fields are the Lienard-Wiechert fields of the retarded source point',
  'ChargedParticle::RetardedField returns the Lienard-Wiechert field of the point of the trajectory whose signal arrives at the '
  'observer at the given time: a stored point, one interpolated with a single common fraction for position, momentum and acceleration '
  'between two stored points bracketing the retarded time, the uniform motion before the first point; and zero after the signal of the '
  'last point. The stored acceleration is d(beta gamma)/dt; dbeta/dt follows from it for any force. CoordinatesAtTime interpolates linearly between the two stored points around the time and gives zero outside; '
  'RetardedTime is emission time plus distance over c.',
  ['inputs', 'histories'], 'all trajectories, observers and times',
  'A handful of trajectories (circular loop, undulator) with observers in the far field are tested; interpolation inside a step, '
  'near fields and observation before the first or after the last point are not.',
  ['src/particle.cpp'], [('RetardedField (index and time), CoordinatesAtTime, RetardedTime', 'src/particle.cpp')],
  tech=VN + RI + '; inductive invariant of the bisection loops',
  note='Equality of extracted formulas with the Lienard-Wiechert expression; convergence of the Newton refinement of the retarded time '
       'is outside.')

P('V04', 'Bunch and beam observables are the statistics of all particles',
  'Bunch::avgTime, avgPosition, avgMomentum, rmsPosition, rmsMomentum, avgGamma, delta, getTotalCharge, getNOP and BunchingFactor (and '
  'their Beam counterparts) are the sample statistics of the current state of all particles, each counted once, with documented '
  'normalisation and phase. A bunch generated from a distribution has one particle per row, starting at reference plus coordinate; '
  'scale, addCorrelation and setCoordinate change exactly the addressed coordinates and nothing for indices out of range.',
  ['inputs'], 'all bunches and beams of any size and particle state',
  'Tests evaluate few of these methods on one random sample with statistical tolerances that hide a missing particle, a wrong '
  'normalisation by N-1 or a missing subtraction of the mean.',
  ['src/bunch.cpp', 'src/beam.cpp'], [('statistics loops', 'src/bunch.cpp, src/beam.cpp'), ('Bunch(Distribution,...)', 'src/bunch.cpp')],
  tech=VN + RI + '; loop summaries folded over all particles',
  note='Equality with the definition for bunches of up to 7 and beams of up to 7x7 particles at random points of the state; '
       'rounding is outside.')

P('V05', 'Vector, field and waveform arithmetic is exact and refuses incompatible operands',
  'The operators and methods of Vector, ElMagField and FieldTrace are the documented componentwise/sample-wise operations (sum, '
  'difference, negation, scaling, dot, cross, norm, normalisation, Poynting vector; sums, scaling, derivative, retardation and '
  'transformation of traces) for all samples; compound assignments agree with the binary operators; the time axis of a trace '
  '(get_t0, get_dt, get_N, get_time, get_last_time) is preserved; combining traces with different sampling, and reading samples out '
  'of range, is refused with an exception and never silently truncated.',
  ['inputs'], 'all vectors, fields and traces of any length',
  'Unit tests use one or two vectors with small integer components and a single trace; swapped components or a missed first/last '
  'sample stay hidden.',
  ['src/vector.cpp', 'src/fields.cpp', 'src/fieldtrace.cpp'],
  [('operators', 'src/vector.cpp, src/fields.cpp'), ('FieldTrace', 'src/fieldtrace.cpp')],
  tech=VN + RI,
  note='Equality of the extracted value terms with the definition at random points, for every sample index; rounding is outside.')

P('V03', 'Lattice elements produce their documented fields at their place and time',
  'The field reported by a planar or transverse-gradient undulator, hard- or soft-edge dipole, Gaussian wave, Gaussian wave packet or '
  'homogeneous field is the documented function of the set-up parameters, evaluated in local coordinates shifted by the position and '
  'time of the element; including the linear end ramps, zero outside, and zero for an element that was never set up. Reported '
  'parameters (peak field, period, K, wavelength) are those set up.',
  ['inputs', 'configurations'], 'all parameters, positions and times',
  'Tests track one electron close to the axis through one undulator and one dipole at the origin; off-axis fields, ramps, the gradient '
  'and modulation terms, time offsets and waves away from the waist are never compared.',
  ['src/undulator.cpp', 'src/dipole.cpp', 'src/wave.cpp', 'src/fields.cpp'],
  [('LocalField of the elements', 'src/undulator.cpp, src/dipole.cpp, src/wave.cpp'), ('LocalizedField::Field', 'src/fields.cpp')],
  tech=VN + RI,
  note='Equality of the extracted field formulas (constructor, Setup and Field composed) with the documented ones in every region of the element.')

P('L01', 'Fields superpose; every request reaches each member exactly once',
  'The retarded field of a bunch is the sum over its particles, that of a beam the sum over its bunches, the field of a lattice the sum '
  'over its elements, all at the requested time and place. InitVay/StepVay, setupTracking/doStep, clearTrajectories, preAllocate and '
  'integrateFieldTrace of a bunch or beam do the same operation exactly once, with the same arguments (and the time step of the beam), '
  'on each member. Add()/addElement() append exactly the given object.',
  ['inputs', 'histories'], 'all bunches, beams and lattices with any number of members',
  'Tests use one particle in one bunch in one lattice element; a member left out, visited twice, or served with other arguments '
  'only shows with several.',
  ['src/bunch.cpp', 'src/beam.cpp', 'src/fields.cpp'],
  [('loops over members', 'src/bunch.cpp, src/beam.cpp, src/fields.cpp')],
  tech=VN + RI + '; loops unrolled symbolically, multiset of member requests',
  note='Checked for 0 to 4 members at points of all other inputs that include every constant the code compares with.')

P('V06', 'Observers sample every cell once, at its documented place and time',
  'A ScreenObserver cell (ix,iy) samples the field of its beam, bunch or lattice at position + dx*(ix-Nx/2) + dy*(iy-Ny/2) (integer '
  'halves) with a trace starting at t0 + dtx*(ix-Nx/2) + dty*(iy-Ny/2); a SnapshotObserver samples its grid at its one observation time; a '
  'PointObserver and a MeshedScreen sample at their point / field points and start times. Every cell and sample is visited exactly once; '
  'a lattice is sampled at t0 + it*dt. A particle contributes to each sample the average of its (piecewise linear) retarded field over '
  'the interval of one dt centred at the sample time, and nothing if its trajectory or the trace is too short.',
  ['inputs', 'configurations'], 'all observer geometries, sizes and sampling parameters, all waveforms',
  'Tests use square, centred observers with zero start-time gradients and few cells; exchanged indices, shifted cells, missing last '
  'samples or misplaced time windows do not show there.',
  ['src/screen.cpp', 'src/snapshot.cpp', 'src/point_observer.cpp', 'src/mesh.cpp', 'src/particle.cpp'],
  [('integrate / integrate_mp of the observers', 'src/screen.cpp, src/snapshot.cpp, src/point_observer.cpp, src/mesh.cpp'),
   ('ChargedParticle::integrateFieldTrace', 'src/particle.cpp')],
  tech=VN + RI + '; multiset of source requests per cell',
  note='Checked at small grid sizes and points that include every constant the code compares with; the value of the source field itself is V02/V03/L01.')

P('V07', 'Screen geometry, energy flow and Kirchhoff propagation of recorded fields',
  'MeshedScreen::init gives every cell the area and normal of its triangle and a right-handed orthonormal system (xi,eta,n) for every '
  'mesh orientation; get_Neighbourhood lists exactly the cells sharing a corner; totalEnergy() is the energy flow against the normal '
  'times area, summed over all cells. A SourceScreen read from a file carries in every cell the samples and time axis the file has for it, '
  'purely transverse, in the coordinate system of the file; its field is the Kirchhoff sum over all cells of field and time '
  'derivative at the retarded time, for every orientation of the screen.',
  ['inputs', 'configurations'], 'all meshes, screen files, orientations, observation points and times',
  'Tests use one flat mesh and one screen perpendicular to z; wrong frames, signs or exchanged indices vanish in that orientation.',
  ['src/mesh.cpp', 'src/source_screen.cpp'],
  [('MeshedScreen::init, totalEnergy, get_Neighbourhood', 'src/mesh.cpp'), ('SourceScreen constructor, LocalField, totalEnergy', 'src/source_screen.cpp')],
  tech=VN + RI + '; symbolic model of the file read through HDF5',
  note='Compared at random meshes of up to 5 cells and screens of up to 4x4 cells in random orientations; derivative() and interpolation of traces are V05.')

P('S02', 'An observer buffer holds every sample exactly once and restores it',
  'getBuffer() of a ScreenObserver, SnapshotObserver, PointObserver or MeshedScreen returns a new array of getBufferSize() doubles: '
  'Ex,Ey,Ez,Bx,By,Bz of every sample, cells in the order (ix,iy) or of the field points, samples of a cell in the order of time. '
  'fromBuffer() puts every value back into the component, sample and cell it came from, and refuses a buffer of any other size without '
  'changing the observer.',
  ['inputs', 'configurations'], 'all observers, grid sizes, numbers of samples and field values',
  'Nothing in the tests moves fields through these buffers; in parallel runs and in output files an exchanged component or cell is '
  'silent.',
  ['src/screen.cpp', 'src/snapshot.cpp', 'src/point_observer.cpp', 'src/mesh.cpp'],
  [('getBuffer, fromBuffer, getBufferSize', 'src/screen.cpp, src/snapshot.cpp, src/point_observer.cpp, src/mesh.cpp')],
  tech=VN + RI,
  note='getBuffer and fromBuffer interpreted on one symbolic buffer and compared slot by slot at small grids.')

P('E01', 'No failing file operation goes unnoticed',
  'Whenever an HDF5 or SDDS operation of a writer or reader fails, the caller learns about it: the function throws, or returns a value '
  'it never returns in case of success (WriteWatchPointHDF5: negative, WriteWatchPointSDDS: nonzero), or - Bunch read from an SDDS '
  'file - leaves the object empty. No output file is reported as written and no object as read if one of the operations failed. '
  'If all operations succeed, no error is reported.',
  ['fault_sequences', 'inputs'], 'every single failing operation (full disk, truncated or incomplete file) in every writer and reader',
  'Tests never make a file operation fail; a missing or wrong test of one of the 600 status values is silent until data are lost.',
  ['src/screen.cpp', 'src/snapshot.cpp', 'src/mesh.cpp', 'src/point_observer.cpp', 'src/logger.cpp', 'src/beam.cpp', 'src/bunch.cpp',
   'src/source_screen.cpp', 'src/fel1d.cpp'],
  [('status checks of all HDF5 and SDDS calls', 'src/*.cpp')],
  tech=VN + '; fault-branch execution of the effect summary: each file operation in turn is assumed to fail',
  note='One failing operation at a time; operations on an identifier that could not be made fail as well. An attribute that may be '
       'absent (H5Aopen, H5Lexists) counts as handled if nothing is done with it. Queries of valid identifiers cannot fail.')

P('E02', 'Files are closed and buffers released exactly once',
  'When a writer or reader has finished, every HDF5 identifier it made (file, dataset, dataspace, attribute, property list), every '
  'SDDS data set and every buffer it allocated has been released, once, by the matching call, and none is used afterwards: the file is '
  'complete on disk and repeated writing does not exhaust memory or identifiers.',
  ['histories', 'inputs'], 'all writers and readers, all amounts of data (including none), any number of files written in one run',
  'A leaked identifier keeps the HDF5 file open until the process exits; tests read no file back and cannot see it.',
  ['src/screen.cpp', 'src/snapshot.cpp', 'src/mesh.cpp', 'src/point_observer.cpp', 'src/logger.cpp', 'src/beam.cpp', 'src/bunch.cpp',
   'src/source_screen.cpp', 'src/fel1d.cpp'],
  [('H5*close, SDDS_Terminate, delete[] of the writers and readers', 'src/*.cpp')],
  tech=VN + '; typestate of identifiers and buffers over the effect summaries',
  note='Executions in which every operation succeeds; the state after a reported error is not claimed.')

P('D01', 'Output files contain exactly what the object holds',
  'A file written by an observer, a logger, a beam or bunch watch point or FEL_1D has the documented data sets, attributes, parameters '
  'and columns, with the sizes the object has, and every value stands at its place: fields of a screen [Nx,Ny,NOTS,6] in cell and time '
  'order, positions of its cells, screen vectors (origin, normal, dX, dY), time axis and grid attributes; snapshot fields [Nx,Ny,6] and '
  'the particle coordinates at the snapshot time; point traces row by row with their times; one row or block per logged step with the '
  'quantities the beam had in that step; all particles of all bunches in order in watch points; interaction field and current density '
  'of every recorded FEL step. Values are written with the type the file declares.',
  ['inputs', 'histories'], 'all grid and trace sizes, all numbers of recorded steps, bunches and particles (including empty bunches)',
  'Swapped dimensions or columns produce a well-formed file with plausible numbers; no test reads a file back, and square grids or '
  'single-bunch beams hide most mistakes.',
  ['src/screen.cpp', 'src/snapshot.cpp', 'src/point_observer.cpp', 'src/logger.cpp', 'src/beam.cpp', 'src/bunch.cpp', 'src/fel1d.cpp'],
  [('ScreenObserver/SnapshotObserver/PointObserver::generateOutput', 'src/*.cpp'), ('ParameterLogger/TrajectoryLogger/ProbeLogger::update, WriteData', 'src/logger.cpp'),
   ('WriteWatchPointHDF5/SDDS', 'src/beam.cpp, src/bunch.cpp'), ('FEL_1D::write_output', 'src/fel1d.cpp')],
  tech=VN + '; symbolic file model: the data sets, attributes, parameters and rows a writer produces are computed from its effect summary and compared with the documented contents' + RI,
  note='Names of data sets and columns are the documented ones; additional data sets or attributes are allowed. The statistics themselves '
       'are V04, the buffer contents of observers S02.')

P('D02', 'A mesh screen keeps what its file says, and writes it back',
  'A mesh screen constructed from a file holds exactly the corner points, observation positions, triangles (in order of their corners), '
  'start times, time step, number of samples and fields of the file, cell by cell and sample by sample; without a time data set the '
  'traces are empty, without a field data set they are zero. Writing the screen (generateOutput, or writeFile under a given name) '
  'produces a file with the same contents, so that any chain of reading, computing and writing keeps the geometry and the time axes.',
  ['inputs', 'histories'], 'all mesh files (complete, without fields, geometry only), all numbers of corners, cells and samples',
  'The tests read one mesh file without fields and never read back what they write; swapped corners turn normals around silently.',
  ['src/mesh.cpp', 'src/fieldtrace.cpp'],
  [('MeshedScreen(filename), writeFile, generateOutput', 'src/mesh.cpp')],
  tech=VN + '; symbolic file model on both sides: the constructor is interpreted on modelled files, then the writer on the resulting object' + RI,
  note='Files as the documentation describes them; malformed files are not claimed here. FieldTrace itself is V05.')

XF = ['src/parser.cpp', 'src/parser.h']

P('X01', 'The lattice section of the input creates exactly the described elements',
  'parseLattice() creates one element for every undulator (planar, transverse gradient), wave (gaussian, packet), dipole (hard edge, '
  'soft edge), screen and background entry of the <lattice> section, of the documented kind, in document order, and returns their number. '
  'Every parameter of an element has the value the document gives it - numbers, expressions and variables - so that the field of the '
  'element is the documented field with these parameters at the documented place and time. Variables defined by <calc> entries of the '
  'section or of an element are evaluated once, before the parameters that follow them.',
  ['inputs', 'configurations'], 'all documents: any number and order of elements, optional entries present or absent, any parameter values and expressions',
  'The tests read two or three fixed input files; swapped or misread attributes of entry types not in these files, and values that '
  'coincide there (zero offsets, unit vectors), are not seen.',
  XF + ['src/undulator.cpp', 'src/wave.cpp', 'src/dipole.cpp', 'src/fields.cpp', 'src/source_screen.cpp'],
  [('parseLattice', 'src/parser.cpp'), ('node constructors of the elements', 'src/*.cpp')],
  tech=VN + '; the effect summary of the parser function is evaluated on modelled documents' + RI,
  note='Documents are generated from the documented grammar (random structure and values, several hundred per run); pugixml and muparser '
       'are modelled by their documented behaviour. Bounded number of documents.')

P('X02', 'The beam section of the input creates exactly the described beam',
  'parseBeam() creates one bunch for every particle, bunch and SDDS entry of the <beam> section, in document order, with the charge, '
  'mass, energy, mean position and momentum, start time, RMS sizes, momentum spread and linear correlations the document gives, and '
  'returns their number. Every log, trajectories and probe entry creates one logger of the documented kind for the right bunch (or the '
  'whole beam), with the given file name, step and options. Variables defined by <calc> entries are evaluated before the values '
  'that follow them, once.',
  ['inputs', 'configurations'], 'all documents: any number and order of entries, optional parts present or absent, any parameter values and expressions',
  'No test describes a bunch with all optional parts; a mixed-up coordinate or a missing factor beta*gamma gives a beam that looks '
  'plausible and simulates without any error.',
  XF, [('parseBeam', 'src/parser.cpp')],
  tech=VN + '; the effect summary of the parser function is evaluated on modelled documents; coordinate distributions as linear forms of independent random numbers',
  note='As X01. The quasi-random number generator itself is trusted (V04 decides what Distribution does with it).')

P('X03', 'The tracking and observer sections of the input set up exactly what is described',
  'parseTracking() sets the documented tracking method, time step and number of steps of the beam and creates one watch point for '
  'every watch (HDF5) or watch-sdds entry, with its file name and step, and one FEL interaction for every fel1d entry, with the time '
  'step of the tracking. parseObservers() creates one observer for every snapshot, screen, mesh and point entry, in document order, with '
  'the source (beam or lattice) the document names (beam if none is named), its file name, position, pitches, numbers of points, '
  'times and time steps; the fields of a mesh read from a file are set to zero. <calc> entries are evaluated before the values that '
  'follow them.',
  ['inputs', 'configurations'], 'all documents: any number and order of entries, both sources, optional parts present or absent, any parameter values and expressions',
  'Tests read one observer of two kinds; exchanged horizontal and vertical parameters, wrong sources or steps give well-formed output '
  'of something else.',
  XF + ['src/fel1d.cpp', 'src/screen.cpp', 'src/snapshot.cpp', 'src/point_observer.cpp', 'src/mesh.cpp'],
  [('parseTracking, parseObservers', 'src/parser.cpp')],
  tech=VN + '; the effect summary of the parser function is evaluated on modelled documents',
  note='As X01.')

P('X04', 'Faulty input documents are refused, never silently completed or ignored',
  'An input document in which a required part is missing or a name is unknown makes the parser throw an IOexception instead of '
  'continuing with a default or an incomplete object. Required are: the sections lattice, beam, tracking and observer; method, delta_t '
  'and n of tracking; position and field of undulators and waves, B, p1, n1, p2, n2 (and transition) of dipoles, position and file of '
  'screens; position and momentum of particles and bunches; indep, dep, factor of correlations; the file of every log, trajectories, '
  'probe, watch and SDDS entry, and the step of watch points; N, position, prop, pol, mode of fel1d; file, position, time and pitches '
  'with their numbers of points of observers. Names are: entries of the four sections, types of undulators, waves, dipoles and '
  'correlations, tracking methods and observer sources. Complete documents are not refused.',
  ['inputs', 'fault_sequences'], 'every required part of every entry of the documented grammar, one missing or wrong at a time',
  'Tests contain no faulty document; a missing check turns a typing error in an input file into hours of computing something else.',
  XF + ['src/fel1d.cpp', 'src/source_screen.cpp', 'src/undulator.cpp', 'src/wave.cpp', 'src/dipole.cpp'],
  [('checks of parse* functions and node constructors', 'src/parser.cpp, src/*.cpp')],
  tech=VN + '; fault-branch evaluation of the effect summaries on modelled documents with one part removed or misspelt',
  note='One fault per document. Missing numerical attributes read as zero as documented by pugixml and are not claimed unless listed.')

P('X05', 'Input expressions mean what the manual says',
  'The calculator of the input parser knows the documented constants _c, _e, _mec2, _eps0, _mu0, _h, _pi with their SI values. A '
  '<calc var="..." eq="..."/> entry defines the variable with the value of the expression on every node of a parallel job, also if it is '
  'printed or not; all entries among the direct children of a section are evaluated, in order. parseDouble() returns the value of the '
  'expression of an attribute, parseInt() the nearest integer.',
  ['inputs', 'configurations'], 'all expressions, any number of definitions, all ranks',
  'Tests use one variable and read back one value on one rank; a constant nobody used, or a variable defined on rank 0 only, goes unnoticed.',
  XF, [('InputParser(), parseCalc, parseCalcChildren, parseDouble, parseInt', 'src/parser.cpp')],
  tech=VN + '; the effect summaries are evaluated on modelled documents',
  note='muparser is trusted to evaluate expressions.')

JR = (VN + '; the effect summary of main() over the public interface of the library is evaluated for modelled parallel jobs, all nodes '
      'together, with objects reduced to identities')
HY = ['src/teufel_hybrid.cpp']

P('K01', 'A simulation run tracks, logs and writes at the right steps',
  'A run of the program makes exactly the requested number of tracking steps of the beam, with the tracking method and time step of the '
  'input, in the fields of all lattice elements and all interactions, each once. Interactions are initialised with the total beam before '
  'the first step and advanced once after every step with the total beam at that step, on every node; their output is written once, '
  'after the last step. Loggers record the initial beam and every step they request, the probe logger is created with its file, step '
  'and number, and each logger writes its data once after tracking. Each watch point is written once, in its format, to its file, from '
  'all particles, at its step (including step 0); watch points later than the last step are not written.',
  ['inputs', 'configurations', 'schedules'], 'all numbers of nodes, bunches, particles, steps, loggers, watch points, interactions',
  'The main program is in no test except for one run on one node whose exit code is checked.',
  HY, [('main(): set-up, tracking loop, output', 'src/teufel_hybrid.cpp')],
  tech=JR,
  note='14 modelled jobs of 1-4 nodes with up to 3 bunches, 9 particles, 5 steps, all kinds of loggers and watch points; the classes used are '
       'covered by S01, V01, X03, D01. Trusts MPI.')

P('K02', 'Observed fields contain every source exactly once, on any number of nodes',
  'Each observer output of a run is written exactly once and contains the field of every particle of the beam exactly once with its '
  'complete trajectory (source beam), or the field of every lattice element exactly once and of no interaction (source lattice), '
  'whatever the number of nodes and the distribution of the particles to nodes. A snapshot holds the coordinates of all particles.',
  ['inputs', 'configurations', 'schedules'], 'all numbers of nodes, particles, observers of both sources',
  'No test runs on more than one node, where contributions counted per node, or missing from the other nodes, first appear.',
  HY, [('main(): observation and MPI_Reduce', 'src/teufel_hybrid.cpp')],
  tech=JR,
  note='As K01. Summation over the particles of a beam and cells/samples of an observer is V06; buffers are S02.')

P('M01', 'Parallel runs do not deadlock, overflow their buffers or lose particles',
  'On any number of nodes all nodes call the same collective operations in the same order with matching counts, types and root; every '
  'buffer is as large as what is written into it; every particle is tracked by exactly one node, starting from the beam of the first '
  'node, and the gathered states end up at the particle they belong to; only the first node writes files; nothing is used after it was '
  'deleted or deleted twice; every node calls MPI_Finalize.',
  ['inputs', 'configurations', 'schedules'], 'all numbers of nodes and particles, also fewer particles than nodes and numbers that do not divide',
  'No test runs on more than one node.',
  HY, [('main(): distribution, MPI_Bcast, MPI_Allgather, MPI_Reduce, clean up', 'src/teufel_hybrid.cpp')],
  tech=JR,
  note='As K01. All interleavings are covered as nodes communicate by blocking collectives only (another operation is reported as undecided).')

P('V08', 'The FEL field moves at the speed of light, driven by every particle once',
  'The one-dimensional FEL interaction, by default or as described by the input (position, prop, pol, mode, seed), holds a field on N cells '
  'of size c dt behind its head. Field() gives the value of the nearest cell as E along pol (orthogonal to prop) and B = prop x E / c. '
  'Every init()/step() advances the head by c dt along prop and the field by the discretised wave equation, so that a seeded packet moves on '
  'unchanged; step() adds the field of the transverse current of every particle of every bunch exactly once, with a Gaussian of two cells, '
  'at the position of the particle, over the area of the optical mode at that step. A beam with another time step or at another step, a '
  'particle or a field request beyond the grid or at another time is refused.',
  ['inputs', 'histories'], 'all set-ups, seeds, beams, positions and numbers of steps',
  'No test uses the FEL interaction.',
  ['src/fel1d.cpp', 'src/fel1d.h'], [('FEL_1D::FEL_1D, setup, seed, init, step, Field', 'src/fel1d.cpp')],
  tech=VN + '; the effect summaries of construction, init(), two steps and Field() are evaluated against the documented discretisation',
  note='Two steps from an arbitrary seed with random beams of up to three bunches; 24-33 cells. The area factor and the Gaussian '
       'normalisation are taken from the code comments; physical accuracy of the 1-D model is not judged.')

P('V09', 'propagate and reflection compute the Kirchhoff integral of the recorded fields',
  'propagate reads the source screen, the target geometry and writes to the third file the target with, in every cell, the sum over all '
  'source cells of dA/(4 pi) ( -R.n/R^3 F - R.n/(R^2 c) dF/dt + 1/R dF/dn ) of the fields retarded by R/c. The normal derivatives follow '
  'from Maxwell\'s equations and the in-plane gradients of a least-squares quadratic fit of the fields, at the same time, of the cells of '
  'the neighbourhood, however many these are, in the cell coordinate system. reflection does the same after reversing the tangential '
  'electric and the normal magnetic field of every sample of every cell. A missing file name stops the program.',
  ['inputs'], 'all screens, meshes, time axes and fields',
  'Both programs are in no test.',
  ['src/propagate.cpp', 'src/reflection.cpp'], [('main()', 'src/propagate.cpp'), ('main()', 'src/reflection.cpp')],
  tech='abstract interpretation of main() with screens, traces and matrices as mathematical values; the effect summary is evaluated against the documented integral',
  note='Screens of 7, 8 and 42 cells with random neighbourhoods, 2-5 samples; the methods of MeshedScreen and FieldTrace used are replaced '
       'by their documented meaning (they are covered by V05-V07, D02). Only the case without exceptions (no trace outside the time axis) is '
       'evaluated. The sign of the third term is as in the code (its author has doubts, see the @todo there).')

P('O01', 'Parallel loops give the same result for any number of threads and any schedule',
  'No two iterations of a loop shared between OpenMP threads interfere: everything an iteration writes is its own variable, a variable of '
  'the thread, the element of the result that belongs to this iteration only, or is synchronised; it does not read what other iterations '
  'write. Functions called on the shared source (particles, bunches, lattice elements) change nothing but the objects passed to them: no '
  'member, static or global variable.',
  ['schedules', 'inputs'], 'all interleavings and numbers of threads of every parallel region of the sources',
  'Tests compare single runs whose schedules hardly differ; a race shows up rarely and only on larger problems.',
  ['src/mesh.cpp', 'src/screen.cpp', 'src/snapshot.cpp', 'src/propagate.cpp', 'src/reflection.cpp', 'src/particle.cpp', 'src/fields.cpp'],
  [('omp parallel regions', 'src/screen.cpp'), ('omp parallel regions', 'src/mesh.cpp'), ('omp parallel regions', 'src/snapshot.cpp'),
   ('omp parallel regions', 'src/propagate.cpp'), ('RetardedField, Field: no side effects', 'src/particle.cpp')],
  tech='effect analysis: interprocedural write sets of every parallel region, location dependence on the iteration of the work-sharing loop, purity of the callees',
  note='Distinct elements of an array of pointers are taken as distinct objects. Diagnostic output to the terminal and the progress counter read '
       'for it are not considered.')

P('C01', 'Copying, shifting and mirroring a particle act on its complete state',
  'A copy of a ChargedParticle is indistinguishable from the original: all queries (current time, position, momentum, acceleration, fields at '
  'the probe, charge and every trajectory point) and everything the next tracking step depends on are equal. Shift() moves the current '
  'position and every trajectory point by delta, Mirror() reflects positions at the plane and the normal components of momentum and '
  'acceleration - including the state from which tracking continues - and both scale the charge; nothing else changes. A copy of a bunch has a '
  'copy of every particle in the same order. initTrajectory, storeTrajectoryPoint, setCurrentPoint, clearTrajectory and preAllocate change '
  'exactly the points they are documented to change. After every constructor and method the time, position, momentum and acceleration arrays '
  'have as many entries as points are counted (likewise for field traces, bunches and beams).',
  ['inputs', 'histories'], 'all charges, states and trajectories',
  'Tests compare one or two components of one particle; a forgotten member, point or component stays unseen.',
  ['src/particle.cpp', 'src/bunch.cpp', 'src/beam.cpp', 'src/fields.cpp'],
  [('ChargedParticle::ChargedParticle(const ChargedParticle*)', 'src/particle.cpp'), ('ChargedParticle::Shift', 'src/particle.cpp'),
   ('ChargedParticle::Mirror', 'src/particle.cpp'), ('Bunch::Bunch(Bunch*)', 'src/bunch.cpp'), ('storeTrajectoryPoint', 'src/particle.cpp')],
  tech='abstract interpretation: value numbers of all queries before and after each operation, evaluated against the documented effect; symbolic comparison of container sizes and counters',
  note='Values are compared for particles with 0 to 3 points (the operations treat every point alike); sizes are compared symbolically.')

P('I01', 'Nothing is computed from values that were never set',
  'Every constructor leaves the object in a defined state: on every path that does not throw, each number or pointer that a method called '
  'next may use has been given a value, whatever optional parts of the input are present. No effect, condition or result of a function '
  'depends on a local variable that was not set on the way there. Hence equal inputs give equal results.',
  ['inputs', 'configurations'], 'all constructor arguments, input documents and paths',
  'Memory of a fresh test process is mostly zero, so the tests pass with values never set; the paths concerned need absent optional input.',
  ['src/particle.cpp', 'src/beam.cpp', 'src/bunch.cpp', 'src/fel1d.cpp', 'src/logger.cpp', 'src/mesh.cpp', 'src/fields.cpp', 'src/undulator.cpp',
   'src/wave.cpp', 'src/parser.cpp', 'src/screen.cpp', 'src/snapshot.cpp', 'src/point_observer.cpp', 'src/source_screen.cpp'],
  [('constructors', 'src/particle.cpp'), ('FEL_1D::FEL_1D', 'src/fel1d.cpp'), ('ParameterLogger', 'src/logger.cpp'), ('parseBeam', 'src/parser.cpp')],
  tech='definite-assignment dataflow over the abstract interpretation of every constructor (followed by every method) and of every function with local variables',
  note='Elements of freshly allocated arrays and variables assigned only inside a try block are not followed. Members that a method with one '
       'pointer argument associates (Observer::setSource) may be unset until then.')

P('A01', 'Numerical results converge and conserve energy within the documented accuracy',
  'With decreasing time step the trajectories, radiated fields, propagated screen fields and FEL gain converge to the solution of the '
  'equations of motion and of Maxwell\'s equations at the order of the schemes; in static magnetic fields the particle energy and in '
  'closed systems the total energy is conserved to the discretisation error.',
  ['inputs', 'configurations'], 'all time steps, grid pitches and field strengths',
  'Each test has one step size and a fixed tolerance.',
  ['src/particle.cpp', 'src/fel1d.cpp', 'src/source_screen.cpp', 'src/propagate.cpp'], [('Vay stepper', 'src/particle.cpp')],
  na='An error bound depends on runtime magnitudes (fields, step sizes, curvature of trajectories) over unbounded step counts; no static argument '
     'in reach bounds them. That the code computes exactly the published schemes is decided by V01, V02, V06, V07, V08 and V09.')

P('A02', 'Generated bunches have the statistical properties of the requested distributions',
  'The coordinates of a generated bunch are independent samples of normal (or quiet-start) distributions with the given moments.',
  ['inputs'], 'all sizes of bunches and seeds', 'A test draws one sample.',
  ['src/bunch.cpp', 'src/parser.cpp'], [('Distribution::generateGaussian', 'src/bunch.cpp')],
  na='Independence and moments of the output of the random number generator are statistical facts about std::mt19937/normal_distribution (C++ library) '
     'and the runtime seed, not decidable from this source. How the drawn numbers are turned into coordinates is decided by X02 and V04.')

P('A03', 'Run time and memory scale as documented with particles, steps, threads and nodes',
  'A parallel run takes proportionally less time per node; memory is bounded by the trajectories stored and the observation buffers.',
  ['configurations'], 'all job sizes', 'Tests run small serial cases.',
  ['src/teufel_hybrid.cpp'], [('distribution of particles to nodes', 'src/teufel_hybrid.cpp')],
  na='Run time is a runtime quantity. What can be decided statically (every particle on one node, buffers released once, no deadlock) is in M01 and E02.')
