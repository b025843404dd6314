"""Source of properties.jsonl and MANIFEST.json."""
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if na:
        d['na'] = na
    else:
        d['technique'] = technique
        d['note'] = note
    PROPS.append(d)


SYM = 'Symbolic execution of the real Python code and of the LLVM IR of the generated C kernel; z3 decides each path; counterexamples replayed on real parcels'
SYMPY = 'Symbolic execution of the real Python code; z3 decides each path; counterexamples replayed on real parcels'
NOTE = ('Every path of the encoded code within the stated bounds is decided by the solver (exact-real model of floating point; libm functions uninterpreted). '
        'Trusts: the engine in lib/, z3, clang -O0 as the C semantics. ')

prop('S01', 'Scalar field samples follow the declared interpolation scheme',
     'Sampling a scalar field anywhere inside its domain yields exactly the value that the field\'s declared interpolation scheme (linear, nearest, '
     'land-aware inverse distance, B-grid and C-grid tracer/velocity placements) defines from the nodes of the grid cell containing the point, with '
     'the vertical convention of the declared grid indexing (NEMO, MITgcm, POP, MOM5). This holds in both Scipy and JIT mode.',
     ['inputs', 'configurations'], 'all node values and all positions/times inside the domain, per interpolation scheme, grid indexing and execution mode',
     'Tests sample a few points of a few smooth fields with loose tolerances; wrong nodes are only visible for asymmetric data and particular sub-cells.',
     ['parcels/field.py', 'parcels/include/parcels.h', 'parcels/include/index_search.h'],
     [('Python interpolators', 'parcels/field.py Field.interpolator2D/interpolator3D/spatial_interpolation'), ('C interpolators', 'parcels/include/parcels.h spatial_interpolation_*, temporal_interpolation_structured_grid')],
     SYM, NOTE + 'Rectilinear z-grids of 2-4 nodes per axis with symbolic data and positions; land-aware scheme at listed positions with symbolic data.')

prop('S02', 'Particles are located in the right grid cell, or a proper error is raised',
     'For every position and every previously remembered cell index, sampling uses the grid cell and relative coordinates that actually contain the point (a field '
     'holding the node coordinates returns the position itself), on rectilinear, curvilinear, z- and s-level, flat, spherical and zonally periodic grids. '
     'Positions outside the domain raise the out-of-bounds error (above the surface: the through-surface error), and no memory outside the grid arrays is ever accessed.',
     ['inputs', 'histories', 'configurations'], 'all positions inside and around the domain x all remembered indices, per kind of grid and mode',
     'The search is an iteration from a remembered index; tests only reach the index histories that smooth trajectories produce.',
     ['parcels/field.py', 'parcels/include/index_search.h', 'parcels/grid.py'],
     [('Python search', 'parcels/field.py Field.search_indices*'), ('C search', 'parcels/include/index_search.h search_indices*'), ('zonal periodicity', 'parcels/grid.py Grid.check_zonal_periodic')],
     SYM, NOTE + 'Concrete small grids, symbolic positions and remembered indices.')

prop('S03', 'Sampling in time: linear between snapshots, periodic or an error outside',
     'Between two snapshots a field value is the linear interpolation in time of the two spatial samples, and at a snapshot it is that snapshot. Outside the snapshots, sampling raises the '
     'time-extrapolation error unless extrapolation is allowed (then the nearest snapshot is used) or the field is time-periodic (then the value one or more whole periods away is used). '
     'The remembered time index never influences the result.',
     ['inputs', 'histories', 'configurations'], 'all times (forward and backward, several periods away), all remembered time indices, all data',
     'Tests use a few times with smooth data; period wrap-around, negative times and remembered indices are sampled at isolated points.',
     ['parcels/field.py', 'parcels/include/index_search.h', 'parcels/include/parcels.h'],
     [('Python time index', 'parcels/field.py Field.time_index, Field.eval'), ('C time index', 'parcels/include/index_search.h search_time_index')],
     SYM, NOTE + '1-4 (5) snapshots, symbolic time over several periods.')

prop('S05', 'Velocity vectors follow the grid staggering and the units of the mesh',
     'Sampling a velocity (UV or UVW) inside the domain gives the vector defined by its staggering: on A- and B-grids the componentwise interpolation, on C-grids the vector '
     'reconstructed from the fluxes through the faces of the cell containing the point (rectilinear, curvilinear, z- and s-levels, flat and spherical, NEMO and MITgcm indexing), '
     'linear in time between snapshots, expressed in degrees per second on spherical meshes and metres per second on flat ones. This holds in both Scipy and JIT mode.',
     ['inputs', 'configurations'], 'all face/node velocities, all positions of rectilinear grids, listed cells and relative positions of curvilinear and s-level grids, all times between snapshots',
     'Tests advect through idealised flows; a wrong face, metric term or unit factor only shows for asymmetric data, distorted cells or particular rows.',
     ['parcels/field.py', 'parcels/include/parcels.h', 'parcels/tools/interpolation_utils.py', 'parcels/tools/converters.py', 'parcels/codegenerator.py'],
     [('Python C-grid', 'parcels/field.py VectorField.spatial_c_grid_interpolation2D/3D_full'), ('C C-grid', 'parcels/include/parcels.h spatial_interpolation_UV_c_grid/UVW_c_grid'),
      ('units', 'parcels/tools/converters.py GeographicPolar')],
     SYM, NOTE + 'Grids of 2-4 nodes per axis; oracle is an independent flux-form reconstruction.')

prop('K01', 'Time stepping: every particle is advanced to exactly the end time',
     'Executing a kernel over an interval advances every particle from its own time to exactly the end of the interval through contiguous kernel calls of one time step each, in the direction of dt, never longer than dt, '
     'only the last one shortened and none superfluous; update_next_dt takes effect for the next call of that particle only. Particles at or past the end, or not yet started, are left alone. '
     'With dt=0 the kernel is called exactly once and time stands still. This holds forward and backward, in consecutive intervals, and in both Scipy and JIT mode.',
     ['inputs', 'histories', 'configurations'], 'all start times, interval lengths and time steps of either sign, consecutive intervals, both modes',
     'Tests use round numbers where every interval is a multiple of dt; shortened steps, late starters and floating remainders are rarely met.',
     ['parcels/kernel.py', 'parcels/compilation/codegenerator.py', 'parcels/particlesets/collectionsoa.py'],
     [('Python loop', 'parcels/kernel.py Kernel.execute_python'), ('C loop', 'parcels/compilation/codegenerator.py LoopGenerator.generate particle_loop')],
     SYM, NOTE + 'Two particles, up to 3 (thorough 5) steps per interval, two consecutive intervals; interval remainders modulo dt between 1e-10 and 1e-3 excluded.')

prop('K02', 'Failing, repeating or deleting kernels affect only their own particle',
     'When a kernel call fails (any error code, or field sampling outside the domain or time axis), asks to be repeated, stops or deletes its particle, the variables of that particle are rolled back to their values before the call, '
     'the recovery kernel registered for that error (out-of-bounds also covering through-surface) is called once with them and the particle then continues from there; deleted particles disappear and no others; '
     'without a recovery kernel the matching exception is raised. All other particles end exactly as if nothing had happened. This holds in both Scipy and JIT mode.',
     ['inputs', 'histories', 'faults', 'configurations'], 'all moments at which a kernel may fail, all mixes of failing/repeating/deleted/ordinary particles, all recovery choices, both modes and directions',
     'Tests exercise one failing particle at a time with fixed numbers; interference between particles needs particular mixes and moments.',
     ['parcels/kernel.py', 'parcels/tools/statuscodes.py', 'parcels/compilation/codegenerator.py', 'parcels/particlesets/collectionsoa.py'],
     [('error loop', 'parcels/kernel.py Kernel.execute'), ('rollback', 'parcels/kernel.py execute_python, codegenerator particle_backup'), ('default recovery', 'parcels/tools/statuscodes.py recovery_map')],
     SYM, NOTE + 'Up to three particles over two time steps; error thresholds, positions, start time and dt symbolic.')

prop('K03', 'The C code generated for a kernel computes the same as the Python kernel',
     'For every kernel in the documented language subset (arithmetic, division, modulo, powers, comparisons, nested boolean operators, if/elif/else, while/break, local variables and arrays, tuple assignment, math functions, abs/min/max, '
     'fieldset constants, field sampling in expressions and in tests, returned status codes, deletion, concatenated kernels), running it in JIT mode leaves the same particle variables, deletions and errors as running it in Scipy mode, for all values of the variables and fields.',
     ['inputs', 'configurations'], 'all particle variables and field data; all nestings of two operators or statements of the supported subset, plus a set of longer kernels and kernel concatenations',
     'Tests compare the two modes on a few expressions with fixed numbers; grouping, nesting and sign errors of the code generator appear only for particular combinations of values and operators.',
     ['parcels/compilation/codegenerator.py', 'parcels/compilation/codecompiler.py', 'parcels/kernel.py', 'parcels/include/parcels.h'],
     [('code generation', 'parcels/compilation/codegenerator.py IntrinsicTransformer, TupleSplitter, KernelGenerator'), ('Python execution', 'parcels/kernel.py Kernel.execute_python'), ('merging kernels', 'parcels/kernel.py Kernel.merge')],
     SYM, NOTE + 'Kernels: all two-level operator and statement nestings generated by checks/k03_gen.py and the curated ones of checks/k03_kernels.py; variables in [-4,4].')

prop('N01', 'Nested fields use the first covering field, summed fields add all of them',
     'Sampling a NestedField (scalar or vector) gives exactly the value of the first of its fields whose domain contains the position; it is out of bounds only outside all of them, and any other sampling error ends the search. '
     'Sampling a SummedField gives exactly the sum of all its fields and fails when any of them fails. Each field is interpolated on its own grid with its own unit conversion. This holds in both Scipy and JIT mode, in any expression.',
     ['inputs', 'configurations'], 'all positions, depths and times in and around the domains, all field data, overlapping and disjoint grids, both modes',
     'Tests sample a few positions of one pair of grids; an error of an earlier field, or a unit conversion of another field, shows only for particular positions.',
     ['parcels/field.py', 'parcels/compilation/codegenerator.py', 'parcels/fieldset.py'],
     [('Python', 'parcels/field.py NestedField.__getitem__, SummedField.__getitem__'), ('C', 'parcels/compilation/codegenerator.py visit_Summed*/Nested*FieldEvalNode')],
     SYM, NOTE + '2-3 fields on grids of 2 nodes per axis (2D, 3D, time-dependent).')

prop('C01', 'A ParticleSet holds exactly its particles, unique ids and initial values',
     'After any sequence of adding sets, removing particles by index, indices, boolean vector, id or ids, and deleting, a ParticleSet contains exactly the particles a plain list of records would contain, each with all its own variables and the remaining ones in their order; '
     'len, iteration (both directions), data_indices and look-ups by one or several ids agree with that; a collection flagged sorted is sorted. Ids are unique over all sets created. '
     'Every variable starts at the value given to the constructor or declared for it (constant or attrgetter of any other variable). Sets do not influence each other (data, variable types, write status).',
     ['inputs', 'histories', 'configurations'], 'all id values and orders, all variable values, all requests incl. repeated and unknown ids, all operation sequences up to the bound, all memory contents before initialisation',
     'Tests add and remove a few freshly numbered particles; look-up and ordering errors need particular id orders, repeated or unknown ids, or sequences of operations.',
     ['parcels/particlesets/collectionsoa.py', 'parcels/particlesets/particlesetsoa.py', 'parcels/particlesets/collections.py', 'parcels/particle.py'],
     [('collection', 'parcels/particlesets/collectionsoa.py ParticleCollectionSOA'), ('set', 'parcels/particlesets/particlesetsoa.py ParticleSetSOA.add, remove_*'), ('variables', 'parcels/particle.py ParticleType')],
     SYM, NOTE + 'Sets of up to 4 particles, two sets, operation sequences of length 2 (thorough: 3), requests of up to 3 ids; without MPI.')

prop('E01', 'ParticleSet.execute: outputs, callbacks and releases at their multiples',
     'For any mix of runtime or end time, time step and direction, output interval, callback interval and release interval: ParticleSet.execute integrates every particle from its own start time to exactly the end without gap or overlap and not before its start; '
     'output is written at the start, at every multiple of outputdt and at the end, callbacks run at every multiple of callbackdt, both seeing all started particles at that very time; with repeatdt a copy of the original particles, with their initial values, is released at every multiple of repeatdt. '
     'Consecutive calls continue one another as one long call would. A repeatdt that is not positive or comes with differing start times is refused.',
     ['inputs', 'histories', 'configurations'], 'all start times, time steps, directions and all combinations of intervals (multiples of half a time step), staggered starts, consecutive calls, both modes, with and without FieldSet',
     'Tests use a handful of interval combinations that are multiples of dt, mostly forward; coincidences and remainders of the intervals matter.',
     ['parcels/particlesets/baseparticleset.py', 'parcels/particlesets/particlesetsoa.py', 'parcels/kernel.py'],
     [('schedule', 'parcels/particlesets/baseparticleset.py BaseParticleSet.execute'), ('releases', 'parcels/particlesets/particlesetsoa.py ParticleSetSOA.__init__ repeatdt')],
     SYM, NOTE + 'Runs of up to 6 (thorough 8) half time steps, 1-2 (thorough 3) consecutive calls, 1-2 initial particles.')

prop('F01', 'The trajectory file holds exactly the successive states of every particle',
     'Whatever the sequence of outputs, deletions, releases and runs (forward, backward, consecutive), the exported file has exactly one row per particle ever written, in id order, whose observations are the values of that particle at its successive outputs '
     '(started particles at each output time; its last state once when it is deleted; only the latter with write_ondelete), variables written once hold the value at the first output after the start or at deletion, variables not to be written do not appear, and nothing else is in the file. '
     'If the run is interrupted at any point, converting the temporary files gives everything written by completed writes.',
     ['inputs', 'histories', 'crash points', 'configurations'], 'all values, times and time steps at every output, all sequences of output/deletion/addition up to the bound, all intervals and ages at deletion of whole runs, any point of interruption',
     'Tests write a few particles at regular times; lost or misplaced rows need particular ids, deletion moments, late starters, or a run interrupted at one file operation.',
     ['parcels/particlefile.py', 'parcels/particlesets/collectionsoa.py', 'parcels/kernel.py', 'parcels/scripts/convert_npydir_to_netcdf.py'],
     [('selection', 'parcels/particlesets/collectionsoa.py toDictionary'), ('files', 'parcels/particlefile.py ParticleFile.write, export, read_from_npy'), ('deletions', 'parcels/kernel.py remove_deleted_soa')],
     SYM, NOTE + '2-3 particles, histories of 3 (thorough 4) operations; interruptions at every file operation; netCDF library replaced by a stand-in while exploring.')


prop('L01', 'Deferred loading of snapshots is invisible to the particles',
     'When a FieldSet read from files loads its snapshots while it runs, every field sample a kernel takes between the time and time + dt of its particle has exactly the value the complete time series gives (linear between snapshots, periodic, or extrapolated where allowed), '
     'however the snapshots are spread over files and fields, at whatever time the run starts, forward or backward, for consecutive runs and turns of direction, and for particles that start later. Every particle is executed to the end; leaving a time axis that may not be extrapolated is reported as such, never sampled.',
     ['inputs', 'histories', 'configurations'], 'all start times (inside, at and beside the snapshots, several periods away), time steps, run lengths and directions; sequences of two runs; both modes',
     'Tests run forward from the first snapshot of evenly spaced files; errors need a start between two snapshots, a backward run, a turn, or a period boundary within one step.',
     ['parcels/fieldset.py', 'parcels/grid.py', 'parcels/field.py', 'parcels/fieldfilebuffer.py', 'parcels/include/index_search.h'],
     [('loading', 'parcels/fieldset.py FieldSet.computeTimeChunk; parcels/grid.py Grid.computeTimeChunk'), ('files', 'parcels/field.py Field.collect_timeslices, from_netcdf, computeTimeChunk'), ('sampling', 'parcels/field.py Field.time_index; search_time_index of index_search.h')],
     SYM, NOTE + 'Series of 3-5 snapshots at uneven whole times, 1-3 per file, one or two fields; times, steps and run lengths are multiples of a quarter, up to 2-5 steps of up to 4 s, 1-2 runs, 1-2 particles.')
