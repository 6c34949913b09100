"""Regenerates /verif/properties.jsonl (kept as code so that long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Compiled kernels never touch memory they do not own",
     "Executing any particle kernel in compiled mode only reads and writes memory belonging to the particle set and to the loaded field and grid data, and performs no undefined arithmetic, whatever the particle positions, grid shapes, staggering, chunking and time windows are. A particle at, on or beyond the edge of a grid, a chunk or the time axis yields a value or a reported error, never a stray access.",
     ["inputs", "configurations", "histories"],
     "All grid kinds and sizes (including length-1 dimensions), interpolation methods, indexing conventions, chunk layouts, positions in and out of the domain, and all sequences of cells a particle visits.",
     "The tests load the compiled code without any memory checking, so a stray read only shows if it happens to change an asserted number.",
     ["parcels/include/index_search.h", "parcels/include/parcels.h", "parcels/include/interpolation_utils.h", "parcels/compilation/codegenerator.py", "parcels/kernel.py", "parcels/field.py"],
     [("index search clamps cell indices", "parcels/include/index_search.h"), ("cell gathering copies only valid neighbours", "parcels/include/parcels.h:getCell2D/getCell3D"), ("chunk request/reload protocol", "parcels/kernel.py:execute_jit + parcels/include/parcels.h")],
     ["AddressSanitizer/UBSan reports of the generated shared object", "exit status of the process running the kernel"])

prop("C02", "Compiled and interpreted mode sample fields identically",
     "For any field set, sampling a field or velocity at any position and time gives the same value (to single precision) in compiled mode and in interpreted mode. If one mode reports the position or time as outside the data, the other reports the same kind of error.",
     ["inputs", "configurations"],
     "All grid kinds (rectilinear/curvilinear, z/s/time-varying s), meshes, interpolation methods, indexing conventions, data (zeros, land, steps), positions and times.",
     "Tests run both modes on a few smooth fields and compare each to a loose expectation; the two implementations (C and Python) are never compared over the space of grids, methods and edge positions.",
     ["parcels/field.py", "parcels/include/parcels.h", "parcels/include/index_search.h", "parcels/tools/interpolation_utils.py", "parcels/include/interpolation_utils.h"],
     [("parallel C and Python interpolators", "parcels/field.py:Field/VectorField and parcels/include/parcels.h")],
     ["particle variables written by a sampling kernel", "error recovery callbacks"])

prop("C03", "Field sampling equals the documented interpolation of the data",
     "Sampling a non-staggered field returns exactly what its interpolation method documents: the (bi/tri)linear interpolant in space, the value of the nearest node for 'nearest', and the inverse-distance-weighted ocean value next to land for the land-aware method. Consequently fields that are linear in the grid coordinates are reproduced, node values are returned at nodes, and linear samples never leave the range of the surrounding nodes, on regular, stretched, curvilinear and terrain-following grids alike.",
     ["inputs", "configurations"],
     "All node coordinate vectors (uneven, reversed latitudes, length 1, longitudes crossing the date line), depth axes (positive or negative, terrain-following, time-varying), data arrays and query positions.",
     "Tests use a handful of uniform grids with smooth data and tolerances of a percent; they cannot cover all grid spacings, orders and query positions.",
     ["parcels/field.py", "parcels/include/parcels.h", "parcels/include/index_search.h", "parcels/grid.py"],
     [("index search and barycentric coordinates", "parcels/field.py:search_indices*"), ("interpolators", "parcels/field.py:interpolator2D/3D, parcels/include/parcels.h:spatial_interpolation_*")],
     ["Field.eval / fieldset.F[...] results", "particle variables written by a sampling kernel"])

prop("C04", "Staggered-grid sampling follows the model's own indexing and fluxes",
     "On C- and B-grids each velocity component, tracer and vertical velocity is taken from the cell faces, corners or centres that the declared indexing convention (NEMO, MITgcm, MOM5, POP) prescribes. On C-grids the face-normal velocity on a cell face equals the stored face value and varies linearly across the cell, so that the sampled flow neither creates nor destroys volume in a cell whose face fluxes balance, on rectilinear and curvilinear, flat and spherical meshes alike.",
     ["inputs", "configurations"],
     "All face data, cell shapes (sheared, rotated, stretched, any size in metres or degrees), indexing conventions, z- and s-levels, with and without time, and positions in the cell.",
     "Tests use uniform flow or one indexing pattern per convention; non-uniform face data on distorted cells of arbitrary size are never checked.",
     ["parcels/field.py", "parcels/include/parcels.h", "parcels/tools/interpolation_utils.py", "parcels/fieldset.py"],
     [("C-grid velocity interpolation", "parcels/field.py:spatial_c_grid_interpolation2D/3D*, parcels/include/parcels.h:spatial_interpolation_UV*_c_grid"), ("B-grid and tracer interpolation", "parcels/field.py:interpolator3D, parcels/include/parcels.h")],
     ["fieldset.UV / fieldset.UVW / fieldset.F evaluation in both modes"])

prop("C05", "Time interpolation, extrapolation and periodicity are exact",
     "Between two snapshots a field is interpolated linearly in time and at a snapshot it equals that snapshot. Outside the snapshots it is reported as a time error unless extrapolation is allowed (then the first/last snapshot is used) or the field is time-periodic (then the value equals that at the time modulo the period), going forward or backward over any number of periods.",
     ["inputs", "configurations", "histories"],
     "All time axes (uneven, single snapshot, offsets and dates), query times in, on and far outside the axis, both directions, both modes, with any previous sequence of sampled times.",
     "Tests sample a few times around one period; the interaction of periods, window boundaries and direction is a large space.",
     ["parcels/field.py", "parcels/grid.py", "parcels/include/index_search.h", "parcels/include/parcels.h"],
     [("time index search", "parcels/field.py:time_index, parcels/include/index_search.h:search_time_index"), ("period counter", "parcels/grid.py:periods")],
     ["sampled particle variables", "time-error recovery callbacks and exceptions"])

prop("C06", "Positions outside the data are always reported, inside ones never",
     "Sampling a position outside a field's horizontal or vertical extent always raises the out-of-bounds (or through-surface) error for that particle with its coordinates, and sampling a position inside the extent never does. A nested field uses the first listed field that contains the position, and a summed field returns the sum of all its members and fails if any member fails.",
     ["inputs", "configurations"],
     "All grids, positions at arbitrarily small distances inside and outside each edge, chains of nested and summed fields (scalar and vector), both modes.",
     "Tests take one or two points far outside a simple domain.",
     ["parcels/field.py", "parcels/include/index_search.h", "parcels/compilation/codegenerator.py", "parcels/tools/statuscodes.py", "parcels/kernel.py"],
     [("bounds tests in the index searches", "parcels/field.py, parcels/include/index_search.h"), ("nested/summed evaluation", "parcels/field.py:NestedField/SummedField, parcels/compilation/codegenerator.py")],
     ["exceptions from execute", "recovery callbacks", "sampled values"])

prop("C07", "Every particle is stepped exactly from its release to the end time",
     "During execution a kernel runs on a particle once per time step, at consecutive times that start at the particle's own start time and advance by dt, forwards or backwards, and never before its release or after the end; only a step that would pass an output, callback, release or end time is shortened, to end exactly there. When execution returns every released particle's time equals the end time, and cuts that fall on its time steps do not change a particle's result.",
     ["inputs", "schedules", "configurations", "histories"],
     "All dt (positive, negative, zero, sub-second, non-dividing), run lengths and end times, release times before/at/after the start and off the dt lattice, output intervals, callback intervals and sequences of execute calls, both modes.",
     "Tests sample a few integer combinations of start, end and dt.",
     ["parcels/kernel.py", "parcels/particlesets/baseparticleset.py", "parcels/compilation/codegenerator.py"],
     [("segment loop", "parcels/particlesets/baseparticleset.py:execute"), ("per-particle stepping", "parcels/kernel.py:evaluate_particle, parcels/compilation/codegenerator.py:LoopGenerator")],
     ["trace of (particle, time, dt) recorded by the kernel", "particle.time after execute"])

prop("C08", "A failing step changes nothing and is recovered or raised",
     "If a kernel fails for a particle (error, out-of-bounds, request to repeat), all effects of that step on the particle's variables are undone before recovery, other particles are unaffected, and the matching recovery kernel runs for exactly that particle before it is re-executed from the same time. An error with no recovery handler is raised to the caller with its matching type, and a stop request ends the execution.",
     ["inputs", "fault_sequences", "configurations"],
     "All placements of failures (which particles, which steps, where in the kernel, several errors per step and per recovery), all error kinds and recovery maps, both modes.",
     "Tests inject one failure in one place for identical particles.",
     ["parcels/kernel.py", "parcels/compilation/codegenerator.py", "parcels/tools/statuscodes.py"],
     [("variable backup and rollback", "parcels/kernel.py:evaluate_particle, parcels/compilation/codegenerator.py:LoopGenerator"), ("recovery loop", "parcels/kernel.py:execute")],
     ["particle variables at recovery time and afterwards", "sequence of recovery callbacks", "exceptions from execute"])

prop("C09", "A particle set behaves as an exact collection of particles",
     "Any history of creating, adding, merging, selecting and removing particles (by index, index list, mask, identifier or deletion in a kernel) leaves exactly the particles that a plain list would contain, each with all of its variables unchanged and in order; an added set keeps its own order and is placed as a block after (or, when its identifiers are lower, before) the present particles. Identifiers are unique across all particles ever created and look-ups by identifier return exactly the particle asked for or fail.",
     ["histories", "inputs"],
     "All operation sequences over sets of any size including empty ones, in both modes, with sorted and unsorted identifiers.",
     "Tests perform single operations on freshly built, sorted sets.",
     ["parcels/particlesets/collectionsoa.py", "parcels/particlesets/particlesetsoa.py", "parcels/particlesets/iterators.py", "parcels/kernel.py", "parcels/particle.py"],
     [("structure-of-arrays collection", "parcels/particlesets/collectionsoa.py"), ("identifier counter", "parcels/particle.py:lastID")],
     ["ParticleSet iteration, indexing, vectorised attributes and size after every operation"])

prop("C10", "Delayed and repeated releases start the right particles at the right time",
     "Each particle takes part in the simulation from its own release time on, with the initial values it was given. With repeated release, a complete new copy of the initial particles is added at every multiple of the release interval within the run, with the originally given positions and variable values, independently of what happened to earlier releases.",
     ["inputs", "schedules", "histories"],
     "All release intervals, run lengths, split runs, directions of time, kernels that move or delete particles, custom initial values and output settings.",
     "Tests count released particles for a kernel that does not move them.",
     ["parcels/particlesets/particlesetsoa.py", "parcels/particlesets/baseparticleset.py", "parcels/kernel.py"],
     [("release schedule", "parcels/particlesets/baseparticleset.py:execute"), ("stored initial values", "parcels/particlesets/particlesetsoa.py:repeatlon/repeatlat/repeatkwargs")],
     ["first kernel invocation per particle", "particle variables after execute"])

prop("C11", "The output file holds each particle's record exactly once per output time",
     "After a run the output contains, for every particle, exactly one record at its first output, at each output time while it is alive, at the end of the run and at its deletion, in time order, carrying the values its written variables had at that time, and no others. Variables written once appear once per particle, unwritten ones not at all, and with write-on-delete a particle's only record is its state when deleted.",
     ["inputs", "schedules", "histories", "configurations"],
     "All output intervals relative to dt and run length, delayed and repeated releases, deletions at any time, backward runs, variable types and write settings, repeated execute calls.",
     "Tests check the shape or one column of files for a few schedules.",
     ["parcels/particlefile.py", "parcels/particlesets/collectionsoa.py", "parcels/particlesets/baseparticleset.py", "parcels/kernel.py"],
     [("selection of particles to write", "parcels/particlesets/collectionsoa.py:toDictionary"), ("array assembly", "parcels/particlefile.py:read_from_npy/export")],
     ["the exported NetCDF file"])

prop("C12", "Output survives interruption and restarts continue the same run",
     "Whatever was written before a run was interrupted can be converted afterwards into a file equal to what a completed run would have stored up to that point. A particle set created from an output file has the last stored state (or the state at the requested restart time) of every particle, with the same identifiers, and continuing from it gives the same trajectories as the uninterrupted run while new particles still get fresh identifiers.",
     ["crash_points", "histories", "inputs"],
     "All points of interruption between outputs, all restart times, particle types and deletion patterns.",
     "Tests convert once after an orderly run and restart once from a full file.",
     ["parcels/particlefile.py", "parcels/scripts/convert_npydir_to_netcdf.py", "parcels/particlesets/particlesetsoa.py"],
     [("temporary records and their index", "parcels/particlefile.py:dump_dict_to_npy/dump_psetinfo_to_npy"), ("restart", "parcels/particlesets/particlesetsoa.py:from_particlefile")],
     ["NetCDF produced by the conversion tool from an abandoned directory", "particle set built from a file"])

prop("C13", "Deferred and chunked loading never change results",
     "A simulation gives the same trajectories, samples and errors whether the data are held fully in memory, loaded a few snapshots at a time, or loaded in spatial chunks of any size. This holds forwards and backwards in time, for time-periodic data, for data spread over several files and for every order in which particles visit the data.",
     ["configurations", "schedules", "inputs", "histories"],
     "All chunk sizes and layouts, numbers of snapshots and files, dt relative to the snapshot interval, directions, periodic or not, particle paths, both modes.",
     "Tests compare a few chunk sizes on one data set and one direction.",
     ["parcels/fieldset.py", "parcels/grid.py", "parcels/field.py", "parcels/fieldfilebuffer.py", "parcels/kernel.py", "parcels/include/parcels.h"],
     [("time window advance", "parcels/grid.py:computeTimeChunk, parcels/fieldset.py:computeTimeChunk"), ("chunk status protocol", "parcels/kernel.py, parcels/field.py:chunk_data, parcels/include/parcels.h")],
     ["particle variables after identical runs under different loading settings"])

prop("C14", "Compiled kernels compute what the Python kernel says",
     "A kernel that is accepted for compilation changes every particle exactly as running the same Python function on it would: arithmetic, comparisons, boolean logic, conditionals, loops, local variables, constants, particle variables of every type, random numbers and field samples included. A construct that cannot be translated is rejected when the kernel is created rather than mistranslated.",
     ["programs", "inputs"],
     "All kernels in the supported Python subset, over all particle values.",
     "Tests translate about thirty fixed expressions.",
     ["parcels/compilation/codegenerator.py", "parcels/kernel.py", "parcels/rng.py"],
     [("Python-to-C translation", "parcels/compilation/codegenerator.py:IntrinsicTransformer/TupleSplitter/KernelGenerator")],
     ["particle variables after running the same generated kernel in both modes", "exceptions at kernel creation"])

prop("C15", "Combining kernels runs them in order on each particle and step",
     "Executing a sum of kernels has the same effect as one kernel containing their bodies in that order: for each particle and time step all of them run in sequence, also if a kernel occurs more than once. Kernels that define the names they use only affect each other through the particles: local names, arrays, constants, included C code and generated code of one kernel never leak into another or into the user's script, whether kernels are summed, reused, or executed in turn.",
     ["programs", "inputs", "histories"],
     "All sequences and groupings of kernels with overlapping local names, both modes, and all orders of creating and executing them.",
     "Tests concatenate two or three trivial kernels.",
     ["parcels/kernel.py", "parcels/compilation/codegenerator.py", "parcels/particlesets/particlesetsoa.py"],
     [("kernel merge", "parcels/kernel.py:merge/__add__/__radd__")],
     ["particle variables after execution"])

prop("C16", "Built-in advection schemes integrate the velocity field as documented",
     "Each built-in advection kernel moves a particle by exactly the update its numerical scheme defines for the sampled velocity (Euler, fourth-order Runge-Kutta in two and three dimensions, adaptive Runge-Kutta within its tolerance, analytical cell-by-cell integration), forwards and backwards in time. Hence halving the step reduces the error at the scheme's order, and integrating forward then backward returns to the start within that error.",
     ["inputs", "configurations"],
     "All smooth velocity fields on flat and spherical meshes, time dependent or not, step sizes, directions, starting points, both modes.",
     "Tests follow one particle in three analytical eddies with loose tolerances.",
     ["parcels/kernels/advection.py", "parcels/kernel.py", "parcels/field.py"],
     [("integration kernels", "parcels/kernels/advection.py"), ("adaptive step feedback", "parcels/particle.py:update_next_dt, parcels/kernel.py")],
     ["particle positions and times after each step"])

prop("C17", "A particle's fate does not depend on the other particles",
     "With a deterministic kernel, the trajectory of a particle is the same whether it is simulated alone, together with any other particles, in any order, added before or during the run, and whatever cells it or others visited before. In particular errors, deletions, adaptive time steps and cached search positions of one particle never influence another.",
     ["histories", "inputs", "configurations"],
     "All sets and orders of companion particles including ones that fail, get deleted or change their step; all prior visits; both modes.",
     "Tests put identical or well-separated particles in one set and never compare with solo runs.",
     ["parcels/kernel.py", "parcels/compilation/codegenerator.py", "parcels/include/index_search.h", "parcels/field.py", "parcels/particle.py"],
     [("per-particle search-index cache", "parcels/particle.py:xi/yi/zi/ti"), ("per-particle step state", "parcels/compilation/codegenerator.py:LoopGenerator")],
     ["particle variables in joint and solo runs"])

prop("C18", "Units and mesh conversions are consistent everywhere",
     "On a spherical mesh zonal and meridional velocities (and diffusivities) in m/s are converted to degrees with the documented metre-per-degree factor and the cosine of the particle's latitude, on a flat mesh nothing is converted, and other fields never are; disabling the conversion returns the raw data value. Converting to and from the target unit are inverse operations and both modes apply the same factors, also for fields given an explicit field type or converter.",
     ["inputs", "configurations"],
     "All latitudes, depths, values, meshes, field names/types and ways of constructing the field set.",
     "Tests check one factor on one field.",
     ["parcels/tools/converters.py", "parcels/field.py", "parcels/compilation/codegenerator.py", "parcels/fieldset.py"],
     [("unit converters", "parcels/tools/converters.py"), ("converter selection", "parcels/field.py:Field.__init__")],
     ["sampled values with and without conversion in both modes"])

prop("C19", "Dates and relative times convert consistently",
     "Times given as numbers, durations, standard dates or model-calendar dates denote the same instants throughout: release times, end times, field times and output times are all relative to the field set's time origin, fields with different origins are aligned, and converting a date to seconds and back is the identity (to the second). Mixing incompatible kinds of time is rejected.",
     ["inputs", "configurations"],
     "All calendars, origins, dates (leap days, year ends, centuries), release times and run specifications.",
     "Tests cover a few dates in one or two calendars.",
     ["parcels/tools/converters.py", "parcels/fieldset.py", "parcels/particlesets/particlesetsoa.py", "parcels/particlesets/baseparticleset.py", "parcels/particlefile.py"],
     [("time converter", "parcels/tools/converters.py:TimeConverter"), ("origin alignment", "parcels/fieldset.py:check_complete")],
     ["converted values", "particle times", "times and units in the output file"])

prop("C20", "Random draws are reproducible, in range and drive diffusion as documented",
     "After seeding, the same kernels on the same particles draw the same numbers, one shared stream serves Python code, interpreted and compiled kernels, and every draw lies in the range and follows the distribution its function documents. The diffusion kernels displace each particle by exactly the scheme's update for the drawn increments, in both time directions.",
     ["inputs", "histories", "configurations"],
     "All seeds, draw functions and parameters, interleavings of draws from Python and kernels, diffusivity fields, dt and directions.",
     "Tests compare the mean of one sample with a loose bound.",
     ["parcels/rng.py", "parcels/include/random.h", "parcels/kernels/advectiondiffusion.py", "parcels/compilation/codegenerator.py"],
     [("C random stream shared by both modes", "parcels/rng.py, parcels/include/random.h"), ("diffusion kernels", "parcels/kernels/advectiondiffusion.py")],
     ["drawn values and particle displacements"])

prop("C21", "The way data are supplied does not change the field",
     "The same physical data give the same field whether supplied as arrays (transposed or not), as an in-memory dataset, or as one or many files, with latitudes north-south or south-north, with index subsets, extra length-1 dimensions or different dtypes, and whether or not fields share a grid. Writing a field set to file and reading it back reproduces it, and per-field options (field type, dimensions, scaling, validity limits, time-periodicity) apply to exactly the field they were given for.",
     ["inputs", "configurations"],
     "All data shapes and orders, constructors, options and combinations of several fields.",
     "Tests use one constructor at a time with square-ish smooth data.",
     ["parcels/fieldset.py", "parcels/field.py", "parcels/grid.py", "parcels/gridset.py", "parcels/fieldfilebuffer.py"],
     [("array reshaping", "parcels/field.py:reshape"), ("file readers", "parcels/fieldfilebuffer.py"), ("grid sharing", "parcels/gridset.py:add_grid")],
     ["sampled values and grids of equivalently constructed field sets"])

prop("C22", "A periodic halo extends every field periodically",
     "Adding a zonal or meridional halo of any size leaves the field unchanged inside the original domain and equal to its periodic continuation in the halo, with coordinates continued at the same spacing, for every field of the field set and every kind of grid. It does so in memory as well as for data loaded later, in both modes.",
     ["inputs", "configurations"],
     "All halo sizes up to the domain size, directions, grid kinds (including terrain-following), numbers of dimensions, field sets with several fields and grids, deferred or not.",
     "Tests add one halo to one small regular grid.",
     ["parcels/fieldset.py", "parcels/field.py", "parcels/grid.py"],
     [("halo construction", "parcels/field.py:add_periodic_halo, parcels/grid.py:add_periodic_halo"), ("halo on later loads", "parcels/field.py:reshape")],
     ["sampled values inside the domain and the halo"])

prop("C23", "Initial particle distributions and density maps match the field's cells",
     "Particles created from a list, a line or a field get exactly the given values, equally spaced positions, or positions inside cells drawn with probability proportional to the field. Initial variable values (constant, given, sampled from a field, or taken from other variables) are assigned to the right particle, and the particle density on a field counts each particle in the cell that contains it, so that it sums to the number of particles (or the requested weight).",
     ["inputs", "configurations"],
     "All fields (including zero and single non-zero cells), meshes, staggered or node-centred starts, numbers of particles and variable definitions, both modes.",
     "Tests use one histogram with a loose bound.",
     ["parcels/particlesets/particlesetsoa.py", "parcels/particlesets/baseparticleset.py", "parcels/particlesets/collectionsoa.py", "parcels/particle.py", "parcels/field.py"],
     [("constructors", "parcels/particlesets/baseparticleset.py:from_list/from_line/from_field"), ("density", "parcels/particlesets/particlesetsoa.py:density")],
     ["created particles", "density arrays"])

prop("C24", "Distributing a run over processes simulates each particle exactly once",
     "When a run is distributed over several processes every particle of the initial set is simulated by exactly one process, including those released repeatedly, and the combined output contains each trajectory exactly once with the values of the single-process run. An explicit assignment of particles to processes is honoured.",
     ["configurations", "schedules", "inputs"],
     "All numbers of processes, particle numbers (not fewer than processes), partitions (including processes without particles), release schedules and deletions.",
     "Tests run one example with a fixed number of processes and only compare the sorted final positions of one file.",
     ["parcels/particlesets/collectionsoa.py", "parcels/particlesets/particlesetsoa.py", "parcels/particlefile.py"],
     [("partition", "parcels/particlesets/collectionsoa.py:__init__"), ("merge of per-process records", "parcels/particlefile.py:read_from_npy/close")],
     ["output file of the distributed run compared with the serial run"])

prop("C25", "Sea-water property kernels agree with their published equations",
     "The built-in kernels for density, adiabatic lapse rate, potential and in-situ temperature and pressure return, for every particle, the value of the published equation of state for the sampled salinity, temperature and pressure or depth. Converting temperature to potential temperature and back is the identity, and both modes agree.",
     ["inputs", "configurations"],
     "All oceanographic salinities, temperatures, depths, pressures, reference pressures and latitudes, with and without an explicit pressure field.",
     "Tests check one published check value per equation.",
     ["parcels/kernels/EOSseawaterproperties.py", "parcels/kernels/TEOSseawaterdensity.py"],
     [("equation-of-state kernels", "parcels/kernels/EOSseawaterproperties.py, parcels/kernels/TEOSseawaterdensity.py")],
     ["particle variables set by the kernels"])

prop("C26", "Model data sets are read with the staggering, units and depths of the model",
     "A field set made with the constructor for an ocean model (NEMO, MITgcm, POP, MOM5 or a generic B- or C-grid) samples every variable at the documented position in its cell, in metres per second with vertical velocity along the depth axis, for any size, number of levels, files, index ranges and ways of loading. Depths taken from another, time-varying field apply to exactly the fields for which they are set, and a user function on newly loaded data sees and changes every snapshot. Replacing the oldest snapshot of a field set gives the values of the new period and refuses snapshots that overlap.",
     ["inputs", "configurations", "histories"],
     "All sizes, levels, coordinates, combinations of files and loading options, depth units, moving levels, directions of time and numbers of replaced snapshots, in both modes.",
     "Tests read one sample file per model and compare a few values or final positions.",
     ["parcels/fieldset.py", "parcels/field.py", "parcels/grid.py", "parcels/gridset.py", "parcels/fieldfilebuffer.py"],
     [("model constructors", "parcels/fieldset.py:from_nemo/from_mitgcm/from_c_grid_dataset/from_pop/from_mom5/from_b_grid_dataset"),
      ("depths from a field, data computed on load", "parcels/field.py:set_depth_from_field, parcels/fieldset.py:computeTimeChunk"),
      ("replaced snapshots", "parcels/fieldset.py:advancetime, parcels/grid.py:advancetime")],
     ["sampled values in every cell and step"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
