SEARCH = 'Seeded search, not exhaustive: an error that no generated run reaches stays unseen. '
YN = SEARCH + 'Both copies of the YAML store run unmodified; disk, allocator and thread scheduling are simulated; the compiler, sanitizer runtime and libstdc++ are trusted.'

prop('C01', 'YAML documents behave like ordered sequences and maps under any history',
     'After any history of creating, indexing, inserting, pushing, assigning, erasing, clearing and iterating, a YAML document holds exactly the items a plain list or dictionary would hold: sequence positions are contiguous from zero, maps have one item per key, iteration forwards and backwards visits every item once, and iterating a node without items ends at once. '
     'Reading past the end of a sequence yields an empty placeholder that never changes the document and never shows what an earlier out-of-range access stored. '
     'Erasing frees exactly the erased part and no operation reads freed memory.',
     ['histories', 'inputs'], 'all finite operation histories over a document, interleaved with iterators',
     'The unit tests run a handful of fixed short sequences; index bookkeeping, iterator and memory errors show only after particular combinations.',
     [LY, AY], [('sequence and map containers', LY + ': SequenceImp, MapImp, NodeImp'), ('iterators', LY + ': Iterator, ConstIterator'), ('placeholder node', LY + ': g_NoneNode')], note=YN)
prop('C02', 'Copies of YAML documents are deep, independent and safe under aliasing',
     'Copying or assigning a document (to another document, to itself, to its own part, from its own part, or from text that lives inside it) leaves the target equal to what the source was before, including empty sequences and maps. '
     'From then on, no change to one of the two is visible in the other. '
     'No such operation reads freed memory or leaks.',
     ['histories', 'inputs'], 'all histories of copies, assignments and edits over several documents, including aliased ones',
     'Tests copy one document once; sharing or lifetime errors need later edits or overlapping source and target.',
     [LY, AY], [('deep copy', LY + ': CopyNode, Node::operator=')], note=YN)
prop('C03', 'A saved YAML document loads back identically, under every configuration',
     'For every document of non-empty sequences and maps with non-empty keys, saving (to a file, a stream or a string, with any indentation of at least two, any folding length and any line-break options) and loading yields an equal document, and the three destinations receive the same text. '
     'Texts are empty or of printable ASCII up to "}" without quotes or backslashes, with single inner spaces and no spaces at either end of a line; they may contain YAML punctuation, be long enough to be folded or have several non-empty lines with or without a final newline, and only a text that may need more than one line must not contain "#". '
     'Saving does not change the document.',
     ['inputs', 'configurations', 'histories'], 'all documents in the stated domain, all serializer configurations, repeated save, edit and load cycles',
     'Tests serialize a few literal documents with the default configuration.',
     [LY, AY], [('serializer', LY + ': SerializeLoop, LineFolding'), ('parser', LY + ': ParseImp')], note=YN)
prop('C04', 'Storage faults are never silent: a reported save or load really happened',
     'If saving a document to a file returns normally, the file holds exactly the serialized document (whatever it held before, and under short or interrupted writes); if storing fails in any way (open, write, full disk, close), the save throws. '
     'If loading from a file returns normally, the document is exactly what the complete file content means; unreadable, missing or incompletely read files throw and never leave a partial document. '
     'A fault never changes the in-memory document being saved, never leaves the file open, and after a crash at any point the next save and load work again.',
     ['fault_sequences', 'crash_points', 'histories'], 'all sequences of saves and loads with I/O errors, short transfers, full disks, torn files and crashes at any call',
     'No test injects an I/O fault.',
     [LY, AY], [('file load', LY + ': Parse(Node&, const char*)'), ('file save', LY + ': Serialize(const Node&, const char*)')], note=YN)
prop('C05', 'Parsing any bytes ends with a document or an error, however they arrive',
     'Parsing any byte sequence (nested less than a thousand levels deep) terminates with either a document or a YAML exception with a message, without leaking, crashing or leaving part of the rejected content in the target; text, buffer and stream input give the same answer, independent of how the stream is chunked, and a stream whose device fails is reported as an error. '
     'Several documents in one stream, each begun by a "---" line and ended by "..." or by the next "---", are read one per call, in order, each exactly as if it were alone.',
     ['inputs', 'fault_sequences', 'schedules'], 'all byte strings, all chunkings of the stream, all device failure positions',
     'Tests parse a few well-formed documents from strings.',
     [LY, AY], [('line reader', LY + ': ParseImp::ReadLines'), ('parser', LY + ': ParseImp')], note=YN)
prop('C06', 'The meaning of a YAML text does not depend on how it is laid out',
     'Two texts for the same tree that differ only in indentation width, quoting in double quotes, order of map keys, spaces after "-" and around ":", comments introduced by " #", blank lines, trailing spaces, line endings, a leading "---" line, or whether a nested sequence or map starts on the line of its "-" or on the next, parse to the same document, and that document is the tree. '
     'Trees hold single-line texts and keys without quotes or backslashes; texts and keys containing YAML punctuation are written in double quotes, and an empty text is written "" or, in a map, left out.',
     ['inputs'], 'all trees in the stated domain and all their layouts',
     'Tests contain one layout per document.',
     [LY, AY], [('line splitting', LY + ': PostProcessSequenceLine, PostProcessMappingLine'), ('comment and quote detection', LY + ': FindNotCited')], note=YN)
prop('C07', 'Running out of memory never corrupts or leaks a YAML document',
     'If an allocation fails during any document operation, the operation either still has its full effect or throws; afterwards every document is usable and holds its old content or is empty (a target being emptied into a container may already be an empty container), never a fragment of the new content, and a failed save or serialization never counts as success. '
     'Destroying all documents afterwards frees every block.',
     ['fault_sequences', 'histories'], 'all histories of document operations with an allocation failure at any allocation',
     'No test makes an allocation fail.',
     [LY, AY], [('ownership of nodes and lines', LY + ': NodeImp, ParseImp::ReadLines'), ('error propagation through streams', LY + ': Serialize')], note=YN)
prop('C08', 'Threads working on separate YAML documents never affect each other',
     'When several threads parse, build, edit, copy, convert and serialize documents of their own at the same time, every thread gets exactly the results it would get alone, under every interleaving. '
     'No memory is shared between them without synchronisation, including the placeholder returned for out-of-range access.',
     ['schedules', 'histories'], 'all interleavings of threads that use disjoint documents',
     'All tests are single-threaded.',
     [LY, AY], [('process-wide state', LY + ': static objects (placeholder node, constants)')], note=YN)

TB = 'legacy/Fierro_V0/src/Yaml-Serializable/include/'
TH = [TB + f for f in ('yaml-serializable.h', 'yaml-serializable-containers.h', 'yaml-serializable-base.h', 'serializable-struct.h', 'serializable-enum.h', 'configuration-validation.h', 'yaml-post-processing.h', 'type-discrimination.h')]
TN = SEARCH + 'The typed layer is header-only and is instantiated for a fixed family of types (structs, inheritance, enums, optionals, vectors, sets, arrays, pointers, discriminated families); other types are covered only by the same templates.'
prop('C09', 'Typed objects load exactly what the YAML says and survive save and load',
     'Loading a typed object (from text or file, strict or not, fresh or into an existing object, one object or several from one input) sets every field present in the input to exactly its value and keeps every other field, whatever the layout and whether a list is written as items or in brackets with any spacing, also when empty. '
     'Saving any loaded object and loading it again gives the same values, including every finite floating-point number, and saving it again gives the same text. '
     'If reading fails or memory runs out the load throws or has its full effect, never a wrong value, and nothing leaks.',
     ['inputs', 'configurations', 'fault_sequences'], 'all values of all supported field types, all layouts, all positions of I/O and allocation failures',
     'Tests round-trip a few objects with short numbers and non-empty lists.',
     TH, [('field and container conversion', TB + 'yaml-serializable-containers.h: Impl, FixedLengthImpl, to_sequence_node'), ('entry points', TB + 'yaml-serializable.h: to_string, from_string, from_file')], note=TN)
prop('C10', 'Strict loading rejects exactly the broken inputs and names the place',
     'Strict loading of a typed object accepts every valid input and throws a configuration error for an input with one unknown field, missing required field, unknown enum value, wrong array length, value or list in place of an object, object or list in place of a value, text in place of a list, unknown discriminator or failed validation, at any depth; the error carries the path of that place, with list positions as "<i>". '
     'Plain loading ignores unknown fields and throws the same error for missing required fields, enum values, array lengths, texts in place of lists, discriminators and failed validation.',
     ['inputs'], 'all valid inputs and all single defects at all places',
     'Tests contain a handful of fixed broken inputs and check only that something is thrown.',
     TH, [('strict validation', TB + 'yaml-serializable.h: strict_validation; configuration-validation.h: validate_subset'), ('required fields', TB + 'serializable-struct.h: YAML_ADD_REQUIRED_FIELDS_FOR')], note=TN)
prop('C11', 'Derive and validate hooks run exactly once per loaded object, in order',
     'While a typed object is loaded, strict or not, each object in it runs derive and then validate of each of its classes that defines one, base classes before derived classes, exactly once per load, after all of its fields are set; members finish before their owner and siblings keep field and list order. '
     'If loading fails, exactly the hooks before the failing place have run, and a strict load that rejects the form of the input runs none.',
     ['inputs', 'histories'], 'all object trees over class families with hooks at any level, including discriminated and optional members',
     'Tests check single derivation for three fixed objects.',
     TH, [('hook dispatch', TB + 'yaml-post-processing.h: derive_with_base, validate_with_base'), ('loading order', TB + 'serializable-struct.h: IMPL_YAML_SERIALIZABLE_WITH_BASE')], note=TN)
prop('C12', 'Discriminated objects get the class their type field names, in every thread',
     'An object of a discriminated family is loaded as exactly the class registered for its type field (enum or integer), with the values of its base and derived fields, in lists, pointers and nested, and saving and loading keeps class and values. '
     'Dispatch by apply or try_apply runs exactly the first handler whose argument type matches (or that takes none), and reports when none does. '
     'Several threads loading their own objects at the same time get the same results, under every interleaving.',
     ['inputs', 'schedules'], 'all discriminated values, handler combinations and interleavings of loading threads',
     'Tests use two classes without fields and one thread.',
     TH, [('registry and dispatch', TB + 'type-discrimination.h: TypeDiscriminated')], note=TN)
prop('C13', 'Reading a YAML value as a number, flag or text is exact and deterministic',
     'Reading a node as an integer, floating-point number, flag or text gives exactly the value its text starts with; if there is none (also for empty nodes, sequences and maps) it gives the given default, or zero, false or empty text without one, and never an arbitrary value. '
     'If memory runs out it throws or gives the right value. '
     'Reading never changes the document.',
     ['inputs', 'fault_sequences'], 'all node kinds, texts, target types, defaults and allocation failures',
     'Tests convert a few well-formed numbers.',
     [LY, AY, 'legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp', 'apps/multiphysics/src/input/Yaml.hpp'], [('conversion', 'Yaml.hpp: impl::StringConverter, Node::As')], note=YN)

MS = ['apps/micromechanics/%s/src/%s' % (a, f) for a in ('EVPFFT', 'LS-EVPFFT', 'LS-EVPFFT-J2', 'LSNP-EVPFFT') for f in ('XdmfUniformGridWriter.cpp', 'XdmfUniformGridWriter.h')]
MC = ['apps/micromechanics/%s/src/%s' % (a, f) for a in ('EVPFFT', 'LS-EVPFFT', 'LS-EVPFFT-J2', 'LSNP-EVPFFT') for f in ('command_line_args.cpp', 'command_line_args.h')]
MN = SEARCH + 'The sources of all four micromechanics programs run unmodified on a simulated disk; the compiler, C library and sanitizer runtime are trusted.'
prop('C20', 'Xdmf grid descriptions are complete and correct or reported as failed',
     'When the Xdmf uniform-grid writer has gone through open_file, write_header, any number of write_attribute calls, write_footer and close_file without an exception, the named file is one well-formed XML document with N+1 points per direction, zero origin, unit spacing, and every attribute in call order with its name, type, cell dimensions, number type, precision and location, whatever characters these contain. '
     'If opening, writing or closing fails, one of the calls up to close_file throws std::runtime_error, and without a failure none does. '
     'A writer releases its file exactly once when it is closed, closed again, reopened for the next file, or destroyed early, and can be reused.',
     ['inputs', 'histories', 'fault_sequences'], 'all grid sizes, names, attribute sequences, writer histories and storage faults',
     'No test runs the writer; a full disk or a failing close shows only under faults.',
     MS, [('writer', 'apps/micromechanics/*/src/XdmfUniformGridWriter.cpp')], note=MN)
prop('C21', 'EVPFFT command lines are obeyed exactly or rejected with the usage text',
     'Every complete command line of the micromechanics programs yields exactly the given input file, file type, dataset paths and angle unit, in whatever order and spelling (short, long, abbreviated, attached, with =, repeated: the last wins) and however often the parser has run before. '
     'A command line that is incomplete or malformed (no input file, an HDF5 file type without all dataset paths and an angle unit of 0 or 1, a file type other than 0, 1 and 2, a value that is not an integer, an unknown or ambiguous option, a missing value) or asks for help prints the usage text and stops the program with a failure status.',
     ['inputs'], 'all command lines',
     'No test runs the parser; each spelling and each omission is a different path.',
     MC, [('parser', 'apps/micromechanics/*/src/command_line_args.cpp: CommandLineArgs')], note=MN)

AM = 'apps/multiphysics/src/'
MPN = SEARCH + 'All sources of the multiphysics program except main.cpp run unmodified; Kokkos, MATAR and ELEMENTS are not in the repository and are replaced by a simulated device with an access oracle. Linear elements, at most a few hundred cells and a few dozen cycles per run; floating point contraction is off.'
prop('C30', 'Simulation results do not depend on the order parallel iterations run in',
     'For every multiphysics input (SGH in 3D and RZ, thermal, level set, contact, fracture, several materials, chained solvers) the initial state, every output and the final state are the same in whatever order the device runs the iterations of each parallel kernel; only where values are accumulated with atomic operations may they differ, by rounding. '
     'In no kernel does one iteration write a value that another iteration of it reads or writes (except atomically or when all write the same value), and no index is out of the range of its array.',
     ['schedules', 'inputs', 'configurations'], 'all orders of the iterations of all kernels, for all inputs in the stated domain',
     'A run on one machine shows one order; a race between iterations gives right answers on a serial or lightly threaded back end.',
     [AM + 'driver.cpp', AM + 'common/src/region_fill.cpp', AM + 'Solvers'],
     [('kernels', 'every FOR_ALL, FOR_REDUCE and RUN of the program')], note=MPN)
prop('C31', 'Simulation results do not depend on host and device sharing memory',
     'For every multiphysics input (SGH in 3D and RZ, thermal, level set, contact, fracture, several materials, chained solvers) the outcome, every output file and every state are bit for bit the same whether host and device views of an array are one memory or two separate ones. '
     'So after every change on one side the other side is updated before it is read there: device kernels never compute with values only the host has, and written files never show values older than the device state.',
     ['schedules', 'inputs', 'configurations'], 'all inputs in the stated domain, on devices with shared and with separate memories',
     'On a CPU back end both views are the same memory, so a missing transfer is invisible.',
     [AM + 'driver.cpp', AM + 'common/src/region_fill.cpp', AM + 'common/include/mesh_io.hpp', AM + 'Solvers'],
     [('transfers', 'update_host and update_device calls throughout the program')], note=MPN)
prop('C32', 'Generated meshes and boundary sets are exactly the requested ones',
     'A generated box or polar mesh (2D or 3D, linear elements, any origin, lengths, radii, angles and cell counts) has exactly the requested number of nodes and elements, every node at its place, every element its own nodes in the order of the mesh class, and element volumes (per radian for RZ) that match. '
     'A boundary set holds exactly the outer faces all of whose nodes lie within the tolerance of its plane, cylinder or sphere (3D) or circle (2D), each once, and exactly the nodes of these faces, each once, in whatever order the device runs its kernels and with shared or separate memories. '
     'A valid mesh request is never refused.',
     ['inputs', 'configurations', 'schedules'], 'all mesh requests and boundary surfaces, all kernel orders',
     'No test builds a mesh.',
     [AM + 'common/include/mesh_io.hpp', AM + 'common/src/geometry_new.cpp', AM + 'boundary_conditions', AM + 'input/parse_bdy_conds_inputs.cpp'],
     [('mesh builder', AM + 'common/include/mesh_io.hpp: MeshBuilder'), ('boundary sets', AM + 'common/src/geometry_new.cpp: tag_bdys, check_bdy')], note=MPN)
prop('C33', 'Mesh files are read exactly as written or refused',
     'A valid mesh file (EnSight, Abaqus, VTK or VTU, 2D or 3D linear elements, in any layout its format allows: node ids, comments, line ends, blanks, values spread over lines, several element blocks, object ids, voxel or hexahedron order) gives exactly its nodes, scaled as requested, its elements in the node order of the mesh class, and its parts. '
     'A file that is cut short, has a count that does not fit, a node that does not exist or an unreadable value is refused with an error and never read past its end or past an array. '
     'A failing, interrupted or short read leads to the exact mesh or to an error.',
     ['inputs', 'faults', 'crash points'], 'all meshes and layouts in the stated domain, every place a file can be cut, every kind of damage and read fault',
     'No test reads a mesh file; damage and faults can happen at every byte and every read.',
     [AM + 'common/include/mesh_io.hpp', AM + 'driver.cpp'],
     [('mesh readers', AM + 'common/include/mesh_io.hpp: MeshReader')], note=MPN)
prop('C34', 'Output files hold the state of their time, or the run stops with an error',
     'Every vtu, vtm, pvd, state and EnSight file of a run that ends normally is complete and holds exactly the requested fields of the device state at its output, with each vtm listing the files of its own output and the pvd all outputs. '
     'If a file cannot be opened, written or closed, or the disk is full, the run stops with an error instead of ending normally with missing or partial output. '
     'Outputs that were complete when the machine stops stay on the disk, outputs of earlier runs are not left among the new ones, and other files are never touched.',
     ['inputs', 'faults', 'crash points', 'histories'], 'all problems, formats and requested fields in the stated domain; open, write, short write, close and mkdir failures, full disks and crashes at every I/O operation; host and device memory joined or separate',
     'No test writes an output file; a lost write error shows only on a full disk.',
     [AM + 'common/include/mesh_io.hpp', AM + 'Solvers'],
     [('writers', AM + 'common/include/mesh_io.hpp: write_mesh, write_vtu, write_vtm, write_pvd, write_ensight, write_material_point_state')], note=MPN)
prop('C35', 'The initial state is exactly what the region list says',
     'For every list of regions (global, box, cylinder, sphere and voxel file volumes; uniform, linear, radial and spherical fields; volume fractions; specific or extensive internal energy; velocities) the initial state of every element, material point and node is the one of filling the regions in list order: later regions replace or share the element as their volume fractions say, and mass, pressure, sound speed, energies, level set and nodal fields follow from what was painted. '
     'It does not depend on the order of kernel iterations or on separate host and device memories, and a valid input is never refused.',
     ['inputs', 'configurations', 'schedules'], 'all region lists in the stated domain, all kernel orders',
     'No test fills a mesh; overlaps, shared elements and replaced materials multiply.',
     [AM + 'common/src/region_fill.cpp', AM + 'common/include/region_fill.hpp', AM + 'common/include/state.hpp', AM + 'driver.cpp', AM + 'input/parse_regions.cpp'],
     [('region fill', AM + 'common/src/region_fill.cpp')], note=MPN)
prop('C36', 'Mass, momentum and total energy are conserved',
     'In every Lagrangian run (SGH in 3D and RZ, one or several materials, any fills, dissipation, strength, erosion, Runge-Kutta stages and time steps) every material point keeps its mass, density times volume stays equal to it, and the total mass of nodes and material points agrees. '
     'With boundaries that are free, reflected or fixed, internal plus kinetic energy stays constant to rounding; in 3D so does momentum in every direction no boundary condition acts on. '
     'Element volumes are those of the moving nodes.',
     ['inputs', 'schedules', 'histories'], 'all problems in the stated domain as long as no element turns inside out, all kernel orders, every output time',
     'No test runs a solver; a lost or doubled corner force shows only as a slow drift.',
     [AM + 'Solvers/SGH_solver_3D', AM + 'Solvers/SGH_solver_rz', AM + 'common/src', AM + 'material_models'],
     [('discrete conservation', AM + 'Solvers/SGH_solver_3D/src/{force_sgh,momentum,energy_sgh}.cpp and the RZ counterparts')], note=MPN)
prop('C37', 'The physics does not depend on frame, units, numbering or material lists',
     'Turning a 3D problem onto other axes, mirroring it, moving it, or (SGH in 3D) watching it from a moving frame gives the turned, mirrored, moved states; so does changing the units of length, time and mass of an SGH problem, with the values scaled accordingly. '
     'Renumbering nodes and elements of the mesh and the local axes of elements changes nothing but the numbers, and neither does listing one material as several equal ones. '
     'All this holds for the SGH, thermal and level set solvers with their materials, regions, dissipation and boundary conditions, in every output.',
     ['inputs', 'schedules', 'histories'], 'all problems in the stated domain as long as no element degenerates, all kernel orders, every output, to a relative 1e-6',
     'No test runs a solver, and an index or sign slip in one direction looks plausible in any single run.',
     [AM + 'Solvers', AM + 'material_models', AM + 'common/src', AM + 'boundary_conditions'],
     [('frame indifference', AM + 'material_models/artificial_viscosity/mars.hpp, Solvers/*/src/*.cpp'), ('numbering', 'lib/Elements/swage/mesh.h usage in the solvers, ' + AM + 'common/include/mesh_io.hpp')], note=MPN)
prop('C38', 'Time stepping obeys its limits and outputs come at the requested times',
     'Every solver of a run starts at the end time of the previous one with exactly its state, stops at its end time or cycle limit and never passes it, and its time series lists every output in increasing order. '
     'With outputs by time they are written at the start, at every whole multiple of the interval after it, and at the end, and at no other time. '
     'For the SGH solvers each time step is the smallest of 1.1 times the last step, the CFL limit of every element within the given bounds, the maximum step and what remains to the next output and to the end.',
     ['inputs', 'histories', 'schedules'], 'all problems, time controls and output intervals in the stated domain',
     'No test runs a solver; wrong limits show only as instability or lost outputs far into a run.',
     [AM + 'Solvers', AM + 'common/include/mesh_io.hpp', AM + 'driver.cpp'],
     [('time control', AM + 'Solvers/*/src/*execute*.cpp, time_integration*.cpp')], note=MPN)
prop('C39', 'Boundary conditions hold at every cycle on exactly their own set and time window',
     'At every output of the SGH solvers (3D and RZ) the velocity of every boundary node satisfies the velocity conditions of its sets for the running solver, applied in input order: fixed, constant, reflected, and along any given direction (any sign, length or slant) the piston polynomial or the exponential decay, within their time windows. '
     'The forces on the boundary add up to the traction of the stress conditions over the outward area of their faces, within their windows. '
     'Conditions of another solver have no effect.',
     ['inputs', 'histories', 'schedules'], 'all condition lists, directions, windows and overlapping surfaces in the stated domain, all kernel orders',
     'No test runs a solver; overlapping sets, windows and slanted directions multiply.',
     [AM + 'boundary_conditions', AM + 'input/parse_bdy_conds_inputs.cpp', AM + 'Solvers'],
     [('velocity conditions', AM + 'boundary_conditions/velocity'), ('stress conditions', AM + 'boundary_conditions/stress')], note=MPN)
prop('C44', 'The SGH solvers advance every state field as their scheme prescribes',
     'From any output to the next, the 3D and axisymmetric SGH solvers move coordinates, velocities, volumes, velocity gradients, energies, masses, densities, pressures, sound speeds and stresses by their multi-stage scheme: corner forces from stress and MARS dissipation in the material share of each element, boundary tractions and velocities, energy by the corner work with the stage-averaged velocity, and the equation of state. '
     'Stress follows the Jaumann rate of the hypo-elastic model returned to the yield surface; points whose pressure or density falls to their erosion values lose their stress for good and affect no other material. '
     'Each dissipation, strength, equation-of-state and boundary model named in the input is the one that is used, with its parameters in their documented order.',
     ['inputs', 'schedules', 'histories'], 'all problems in the stated domain (without pressure equilibration or contact) as long as no element is inverted, all kernel orders, every output, to a relative 1e-6 of the field',
     'No test runs a solver; a slip in one term, stage or parameter leaves a plausible answer in any single run.',
     [AM + 'Solvers/SGH_solver_3D/src', AM + 'Solvers/SGH_solver_rz/src', AM + 'material_models', AM + 'common/src/geometry_new.cpp', AM + 'input'],
     [('scheme', AM + 'Solvers/SGH_solver_3D/src/sgh_execute.cpp, Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp'), ('models', AM + 'material_models/*/*.hpp')], note=MPN)
prop('C41', 'The thermal solver advances temperatures by conduction and heat sources',
     'From any output to the next the thermal solver changes the nodal temperatures by its multi-stage scheme: conduction by Fourier\'s law in every hexahedron with the conductivity of its material, divided by nodal mass and mean specific heat; held temperatures hold from the first output on; convection and radiation act on every face of their sets with its area; nothing else changes. '
     'With the moving heat source the elements inside the source sphere on the tool path receive its power, and the material\'s density, conductivity and specific heat come from its tables, interpolated between rows and constant beyond them, whatever the order of the tables in the file. '
     'Each step is the smallest of 1.1 times the last one, the stability limit of every element, the maximum step, and what remains to the next output and to the end.',
     ['inputs', 'schedules', 'histories'], 'thermal problems with one material per element on boxes and distorted hexahedra, all kernel orders, every output, to a relative 1e-8 of the field',
     'No test runs a solver; a wrong factor in one flux still gives smooth temperatures.',
     [AM + 'Solvers/SGTM_solver_3D/src', AM + 'common/include/table.hpp', AM + 'common/include/additive_data.hpp', AM + 'input/read_abaqus_files.cpp', AM + 'material_models/tabular'],
     [('scheme', AM + 'Solvers/SGTM_solver_3D/src/sgtm_execute.cpp'), ('tables', AM + 'input/read_abaqus_files.cpp')], note=MPN)
prop('C42', 'The level-set solver advances the level set by its upwind scheme',
     'From any output to the next the level-set solver, in 2D and 3D, changes the level set of each element by its multi-stage scheme: the gradient of the field at the nodes, the boundary conditions on the direction of motion, upwind weights of the corners, the normal velocity of each material that evolves a front, and redistancing; other materials keep their values. '
     'The nodal gradient it writes is the gradient of the level set. '
     'Each step is the smallest of 1.1 times the last one, the limit by the front speed of every element, the maximum step, and what remains to the next output and to the end.',
     ['inputs', 'schedules', 'histories'], 'level-set problems on boxes and distorted hexahedra with one or two materials, all kernel orders, every output, to a relative 1e-7 of the field',
     'No test runs a solver; a wrong upwind weight or stage still moves a front.',
     [AM + 'Solvers/level_set_solver/src', AM + 'common/src/geometry_new.cpp'],
     [('scheme', AM + 'Solvers/level_set_solver/src/level_set_execute.cpp, solver_functions.cpp')], note=MPN)
prop('C40', 'A mistake in the input file is refused, and its order of words means nothing',
     'Blocks, words in a block, and solvers and materials with their ids may come in any order without changing a bit of the result. '
     'A file with an unknown word or option, a missing required word or block, an id that is out of range or taken, an incomplete coordinate, parameters or fields a model or solver does not have, or conflicting mesh sources is refused with an error before any output is written. '
     'No file content makes the program read or write outside its memory while it sets the problem up.',
     ['inputs', 'faults'], 'all problems in the stated domain, every place, kind and combination of the stated mistakes, and random damage to the text',
     'No test parses a Fierro input; a silently ignored word or an unchecked id computes something else than was asked.',
     [AM + 'input', AM + 'driver.cpp', AM + 'common/include/string_utils.hpp'],
     [('parsers', AM + 'input/*.cpp'), ('set-up', AM + 'driver.cpp: Driver::initialize')], note=MPN)

MM = 'apps/micromechanics/'
EVN = SEARCH + 'The four micromechanics programs run unmodified as simulated MPI jobs; MPI, heFFTe, HDF5, Kokkos, MATAR, the file system and the shell are simulated, so properties of those libraries are assumed.'
EVF = [MM + 'EVPFFT/src', MM + 'LS-EVPFFT/src', MM + 'LS-EVPFFT-J2/src', MM + 'LSNP-EVPFFT/src']
prop('C50', 'Micromechanics results do not depend on the number or pace of MPI ranks',
     'For every micromechanics program, microstructure, grid, boundary condition and option, running on any number of ranks the grid can be dealt out to, however the ranks are scheduled against each other, gives the results of one rank up to the rounding of sums: macroscopic stress and strain, iteration counts, textures, and every field of every voxel and grid point at every output step. '
     'Every output is complete: the pieces cover the grid once, agree about common points, and are listed by their main file. '
     'Every rank takes part in the same collective operations in the same order, so no schedule ends in a deadlock.',
     ['inputs', 'schedules', 'configurations'], 'all problems in the stated domain, 2 to 8 ranks, all schedules of the ranks between calls of MPI and the file system',
     'The tests never run a solver, let alone on several ranks; local and global indices agree on one rank.',
     EVF, [('domain decomposition', MM + '*/src/allocate_memory.cpp, heffte_fft.h'), ('reductions', MM + '*/src/*.cpp: MPI_Allreduce after every device reduction'), ('parallel output', MM + '*/src/write_micro_state.cpp, write_texture.cpp, hdf5_io_functions.h')], note=EVN)
prop('C51', 'Micromechanics results do not depend on device order or separate memories',
     'For every micromechanics program, microstructure, grid, boundary condition and option, iterating the kernels in any order and keeping host and device memory apart gives the results of one thread with one memory, up to the rounding of sums. '
     'No kernel touches memory of the host or local variables of the host code, no host code touches memory of the device, and no iteration of a kernel touches what another one writes. '
     'Nothing is read before it is written.',
     ['inputs', 'schedules', 'configurations'], 'all problems in the stated domain, all kernel orders of the simulated device, one to four ranks',
     'The tests never run a kernel; on a CPU build host and device are one memory and one order.',
     EVF, [('kernels and copies', MM + '*/src/*.cpp: FOR_ALL_CLASS, parallel_reduce, update_host, update_device')], note=EVN)
prop('C52', 'The micromechanics programs simulate the material and grains of their input',
     'Every output shows each voxel with the phase, grain and initial orientation that the microstructure file (text, HDF5 in degrees or radians, or VTK lattice) gives it, on any number of ranks. '
     'Input that is cut, missing, unreadable, not a number, or does not fit the sizes of the input file (phases, modes, systems, extents of data sets) is refused with an error status, unless the damage has no effect on any result. '
     'No input content makes the programs read or write outside their arrays.',
     ['inputs', 'faults', 'configurations'], 'all problems in the stated domain, every kind and place of damage to every input file, read faults and short reads, 1 to 4 ranks',
     'The tests never run the programs; a value that can not be read is silently zero or the last one read.',
     EVF, [('readers', MM + '*/src/vpsc_input.cpp, data_crystal.cpp, data_crystal_elast.cpp, data_grain.cpp, hdf5_io_functions.h')], note=EVN)
prop('C53', 'A micromechanics run that ends with success has stored all of its results',
     'When a file can not be opened, written or closed, the disk is full, or a rank dies, a micromechanics run either ends with every result completely stored and equal to that of an undisturbed run, or ends with an error status. '
     'Interrupted system calls and short writes have no effect. '
     'After a crash at any point, output steps that were completed before it are still there and right, and no input file has changed.',
     ['faults', 'crash points', 'schedules'], 'all problems in the stated domain, every file and the n-th call of every kind, disk capacities, and crash of a rank or of the disk at any point',
     'The tests have no disk faults, and never run the programs.',
     EVF, [('output', MM + '*/src/output_file_manager.cpp, micro_output_writer.h, write_micro_state.cpp, hdf5_io_functions.cpp'), ('end of run', MM + '*/src/evpfft.cpp')], note=EVN)
prop('C54', 'EVPFFT computes the elasto-viscoplastic response of the polycrystal',
     'For any polycrystal and boundary condition in the stated domain, on any number of ranks and under any device schedule, EVPFFT, LS-EVPFFT and LS-EVPFFT-J2 report what an independent implementation of their formulation predicts: the number of iterations and their errors, macroscopic strain, stress, plastic strain and their rates, the voxel fields, and the final lattice orientations and their colours. '
     'This covers elastic anisotropy, rate-dependent slip with hardening, gas phases, mixed strain-rate and stress control, and reorientation of the lattice.',
     ['inputs', 'schedules'], 'random problems of up to 4x4x4 voxels (5x5x5 thorough) and 4 steps (5), one to three phases, cubic, hexagonal and isotropic, 1 to 6 ranks',
     'The tests never run the micromechanics programs, and the regression inputs in the repository cover one loading of two materials.',
     EVF, [('steps', MM + '*/src/evpfft.cpp, step.cpp, get_smacro.cpp'), ('local solution', MM + '*/src/evpal.cpp, harden.cpp, update_schmid.cpp'), ('Green operator', MM + '*/src/inverse_the_greens.cpp'), ('orientation', MM + '*/src/update_orient.cpp, update_defgrade.cpp'), ('reports', MM + '*/src/write_macro_state.cpp, write_micro_state.cpp, write_texture.cpp')], note=EVN)
