"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/properties.py` after an edit."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
S = 'src/mccode_antlr/'
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech, level='exploration', note='', hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, tech=tech, level=level, note=note, hook=hook))


prop('C01', 'Expressions read from McCode text keep their C value',
     'An expression written anywhere in an instrument or component keeps the value C gives it: the text the library prints for '
     'the parsed expression (its string form, its C form, its simplified form, and the same after substituting parameter '
     'prefixes) evaluates, for every value of the variables it mentions, to what the original text evaluates to. Operator '
     'precedence, associativity, unary signs, the ternary operator, calls, member and array access, and integer versus '
     'floating-point literals are all preserved.',
     ['inputs', 'programs'], 'every expression of the McCode expression grammar, every valuation of its variables',
     'The tests compare a few hand-written expressions with hand-written trees; none evaluates the printed C text.',
     [S + 'common/expression.py', S + 'common/visitor.py', S + 'grammar/c_expr.g4', S + 'grammar/McCommon.g4'],
     [('parse to tree', S + 'common/visitor.py'), ('print with needed parentheses', S + 'common/expression.py:_parenthesize')],
     ['Expr.parse', 'str(expr)', 'format(expr, "c")', 'Instr.to_string'],
     'differential run-time oracle: original and printed text compiled by gcc and evaluated on random valuations',
     note='random trees of the expression grammar; the oracle is the C compiler, trusted. `^`, hexadecimal and suffixed literals excluded (DESIGN.md).')

prop('C02', 'Expression arithmetic, simplification and evaluation agree with C',
     'Building an expression with the Python operators (+ - * / // ** unary minus, abs, round, comparisons), simplifying it, evaluating it '
     'with known values, or copying it yields an expression whose value equals the one obtained by evaluating the operands and '
     'applying the operation. None of these operations changes its operands.',
     ['inputs', 'histories'], 'every sequence of operator applications on expressions and plain numbers, every valuation',
     'Tests check single operations on single literals and identifiers, never a composed history against values.',
     [S + 'common/expression.py'],
     [('operator overloads with constant folding', S + 'common/expression.py:Expr'), ('simplify/evaluate', S + 'common/expression.py')],
     ['Expr.__add__ ...', 'Expr.simplify', 'Expr.evaluate', 'Expr.copy'],
     'differential run-time oracle: operation histories against gcc-evaluated values, operands re-read after each step',
     note='random operation histories; oracle C compiler.')

prop('C03', 'The names an expression depends on are found exactly',
     'Asking whether an expression depends on a name answers yes exactly when that name occurs in it as a variable (not as a '
     'function, a struct member or part of a longer name). When an expression is used in an instrument, exactly the occurrences of '
     'the declared instrument parameters are marked as such and get the parameter prefix in generated C.',
     ['inputs', 'programs'], 'every expression, every set of declared parameter names',
     'Tests ask about one or two names of flat expressions.',
     [S + 'common/expression.py', S + 'instr/instr.py', S + 'instr/instance.py', S + 'common/visitor.py'],
     [('depends_on / verify_parameters', S + 'common/expression.py')], ['Expr.depends_on', 'Expr.verify_parameters', 'format(expr, "p")'],
     'run-time monitor: generated name sets versus the answers and the emitted prefixes', note='random expressions; names known by construction.')

prop('C04', 'Parsing an instrument keeps everything that was written',
     'The object obtained by parsing any valid instrument text holds exactly what the text says: name, parameters with type, unit '
     'and default, every section (DECLARE, USERVARS, INITIALIZE, SAVE, FINALLY) with its text, dependency flags, metadata, and the '
     'component instances in order with their type, parameter values, position, orientation and what each is relative to, and their '
     'SPLIT, WHEN, GROUP, EXTEND, JUMP, REMOVABLE and CPU modifiers. An instance declared as a COPY of another starts from that '
     "instance's parameter values, WHEN, GROUP, EXTEND, JUMP and metadata, overridden (EXTEND and JUMP: followed) only by what it states, and leaves the copied instance unchanged.",
     ['programs', 'inputs'], 'every instrument text of the McInstr grammar over a set of component types',
     'Tests parse about a dozen fixed instruments and check selected fields.',
     [S + 'instr/visitor.py', S + 'instr/instance.py', S + 'instr/instr.py', S + 'common/visitor.py', S + 'reader/reader.py'],
     [('visitor building Instr', S + 'instr/visitor.py:InstrVisitor'), ('COPY', S + 'instr/instance.py:from_instance')],
     ['loader.parse_mcstas_instr', 'Reader.get_instrument'],
     'run-time monitor: random instrument models rendered to text, parsed, every field compared with the model')

prop('C05', 'Parsing a component definition keeps everything that was written',
     'The object obtained by reading any valid component file holds exactly its definition, setting and output parameters with '
     'types, units and defaults, category, dependency flags, NOACC, metadata and the text of each section; with DEFINE COMPONENT x COPY y or a '
     'section COPY, the inherited parts come first, followed by what x adds. The definition copied from is unchanged.',
     ['programs', 'inputs'], 'every component text of the McComp grammar, including chains of copies',
     'Tests read two or three inline components; COPY chains are not read at all.',
     [S + 'comp/visitor.py', S + 'comp/comp.py', S + 'reader/reader.py'],
     [('visitor building Comp', S + 'comp/visitor.py:CompVisitor')], ['Reader.get_component'],
     'run-time monitor: random component models rendered to text, parsed, every field compared with the model')

prop('C06', 'Instrument text written by the library reads back as the same instrument',
     'Writing any instrument to text and parsing that text gives an instrument with the same name, parameters, sections, metadata, '
     'dependencies, and component instances (types, parameter values, placements, references, modifiers, order). Writing the '
     're-read instrument gives the same text again.',
     ['programs', 'histories'], 'every instrument, whether parsed or built through the API',
     'One round trip of a tiny instrument is tested.',
     [S + 'instr/instr.py', S + 'instr/instance.py', S + 'instr/jump.py', S + 'common/block.py', S + 'common/metadata.py', S + 'common/parameters.py', S + 'common/expression.py'],
     [('to_file/to_string writers', S + 'instr/instr.py:to_file')], ['Instr.to_string', 'Instr.to_file'],
     'round-trip monitor: object to text to object, field-by-field comparison, and text fixpoint')

prop('C07', 'Instruments and components saved to HDF5 load back equal',
     'Saving any instrument to an HDF5 file and loading it back gives an equal instrument: same parameters, component types, '
     'instance parameter values including their numeric type, placements, groups, jumps, sections, metadata and registries, and the loaded instrument '
     'produces the same text and the same generated C as the original.',
     ['programs', 'inputs'], 'every instrument the library can represent',
     'Tests save two small instruments.',
     [S + 'io/hdf5.py'], [('typed readers and writers', S + 'io/hdf5.py')], ['mccode_antlr.io.save_hdf5', 'mccode_antlr.io.load_hdf5'],
     'round-trip monitor: object to HDF5 to object, structural comparison, text and C comparison')

prop('C08', 'Placements compose like rigid-body transformations',
     'For any chain of component placements the absolute position and rotation computed by the library equal those of the rigid-body '
     'transformations they denote (McCode conventions: rotate about x, then y, then z), whether angles and coordinates are numbers or expressions '
     'later evaluated. Composition is associative, inverses cancel, and the decomposition of a rotation into parts or angles '
     'multiplies back to the same rotation.',
     ['inputs', 'programs'], 'every chain of positions and rotations, absolute or relative, constant or symbolic',
     'Tests use a few right angles.',
     [S + 'instr/orientation.py', S + 'instr/instance.py'],
     [('Rotation/Vector/Seitz/Parts/Orient algebra', S + 'instr/orientation.py')],
     ['Orient.position', 'Orient.rotation', 'Orient.angles', 'Instance.orientation'],
     'differential run-time oracle: every position, matrix and angle printed, evaluated by a C compiler, and compared with independent rigid-body arithmetic')

prop('C09', 'Generated C places components where the instrument says',
     'In a program generated from any instrument, after initialisation every component has the absolute position and '
     'rotation its AT and ROTATED clauses denote for the parameter values given at run time, and each ray is handed to a component '
     'in coordinates of that component.',
     ['programs', 'inputs'], 'every instrument, every parameter value',
     'Runtime tests need a McStas installation and are skipped; none inspects positions.',
     [S + 'translators/c_initialise.py', S + 'translators/c_raytrace.py', S + 'translators/c_trace.py'],
     [('setpos functions', S + 'translators/c_initialise.py'), ('raytrace coordinate transforms', S + 'translators/c_raytrace.py')],
     ['translated C program run against an instrumented mini-runtime'],
     'run-time monitor inside generated programs: logged positions, rotations and local ray coordinates versus numpy')

prop('C10', 'Generated C runs each ray through the components as specified',
     'A program generated from any instrument sends every ray through the component sequence the instrument specifies: components in '
     'order, WHEN deciding whether a component acts, GROUP members sharing a ray so that exactly the first that takes it keeps it (and a ray nobody takes is absorbed), '
     'EXTEND running after its component acted, JUMP going to its target when its condition holds (or a number of times for ITERATE), SPLIT repeating the '
     'ray the given number of times with its weight divided, and absorbed rays going no further. A traced run tells the name of every component the ray reaches which has code, and the state of the ray there, before that code runs. The random numbers of a ray follow from the seed and its number alone, and the copies a SPLIT makes continue the sequence instead of repeating it. (The FUNNEL layout is not promised to repeat rays as often.)',
     ['programs', 'inputs', 'histories'], 'every combination of modifiers, every ray',
     'Runtime tests need a McStas installation and are skipped; they only look at single features.',
     [S + 'translators/c_raytrace.py', S + 'translators/c_trace.py', S + 'instr/instr.py', S + 'instr/group.py', S + 'instr/jump.py'],
     [('class raytrace loop', S + 'translators/c_raytrace.py')], ['event log of the generated program'],
     'offline trace checker: the event log of the generated program versus a reference interpreter of the instrument model')

prop('C11', 'Generated C delivers every parameter value',
     'In a program generated from any instrument, each component sees for each of its parameters the value the instrument assigns '
     '(evaluated with the run-time instrument parameters and after INITIALIZE), or the default of its definition when none is assigned, with the declared type; the '
     'instrument parameter table has one entry per parameter with its name, type, default and unit. A program built for NeXus is told of every component, in order and with its place, and of every parameter of it with its type, default and value.',
     ['programs', 'inputs'], 'every assignment of every parameter type, every run-time parameter value',
     'Runtime tests need a McStas installation; parameter values are not observed.',
     [S + 'translators/c_initialise.py', S + 'translators/c_decls.py', S + 'translators/c_header.py', S + 'translators/c_defines.py', S + 'instr/instance.py'],
     [('init functions', S + 'translators/c_initialise.py'), ('parameter structs', S + 'translators/c_decls.py')],
     ['values logged by components in the generated program'],
     'run-time monitor inside generated programs: logged parameter values versus the model')

prop('C12', 'Every section of every component runs exactly when it should',
     'A generated program runs the instrument INITIALIZE and each component INITIALIZE exactly once, in instrument order, before the first ray; each SAVE and '
     'FINALLY (components and instrument) exactly once per save and at the end, and DISPLAY once per component on request; each section runs with the parameters and declared state of '
     'its own instance, shared with no other instance.',
     ['programs', 'histories'], 'every instrument with any number of instances of any component types',
     'Tests only compare pieces of the generated text, or need an installation.',
     [S + 'translators/c_section.py', S + 'translators/c_initialise.py', S + 'translators/c_save.py', S + 'translators/c_finally.py', S + 'translators/c_display.py'],
     [('section writers', S + 'translators/c_section.py')], ['event log of the generated program'],
     'offline trace checker over the event log of generated programs')

prop('C13', 'Generated C is free of memory errors and undefined behaviour',
     'For every valid instrument whose user-written C is itself well defined, the generated program compiles without errors, and running it over any rays and parameter values performs no out-of-bounds or '
     'use-after-free access, reads no uninitialised pointer, and has no undefined behaviour in the generated code.',
     ['programs', 'inputs'], 'every instrument, every run',
     'No test compiles with sanitizers; most cannot compile at all without an installation.',
     [S + 'translators/c.py', S + 'translators/c_raytrace.py', S + 'translators/c_header.py', S + 'translators/c_initialise.py', S + 'translators/c_decls.py', S + 'compiler/c.py'],
     [('all C writers', S + 'translators')], ['AddressSanitizer/UndefinedBehaviorSanitizer reports'],
     'AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer on generated programs')

prop('C14', 'C declarations in DECLARE and USERVARS are understood as C does',
     'For any block of C declarations, the variables the library extracts (name, type, pointer or array part, initial value) are those the C compiler '
     'sees: the same variable names in order, and types and initialisers that declare the same objects; function bodies, types and comments are not taken for variables, and every defined type name is found. In a generated program each variable of the '
     'DECLARE section of a component is a member of every instance with the size C gives it, and starts with its initial value (zero without one); ensuring a user variable through the API adds it once.',
     ['inputs'], 'every block of C declarations accepted by the grammar',
     'Tests extract from about ten fixed declarations.',
     [S + 'translators/c_listener.py', S + 'grammar/C.g4'], [('extract_c_declared_variables', S + 'translators/c_listener.py')],
     ['extract_c_declared_variables'], 'differential run-time oracle: the extracted declarations recompiled by gcc and compared by type, size and bytes')

prop('C15', 'User variables travel with the ray',
     'Every variable declared in USERVARS of the instrument or of a component is a field of each ray in the generated program, starts at zero (double and int scalars), keeps per-ray values '
     'through splits and along components, is readable and writable by its name from component code through the generated accessors, as are the coordinates and other members every ray has; unknown names are reported as such, and each ray starts in the same state.',
     ['programs', 'histories'], 'every set of user variables, every ray history',
     'No test reads a user variable back.',
     [S + 'translators/c_particle.py', S + 'translators/c_header.py', S + 'instr/instr.py'],
     [('particle struct and getvar/setvar writers', S + 'translators/c_particle.py')], ['values logged by the generated program'],
     'run-time monitor inside generated programs')

prop('C16', 'Included C code appears once, in dependency order',
     'However many components (or libraries) ask for the same %include library or share a component type, its SHARE code and the library text are emitted exactly once in the generated '
     'program and before the code that needs them; includes inside included files are resolved the same way, and nothing that was written is lost or duplicated.',
     ['programs', 'configurations'], 'every include graph over libraries, every order of components',
     'Tests translate instruments with one include at most.',
     [S + 'translators/c.py', S + 'translators/target.py', S + 'translators/c_header.py'],
     [('include handling', S + 'translators/target.py')], ['generated text', 'program compiles'],
     'run-time monitor: markers counted and ordered in the generated text, program compiled')

prop('C17', 'Splitting and sub-copying an instrument loses nothing',
     'Splitting an instrument at a component gives two instruments that together contain every component once (the split point as documented), with their parameters, '
     'placements, groups and sections preserved, so that absolute positions and the trace are the same as before; the MCPL variant only replaces the split component by its output and input components. Copying a range keeps exactly the '
     'requested components. The original is unchanged.',
     ['programs', 'inputs'], 'every instrument and every split point',
     'Tests split two fixed instruments.',
     [S + 'instr/instr.py', S + 'instr/instance.py'], [('split/copy/mcpl_split', S + 'instr/instr.py')],
     ['Instr.split', 'Instr.mcpl_split', 'Instr.copy'], 'run-time monitor: conservation of components, positions and sections across the split')

prop('C18', 'Instruments are independent of their copies and of their readers',
     'Changing a copy of an instrument, instance, or expression never changes the original, and translating, printing, saving, splitting or querying an instrument never changes it. (Component definitions and registries are shared with the copy by design.)',
     ['histories', 'programs'], 'every sequence of API calls on an instrument and its copies',
     'Tests compare a copy with its source once.',
     [S + 'instr/instr.py', S + 'instr/instance.py', S + 'common/expression.py', S + 'translators/target.py'],
     [('copy', S + 'instr/instr.py:copy')], ['repr / text / HDF5 image before and after'],
     'run-time monitor: deep snapshots of the original around random API histories')

prop('C19', 'Component and file lookup honours the order of registries',
     'A component, library or data file is taken from the highest-priority registry that has it, with ties resolved in the order the registries were added; directories named by SEARCH '
     'come first, exact names are not confused with longer ones or read as patterns, and a name no registry has is an error naming it rather than a wrong file.',
     ['configurations', 'histories'], 'every set of registries with any overlap, in any order of addition',
     'Tests use one or two registries.',
     [S + 'reader/registry.py', S + 'reader/reader.py'], [('registry ordering and lookup', S + 'reader/reader.py:locate')],
     ['Reader.locate', 'Reader.contents', 'Reader.get_component'], 'run-time monitor: lookups against a model of prioritised dictionaries')

prop('C20', 'Simulation output files are read and combined without losing data',
     'Reading a McCode data file gives exactly the numbers, metadata, and shape written in it; writing it back reads as the same. Combining repeated runs adds counts and intensities, '
     'combines errors in quadrature, and never mixes files whose axes or parameters differ; the same goes for the simulation summary files, whose detector values and counts are combined and of which every directory, date, program and parameter is kept. The description of an axis is that of the file.',
     ['inputs', 'histories'], 'every 0-D, 1-D and 2-D file, every number of runs combined',
     'The loaders have no tests.',
     [S + 'loader/datfile.py', S + 'loader/simfile.py'], [('DatFile loading and addition', S + 'loader/datfile.py')],
     ['read_mccode_dat', 'combine_mccode_dats', 'load_mccode_dats'], 'run-time monitor: generated files versus parsed and combined arrays (conservation)')

prop('C21', 'Parameter scans visit exactly the requested points',
     'A scan range written min:step:max (or min:max) or a single value yields exactly the values it denotes, first and last included, and its length, iteration and element access agree; a '
     'scan over several parameters visits each listed combination once (same-length lists and ranges together, single values repeated, or every combination of the grid), under the names given; lists of different lengths are refused, and the request itself is not changed.',
     ['inputs', 'configurations'], 'every range text, every combination of ranges, lists and single values',
     'There are no tests of scan ranges.',
     [S + 'run/range.py', S + 'run/runner.py'], [('MRange/EList and parameters_to_scan', S + 'run/range.py')],
     ['MRange.from_str', 'parse_scan_parameters', 'parameters_to_scan'], 'run-time monitor: decoded ranges versus exact rational arithmetic')

prop('C22', 'The runner starts the program with what the user asked for',
     'Running an instrument, alone or as a scan, starts the compiled program once per point with that point\'s parameter values, and the requested ray count, seed, output directory and flags, each exactly once and in a form the program reads back as the same values. A program which has to be compiled for the run is compiled from that instrument, can be traced and carries the source text exactly when that is asked for.',
     ['inputs', 'configurations', 'histories'], 'every set of options and parameters',
     'Tests need an installation to run anything.',
     [S + 'run/runner.py', S + 'compiler/c.py'], [('argument construction', S + 'run/runner.py')],
     ['arguments received by the executed binary'], 'run-time monitor: a recording stand-in binary logs its argument vector')

prop('C23', 'Metadata reaches the user byte for byte',
     'Metadata attached to a component definition, an instance or the instrument is available from the parsed instrument and from the generated program under its source, name and type, with exactly the bytes that were '
     'written; metadata stated on an instance replaces that of its definition with the same name, and no other.',
     ['inputs', 'programs'], 'every text and every set of names and sources',
     'Tests use short plain texts.',
     [S + 'common/metadata.py', S + 'translators/c_header.py', S + 'translators/c.py', S + 'instr/instance.py', S + 'common/utilities.py'],
     [('metadata table writer', S + 'translators/c_header.py')], ['metadata table of the generated program', 'Instr.collect_metadata'],
     'run-time monitor: bytes dumped by the generated program versus the bytes written')

prop('C24', 'Translation to C is deterministic and repeatable',
     'Translating the same instrument to C gives the same text (but for its date line) every time, in the same or another process, independent of hash seeds, of earlier translations, and of whether the instrument was just parsed, copied or re-read from its own text; a translator to which no settings are given uses those of the command.',
     ['histories', 'configurations'], 'every instrument, every sequence of translations',
     'No test translates twice.',
     [S + 'translators/c.py', S + 'translators/target.py', S + 'instr/instr.py'], [('CTargetVisitor.translate', S + 'translators/target.py')],
     ['generated C text'], 'run-time monitor: generated text compared across repetitions, processes and hash seeds')

prop('C25', 'Instruments built through the API equal the same instrument parsed',
     'An instrument assembled call by call has the same content, and gives the same text and the same generated C, as the parsed text that states the same things.',
     ['programs', 'histories'], 'every sequence of assembler calls',
     'Two short assemblies are tested.',
     [S + 'assembler/assembler.py', S + 'instr/instance.py', S + 'instr/instr.py'], [('Assembler', S + 'assembler/assembler.py')],
     ['Assembler.component', 'Assembler.parameter', 'Assembler.instrument'], 'run-time monitor: one model rendered both ways and compared')

prop('C26', 'Compilation uses exactly the flags the instrument depends on',
     'The flags passed to the C compiler are those of the instrument and of every component type used in it (with those of the definitions it copies from), each distinct text once, decoded as documented (@…@ keywords, CMD, GETPATH, ENV), with the configured compiler and no flag of a component that is not used. An existing program is compiled again exactly when that is asked for; a target changed in part keeps the rest. Files of the user take precedence over those of the standard C library in GETPATH. A compiler that is missing, fails or makes nothing is reported by an error when it is needed, and one that works is used.',
     ['programs', 'configurations'], 'every set of DEPENDENCY strings over components and instrument',
     'One DEPENDENCY line is tested.',
     [S + 'instr/instr.py', S + 'compiler/c.py', S + 'reader/reader.py'], [('decoded_flags', S + 'instr/instr.py:decoded_flags')],
     ['Instr.decoded_flags', 'arguments of the compiler process'], 'run-time monitor: a recording stand-in compiler logs its argument vector')

prop('C27', 'Configuration and cache commands touch only what they name',
     'Setting, getting, listing, saving and unsetting configuration values acts on exactly the named key, and what is saved survives a reload; removing cached files removes exactly the named package and version (or, when none is named, the cache of this program), only after confirmation or force, and never anything outside the cache directory.',
     ['inputs', 'histories', 'configurations'], 'every key, value, file and sequence of commands',
     'The management commands have no tests.',
     [S + 'cli/management.py', S + 'config/__init__.py'], [('config_* and cache_* handlers', S + 'cli/management.py')],
     ['file tree and recorded deletions'], 'run-time monitor: scratch configuration and cache trees, deletions recorded by a stand-in')


prop('C28', 'A wrong instrument is refused by name and never read as something else',
     'Reading or translating an instrument with a fault of meaning — an unknown component type or reference (AT, ROTATED, COPY, JUMP, GROUP COPY), a reference further back than the first component, a jump out of range, a repeated instance or parameter name, an unknown parameter, a list or text for a parameter that can not hold one, a constant WHEN, a missing or mismatched file, a failing DEPENDENCY search or command, a user variable with an initial value — raises an exception whose message names what is wrong; it is never silently placed, dropped or replaced. A refused step of an Assembler leaves the instrument as it was.',
     ['inputs'], 'every valid instrument with one fault anywhere in it',
     'The tests read correct instruments; wrong ones are only sampled for one or two exceptions.',
     [S + 'instr/visitor.py', S + 'instr/instr.py', S + 'reader/reader.py', S + 'instr/instance.py', S + 'assembler/assembler.py', S + 'translators/target.py'],
     [('name resolution while reading', S + 'instr/visitor.py'), ('verification of parameters', S + 'instr/instance.py:verify_parameters')],
     ['exceptions of load_mcstas_instr_string and of the translation', 'instrument after a refused Assembler call'], 'run-time monitor: fault injection into generated valid inputs, oracle over raised exceptions and state snapshots')


prop('C29', 'The commands and file loaders translate an instrument as the library does',
     'mcstas-antlr and mcxtrace-antlr, given an instrument file (or its HDF5 form), and load_mcstas_instr/load_mcxtrace_instr followed by saving the translation, write exactly the requested C file (-o, or the input name ending in .c) and no other: a program that behaves as the instrument says, built from the component and library files of the -I directories, the working directory and the standard library, the files of the user taking precedence over the standard ones. --trace, --no-main, --portable and --source have their effect and no other, in any order and spelling; --source embeds the text of the instrument file unchanged; the instrument knows its name and source file. What cannot be translated ends in an error and leaves no output; input files are never changed.',
     ['inputs'], 'every valid instrument, distribution of its files over directories, and command line',
     'The tests never start the commands.',
     [S + 'cli/commands.py', S + 'loader/loader.py', S + 'reader/reader.py', S + 'reader/registry.py', S + 'translators/target.py', S + 'translators/c_header.py'],
     [('command line', S + 'cli/commands.py:mccode'), ('options in the C source', S + 'translators/c_header.py:header_post_runtime')],
     ['the files written by the command', 'global variables and event log of the compiled program'], 'run-time monitor: probe object and event log of the compiled output against prediction')


prop('C30', 'Files of remote registries are what their listing promises, however it goes',
     'A registry of remote files (GitHubRegistry, ModuleRemoteRegistry, and the registries of the package itself, of the requested version tag or the highest plain version tag for "latest") gives for every listed name the contents listed for its version, in the form of text, path or component: retrieved from the address of that version the first time and then kept, so that later uses, also by other processes and without network, need no further requests; versions kept side by side are never mixed; a damaged local copy is replaced. A file or listing which cannot be retrieved, or does not match the listed hash, is an error, and nothing of it is ever taken for the file or listing later. A first use which is killed, fails half-way (full disk) or is made by several processes at once leaves a cache in which every later use, and every one of the concurrent ones, finds everything.',
     ['inputs', 'schedules', 'crash_points', 'fault_sequences', 'histories'], 'every listing and version, history of uses and damage, fault of the server, point of ending, number and timing of processes',
     'No test has a server: the path which fetches tags, listings and files is never run, with or without faults.',
     [S + 'reader/registry.py', S + 'reader/reader.py'],
     [('listing fetched and kept', S + 'reader/registry.py:GitHubRegistry'), ('files fetched and kept', S + 'reader/registry.py:RemoteRegistry'), ('version tag', S + 'reader/registry.py:_mccode_pooch_registries')],
     ['results of known, fullname, path, contents, is_available, Reader.get_component', 'requests seen by the server', 'state of the cache as later processes see it'], 'run-time monitor with fault injection: loopback server with faults, SIGKILL at every line, file size limits and concurrent processes; oracle over results and requests')


prop('C31', 'Shown as HTML, an instrument is the text it is written as',
     'Writing an instrument, an instance of a component or a parameter with HTMLWrapper (the form for notebooks, also as a whole page) gives well-formed HTML: every element is one of the layout and is closed, identifiers are unique, and nothing of the text of the user (code, values, conditions, placements, units, metadata, flags) is taken for markup. The text it shows is, apart from white space outside of code, the text which str() gives, and reads back as the same instrument.',
     ['inputs'], 'every valid instrument, whatever characters its code, texts and metadata contain',
     'The tests never write HTML.',
     [S + 'common/textwrap.py', S + 'instr/instr.py', S + 'instr/instance.py', S + 'instr/jump.py', S + 'common/metadata.py', S + 'common/parameters.py'],
     [('HTML elements', S + 'common/textwrap.py:HTMLWrapper'), ('instrument', S + 'instr/instr.py:to_file')],
     ['Instr.to_string(HTMLWrapper())', 'Instr._my_repr_html_'], 'run-time monitor: an HTML parser reads what is shown; oracle = the text form and the instrument read back')


def write():
    out = []
    for p in PROPS:
        out.append(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                   quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                   anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                                observe_at=p['observe'], hook_needed=p['hook']))))
        assert len(p['title']) <= 80, p['title']
    (HERE / 'properties.jsonl').write_text('\n'.join(out) + '\n')
    checks, na = [], []
    for p in PROPS:
        if (HERE / 'mv' / 'checks' / f'{p["id"].lower()}.py').exists():
            checks.append(dict(property=p['id'], quick_cmd=f'bin/check {p["id"]}', thorough_cmd=f'bin/check {p["id"]} --tier thorough',
                               technique=p['tech'], level=p['level'],
                               level_note=p['note'] or 'held on everything the run observed; see DESIGN.md for generators, oracle and assumptions.'))
        else:
            na.append(dict(property=p['id'], reason='no check has been built for this property yet'))
    m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
             notes='All checks import the code from /repo/src at run time (no build artefacts of their own); bin/setup only verifies the tools. No hooks were added to /repo.')
    (HERE / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')


if __name__ == '__main__':
    write()
