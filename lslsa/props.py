"""The properties: one source for properties.jsonl, MANIFEST.json and the rule text in the evidence (see gen.py)."""

P = {}


def prop(pid, title, statement, over, text, why, files, mechanism, technique, rule, note):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, rule=rule, note=note)


NATIVE = ['lsl/correlator/core.cpp', 'lsl/correlator/spec.cpp', 'lsl/correlator/stokes.cpp', 'lsl/imaging/gridder.cpp', 'lsl/misc/beamformer.cpp',
          'lsl/misc/wisdom.cpp', 'lsl/reader/gofast.cpp', 'lsl/reader/cor.cpp', 'lsl/reader/drspec.cpp', 'lsl/reader/drx.cpp', 'lsl/reader/drx8.cpp',
          'lsl/reader/tbx.cpp', 'lsl/reader/vdif.cpp', 'lsl/sim/simfast.cpp']
READERS = ['lsl/reader/drx.cpp', 'lsl/reader/drx8.cpp', 'lsl/reader/tbx.cpp', 'lsl/reader/cor.cpp', 'lsl/reader/drspec.cpp', 'lsl/reader/vdif.cpp']
SOUND = ('The LLVM IR clang emits from the working tree is analysed (all paths, states merged only when equal); library calls are summarised in '
         'lslsa/capi.py. A function whose state space exceeds the cap is an error, not a pass.')

prop('C01', 'Native code touches Python objects only while it holds the interpreter lock',
     'Every compiled routine that gives up the interpreter lock for its computation takes it back before it creates, releases, inspects or raises anything '
     'belonging to Python, and holds it again whenever it returns. This holds on every path, including failed allocations and error exits, '
     'so running the routines from several threads can never corrupt the interpreter.',
     ['schedules', 'inputs', 'fault_sequences'], 'every path through every compiled routine, under every thread interleaving',
     'The tests are single threaded; touching Python without the lock is invisible until another thread runs at that moment, and the error paths (allocation '
     'failure) are never taken.', NATIVE, [('release/reacquire of the interpreter lock around the kernels', 'lsl/correlator/core.cpp (FEngine, XEngine2, XEngine3), all other *.cpp'),
                                           ('OpenMP regions inside the released sections', 'every *.cpp kernel')],
     'static analysis: path-sensitive typestate (lock state) over LLVM IR, interprocedural for repo helpers and outlined OpenMP regions',
     'Typestate of the interpreter lock on every path of every compiled function: no Python API call while released, no double release / reacquire, held at every return; '
     'OpenMP regions inherit the lock state of their launch site.', SOUND)
prop('C02', 'FFT planning is serialised: the planner runs only under the interpreter lock',
     'The FFT planner keeps process-wide state and is not thread safe, so every native routine creates, destroys, imports or exports plans only '
     'while it holds the interpreter lock. Only the execution of finished plans may run concurrently.',
     ['schedules', 'inputs'], 'every call site of the planner on every path, under every interleaving of concurrent callers',
     'A race in the planner needs two threads planning at the same instant; tests call one transform at a time.',
     ['lsl/correlator/core.cpp', 'lsl/correlator/spec.cpp', 'lsl/correlator/stokes.cpp', 'lsl/misc/wisdom.cpp', 'lsl/imaging/gridder.cpp'],
     [('plan creation and destruction', 'FEngine, FPSD, PSD kernels, buildWisdom')],
     'static analysis: path-sensitive typestate (lock state) at planner call sites over LLVM IR',
     'At every call of a plan-creating/destroying/wisdom function, on every path (through helpers and OpenMP regions), the interpreter lock is held and the call is not inside a parallel region.', SOUND)
prop('C03', 'Native routines balance every reference and allocation on every path',
     'On every path through a compiled routine, each new reference and each block of memory it acquires is released exactly once or handed to the caller, '
     'with the matching release function, and nothing is used after its release. In particular an error exit neither leaks what was acquired before it nor '
     'releases something the routine does not own.',
     ['inputs', 'fault_sequences'], 'every path, including every failing call',
     'Leaks and stray releases on error exits change no return value; the tests take a handful of success paths and count no references.',
     NATIVE, [('acquire/release of PyObject references, malloc/fftwf_malloc/new buffers, FFTW plans, FILE handles', 'all compiled routines')],
     'static analysis: path-sensitive ownership analysis (property simulation) over LLVM IR',
     'Ownership state of every acquired reference/allocation on every path: leak at return, over-release, use after release, release with the wrong family.', SOUND)
prop('C04', 'Native failures surface as Python exceptions, never as crashes or silent success',
     'When a call made by a compiled routine fails (an array conversion, attribute lookup, import, callback or file open returns nothing) the routine never dereferences the missing '
     'result. A routine that reports failure always has an exception set, and one that reports success never leaves an exception pending.',
     ['inputs', 'fault_sequences'], 'every failing call on every path',
     'The tests feed well-formed arrays; a crash or a wrong success needs an input that makes one specific inner call fail.',
     NATIVE, [('NULL checks and fail exits', 'all compiled routines')],
     'static analysis: path-sensitive nullness and pending-exception analysis over LLVM IR',
     'Every possibly-NULL acquisition is checked before it is dereferenced on every path; NULL is returned only with an exception pending; an object is returned only with none pending.', SOUND)
prop('C05', 'Parallel kernels are free of data races for every schedule',
     'In every parallel section of the compiled code, no two threads can write the same memory location without mutual exclusion: '
     'a thread writes only its own storage, the elements its own loop iterations select, or inside a critical section. The result therefore does not depend on the number of threads or '
     'their interleaving beyond rounding.',
     ['schedules', 'configurations'], 'every thread count and interleaving of every parallel region',
     'A race shows up only under specific interleavings; on small test arrays with few iterations per thread it rarely manifests.',
     NATIVE, [('OpenMP parallel for regions', 'all kernels'), ('critical section accumulating the uv grid', 'lsl/imaging/gridder.cpp')],
     'static analysis: race analysis of outlined OpenMP regions (LLVM IR), disjointness by injective index in the work-shared variable',
     'Every store / writing call / in-place transform made by a team member goes to private memory, to an element whose address contains the work-shared index injectively (index, or quotient and remainder), or is guarded.', SOUND)
prop('C06', 'A native computation depends on its arguments only, not on earlier calls',
     'The result of a compiled spectral, correlation, gridding, beamforming or simulation routine is a function of the arguments of that call: no value computed for one call is '
     'remembered and used in a later call with other arguments.',
     ['histories', 'inputs'], 'every sequence of calls in one process',
     'Each test calls a kernel with one set of sizes in a fresh state; stale values need a second call with different arguments.',
     ['lsl/correlator/core.cpp', 'lsl/correlator/spec.cpp', 'lsl/correlator/stokes.cpp', 'lsl/imaging/gridder.cpp', 'lsl/misc/beamformer.cpp', 'lsl/misc/wisdom.cpp', 'lsl/sim/simfast.cpp'],
     [('function-local statics and module globals', 'all kernels')],
     'static analysis: interprocedural global/static read-before-write (dominance) analysis over LLVM IR',
     'A mutable static/global written by any routine may be read only where a store in the same call dominates the read; function-local statics are initialised from constants only.', SOUND)
prop('C07', 'Frame readers consume whole frames: short data and lost sync are reported',
     'Each low-level frame reader takes from the file exactly the bytes of one frame of its format, checks how much it got before using it, and reports '
     'end-of-file when data are missing and a synchronisation error when the sync pattern is wrong. '
     'A frame is never returned when the file was truncated or the sync word did not match, and every field set on the frame comes from that same frame.',
     ['inputs', 'histories'], 'every file content and every truncation point, for each of the six formats',
     'Tests truncate a few files at a few places; every byte position in every format, and each sync byte, matters.',
     READERS, [('read / length check / sync check protocol', 'lsl/reader/*.cpp read_* functions'), ('error classes', 'lsl/reader/gofast.cpp')],
     'static analysis: path-sensitive protocol (typestate) analysis of the read/length/sync sequence over LLVM IR',
     'On every path of each reader: bytes copied out of a read never exceed the length established by the check, the short branch raises end-of-file, the sync comparison covers the format\'s sync bytes and its mismatch branch raises the sync error, '
     'frame attributes are set only after both checks and only from this call\'s bytes.', SOUND + ' The wire sync patterns and positions are in lslsa/fspec.py.')
prop('C08', 'Every header field of every frame format is decoded from exactly its own bits',
     'For each of the frame formats, each header and metadata value placed on a frame equals the value of exactly the bits the wire format assigns to that field, '
     'in the right byte order, and unsigned unless the format defines the field as signed, with nothing truncated, swapped or mixed with a neighbouring field. This holds for all values of all the bits, not just those in sample files.',
     ['inputs'], 'all 2^n values of each header',
     'The sample files exercise a handful of header values, with most high-order bits zero.',
     READERS, [('header unpacking and byte swapping', 'lsl/reader/*.cpp'), ('format codes of the values handed to Python', 'PyLong_From*/Py_BuildValue calls in lsl/reader/*.cpp')],
     'static analysis: bit-provenance dataflow (each result bit is traced to a wire bit) over LLVM IR against declarative wire-format tables',
     'Abstract interpretation with one symbolic source per bit: the value stored in each frame attribute must be the tabulated wire bits, least significant first, zero elsewhere.',
     SOUND + ' Wire tables: lslsa/fspec.py.')
prop('C09', 'Every sample of a frame is decoded from its own bits, with the right code',
     'For each frame format, every output value is decoded from the payload byte (and bit group within it) that the format assigns to that position, with the format\'s code for all 256 byte values '
     '(two\'s complement for beamformer/voltage samples, the offset or level codes of VDIF, the per-product position and normalisation of spectrometer frames), and every output '
     'value is filled exactly from that frame.',
     ['inputs'], 'all payload byte values, all positions, all frame sizes and product selections',
     'The sample files contain small, similar voltages; many byte values, bit depths and product combinations never occur in them.',
     READERS + ['lsl/reader/gofast.cpp', 'lsl/reader/readers.hpp'], [('look-up tables', 'lsl/reader/gofast.cpp initLWALUTs, lsl/reader/vdif.cpp initVDIFLUTs'),
                                                                  ('unpack loops', 'lsl/reader/*.cpp'), ('spectrometer product parsing', 'lsl/reader/drspec.cpp parse_*')],
     'static analysis: affine index analysis of the unpack loops plus constant folding of the decoding expression, over LLVM IR, against declarative format codes',
     'Every store into an output array is put in the form out[affine] <- f(frame byte[affine]); f (look-up tables folded from their initialisers) must equal the format code on its whole 256-value domain, the offsets must match for every iteration, '
     'and the iterations must cover the output. Spectrometer products: block, position, normalisation factor and selecting format bit.',
     SOUND + ' Stores that cannot be put in this form are listed as undecided in the evidence. Format codes: lslsa/csample.py.')
PYSOUND = ('Python sources are parsed from the working tree on every run (the repository is never imported). Where a value\'s origin is unknown the construct is counted as undecided, never reported.')
prop('C10', 'Every name, attribute and argument the Python code uses exists on every path',
     'No function of the library can fail because it refers to something that does not exist: each variable is defined before it can be used, each module function, constant, class '
     'attribute and frame attribute it mentions exists under that name, each call matches the signature of what it calls, and each message format matches its values. This includes error handling, '
     'rarely used options and formats without sample data.',
     ['inputs', 'configurations'], 'every statement of every function, in particular error branches and options no test takes',
     'A misspelt name in an error branch or an unused option only shows when exactly that branch runs; the tests do not reach most error branches and have no data for some formats.',
     ['lsl/'], [('all Python modules and the exported names of the extension modules', 'lsl/**/*.py, scripts/*.py')],
     'static analysis: scope resolution, may-assigned dataflow over exception-aware CFGs, nominal type inference and call binding over the syntax trees',
     'For every name load, module attribute, own attribute, attribute of an object of inferred class, library attribute, call of a repository function and format string: the target exists / the call binds. '
     'A local is reported only when no assignment can have happened on any path reaching the use.', PYSOUND)
prop('C11', 'Calls never modify the arrays, lists or objects their caller passes in',
     'A public function or constructor of the library leaves everything its caller hands it (arrays, lists, dictionaries, frames, data sets, antennas and what they contain) as it was: it neither writes into '
     'an input array, also not through a view of it, nor sorts, extends or shortens an input list, nor changes attributes of an input object, in Python or in compiled code. Nor does an object later modify the lists, '
     'dictionaries and arrays it was made from, and a copy of an object shares no storage that is then modified with the original. Exceptions are only the documented output arguments and an object\'s own methods acting on itself.',
     ['inputs', 'histories'], 'every public function and argument, every path',
     'A test calls a function once with throw-away inputs and compares the result, so a function that scribbles on its inputs passes; whether an operation copies often depends on the dtype and layout given.',
     ['lsl/'], [('views and in-place operations on arguments', 'lsl/correlator, lsl/imaging, lsl/misc, lsl/statistics, lsl/sim, lsl/reader, lsl/writer, lsl/common'),
                ('arrays converted from arguments', 'lsl/**/*.cpp')],
     'static analysis: interprocedural flow-sensitive alias and effect analysis of the Python sources; taint analysis of caller memory over LLVM IR',
     'No store, deletion, in-place operator, mutating method or out= argument reaches storage that may be a parameter\'s (views tracked, copies not); no native store, copy or transform output goes to an address derived from an argument array.',
     PYSOUND + ' In-place operators on values not recognisably containers are counted as undecided.')

prop('C12', 'Python calls leave nothing behind that changes a later call',
     'What a library function returns depends on its arguments and the objects they belong to, not on which calls were made before: a remembered result is reused only when everything it was computed from is the '
     'same (every input is part of the key, and files are not assumed unchanged because their name is), remembered results are never modified, and functions do not modify shared module-level tables and stations, '
     'default argument values or containers shared by all objects of a class. Logging, telemetry and the user configuration are state by design.',
     ['histories', 'inputs'], 'every sequence of calls in one process',
     'Tests call each function once or with the same settings; a stale or polluted remembered value needs a second call with a different argument.',
     ['lsl/'], [('memo table of dedispersion chirps', 'lsl/misc/dedispersion.py coherent'), ('memoised loaders', 'lsl/sim/beam.py, lsl/misc/ionosphere, lsl/common/_metabundle_utils.py, lsl/reader/vdif.py'),
                ('shared station objects, class-level containers, default values', 'lsl/common, lsl/reader, lsl/catalog.py')],
     'static analysis: dependence slicing of memo keys and values, interprocedural alias/effect analysis of module-level, class-level and default objects',
     'Each store into a memo table: the backward slice of the value (data and control) reaches only inputs the key determines without loss. Each memoised function: no settings, clock, environment, changing module variable, mutable own attribute or file '
     'named by an argument (unless callers pass its modification time). No write through an alias of a module-level object, memoised result, default value or class-level container.',
     PYSOUND)
prop('C13', 'Packed words and frames built or split in Python keep every bit in place',
     'Whatever the Python code packs into bits or takes out of them follows the documented layout for every value that fits: raw DRX frames made from frame objects (sync word, identifier, counters, decimation, offset, '
     'time tag, tuning word, flags and 4-bit samples), VDIF frames (header fields, sampling rate, offset-binary samples of 1, 2, 4 or 8 bits), the beam/tuning/polarization identifier of DRX and DRX8, the extended '
     'header data of VDIF, the spectrometer product flags, the delay and gain words sent to the beamformer, and the baseline numbers of UVFITS, FITS-IDI and measurement sets. '
     'Taking apart what was put together gives the same parts back, in the file readers as well as in the helper functions.',
     ['inputs'], 'every value of every field within its width; every bit depth',
     'Tests use a few small values, so the high bytes of counters, large antenna numbers, wide bit fields and unusual bit depths never show in them.',
     ['lsl/sim/drx.py', 'lsl/writer/vdif.py', 'lsl/writer/uvfits.py', 'lsl/writer/fitsidi.py', 'lsl/writer/measurementset.py', 'lsl/reader/drx.py', 'lsl/reader/drx8.py', 'lsl/reader/vdif.py', 'lsl/reader/drspec.py',
      'lsl/reader/buffer.py', 'lsl/common/ndp.py', 'lsl/common/mcs.py', 'lsl/imaging/utils.py'],
     [('raw frame writers', 'lsl/sim/drx.py frame_to_frame, lsl/writer/vdif.py create_raw_frame and _data_adjust'), ('identifiers and bit fields', 'lsl/reader/drx.py, drx8.py, drspec.py, vdif.py, buffer.py create_fill'),
      ('beamformer words', 'lsl/common/ndp.py, lsl/common/mcs.py'), ('baseline numbers', 'lsl/writer merge_baseline and split_baseline, lsl/imaging/utils.py')],
     'static analysis: gated bit-provenance dataflow over the Python syntax tree',
     'For every function that packs or unpacks, the origin of each bit of the result (constant, or bit k of a named input, possibly gated by a condition) is computed from the source, following helpers and generic loop iterations, and compared with the layout; '
     'splitting functions are applied to the abstract result of the composing ones and must return the inputs.',
     PYSOUND)
prop('C14', 'Asking a reader about a file never moves it or disturbs later reads',
     'Finding out about a recording (sampling rate, beam or thread count, frames per observation, frame size, transform size, channels, integration time, data products, presence of a header, signal levels, frames remaining, '
     'file information) leaves the read position of the file where it was before the question, both when an answer is returned and when the attempt fails with an error part way. '
     'It also leaves alone the frames a reader has buffered ahead and its time-tag bookkeeping, so the data read afterwards are the same as if nothing had been asked.',
     ['inputs', 'crash_points', 'histories'], 'every inspection function and method of every format, every path including truncated and corrupted files',
     'Tests ask at the start of good files and read on after success; a position lost on an error path or in mid-stream only shows with damaged data or interleaved calls.',
     ['lsl/reader/'], [('position saving', 'lsl/reader/utils.py FilePositionSaver'), ('inspection functions', 'lsl/reader/drx.py, drx8.py, drspec.py, tbx.py, cor.py, vdif.py'),
                       ('reader objects', 'lsl/reader/ldp.py get_*, estimate_levels, info')],
     'static analysis: interprocedural typestate analysis of file positions over control-flow graphs with exception edges; effect analysis of reader objects',
     'Each public function of the readers taking a file handle and not named as a read: on every path to its normal and its exceptional exits the abstract position equals that on entry (restoring context managers, remembered tell() and seek() followed); '
     'each inspection method of a reader class writes no attribute that its reading methods use.', PYSOUND)
prop('C15', 'After jumping in a recording the next read starts cleanly at the new place',
     'Jumping forward by an offset, going back to the start and reading single frames from an opened recording all discard what the reader remembers of its old place: no frames buffered there are mixed into the next read, '
     'the time-tag check starts over instead of expecting the successor of an old frame, and after an offset or a reset the file information describes the new place. This holds for every format and on every path through these calls.',
     ['histories', 'inputs'], 'every sequence of read, single-frame read, offset and reset calls on every reader class',
     'Tests read, or jump and then read, but rarely jump in the middle of buffered data; stale frames appear only for such sequences.',
     ['lsl/reader/ldp.py', 'lsl/reader/buffer.py'], [('offset and reset', 'lsl/reader/ldp.py LDPFileBase.reset and offset of each class'), ('single frame reads', 'lsl/reader/ldp.py read_frame of each class'), ('emptying the buffer', 'lsl/reader/buffer.py reset')],
     'static analysis: must-analysis of attribute re-initialisation over control-flow graphs, with the attributes found by taint analysis of the reading methods',
     'The attributes in which the reading methods keep data from the file are computed by taint; on every path through each repositioning method each of them is reassigned from something else than its old value, cleared by a method that empties all its containers, or absent.', PYSOUND)
prop('C16', 'Whatever is held or switched for an operation is given back however it ends',
     'A lock, the numerical error mode, the working directory, a temporarily changed setting of an object and a scratch directory are given back on every way out of the operation that took them, including when an error ends it part way. '
     'After a failed call (a missing or unreadable cached file, an impossible source, a broken archive) other threads and processes do not wait for a lock nobody holds any more, arithmetic elsewhere behaves as before, and nothing is left in the temporary directory.',
     ['crash_points', 'inputs', 'histories'], 'every function that takes or switches one of these; every path including those taken by exceptions; every lock class and context manager',
     'Tests do not make the operations fail between taking and giving back; a lock left held shows only in the next user of it.',
     ['lsl/misc/file_cache.py', 'lsl/misc/file_lock.py', 'lsl/misc/telemetry', 'lsl/config.py', 'lsl/statistics/kurtosis.py', 'lsl/imaging/utils.py', 'lsl/writer', 'lsl/common/_metabundle_utils.py'],
     [('locks of the file caches and the file lock itself', 'lsl/misc/file_cache.py, lsl/misc/file_lock.py'), ('numpy error mode', 'lsl/statistics/kurtosis.py get_limits'),
      ('temporarily changed dates and settings', 'lsl/writer/virtual.py, lsl/config.py set_temp, lsl/sim/vis.py'), ('scratch directories', 'lsl/common/_metabundle_utils.py managed_mkdtemp, lsl/imaging/utils.py')],
     'static analysis: may-held typestate analysis over control-flow graphs with exception edges, and pairing of acquire/release and enter/exit methods',
     'At the normal and the exceptional exit of every function no lock, error mode, working directory, saved-and-changed setting or scratch directory taken in it is still held on any path (constructors, acquire and enter methods: what their counterpart gives back is allowed); '
     'each release/exit method undoes on every path what its counterpart did.', PYSOUND)
prop('C17', 'Existing files are never destroyed unless overwriting was asked for',
     'Creating a UVFITS, FITS-IDI, SDFITS or measurement-set file, or writing out a session or interferometer definition, under a name that is already in use fails with an error and leaves the existing file exactly as it was, unless the caller asked for overwriting, which is never the default. '
     'With overwriting the old content is gone completely and nothing is appended to it, and a wrong argument or a definition that cannot be written out is reported before the existing file is touched.',
     ['inputs', 'crash_points'], 'every writer with an overwrite switch; every combination of existing or missing target, switch and failure on the way',
     'Tests write to fresh scratch directories, so a writer that truncates or extends a file that is already there passes all of them.',
     ['lsl/writer/fitsidi.py', 'lsl/writer/uvfits.py', 'lsl/writer/sdfits.py', 'lsl/writer/measurementset.py', 'lsl/common/sdf.py', 'lsl/common/idf.py'],
     [('opening the output', 'lsl/writer fitsidi.Idi, uvfits.Uv, sdfits.Sd and measurementset.Ms constructors'), ('definition files', 'lsl/common/sdf.py and idf.py writeto')],
     'static analysis: path-sensitive interprocedural analysis of existence checks, the overwrite switch and destructive file operations',
     'In every function with an overwrite switch, on every path: an operation that removes, truncates, replaces or changes the target is reached only where the target is known not to exist or the switch is set; the call succeeds only if the target did not exist or was removed or truncated; '
     'no repository function that reports errors runs after the old file is gone; the switch is off by default.', PYSOUND)
prop('C18', 'Usage tracking obeys its switch and never interferes with what it tracks',
     'While usage tracking is off (disabled for good, ignored for the session, or impossible) no use is counted, written to disk or sent, and both ways of switching it off take effect at once, the session one without changing the stored choice. '
     'A tracked function, method or class behaves exactly like the untracked one: it runs exactly once with the arguments given, and its result or its exception reaches the caller unchanged, also when a record cannot be written or sent. Counts made by several threads are changed only under the lock of the tracker.',
     ['inputs', 'histories', 'schedules'], 'every path through the tracker and its wrappers; every order of enabling, disabling, tracking and writing; every exception of a tracked function',
     'Tests run with tracking on or off as a whole and with functions that succeed; whether something leaks out after opting out is never observed by them.',
     ['lsl/misc/telemetry/__init__.py', 'lsl/misc/_telemetry_send.py'], [('the tracker', 'lsl/misc/telemetry/__init__.py _TelemetryClient track, write, disable, ignore'), ('the wrappers', 'lsl/misc/telemetry/__init__.py track_function, track_method, track_class and timed forms')],
     'static analysis: must-guard dataflow to recording and sending operations, value analysis of the switch, lockset analysis, exactly-once path analysis of wrappers',
     'Every operation that counts, writes or starts sending is dominated by a test that tracking is active, in its method or in all callers; after disabling or ignoring, the active flag is false on every path; counters are stored to only under the lock; '
     'on every path through a wrapper the wrapped callable is called once with the wrapper arguments, its result returned and its exceptions let through; failing file and process operations of the tracker are caught.', PYSOUND)


prop('C19', 'The data caches never keep or serve an incomplete file',
     'Whatever goes wrong while a data file is copied, downloaded, converted or unpacked into a cache (an error, a transfer that stops short, a conversion that fails, an interrupt by the user), nothing is left in the cache under that name and the fetch is reported as failed or raises. '
     'A fetch that is reported as successful has put the complete file into the cache, and making sure of a data file returns normally only when it is there. Opening a file that is not in a cache for reading never makes one up.',
     ['inputs', 'histories', 'crash_points'], 'every exception or interrupt at every operation of a fetch, and every length at which a transfer can stop',
     'The tests fetch files that arrive; a transfer that stops short leaves a file that looks cached and is then served by every later run.',
     ['lsl/common/data_access.py', 'lsl/misc/ionosphere/_utils.py', 'lsl/misc/ionosphere/_glotec.py', 'lsl/misc/file_cache.py'],
     [('copying and downloading data files', 'lsl/common/data_access.py download_file, _DataAccess'), ('ionospheric maps', 'lsl/misc/ionosphere/_utils.py download_worker, _convert_to_gzip; _glotec.py _download'), ('the caches', 'lsl/misc/file_cache.py FileCache, MemoryCache')],
     'static analysis: path-sensitive typestate of cache entries over control-flow graphs with exception and interrupt edges, with function summaries',
     'On every way of leaving a function that fills a cache entry (success, failure, exception, interrupt) the entry is whole if success is reported and removed otherwise; a transfer counts as whole only where the bytes received were compared with the announced size and every block read was written; '
     'an entry is stored on opening only under a mode that writes.', PYSOUND)


prop('C20', 'Unpacking an archive stays inside its scratch directory',
     'Whatever the names and kinds of the members of a metadata tarball or a packed measurement set (absolute names, names with parent references, names of siblings of the scratch directory, symbolic or hard links), reading it writes nothing and opens nothing outside of the scratch directory made for it. '
     'A tarball that does not contain the wanted file, or contains it under a name that leads elsewhere, is reported, and no other member or file is read in its place.',
     ['inputs'], 'every archive: all member names, kinds and orders',
     'The tests unpack well-formed archives of the telescope; a crafted or damaged one is what the guards are for.',
     ['lsl/common/metabundle.py', 'lsl/common/_metabundle_utils.py', 'lsl/imaging/utils.py'],
     [('metadata tarballs', 'lsl/common/metabundle.py get_*; lsl/common/_metabundle_utils.py get_*'), ('packed measurement sets', 'lsl/imaging/utils.py CorrelatedDataMS')],
     'static analysis: path-sensitive guard analysis (tests passed on every path to an extraction or to the opening of a name taken from an archive)',
     'Every extraction of a member into a directory is reached only on paths where the normalised destination was tested to lie under that directory (component-wise) and the member tested not to be a link; a name taken from the archive is opened only under the same test; '
     'a member found by a search is used only on paths where the search succeeded. Tests made by helpers and by callers are followed.', PYSOUND)

prop('C21', 'No file or setting can make an operation run forever',
     'Every loop that searches a file, parses text, evicts from a cache, waits for a lock or refines a value ends: on every way around it - the end of the file, a damaged frame, an error that is caught, a value that does not improve - something that its end depends on moves, or the number of rounds is limited. '
     'A truncated, corrupted or unusual file therefore gives a result or an error, never a hang.',
     ['inputs', 'fault_sequences'], 'every file content (any truncation, corruption, time gap), every caught error, every iteration history',
     'The tests read short, well-formed files; a way around a loop that moves nothing needs a damaged frame, a blank line, a full disk or a period in the data at the right place.',
     ['lsl/reader', 'lsl/common', 'lsl/misc', 'lsl/statistics', 'lsl/correlator', 'lsl/imaging', 'lsl/sim'],
     [('searches in files', 'lsl/reader/ldp.py _ready_file, offset, read'), ('caches and locks', 'lsl/misc/file_cache.py, lsl/misc/file_lock.py'), ('iterations', 'lsl/statistics/robust.py, lsl/imaging/deconv.py, lsl/transform.py')],
     'static analysis: path-sensitive progress analysis of loops (one symbolic round per way around: stream displacement, counters, switches, emptiness, caught errors)',
     'For each loop that is not bounded by what it iterates over, every structured way around it is enumerated with constants, emptiness of what was read at the end of the data, the net displacement of the stream, counters and the errors caught; '
     'a way round on which nothing the end depends on changes, or on which only a search position or a computed value changes without a limit on the rounds, is a violation. Ways round through calls that cannot be seen are recorded as undecided.', PYSOUND)

prop('C22', 'Objects of the library compare, hash, copy and pickle consistently',
     'For the value objects of the library (data frames, time stamps, angles, dates, positions, stands, antennas, cables, observations, sessions, scans) exactly one of <, == and > holds for any two objects of a kind, != is the opposite of ==, <= and >= agree with them, '
     'swapping the operands swaps the answer, and equal objects have equal hashes. An object that is pickled or deep-copied comes back as the same kind with every value in its place, and an item that is set can be read back under the same index. '
     'An arithmetic operator computes what it says, its in-place form does the same to the left operand, and the ordinary form leaves the left operand alone.',
     ['inputs'], 'every pair of objects (in particular ones that agree in the first value compared), every value an object can hold',
     'The tests compare a few objects that differ in one value; an inconsistency needs ties, equal leading values or an attribute changed after the object was made, and shows only when lists are sorted, frames are ordered or stations are sent to another process.',
     ['lsl/'], [('comparisons and hashes', 'lsl/astro.py, lsl/transform.py, lsl/common/stations.py, lsl/reader/base.py'), ('pickled forms', '__reduce__ in lsl/astro.py, lsl/common/stations.py'), ('operators', '__add__, __iadd__ ... in lsl/reader, lsl/astro.py, lsl/transform.py')],
     'static analysis: symbolic order analysis of the comparison methods (all outcome combinations of the compared value pairs), attribute provenance through __reduce__ and __init__',
     'All comparison methods of a class (including those total_ordering adds) are evaluated together for every combination of smaller/equal/larger of the value pairs they compare; the laws above must hold in each. The values a pickled form holds are traced through the constructor back to the attribute they '
     'came from; item getters and setters must name the same attribute; each operator method must combine the operands with its own operation and, in place, return the object on every path. Forms that cannot be evaluated are recorded as undecided.', PYSOUND)


prop('C23', 'An observing file written by the library reads back as the same plan',
     'For every project the library can write as a session or interferometer definition file, reading the file back restores each written setting (names, times, durations, pointings, tunings, filter, gain, beam mode, steps, alternate phase centers, delays and gains, front end and analog settings, session options) '
     'to the same place of the same observation, scan or step, with the same index and kind of entry. '
     'A setting that is not at its default is never left out of the file, and one observation, scan, step or phase center never takes over a setting of the one before it.',
     ['inputs', 'histories'], 'every plan (modes, settings, number and order of observations and steps), and every mixture of settings given in one entry and left out in the next',
     'The tests write and read files with one or two similar observations; a lost, swapped or inherited setting needs a particular mode, a default that is not used, or an entry that follows one with other settings, and then silently observes something else.',
     ['lsl/common/sdf.py', 'lsl/common/idf.py'], [('writers', 'lsl/common/sdf.py Project.render, lsl/common/idf.py Project.render'), ('readers', 'lsl/common/sdf.py parse_sdf, lsl/common/idf.py parse_idf')],
     'static analysis: dataflow from each written attribute through its keyword, the reader specialised to that keyword by constant propagation, and the constructors back to the attribute',
     'Writer lines are enumerated with the attributes, indices, formats and conditions behind them; the reader is specialised keyword by keyword and the stores of the text are followed through temporaries and constructors. The attribute reached must be the one written (or one it is computed from), at the same index, in every kind of '
     'entry; a condition that leaves a line out must mean the default the reader starts from; temporaries must start afresh (deeply) for each entry unless every entry settles them; text must be taken for what it says. Forms that cannot be followed are recorded as undecided.', PYSOUND)


prop('C24', 'Compiled routines stay inside the arrays and buffers they are given or make',
     'No call of a compiled routine reads or writes outside the arrays handed to it, the arrays it creates or its work buffers, whatever the shapes, element types, ranks, channel counts, overlaps, windows and index arguments: '
     'shapes that have to agree are compared before the data are touched (a mismatch is an exception), output arrays and work buffers are as large as the loops and Fourier transforms that fill them, '
     'and arrays that are walked element by element are requested contiguous.',
     ['inputs'], 'every combination of array shapes, types, ranks and numeric arguments of every compiled routine',
     'Tests pass arrays that fit together; reading past the end of an array usually returns plausible numbers and crashes only rarely.',
     NATIVE, [('shape checks ahead of every kernel', 'lsl/correlator/core.cpp, spec.cpp, stokes.cpp, lsl/misc/beamformer.cpp, lsl/sim/simfast.cpp, lsl/imaging/gridder.cpp'),
              ('output arrays and work buffers', 'all kernels'), ('frame sample loops', 'lsl/reader/*.cpp')],
     'static analysis: symbolic bounds analysis of every memory access in LLVM IR (polynomial offsets over loop counters, dimensions and arguments against allocation sizes, under the tests that dominate the access)',
     'Each load, store, block copy and Fourier transform is written as object plus polynomial offset; loop counters are replaced by their limits and the result is compared with the size of the object using only the facts established by branches on the way. An access is in bounds (proved), refuted by values of dimensions and arguments that no '
     'test rules out (reported), or undecided (recorded) when the index comes from the data.', SOUND)


def _na(pid, title, statement, over, text, why, files, mechanism, reason):
    NA.append((pid, dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism), reason))


NA = []
_na('N01', 'Spectra, correlations and filter banks are numerically accurate',
    'Power spectra, cross-correlations, Stokes products and filter-bank outputs agree with the exact transform of the samples to within single precision, for any signal, length and window.',
    ['inputs'], 'every signal, transform length, overlap and window', 'Tests compare a few signals with a reference; accuracy depends on the dynamic range of the signal.',
    ['lsl/correlator', 'lsl/misc'], [('FFT based kernels', 'lsl/correlator/*.cpp')],
    'Bounds on the rounding of data-dependent sums of FFT outputs need numerical analysis of the values; no dataflow or typestate abstraction bounds them. Races, history, ownership and argument effects of the same kernels are decided by C01-C06 and C11.')
_na('N02', 'Coordinates and times agree with the almanac',
    'Precession, nutation, refraction, sidereal time and the transformations between coordinate and time systems are accurate to the stated precision for all dates and places.',
    ['inputs'], 'every date, position and observer', 'Tests compare a handful of dates with published values.',
    ['lsl/astro.py', 'lsl/transform.py'], [('series and rotations', 'lsl/astro.py')],
    'The truth is an external ephemeris and the code is floating point series and calls into ephem/astropy; the source alone cannot show accuracy.')
_na('N03', 'Robust statistics and kurtosis flags have their stated distributions',
    'Robust means, deviations and fits resist the stated fraction of outliers, and spectral kurtosis limits flag clean data at the requested rate.',
    ['inputs'], 'every data set and outlier fraction', 'Tests use a few random samples.',
    ['lsl/statistics'], [('estimators', 'lsl/statistics/robust.py, lsl/statistics/kurtosis.py')],
    'A statement about distributions of computed values; static analysis can show that the iterations end (C21), not where they converge.')
_na('N04', 'Images and deconvolution conserve flux',
    'Gridding, imaging and CLEAN recover the position and flux of the sources in the visibilities.',
    ['inputs'], 'every sky, array and weighting', 'Tests image one simulated data set.',
    ['lsl/imaging'], [('gridding and CLEAN', 'lsl/imaging')],
    'Depends on the values of large floating point sums and on convergence of CLEAN for the given data.')
_na('N05', 'Simulated data have the statistics of the model they are made from',
    'Simulated samples, frames and visibilities have the spectrum, noise and delays of the requested model.',
    ['inputs'], 'every model, array and random seed', 'Tests look at shapes and a few values.',
    ['lsl/sim'], [('generators', 'lsl/sim')],
    'Random, numerical output; only the layout of the frames written from it is decidable (C13).')
_na('N06', 'Network transfers succeed or fail within their time limits',
    'Downloads of data and telemetry uploads get through or are given up within the configured time, however the network behaves.',
    ['fault_sequences', 'schedules'], 'every network behaviour', 'No network in the tests.',
    ['lsl/common/data_access.py', 'lsl/misc/telemetry.py'], [('urlopen with time limits', 'lsl/common/data_access.py')],
    'The time is spent inside library and kernel calls whose duration the source does not bound; what is decided is that loops end (C21) and that an incomplete transfer is never kept (C19).')
