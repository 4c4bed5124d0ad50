NA = []
NAPROPS = []


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NAPROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                        anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [], 'observe_at': [], 'hook_needed': None}))
    NA.append((id, reason))


na('N01', 'The false-alarm rate approaches the configured probability',
   'On a stream of independent values of one law, the long-run fraction of values answered by "anomaly" approaches the configured probability q.',
   ['inputs', 'histories'], 'all laws of the values and all stream lengths', 'a statistical limit; a test observes one finite sample',
   ['src/spot.c', 'src/tail.c', 'src/estimator.c'], [('spot_step', 'src/spot.c')],
   'a limit statement about a random stream: no static argument over the source bounds the estimation error of the tail model; the formulas and updates it rests on are decided by P01-P11')
na('N02', 'The batch quantile is close to the true quantile',
   'The quantile estimated at fitting converges to the quantile of the law of the batch as the batch grows.',
   ['inputs'], 'all laws and batch lengths', 'a statistical limit; a test observes a few samples',
   ['src/p2.c'], [('p2_quantile', 'src/p2.c')],
   'accuracy of the P-square heuristic is a statistical statement with no error bound that follows from the source; its mechanism (markers, positions, moves) is decided by P23')
na('N03', 'Accumulated rounding stays small over long streams',
   'After any number of steps the running sums of the excesses differ from the exact sums of the stored values by a small relative error.',
   ['histories', 'inputs'], 'arbitrarily long streams of arbitrary magnitudes', 'drift appears after very long streams only',
   ['src/peaks.c'], [('peaks_push', 'src/peaks.c')],
   'the running sums are updated by adding and subtracting, so their rounding error is unbounded over histories (one huge excess absorbs the others): the property depends on run-time magnitudes; P07 decides it over the reals')
NOTE = {}
NOTES = 'One analysis engine (sa/), rules per property (checks/); see DESIGN.md.'
DEFAULT_NOTE = ('universal over the stated quantifier: every partition of the abstract state is compared with the specification; '
                'floating-point operations are read as real arithmetic plus NaN/infinity cases; trusted: clang front end, sa/')
EFF = 'static analysis: interprocedural points-to and effect (mod/ref) analysis over the linked LLVM IR of src/*.c'


def add(p, AI):
    p('P12', 'A root reported by the root search is a root of the given function',
      'When the root search reports success, the point it returns is one where the given function was evaluated and is zero, or lies within the tolerance of another evaluated point where the function has the opposite sign. A bracket whose ends have the same strict sign is reported as "not found", and a bracket with a sign change is reported so only after the iteration limit.',
      ['inputs'], 'any function, any bracket, any tolerance, any number of iterations',
      'tests search roots of two or three fixed functions',
      ['src/brent.c'], [('brent', 'src/brent.c')], [('a, b, c and their images', 'bracketing points', 'src/brent.c')], ['found flag and returned point'],
      AI + '; inductive loop invariant (points paired with their images, a pair of opposite sign) inferred and checked over every iteration')

    p('P13', 'Queries and inputs are read-only',
      'The queries (quantile, probability) write no memory at all. The batch given for fitting and any other data received through a pointer to constant data is never written, and every other operation writes only the detector it is given, the storage it owns, or the output buffer it is given.',
      ['inputs', 'histories', 'configurations'], 'all arguments, all detector states, every path of every operation',
      'tests would have to compare all memory before and after every call',
      ['src/spot.c', 'src/tail.c', 'src/p2.c', 'src/peaks.c'], [('spot_quantile', 'src/spot.c'), ('spot_probability', 'src/spot.c'), ('spot_fit', 'src/spot.c')],
      [], ['memory reachable from the arguments and globals'], EFF + '; every write site of each operation is classified by the object it can reach')

    p('P14', 'Detectors are independent: the library keeps no hidden state',
      'The result of an operation on a detector depends only on its arguments, on that detector and on the registered hooks: no operation except the hook setters writes a variable that outlives the call, and none keeps a pointer to its arguments. Hence two detectors never influence each other and operations on distinct detectors may run concurrently.',
      ['schedules', 'histories', 'inputs'], 'all interleavings of operations on any number of detectors',
      'tests run one detector at a time in one thread; a shared cache shows only under interleaving',
      ['src/spot.c', 'src/tail.c', 'src/xmath.c', 'src/allocator.c', 'src/estimator.c'], [('internal_set_allocators', 'src/allocator.c'), ('internal_set_float_utils', 'src/xmath.c')],
      [('hooks', 'allocator and float helper pointers', 'src/allocator.c, src/xmath.c')], ['global variables and detector fields'],
      EFF + '; every store to a variable of static duration and every escaping pointer is reported with its call path')

    p('P15', 'Storage is obtained and released through the registered hooks, in pairs',
      'A successful initialisation obtains exactly one block through the registered allocation function, large enough for the requested number of excesses, and freeing the detector releases exactly that block once through the registered release function. A refused initialisation holds nothing, freeing twice releases once, without registered functions initialisation is refused, and no other operation obtains or releases storage.',
      ['fault_sequences', 'histories', 'configurations'], 'any capacity, any allocator outcome, any order of init/free calls',
      'tests do not make the allocator fail or count releases',
      ['src/allocator.c', 'src/ubend.c', 'src/spot.c'], [('xmalloc/xfree', 'src/allocator.c'), ('ubend_init', 'src/ubend.c'), ('ubend_free', 'src/ubend.c')],
      [('data', 'the block', 'include/structs.h')], ['calls of the registered functions'],
      AI + '; typestate of the block (none, held, released) along every path, for every allocator outcome')

    p('P16', 'Every memory access is inside a live, initialised object',
      'No operation, given valid arguments, accesses memory outside the object it works on, reads memory that was never written, uses storage after releasing it, indexes an array beyond its declared length, calls through a null hook, or divides an integer by zero.',
      ['inputs', 'histories', 'configurations'], 'every container state and capacity, every batch length, NaN and infinite values included',
      'tests run without a memory checker and only with ordinary data',
      ['src/ubend.c', 'src/peaks.c', 'src/p2.c', 'src/spot.c', 'src/estimator.c', 'src/xmath.c'], [('ubend_push', 'src/ubend.c'), ('p2_quantile', 'src/p2.c'), ('libspot_error', 'src/spot.c')],
      [], ['loads, stores and calls'], AI + '; one obligation per access, discharged by interval and linear-inequality facts; a violation needs an exact partition')

    p('P17', 'Every operation ends, whatever the numbers it is given',
      'Every loop of the library makes a number of rounds bounded by a batch length, by the number of stored excesses, by a text length or by a constant (the iteration limit of the root search), whatever numbers, NaN and infinities included, it meets. No round can be repeated without progress, counters can represent their limits, and a function that calls itself cannot do so for ever.',
      ['inputs', 'histories', 'configurations'], 'every batch length and content, every container state, any searched function, NaN and infinities',
      'a test that does not end is never written; the inputs on which a search fails to converge are not sampled',
      ['src/brent.c', 'src/estimator.c', 'src/p2.c', 'src/peaks.c', 'src/spot.c', 'src/tail.c', 'src/xmath.c'], [('brent', 'src/brent.c'), ('p2_quantile', 'src/p2.c'), ('spot_fit', 'src/spot.c')],
      [('loop counters', 'distance to the limit', 'src/*.c')], ['control flow of every loop and recursion'],
      'static analysis: ranking arguments over the loops of the LLVM IR (induction variables, loop invariants, dominance), conditional propagation of NaN/infinity for loops without one')

    p('P18', 'The library is freestanding',
      'The library calls no function of the C library or of the operating system: everything it needs from outside comes through the registered hooks. It compiles without any C library header, runs no code at load time, and defines every function its public header declares.',
      ['configurations', 'programs'], 'all functions of the library, on x86-64 and wasm32',
      'tests link against a C library, which silently satisfies any new dependency',
      ['src/spot.c', 'src/xmath.c', 'src/allocator.c', 'include/spot.h', 'Makefile'], [('link of src/*.c', 'Makefile'), ('public header', 'include/spot.h')],
      [], ['undefined symbols of the linked library'], 'static analysis: call-graph closure of the linked LLVM IR, compile-fail witness under -ffreestanding -nostdinc')

    p('P19', 'Texts given to the caller fit the buffer and are terminated',
      'The error, version and license texts are copied into the given buffer cut to its size, always terminated inside it, and never write outside it (nothing for size zero or no buffer). Every error code has its own message, and an unknown code reads no message outside the table.',
      ['inputs', 'configurations'], 'every buffer size, every error code including invalid ones',
      'tests use one comfortable buffer',
      ['src/spot.c'], [('libspot_error', 'src/spot.c'), ('libspot_version', 'src/spot.c'), ('libspot_license', 'src/spot.c')], [], ['bytes of the caller buffer'],
      AI + '; symbolic buffer size, partitioned by the position of the end of the text')

    p('P23', 'The batch quantile keeps five ordered markers between the extremes',
      'The batch quantile starts from the first five values in increasing order (whatever their order), then treats every further value once: the outer markers are the smallest and largest value seen, the markers stay ordered, a middle marker moves by one position exactly when it is off by at least one and there is room, to the parabolic prediction or else the linear one. The estimate is the middle marker, so it lies between the smallest and largest values of the batch.',
      ['inputs'], 'any batch length (five or more) and content, any probability',
      'tests compare the estimate on a few random batches with a loose tolerance; sort5 is tested on some arrangements',
      ['src/p2.c'], [('sort5', 'src/p2.c'), ('p2_quantile', 'src/p2.c')], [('q, n, np, dn', 'marker heights, positions and desired positions', 'src/p2.c')], ['returned estimate'],
      AI + '; sorting decided on all orderings of five symbols, one treatment of a generic value from a generic ordered marker state (inductive step)')

    TM = 'static analysis: Taylor-model abstract interpretation of the LLVM IR over boxes of doubles (rounding errors included, representation bits tracked)'
    p('P20', 'Exponential, logarithm and minimum are right at the limits',
      'The built-in exponential and logarithm give the mathematical limits for NaN, infinities and zeros: exp(-inf)=0, exp(0)=1, exp(inf)=inf, log(0)=-inf, log(inf)=inf, log of a negative number and any function of NaN is NaN. An exponential too large is infinite, one too small is zero or below 1e-307, and no argument makes a floating-point value be converted to an integer that cannot hold it. The minimum of two numbers is the smaller one, NaN if one is NaN.',
      ['inputs'], 'every double: NaN, infinities, zeros, all finite values',
      'tests evaluate a grid of ordinary arguments',
      ['src/xmath.c'], [('xexp', 'src/xmath.c'), ('xlog', 'src/xmath.c'), ('xmin', 'src/xmath.c')], [], ['returned numbers'],
      TM + '; constant propagation for non-finite arguments')

    p('P21', 'Exponential and logarithm are accurate over their whole range',
      'The built-in exponential is within a relative error of 1e-12 for every argument whose exponential neither overflows nor underflows, and the built-in logarithm of every positive double, the subnormal ones included, within 4e-11 * (1 + |log x|). The power function is exp(x * log a).',
      ['inputs'], 'every double between -708.3 and 709.7 (exponential), every positive double (logarithm)',
      'tests sample points on a coarse grid; errors at range-reduction boundaries, large or subnormal arguments are missed',
      ['src/xmath.c'], [('xexp', 'src/xmath.c'), ('xlog', 'src/xmath.c'), ('xpow', 'src/xmath.c')], [], ['returned numbers'],
      TM + '; result compared with the Taylor model of the true function on every box')

    p('P22', 'Float helpers are exact by default and replaced individually',
      'The default decomposition splits every finite double, subnormal ones included, exactly into a fraction in [1/2, 1) and an exponent, and the default scaling returns x * 2^n with at most one rounding (infinite when too large) for every n. A supplied helper is used from then on by the exponential or logarithm, and a null one keeps the helper in place.',
      ['inputs', 'configurations'], 'every binade, both signs, zeros, infinities, NaN; every scaling from -1200 to 1200 and beyond; the four combinations of supplied helpers',
      'tests do not reach the helpers with subnormal or extreme arguments, and never replace one of them',
      ['src/xmath.c', 'src/spot.c'], [('set_float_utils', 'src/spot.c'), ('libspot_frexp, libspot_ldexp', 'src/xmath.c')], [('helpers', 'current frexp/ldexp', 'src/xmath.c')],
      ['results of the helpers, helper called by exp/log'], TM + '; symbolic mantissa bits, one abstract run per exponent')

    PY = 'static analysis: abstract interpretation of the LLVM IR of the extension module with models of the Python C API (every call may fail), reference-count and exception typestate on every path'
    p('P24', 'Python: every failure becomes an exception, and only a failure does',
      'Every entry point of the Python module returns "no result" exactly when an exception is pending: an argument of the wrong type, a sequence that cannot be read, a negative code of the library at construction or fitting (raised with the whole message of the library for that code), or a failed interpreter call, during module loading too. No result of an interpreter call that failed is used.',
      ['inputs', 'fault_sequences'], 'every argument, every sequence length and content, every outcome of each interpreter call and of the library',
      'the tests call the methods with good arguments; a failing interpreter call (no memory, a conversion error) is never provoked',
      ['python/libspotmodule.c'], [('PyInit_libspot', 'python/libspotmodule.c'), ('Spot methods', 'python/libspotmodule.c')], [], ['result and pending exception of each entry point'],
      PY)

    p('P25', 'Python: references and storage are released exactly once',
      'On every path of every entry point, also when something fails, each interpreter object obtained is released or handed over exactly once, temporary storage is released, and the storage of a detector is held once per object: calling the constructor again or destroying the object releases it, destroying an object whose construction failed does not release anything else.',
      ['fault_sequences', 'histories', 'inputs'], 'every path including every failing interpreter call, any number of constructions of one object',
      'leaks and double releases do not change results; tests of the module do not look at reference counts',
      ['python/libspotmodule.c'], [('Spot_init, Spot_dealloc', 'python/libspotmodule.c'), ('Spot_fit', 'python/libspotmodule.c')], [], ['reference counts and registered storage functions'],
      PY)

    p('P26', 'Python: attributes, arguments and results are those of the library',
      'Each attribute of the Python object reads the field of its name, each constructor argument (or its documented default) reaches the parameter of its name, and each method calls the library function of its name with the given numbers and returns its result. The list of excesses gives exactly the stored values, once each, in the order of the container, and the dictionary and raw copies describe the current state.',
      ['inputs', 'configurations', 'histories'], 'all arguments and combinations of omitted ones, every container state',
      'tests of the module look at a few attributes after one run',
      ['python/libspotmodule.c', 'include/structs.h'], [('Spot_members', 'python/libspotmodule.c'), ('Spot_methods', 'python/libspotmodule.c')], [], ['values given to the library and returned to the caller'],
      PY)

    JS = 'static analysis: abstract interpretation of the TypeScript syntax tree with models of the WebAssembly module (heap blocks, views, finaliser), all paths enumerated, checked against the IR of wasm/main.c and the wasm32 layout'
    p('P27', 'JavaScript: heap blocks are owned, sized and released on every path',
      'Every block of the WebAssembly heap obtained by the JavaScript binding is large enough for what is written to it, is not used after its release, and is released exactly once on every path, also when an error is thrown. A detector is released by the finaliser (its storage first) exactly when its construction succeeded, and no view of the heap taken before an allocation is used after it.',
      ['inputs', 'fault_sequences', 'histories'], 'any array (also a view of part of a buffer), every code returned by the library',
      'leaks, stale views and finalisers do not show in a test; the binding is not built by the test suite here',
      ['wasm/index.ts', 'wasm/main.c'], [('Spot constructor and fit', 'wasm/index.ts'), ('FinalizationRegistry', 'wasm/index.ts')], [], ['calls of _malloc, _free, spot_free'],
      JS)

    p('P28', 'JavaScript: arguments, fields, constants and errors are those of the library',
      'The JavaScript methods call the C function of their name with the given numbers (documented defaults when omitted) and a copy of exactly the given array, and return its result; a negative code throws an error with the message of that code and nothing else throws. The texts of the library are returned whole and without the bytes that follow them, and a code without message gives an empty text. Exported constants, declared signatures and the offsets at which thresholds are read agree with the C code compiled for WebAssembly, whose start-up registers the allocation functions.',
      ['inputs', 'configurations'], 'all arguments, all combinations of omitted options, every code returned by the library',
      'offsets and signatures are written by hand and checked by no compiler; tests look at one detector',
      ['wasm/index.ts', 'wasm/main.c', 'include/structs.h', 'Makefile'], [('cwrap declarations', 'wasm/index.ts'), ('anomaly_threshold, excess_threshold', 'wasm/index.ts'), ('libspot_init', 'wasm/main.c')], [], ['calls into the WebAssembly module and values returned'],
      JS)

    p('P29', 'A freed detector is inert',
      'After a detector is freed, its parameters, thresholds, tail parameters and statistics are NaN, its counters are zero, its container is empty and refers to no storage. Feeding it a value afterwards never stores the value nor answers excess or anomaly, fitting it reports an error and stores nothing, its quantiles and probabilities are NaN, and none of these operations touches the released storage.',
      ['histories', 'inputs'], 'any detector state at the time of the release, any later value, batch or query',
      'tests free the detector last; a use after the release reads stale but plausible numbers, and shows nothing without a memory checker',
      ['src/spot.c', 'src/tail.c', 'src/peaks.c', 'src/ubend.c'], [('spot_free', 'src/spot.c'), ('tail_free', 'src/tail.c'), ('peaks_free', 'src/peaks.c'), ('ubend_free', 'src/ubend.c')],
      [('detector', 'the whole structure', 'include/structs.h')], ['fields after the release, results of later calls'],
      AI + '; release followed by every public operation, on every partition')

    p('P30', 'The work per operation is bounded by what is stored, not by what has been seen',
      'A quantile or probability query takes a number of elementary operations bounded by a constant, and so does a value answered normal, anomaly or refused as NaN (it runs no loop). A value that is an excess takes at most a multiple of the number of excesses the detector can store, fitting at most a multiple of that number times the length of the batch. Nothing grows with the number of values seen so far, and no function uses stack storage of variable length.',
      ['histories', 'inputs', 'configurations'], 'streams of any length, containers of any capacity, batches of any length, any values',
      'timing tests are noisy and run with one small capacity; a quadratic pass or one over the whole past shows only at scale',
      ['src/spot.c', 'src/peaks.c', 'src/estimator.c', 'src/brent.c', 'src/p2.c', 'src/tail.c'], [('spot_step', 'src/spot.c'), ('spot_fit', 'src/spot.c'), ('peaks_update_stats', 'src/peaks.c'), ('brent', 'src/brent.c')],
      [('size', 'stored excesses', 'include/structs.h'), ('n, Nt', 'values seen', 'include/structs.h')], ['rounds of every loop nest along every call path'],
      'static analysis: interprocedural cost analysis of the LLVM IR: size class of the limit of every loop (constant, stored, batch, seen), multiplied along loop nests and call paths with the abstract arguments of every call; partitions of a step answered without excess contain no loop')
