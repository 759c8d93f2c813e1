# Per-property parameters of the checks.
KINDS = None
DISK = "disk of the process: read/pread/write/pwrite/writev/open/close/ftruncate/fstat/fopen/fclose are interposed; the bytes live on a private tmpfs directory, faults are decided by the simulator"
CLOCK = "clock: clock_gettime/gettimeofday/time return simulated time"
IO_REAL = ["all of softlib (compiled from /repo's working tree, AddressSanitizer and basic-block step counter added)", "libhdf5, libstdc++ iostreams, libpng, GSL, libc stdio buffers (the installed binaries, unmodified)"]
ASSUME_IO = ["a fault is what the operating system reports to the caller of the intercepted call; silent corruption of bytes by the disk is not simulated",
             "libhdf5/libstdc++ behave as the installed versions do"]
def io(runs, rule, **k):
    d = dict(flavour="io", level="exploration", runs=dict(quick=runs[0], thorough=runs[1]), rule=rule, real=IO_REAL, stub=[DISK, CLOCK], assume=ASSUME_IO)
    d.update(k); return d
SCHED_STUB = ["thread scheduling: real threads run one at a time and are switched by the simulator at memory accesses, locks, atomic operations, clock readings and GSL calls", "heap: freed memory is quarantined so that its use is noticed", CLOCK]
SCHED_REAL = ["all of softlib (compiled from /repo's working tree, every memory access calling the simulator)", "libstdc++, GSL, libc (the installed binaries; GSL's accesses to splines and accelerators are modelled at the call)"]
ASSUME_SCHED = ["sequentially consistent memory (two accesses to the same memory, one a write, that are not ordered by a lock, an atomic operation or the start or end of a thread are themselves reported)",
                "accesses within libstdc++, libc and GSL are seen at the call from softlib only"]
def sched(runs, rule, **k):
    d = dict(flavour="sched", level="exploration", runs=dict(quick=runs[0], thorough=runs[1]), rule=rule + " Preemptions are drawn with mean distances from 1 to 10000 memory accesses; some runs stall threads for a while.", real=SCHED_REAL, stub=SCHED_STUB, assume=ASSUME_SCHED,
             technique="deterministic simulation of thread schedules: seeded search over interleavings at memory-access granularity, with happens-before race detection")
    d.update(k); return d
TABLE = {
 "S01": io((24000, 400000), "A run draws the format, one to three write/update sessions of one to six variables each (lists, matrices, scalars, strings, images, n-dimensional arrays, attributes, structs; all element types; special floating-point values; sizes from 0 to 20000 elements), and a disk-fault plan (single fault at call k, everything from call k on, or at a rate; one, some or all kinds)."),
 "S02": io((24000, 400000), "A run writes a file of one to seven generated variables, then opens it up to three times and makes up to twelve queries each under a plan of read faults (EIO, short, EINTR, open and stat failures)."),
 "S03": io((24000, 400000), "A run writes a generated file and cuts it at a drawn byte, or takes the content at the instant its writer is killed between or inside two disk calls, or damages the text of an SDT file in place; then opens and reads everything.", level="fault_enumeration"),
 "S04": io((24000, 400000), "A run writes two generated files and draws a history of up to 22 reads through all accessors, failing reads, modifications and frees of returned buffers, closes, re-opens on either file, partly under read faults."),
 "S05": io((20000, 300000), "A run draws an instant between 1970 and 2260, one of six time zones, whether the clock moves during creation, and a disk-fault plan; creates a MAT file and parses its header."),
 "C01": io((30000, 300000), "A run draws a configuration text (nested blocks, quoted and vector values, comments, up to three levels of include files), one of the three ways to load it (file, standard input, text), how reads are chunked, and a plan of open and read faults; the resulting tree is compared with that of an independent reference parser.", stub=[DISK, CLOCK, "standard input: a stream buffer of the simulator, delivering drawn chunks and failing on demand"]),
 "C02": io((40000, 300000), "A run draws a configuration text, cuts it off at a drawn byte or damages up to several bytes, tokens or include structures, and loads it from a file, text or standard input that may end or fail at a drawn byte; a budget on instrumented basic blocks decides progress, AddressSanitizer memory safety, and a reference parser whether a text that was accepted is a complete configuration.", level="fault_enumeration", stub=[DISK, CLOCK, "standard input: a stream buffer of the simulator"]),
 "I01": io((30000, 200000), "A run draws image sizes (0 to several hundred pixels a side, one side up to 74000), contents (including constant, negative, NaN-free extremes), colour map and format, one to three writes over the same or another file name, and a plan of write faults; the file is decoded by an independent decoder and compared with an independent colour-map model."),
 "F01": io((14000, 150000), "A run draws an equilibrium (grid sizes, regular field data or an analytical field sampled onto a grid, every combination of flux, wall, separatrix, name, description), saves it in a drawn format one to three times over the same name under a plan of write faults, and loads back whatever was reported as saved; all observables are compared bit for bit."),
 "F02": io((14000, 150000), "A run writes an equilibrium file (generic format in HDF5, MAT or SDT with optional parts and alternative names present or absent; LUKE equilibrium and wall files), loads it on a healthy disk as reference, then loads it under a plan of read faults; all observables are compared bit for bit."),
 "S06": io((14000, 120000), "A run draws one to several operations that touch files (saving and loading equilibria and distributions in every format, configurations with includes, data files, images), attempts each under a fresh plan of read and write faults, drops the objects, counts the files of the process still open, and finally repeats each operation on a healthy disk and compares its result with the fault-free one."),
 "S07": io((24000, 400000), "A run writes one to six variables with libhdf5 itself (16 numeric types of both byte orders, text of fixed and variable length, MATLAB text; scalars, lists, matrices, three dimensions, no value; six storage layouts; never written), attributes, groups, links and other objects, then opens the file up to four times and makes up to eleven queries each through 23 accessors, partly under a plan of read faults; results are compared with the values stored."),
 "F03": io((24000, 200000), "A run writes a complete equilibrium (generic in HDF5, MAT or SDT; LUKE with or without wall) or distribution file (six formats), damages one or two parts of a copy (missing, text for numbers, out of order, repeated, no number, too short, too long, empty, transposed, other rank, scalars that make no sense, contours with other coordinates, verification vectors that disagree; grids too small to interpolate) and loads the copy, partly under a plan of read faults; if accepted it is evaluated everywhere and cloned; the undamaged file must load as before and no file stay open."),
 "D01": io((18000, 150000), "A run draws a distribution file (SOFT, LUKE, CODE, GO+CODE or DREAM; grid sizes from 1 up; radii stored in increasing or decreasing order; one to several time slices; values including zeros and extremes; with or without verification vectors; HDF5, MAT or SDT), a request (time slice existing or not, logarithmic or not, options), loads it on a healthy disk and compares the values at the grid points with those of the file, then loads it under a plan of read faults and compares bit for bit; or inserts momentum distributions at radii in a drawn order. Evaluation, re-loading and destruction are interleaved in a drawn order."),
 "T02": io((40000, 400000), "A run draws a history of up to 30 calls on up to four timers (create, copy, stop, continue, reset, repeated or out of order, getters in between) and clock advances from nanoseconds to years, with clock steps (also backwards while the timer is stopped), and progress trackers printing at drawn moments; values, parts and printed lines are compared with a model on the simulated clock.", technique="deterministic simulation of the clock: seeded search over timer histories and clock readings including clock steps", stub=[CLOCK, "standard output: a memory file read back by the oracle"]),
 "M01": io((40000, 400000), "A run draws one operation (integrating, loading or saving equilibria, distributions, data files, images, configurations, cloning, copying, inserting) and the memory request within it that is refused (position, how many in a row), runs it to its exception, checks that what existed before is unchanged, and repeats it with memory available.", level="fault_enumeration", technique="deterministic simulation with allocation-failure injection: seeded search over operations and the memory request that is refused", stub=[DISK, CLOCK, "allocator: operator new, malloc, realloc and calloc called from softlib are refused where the simulator decides; requests of libhdf5, GSL and libpng for themselves are granted"]),
 "C03": io((36000, 250000), "A run draws a history of up to 16 steps over up to six configurations (load a generated text, copy a whole configuration or a block, add blocks and settings, merge one into another or into itself with or without new settings, look everything up, destroy), some copies and merges with a refused memory request; after every step all configurations alive are compared with a model of values.", technique="deterministic simulation: seeded search over histories of copies, merges, destructions and refused memory requests against an executable reference model", stub=["allocator: memory requests of softlib are refused where the simulator decides"]),
 "R01": io((40000, 400000), "A run draws one or two integrators (equation, tolerance, dense output, scaling), and a history of up to 15 operations (initial value, 1 to 1200 steps, dense output at sorted, unsorted, exact, outside times) with evaluations of the equation that throw or give NaN and memory requests that are refused at drawn points; all steps are compared with those recorded before and with the exact solution.", technique="deterministic simulation: seeded search over integration histories with failing evaluations and refused memory requests", stub=["the equation integrated: a linear equation with known solution that throws or returns NaN when the simulator decides", "allocator: memory requests of softlib are refused where the simulator decides"]),
 "T01": sched((40000, 1500000), "A run draws the number of steps (up to 10^13, of which some are reported), lines and threads, how the steps are distributed (one by one, striped, blocks, in order), output options, and a schedule; the printed lines are compared with the format and with the set of line counts that some order of the reports consistent with their begin and end could print.", stub=SCHED_STUB + ["standard output: a memory file read back by the oracle"]),
 "T03": sched((40000, 1500000), "A run draws a field (numeric with every combination of optional parts, analytical with every safety factor, sampled), contours set by the user, one to four threads, clones made before or by the threads, clones of clones, and what happens to the original (kept, destroyed, changed, evaluated, before or during); all observables are compared bit for bit with those of an identical field used alone."),
 "T04": sched((60000, 2000000), "A run draws a distribution (numeric built at once or by insertion, CODE, GO+CODE, analytical, with every radial profile; settings), one to four threads, clones made before or by the threads, clones of clones, changes to, insertion into and destruction of clones; values are compared bit for bit with those of an identical distribution used alone."),
 "T05": sched((40000, 1500000), "A run draws two to four threads and what each does once or twice (16 kinds of work: integrate, configure from text and from files with includes, integrate numerically, build, load and evaluate fields and distributions, insert momentum distributions, write and read SDT variables, equilibria and distributions, PPM and PNG images, vectors and matrices, throw, time), and a schedule; results are compared bit for bit with those obtained alone."),
}
