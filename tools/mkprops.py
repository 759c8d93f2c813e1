#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

SF=["src/SFile/SFile.cpp","src/SFile/SFile_HDF5.cpp","src/SFile/SFile_MAT.HDF5.cpp","src/SFile/SFile_SDT.cpp","src/SFile/SFile_SDT.load.cpp"]

p("S01","Saved variables read back exactly, or the failure to save them is reported",
  "If a data file (HDF5, MAT or SDT) is created or updated, variables, attributes and structs are written to it, each name once, and closing it reports no error, then reopening it returns every variable whose write reported no error with exactly the name, shape, element type where the format stores one, and values that were written (SDT: numbers as double precision). The format may be named or told by the file name's extension; a name with no known extension is rejected and no file made. An array of more dimensions than the format has is refused, and a file opened for reading is never changed: writing to it reports an exception. When the disk refuses, shortens or tears a write, runs full, or fails at close, some call no later than the close reports it with an exception; it is never silently lost.",
  ["histories","fault_sequences","inputs"],"For every sequence of writes in every format and open mode, with every placement of write-side disk faults.",
  "The unit tests write one fixed set of variables to a healthy disk, once per format, and compare with a tolerance; no write ever fails in them and update mode is never opened.",
  SF,[("writing variables and reporting errors","src/SFile/SFile_*.cpp Write*"),("flush and close","SFile_HDF5::Close, SFile_SDT::Close")],
  ["reopening the file through the same API with faults off"])

p("S02","Reading under disk faults gives the stored data or an exception, never less",
  "While a data file is opened and read, interrupted and short reads are invisible: the values returned equal those stored. If a read fails for good, the affected call reports an exception; no variable is ever returned with wrong, missing or shortened contents, and a variable that is in the file is never reported as absent because the disk failed.",
  ["fault_sequences","histories"],"For every stored file, every sequence of queries and every placement of read-side disk faults.",
  "The tests read complete files from a healthy disk; none of them makes an open or read fail or return short.",
  SF,[("opening and loading","SFile_*::Open, SFile_SDT::Load"),("existence query","SFile_HDF5::HasVariable"),("reading","SFile_HDF5::GetArray2D and siblings")],
  ["return values and exceptions of the query functions"])

p("S03","Truncated or torn data files are rejected without crashing",
  "Opening and reading a data file that was cut off at any byte, because its writer was killed or a write was torn, never crashes, hangs or corrupts memory. From a complete file cut off at any byte (SDT: also from one whose writer was killed at any point) a variable is only returned when all of its declared elements are in the file and then has exactly the values written (except that a text number cut within its digits cannot be told from a shorter one); otherwise an exception is reported. An SDT file whose text was damaged in place is rejected or read as its text says: it causes no crash, hang or memory error, and the variables before the damage are exact. In every case the object can still be destroyed or used to open another file.",
  ["crash_points","fault_sequences","inputs"],"For every file, every crash point of its writer (every prefix of its write calls, the last one possibly torn) and every truncation point.",
  "The tests only read files that were written to completion.",
  SF,[("length and format validation while loading","SFile_SDT::LoadMatrix, LoadString"),("open error handling","SFile_*::Open, SFile::Create")],
  ["open and read calls on the torn file"])

p("S04","Reads are repeatable and independent, and returned buffers belong to the caller",
  "Reading variables in any order, any number of times, through any of the accessors (matrix, list, scalar, integer, multi-dimensional, string, attribute), always returns the stored value, no matter which reads succeeded or failed before (after a disk error, once the file is opened again). A buffer returned to the caller may be modified and freed without affecting later reads, and an object that is closed and opened on another file shows only the new file's variables.",
  ["histories","fault_sequences"],"For every history of reads, frees, modifications of returned buffers, failed reads, closes and re-opens.",
  "Each test reads each variable once, in one order, and never frees what it got while the file is still in use.",
  SF,[("ownership of returned arrays","SFile_SDT::GetDoubles, SFile::GetList, SFile::__GetSingle"),("state kept between opens","SFile_SDT matrices/strings maps")],
  ["return values of the query functions"])

p("S05","MAT files carry a valid header for every creation date",
  "A MAT file created at any moment of any year (1970 to 2260) carries a 512-byte user block that starts with a printable MATLAB 7.3 header naming the correct weekday, month, day, time and year of creation, padded to 116 characters and followed by the version and endianness bytes, and it opens again as a MAT file. Texts and structs in it carry the class attributes MATLAB needs to recognise them, and a class stated for numbers is that of their type. If the header cannot be written, creating the file reports an exception.",
  ["configurations","fault_sequences"],"For every reading of the system clock and every placement of disk faults during creation.",
  "The test creates a MAT file at whatever time it happens to run and never looks at the header.",
  ["src/SFile/SFile_MAT.HDF5.cpp"],[("header generation","SFile_MAT::CreateMAT")],["bytes of the file on disk"])

p("S06","Files are released and a retry succeeds once disk faults stop",
  "After any failed or successful load, save or image write, however it ended, no file stays open once the objects involved are gone. When the faults stop, repeating the same operation with a fresh object succeeds and gives the same result as if nothing had failed.",
  ["fault_sequences","histories"],"For every operation of the library that touches a file and every placement of faults in the first attempts.",
  "No test makes an operation fail and tries again; leaked handles are invisible to all of them.",
  SF+["src/MagneticField/MagneticFieldNumeric2D.cpp","src/MagneticField/MagneticFieldLUKE.cpp","src/DistributionFunction/*.cpp","src/Configuration/Script/ConfigurationScript.cpp","src/ImageGenerator/*.cpp"],
  [("closing files on every path","the Load functions of each loader; SFile destructors")],["open file descriptors of the process; result of the retry"])

p("S07","Data files written by other programs are read right, or refused",
  "From an HDF5 or MAT file written by another program, every accessor either returns the stored value converted to the type asked for, with the stored shape, or reports an exception. That holds for numbers of any width, sign and byte order, in any storage layout (contiguous, compact, chunked, compressed, never written), for scalars, lists, matrices and arrays of more dimensions, for text of fixed or variable length, for attributes of any of these types, and through links. Numbers are never taken for text or text for numbers, a variable of more dimensions or elements than the accessor can return is refused, one without a value is refused, and what is not a variable is not reported as one. Nothing in such a file makes an accessor overrun a buffer, return uninitialised memory or end the program.",
  ["inputs","histories","fault_sequences"],"For every HDF5/MAT file any program can write with the types above, every sequence of queries and every placement of read faults.",
  "The tests read only files written by softlib itself a moment before, through the accessor matching the writer.",
  ["src/SFile/SFile.cpp","src/SFile/SFile_HDF5.cpp","src/SFile/SFile_MAT.HDF5.cpp"],[("conversion and shape checks","SFile_HDF5::GetArray2D, SFile_HDF5_GetArray1D, GetMultiArray_linear"),("text","SFile_HDF5::GetString, SFile_MAT::GetString"),("attributes","SFile_HDF5::GetAttributeScalar, GetAttributeString"),("existence","SFile_HDF5::HasVariable")],["return values and exceptions of the query functions"])

p("C01","A configuration is loaded completely or the failure is reported",
  "Loading a configuration from a file, through nested includes or from standard input gives exactly the settings and blocks of the complete text, however the operating system splits, delays or interrupts the reads; each value is returned as the text, boolean, number or numbers it denotes, and a number that does not fit the integer type asked for is rejected. If any part cannot be opened or read, loading reports an error (an exception or the error flag); a shortened or partial configuration is never presented as a successful load.",
  ["fault_sequences","inputs","histories"],"For every configuration text, include structure, input chunking and placement of open and read faults.",
  "The configuration test parses one fixed in-memory text and never reads through a failing or short stream.",
  ["src/Configuration/Script/ConfigurationScript.cpp","src/Configuration/Script/Lexer.cpp","src/Configuration/Script/Interpreter.cpp","src/Configuration/Configuration.cpp"],
  [("reading files and standard input","ConfigurationScript::FromFile, FromStdin"),("includes","Interpreter include handling")],["resulting configuration tree; error flag; exceptions"])

p("C02","Loading any damaged configuration ends promptly, without crashing",
  "Loading a configuration whose text was cut off at any byte or damaged in place, or whose standard input ends or fails at any byte, finishes within a number of steps bounded by its length, without crashing or touching memory it does not own. It either yields exactly the settings and blocks that the text, as it is, denotes, or reports an error (an exception or the error flag); a text that ends within a statement, a quoted value, an include or a block is always reported.",
  ["crash_points","fault_sequences","inputs"],"For every truncation point, byte corruption and stream failure point of every configuration text.",
  "The test parses one well-formed text; a missing final token, comment or quote never occurs in it.",
  ["src/Configuration/Script/Lexer.cpp","src/Configuration/Script/Interpreter.cpp","src/Configuration/Script/ConfigurationScript.cpp"],
  [("end-of-text handling","ConfigurationScript lexer nextc/gettkn and interpreter advance")],["termination, memory safety, error flag"])

p("C03","Configurations that were copied or merged are independent of each other",
  "A copy of a configuration or block has exactly the settings and blocks of its original, and merging one block into another gives the settings of both with those of the merged one taking precedence (or, when new settings are not to be added, reports exactly the names that are not known and adds none). Whatever is then merged, changed or destroyed, and in whatever order, every other configuration keeps its contents (each setting and block found by its name, and none that is not there), reports exactly the settings that were not asked for as unused, and can be used and destroyed; running out of memory on the way ends with an exception.",
  ["histories","fault_sequences","inputs"],"For every history of loading, copying, merging, looking up and destroying configurations, and every allocation that fails on the way.",
  "The configuration test loads one configuration and neither copies nor merges nor destroys one before another.",
  ["src/Configuration/ConfigBlock.cpp","src/Configuration/Configuration.cpp","src/Configuration/Script/ConfigurationScript.cpp"],
  [("deep copy","ConfigBlock copy constructor, Configuration copy constructor"),("merging","ConfigBlock::Merge, Configuration::Merge")],["all settings and blocks of every configuration still alive"])

p("T01","Progress lines count 1..n exactly once under any thread interleaving",
  "When any number of threads report progress to one tracker under any interleaving, the progress lines printed are complete, carry the numbers 1, 2, 3, ... in increasing order without repetition or gap, and never exceed the requested number of lines. Reporting every step of the work in order prints exactly the requested number of lines (one line per step when fewer steps than lines), and line i of n is never printed before i/n of the work has been reported.",
  ["schedules","inputs"],"For every number of threads, assignment of steps to threads, interleaving, total and requested number of lines.",
  "No test uses the progress tracker, and a test could not control the interleaving of the threads.",
  ["src/General/ProgressTracker.cpp","include/softlib/ProgressTracker.h"],[("critical section around the counters","ProgressTracker::PrintProgress"),("schedule of print points","ProgressTracker::UpdateNext")],["standard output"])

p("T02","Timers account for every instant exactly, for every history and clock reading",
  "For every history of starting, stopping, continuing and resetting a timer, the elapsed time it reports equals the time that passed on the system clock while it was running since the last reset; stopped time is never counted, however the clock is set meanwhile, and running time never lost. Its day/hour/minute/second/milli/microsecond parts always add up to the elapsed time with each part in its range, and progress lines show the total time and the time since the previous line read from that clock, with colour codes only if colours were asked for.",
  ["histories","configurations"],"For every history of timer calls and every sequence of clock readings, up to many days.",
  "No test uses the timer; without controlling the clock none could predict its value.",
  ["src/General/Timer.cpp","src/General/ProgressTracker.cpp"],[("accumulated offset","Timer::Stop, Continue, Reset"),("decomposition","Timer::GetTimeStruct"),("time formatting","ProgressTracker::TimeString")],["timer getters and strings under a simulated clock"])

p("T03","Cloned magnetic fields give the original's answers from every thread",
  "Threads that each evaluate their own clone of a magnetic field obtain, under every interleaving, exactly the values (field, derivatives, flux, bounds, domain queries) that the original gives when used alone, without any unsynchronised sharing between them. A clone describes the same field as its original (also after the original is changed or destroyed) and neither can disturb the other.",
  ["schedules","histories","inputs"],"For every kind of field, every clone/evaluate/destroy history and every interleaving of the threads' evaluations.",
  "The tests evaluate one field from one thread and only clone in passing; interleavings are never exercised.",
  ["src/MagneticField/MagneticFieldNumeric2D.cpp","src/MagneticField/MagneticFieldAnalytical2D.cpp","src/MagneticField/MagneticFieldLUKE.cpp","src/MagneticField/MagneticField2D.cpp"],
  [("deep copy","Clone of each field type"),("per-object scratch values and search accelerators","Eval*/EvalDerivatives")],["values returned in each thread"])

p("T04","Cloned distribution functions give the original's answers from every thread",
  "Threads that each evaluate their own clone of a distribution function obtain, under every interleaving, exactly the values the original gives when used alone, without any unsynchronised sharing between them. A clone keeps every setting of its original, and evaluating, re-cloning or destroying clones never disturbs the original or other clones.",
  ["schedules","histories","inputs"],"For every kind of distribution function and radial profile, every clone/evaluate/destroy history and every interleaving of the evaluations.",
  "The tests evaluate the original from one thread; clones are not compared with their originals and never run in parallel.",
  ["src/DistributionFunction/*.cpp","include/softlib/DistributionFunction/*.h"],
  [("shallow clone sharing read-only data","MinClone of each distribution function"),("per-clone accelerators","NumericMomentumSpaceDistributionFunction")],["values returned in each thread"])

p("T05","Threads working on objects of their own do not interfere",
  "Threads that use the library at the same time, each with objects and files of its own - integrating trajectories, loading, copying and merging configurations, building and evaluating magnetic fields and distribution functions, writing and reading SDT files (variables, equilibria, distributions) and PPM and PNG images, quadrature, timers, exceptions - obtain under every interleaving exactly the results they obtain alone, without any unsynchronised sharing of hidden state between them.",
  ["schedules","inputs"],"For every mix of such work, number of threads and interleaving at any memory access.",
  "The tests run one thread; state shared behind the scenes (static buffers, caches) only shows under particular interleavings.",
  ["src/General/*.cpp","src/Configuration/*.cpp","src/MagneticField/*.cpp","src/DistributionFunction/*.cpp","src/SFile/SFile_SDT.cpp","src/ImageGenerator/*.cpp","src/Integration/*.cpp","include/softlib/RKDP45.tcc","include/softlib/Integrator.tcc"],
  [("no static mutable state","all classes"),("buffers per object","RKDP45, Integrator, SFile_SDT, Configuration")],["results and messages obtained in each thread"])

p("F01","A saved equilibrium loads back as the same equilibrium, or saving fails loudly",
  "Saving a numeric magnetic equilibrium and loading it again gives bit-for-bit the same field, derivatives, flux (or absence of flux), axis, wall, separatrix, name and description, for every combination of optional parts and whichever way points are given; its bounds are those of its contours; and an analytical field sampled onto a grid has, at the grid points, the field and flux of the original. If the disk fails while saving, an exception is reported by the save; a file that was reported as saved always loads back as that equilibrium.",
  ["inputs","fault_sequences"],"For every equilibrium (grid sizes, with or without flux, wall, separatrix) and every placement of write faults.",
  "No test saves an equilibrium under a failing disk or without optional parts.",
  ["src/MagneticField/MagneticFieldNumeric2D.cpp","src/MagneticField/MagneticFieldAnalytical2D.cpp"],[("save and load","MagneticFieldNumeric2D::Save, Load"),("sampling an analytical field","MagneticFieldAnalytical2D::ToNumeric2D")],["values of the loaded field"])

p("F02","An equilibrium is loaded completely under disk faults, or not at all",
  "Loading a magnetic equilibrium (generic or LUKE format) while the disk interrupts, shortens or fails reads either gives the same field, flux, wall, separatrix and metadata as loading from a healthy disk, or reports an exception. In particular optional parts (flux, wall, separatrix, verification vectors) that are in the file are never dropped because reading them failed.",
  ["fault_sequences","inputs"],"For every equilibrium file and every placement of read faults.",
  "The tests load equilibria from a healthy disk only.",
  ["src/MagneticField/MagneticFieldNumeric2D.cpp","src/MagneticField/MagneticFieldLUKE.cpp"],[("optional variables","MagneticFieldNumeric2D::Load"),("LUKE loader","MagneticFieldLUKE::Load")],["values of the loaded field or exception"])

p("F03","Equilibrium and distribution files that contradict themselves are refused",
  "Loading an equilibrium (generic or LUKE) or distribution file (SOFT, LUKE, CODE, GO+CODE, DREAM) in which a required part is missing, has another type, rank or size than the parts it has to fit, or in which a grid is too small to interpolate on, not in increasing order (radii: nor in decreasing order) or contains what is no number, reports an exception: it never ends the program, reads outside its arrays or gives a field or distribution made of unrelated memory. A file that is accepted can be evaluated anywhere, also outside its grid, and cloned. The file is released either way, and the undamaged file loads as before.",
  ["inputs","fault_sequences","histories"],"For every equilibrium and distribution file, every damaged part and kind of damage, and every placement of read faults.",
  "The tests load a handful of well-formed files; none of them is inconsistent.",
  ["src/MagneticField/MagneticFieldNumeric2D.cpp","src/MagneticField/MagneticFieldLUKE.cpp","src/DistributionFunction/SOFTDistributionFunction.cpp","src/DistributionFunction/LUKEDistributionFunction.cpp","src/DistributionFunction/CODEDistributionFunction.cpp","src/DistributionFunction/GOCODEDistributionFunction.cpp","src/DistributionFunction/DREAMDistributionFunction.cpp","src/DistributionFunction/NumericDistributionFunction.cpp","src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp"],
  [("size and order checks","the Load function of each format; InitInterpolation; Initialize"),("evaluation outside the grid","MagneticFieldNumeric2D::Eval, EvalFlux")],["exception or values; open file descriptors"])

p("D01","A distribution function is loaded completely under disk faults, or not at all",
  "Loading a distribution function (SOFT, LUKE, CODE, GO+CODE or DREAM format; any time slice the format offers) while the disk interrupts, shortens or fails reads either gives the same distribution as loading from a healthy disk, or reports an exception. The distribution loaded has, at the grid points of the chosen slice, the values stored in the file (interpolated logarithmically, where no zero lies beside them), and a momentum distribution inserted at any radius, in any order, or given with all others in one array of increasing or decreasing radii, is found at that radius. With the sign of the pitch flipped it is the same distribution mirrored in pitch. Time slices that do not exist are rejected with an exception, and loading, evaluating and destroying distributions in any order never corrupts memory.",
  ["fault_sequences","histories","inputs"],"For every distribution file, time slice and options, every load/evaluate/destroy history and every placement of read faults.",
  "The tests load one distribution per format, once, from a healthy disk.",
  ["src/DistributionFunction/SOFTDistributionFunction.cpp","src/DistributionFunction/LUKEDistributionFunction.cpp","src/DistributionFunction/CODEDistributionFunction.cpp","src/DistributionFunction/GOCODEDistributionFunction.cpp","src/DistributionFunction/DREAMDistributionFunction.cpp","src/DistributionFunction/NumericDistributionFunction.cpp"],
  [("loaders","the Load function of each format"),("time index selection","DREAM/CODE/GOCODE Load")],["values of the loaded distribution or exception"])

p("I01","An image file written without error decodes to exactly the rendered image",
  "When writing a PPM or PNG image reports no error, the file decodes to exactly the colour-mapped pixels of the image, with its width, height and row order, for every size, colour map and however the operating system splits the writes. If the file cannot be created, written or closed, an exception is reported and nothing crashes.",
  ["fault_sequences","inputs"],"For every image size, contents and colour map, and every placement of write-side disk faults.",
  "No test covers image output.",
  ["src/ImageGenerator/ImageGenerator.cpp","src/ImageGenerator/ImageGeneratorPPM.cpp","src/ImageGenerator/ImageGeneratorPNG.cpp"],[("writing","ImageGeneratorPPM::SaveImage, ImageGeneratorPNG::SaveImage")],["the image file decoded independently"])

p("M01","Running out of memory surfaces as an exception and a retry then succeeds",
  "If any memory request made while integrating a trajectory, loading a configuration, or writing, loading or cloning data fails, the operation ends with an exception, never with a crash, a hang or a wrong result. Results obtained before stay valid, and once memory is available again the same operation succeeds with the right result.",
  ["fault_sequences","histories"],"For every operation and every allocation within it at which memory runs out.",
  "No test makes an allocation fail.",
  ["include/softlib/Integrator/Integrator.tcc","include/softlib/Integrator/RKDP45.tcc","src/Configuration/Script/ConfigurationScript.cpp","src/SFile/*.cpp","include/softlib/SOFTLibException.h"],
  [("growing buffers","Integrator::StoreSolution, RKDP45::PrepareDense, ConfigurationScript::FromStdin"),("exception messages","SOFTLibException::ConstructErrorMessage")],["exceptions; results of the retry"])

p("R01","An integration keeps its steps through failures and can be continued",
  "Steps an integrator has taken never change, whatever happens later. When a step fails, because the equation throws or yields no number or because memory runs out, the failure is reported, all steps taken before stay as they were, and once the trouble is over the same step can be taken again and the integration goes on to the right solution. Every step stored carries its time (strictly increasing), its solution and the equation's derivative there; dense output agrees with the steps, is right between them for times asked in any order, and times outside the steps taken are rejected.",
  ["histories","fault_sequences","inputs"],"For every history of setting initial values, stepping and dense output, with every placement of failing evaluations and allocations.",
  "The test integrates one equation that never fails, once, and asks for increasing output times.",
  ["include/softlib/Integrator/Integrator.tcc","include/softlib/Integrator/RungeKutta.tcc","include/softlib/Integrator/RKDP45.tcc"],
  [("storing a step","Integrator::StoreSolution"),("step-size control","RungeKutta::Step, UpdateTimestep"),("dense output","RungeKutta::OutputDense, RKDP45::PrepareDense")],["times, solutions, derivatives and dense output of the integrator"])

# ---- not applicable to deterministic simulation (pure functions of their input) ----
NA="pure"
p("N01","Field derivatives agree with the field","For every magnetic field and every point in its domain, the Jacobian, gradient of the field strength and curl that are reported equal the derivatives of the reported field, and the field is divergence free to interpolation accuracy.",
  ["inputs"],"For every field and point.","The tests compare a fixed set of points within a tolerance.",
  ["src/MagneticField/MagneticFieldNumeric2D.cpp","src/MagneticField/MagneticFieldAnalytical2D.cpp","src/MagneticField/MagneticField2D.cpp"],[("derivatives","EvalDerivatives")])
p("N02","Domain crossing tests agree with geometry","A line segment is reported as crossing the wall exactly when it intersects the wall contour (or its surface of revolution), for every segment and contour.",
  ["inputs"],"For every contour and segment.","The domain test samples a few segments.",["src/MagneticField/MagneticField2D.cpp"],[("crossing","CrossesDomain, IntersectsDomain3D")])
p("N03","The integrator meets its tolerance, also between steps","For every smooth initial value problem the adaptive integrator's solution, including interpolated output between steps, stays within the requested tolerance of the true solution.",
  ["inputs"],"For every equation, initial value and tolerance.","The test integrates one equation.",["include/softlib/Integrator/*.tcc"],[("error control and dense output","RungeKutta.tcc, RKDP45.tcc")])
p("N04","Vector and matrix algebra obeys its laws","Vector and matrix operations satisfy the algebraic identities of their definition (linearity, associativity with scalars, transposition, inverse) up to rounding, for all operands.",
  ["inputs"],"For all operands.","No test covers the algebra.",["include/softlib/General/Vector.tcc","include/softlib/General/Matrix.tcc"],[("operators","Vector.tcc, Matrix.tcc")])
p("N05","Configuration values convert faithfully to the requested type","Every setting is returned as the number, vector, boolean or string its text denotes, and a text that does not denote the requested type is rejected.",
  ["inputs"],"For every setting text.","The configuration test checks a few values.",["src/Configuration/Script/SettingScript.cpp"],[("conversion","SettingScript getters")])
p("N06","Analytical distributions and radial profiles evaluate their formulas","The analytical distribution functions and radial profiles return the value of their defining formula, are non-negative where defined so, and vanish outside their support.",
  ["inputs"],"For every parameter and argument.","Single tests compare a table of values.",["src/DistributionFunction/AnalyticalAvalanche.cpp","src/DistributionFunction/ConnorHastieDistribution.cpp","src/DistributionFunction/*RadialProfile.cpp"],[("formulas","Eval of each class")])
p("N07","Peaked quadrature and colour maps compute their definitions","The quadrature of peaked integrands converges to the integral and the colour maps are continuous maps of [0,1] onto valid colours.",
  ["inputs"],"For every integrand and intensity.","No test covers them.",["src/Integration/PeakedIntegration.cpp","src/ImageGenerator/ImageGenerator.cpp","include/softlib/ImageGenerator/ImageColormap.h"],[("quadrature","PeakedIntegration"),("colour maps","ImageColormap")])
for x in P: print(json.dumps(x))
