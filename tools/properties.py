#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.

Run it after editing; both files are committed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, state=(), note=None, tech=None, level_note=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=observe, hook_needed=None),
                _tech=tech, _level_note=level_note)

SINGLE = "The suite runs as one process on a handful of fixed pattern files, "

PROPS = [
P("C01", "Trace samples survive a write/read round trip bit for bit",
  "Whatever 32-bit sample values an application writes to a SEG-Y file through the library, reading those traces back returns exactly the same bits, for every trace count, trace length (1 up to 32767), number of processes, division of the traces between processes and calls, and order of the write calls. The file stores them in SEG-Y order as big-endian IEEE floats behind each 240 byte header, and the caller's sample buffer is left as it was passed in.",
  ["inputs", "configurations", "histories"],
  "all sample bit patterns, ns, nt, rank counts, partitions, call sequences (contiguous and indexed writes, with and without headers)",
  SINGLE + "comparing values generated by the same pattern function; no test writes with more than one rank, arbitrary bit patterns (NaN payloads, denormals, negative zero) or mixed call sequences.",
  ["src/WriteSEGY.cc", "src/ReadSEGY.cc", "src/ObjectSEGY.cc", "src/DataMPIIO.cc", "src/segy_utils.cc"],
  [("byte order conversion around object-layer writes", "src/WriteSEGY.cc writeTraceT"), ("trace offset arithmetic", "include/ExSeisDat/PIOL/segy_utils.hh")],
  ["bytes of the output file", "ReadDirect::readTrace*", "caller's buffers"],
  tech="property-based round trip and reference-encoder differential over generated write histories on 1-4 MPI ranks",
  level_note="Random search with an independent byte-level SEG-Y encoder as oracle; trusts MPI, the local file system and that small files are representative of large ones."),
P("C02", "Trace header parameters survive a round trip within SEG-Y precision",
  "Every header parameter named by the rules in force and written for a trace is read back for that trace: integer fields exactly, and scaled coordinate/elevation fields to within half a unit of the finest power-of-ten scale (0.0001 to 10000) at which all the fields sharing that scaler still fit in 32 bits. Fields are stored at their SEG-Y byte positions with a valid scaler, so any SEG-Y reader recovers the same values, and a raw header copy moves all 240 bytes unchanged.",
  ["inputs", "configurations"],
  "all parameter values in SEG-Y range, all combinations of rules (default, extra, custom positions, raw copy), all trace counts, rank counts and call forms",
  SINGLE + "with coordinates that are small functions of the trace number; combinations of magnitudes and fractions sharing one scaler, negative values, custom rules and raw copies are hardly sampled.",
  ["src/segy_utils.cc", "src/Rule.cc", "src/Param.cc", "src/param_utils.cc", "src/WriteSEGY.cc", "src/ReadSEGY.cc"],
  [("scaler selection", "src/segy_utils.cc find_scalar / insertParam"), ("scaler decoding", "src/segy_utils.cc parse_scalar / extractParam")],
  ["bytes of the trace headers", "ReadDirect::readParam*", "param_utils::getPrm"],
  tech="property-based round trip with an independent header decoder and precision bound",
  level_note="Random search; the precision bound is derived from the documented scaler set, decoded by an independent reader."),
P("C03", "Output files do not depend on how the work was split up",
  "The bytes of a file written through the library depend only on the text, sample count, interval, traces and parameters written, and not on the number of processes, how traces are divided among them (including processes with none), how calls are batched, or the I/O size limits and collective-buffering options in use. Reading with any other split likewise returns the same data.",
  ["configurations", "inputs", "schedules"],
  "all rank counts, partitions, batchings, buffer limits and I/O options",
  "No existing test runs with more than one process, and buffer limits are only exercised by mocks and two fixed file sizes.",
  ["src/DataMPIIO.cc", "src/ObjectSEGY.cc", "src/ReadSEGY.cc", "src/WriteSEGY.cc", "src/WriteInterface.cc"],
  [("chunked collective I/O with balancing calls", "src/DataMPIIO.cc contigIO/listIO"), ("global trace-count agreement", "src/WriteSEGY.cc calcNt")],
  ["bytes of the output file under two configurations"],
  tech="metamorphic/differential property test: same logical content under two generated decompositions",
  level_note="Random search over decompositions and I/O options on 1-5 ranks of one host."),
P("C04", "All ways of reading the same traces agree",
  "For any file and any set of trace numbers, contiguous, indexed-ascending and indexed-any-order reads (duplicates included), with samples, headers or both, in one call or many, and into any position of a parameter block, all return exactly the samples and header values stored for those traces, in the order asked for. Nothing outside the requested region of the caller's arrays is touched, and processes asking for no traces may take part.",
  ["inputs", "histories", "configurations"],
  "all trace-index sequences, call forms, parameter-block positions, rank counts",
  SINGLE + "with a few fixed offset lists; reads for uneven or empty per-process requests and duplicate indices are not covered.",
  ["src/ReadSEGY.cc", "src/ReadDirect.cc", "src/ReadInterface.cc", "src/ObjectSEGY.cc", "src/DataMPIIO.cc"],
  [("offset list I/O", "src/DataMPIIO.cc listIO"), ("non-monotonic de-duplication and scatter", "src/ReadSEGY.cc readTraceNonMonotonic")],
  ["ReadDirect / ReadInterface read calls"],
  tech="stateful property test of read-call sequences against a reference file model",
  level_note="Random search against an independently encoded file."),
P("C05", "A write changes only what it names",
  "Writing samples alone leaves every trace header byte as it was, writing parameters alone leaves every sample as it was, and any write leaves the headers and samples of traces it does not name, and the file-level header, unchanged. After any sequence of overlapping writes the file holds, for each trace's samples and header, the last value written.",
  ["histories", "inputs", "configurations"],
  "all sequences of contiguous/indexed trace, parameter and combined writes with overlaps, on any number of processes",
  SINGLE + "writing each region once; no test interleaves partial overwrites and inspects the bytes around them.",
  ["src/WriteSEGY.cc", "src/ObjectSEGY.cc", "src/DataMPIIO.cc", "src/WriteDirect.cc"],
  [("strided and list writes with header/sample holes", "src/ObjectSEGY.cc, src/DataMPIIO.cc")],
  ["bytes of the output file after each history"],
  tech="stateful model-based property test (byte-array model of the file)",
  level_note="Random histories of up to a dozen writes; each write fills all participants' regions disjointly."),
P("C06", "File-level header fields round trip and sizes are consistent",
  "The text header (up to 3200 characters), samples per trace, sample interval and trace count given to a new file are what any reader of that file gets back, in any order of the calls, and the file is exactly 3600 + nt*(240+4*ns) bytes with the standard SEG-Y binary fields set. The trace count is the larger of the count asked for and the highest trace written by any process.",
  ["inputs", "histories", "configurations"],
  "all texts, ns, intervals, trace counts, call orders, rank counts",
  SINGLE + "mostly through mocks that check a fixed byte pattern.",
  ["src/WriteSEGY.cc", "src/ReadSEGY.cc", "src/WriteInterface.cc", "include/ExSeisDat/PIOL/segy_utils.hh"],
  [("header packing at close", "src/WriteSEGY.cc calcNt / packHeader / destructor"), ("header unpacking", "src/ReadSEGY.cc constructor")],
  ["bytes 0-3599 and size of the file", "ReadDirect::readText/readNs/readNt/readInc"],
  tech="property-based round trip and byte-level differential",
  level_note="Random search against an independent encoder/decoder."),
P("C07", "Files from other systems decode correctly",
  "A well-formed SEG-Y file made elsewhere is read as the standard says: IBM floating-point samples convert to the value they denote (to within one unit in the last place of IEEE single precision), IEEE samples exactly, EBCDIC and ASCII text headers to the same ASCII text, and header coordinates under any positive, negative or zero scaler to value times or divided by that scaler. The number conversions themselves (big endian to native and back, every width and sign; IBM to IEEE; EBCDIC to ASCII and back) are exact inverses or correctly rounded for every input.",
  ["inputs"],
  "all 32-bit IBM words, all scalers, all texts in the shared character set, all integer and floating values of each width",
  SINGLE + "with IEEE files produced by the library's own conventions; the IBM path is never driven through a file and conversions are sampled at a few constants.",
  ["src/utils/encoding/number_encoding.cc", "src/utils/encoding/character_encoding.cc", "src/ReadSEGY.cc", "src/segy_utils.cc"],
  [("number conversion", "src/utils/encoding/number_encoding.cc"), ("text detection", "src/ReadSEGY.cc"), ("scaler decoding", "src/segy_utils.cc extractParam")],
  ["ReadDirect calls on generated foreign files", "from_IBM_to_float, from_big_endian, to_big_endian, to_ASCII_from_EBCDIC"],
  tech="differential property test against exact rational-arithmetic references, via file reads and direct calls",
  level_note="Random and boundary-directed 32-bit words; the full 2^32 space is sampled, not enumerated, except for 16-bit fields."),
P("C08", "Rule sets and parameter blocks behave as typed records",
  "After any sequence of adding, replacing and removing rules, the rule set maps exactly the parameters added and not removed, each to the position and type last given, and a parameter block built from it stores and returns every one of its parameters for every trace independently of all the others. Copying entries between blocks, between equal or different rules, transfers every parameter the two have in common and nothing else.",
  ["histories", "inputs"],
  "all rule-editing sequences, all parameter values, all block sizes and indices",
  "The tests build a few fixed rule sets and check counts and one or two reads, never editing histories or cross-rule copies.",
  ["src/Rule.cc", "src/Param.cc", "src/param_utils.cc", "src/segy_utils.cc", "include/ExSeisDat/PIOL/param_utils.hh"],
  [("index allocation and renumbering", "src/Rule.cc addX / rmRule"), ("typed storage access", "src/param_utils.cc getPrm/setPrm/cpyPrm")],
  ["Rule::getEntry/memUsage/paramMem", "param_utils calls", "header bytes produced with the rule set"],
  tech="stateful model-based property test (map model)",
  level_note="Random histories of up to about 30 operations against a map model."),
P("C09", "Parallel header sort returns the globally ordered permutation",
  "Sorting distributed trace parameters by any supported sort key returns to the processes, in rank order, list entries that together are a permutation of all global trace numbers, ordered by that key with ties kept in original trace order. The result is the same for every number of processes and every division of the traces among them.",
  ["inputs", "configurations", "schedules"],
  "all key values (duplicates, negatives, all equal, reversed), sort types, rank counts and divisions",
  "The tests sort on one process only, where the inter-process exchange is never executed.",
  ["src/sort.cc", "include/ExSeisDat/PIOL/operations/sort.hh"],
  [("local sort plus odd-even region exchange until globally ordered", "src/sort.cc sortP"), ("key comparators", "src/sort.cc getComp")],
  ["sort(), getSortIndex()"],
  tech="property-based differential test against a sequential stable sort on 1-5 ranks",
  level_note="Random search with heavy duplicate keys; total sizes up to a few hundred traces."),
P("C10", "Sorting a data set keeps every trace whole",
  "Sorting a set of input files writes a file in which each trace's samples and complete header (all parameters carried by the rules, or the raw header) still belong together, every input trace appears exactly once, and traces are ordered by the sort key with ties in input order; later operations in the chain see that order. This holds for any number of input files, processes and memory blocks.",
  ["inputs", "configurations", "histories"],
  "all input files, sort types, rule sets, rank counts, file counts",
  "The set tests sort on one process with mocked readers, and check order but not the pairing of samples and headers.",
  ["src/Flow/Set.cc", "src/Flow/Cache.cc", "src/sort.cc", "util/sort.cc"],
  [("sorted index lists fed to non-monotonic reads", "src/Flow/Set.cc calcFuncS / startSingle"), ("parameter cache", "src/Flow/Cache.cc")],
  ["output SEG-Y files of Set::sort + output"],
  tech="end-to-end property test: generated files, reference stable sort of whole records",
  level_note="Random files of up to some hundred traces on 1-4 ranks."),
P("C11", "Data-set pipelines apply each operation once to every trace",
  "A data set built from a file pattern contains every trace of every matching file once; its output consists of one or more SEG-Y files, one group per distinct (samples, interval) pair, that together hold exactly those traces in file order, with the set's text, and the returned names are the files written. Each requested per-trace operation is applied exactly once, in the order requested, to every trace, whatever the number of files and processes.",
  ["inputs", "histories", "configurations"],
  "all collections of input files, operation chains, rank counts",
  "Set tests use one process, one or two pattern files, and mostly check that a single operation ran.",
  ["src/Flow/Set.cc", "src/Flow/Cache.cc", "include/ExSeisDat/Flow"],
  [("grouping of files by (ns, inc)", "src/Flow/Set.cc add"), ("function list evaluation", "src/Flow/Set.cc calcFunc/startSingle")],
  ["output SEG-Y files", "Set::output return value"],
  tech="stateful end-to-end property test against a reference pipeline",
  level_note="Random sets of 1-4 files and 0-3 operations on 1-4 ranks."),
P("C12", "Global minima and maxima are right and name a trace that attains them",
  "The coordinate extremes reported for a distributed set of traces are the true minimum and maximum over all traces on all processes, and each is accompanied by the global number of a trace that attains it. Every process gets the same answer, including processes holding no traces, for any sign and magnitude of the coordinates.",
  ["inputs", "configurations"],
  "all coordinate values, rank counts and divisions, for the raw operation, the set operation and the utility",
  "The tests use one process and a few fixed lists.",
  ["src/minmax.cc", "src/Flow/Set.cc", "util/minmax.cc"],
  [("local scan and gathered reduction", "src/minmax.cc"), ("accumulation across files", "src/Flow/Set.cc getMinMax")],
  ["getMinMax()", "Set::getMinMax", "exseis-minmax output"],
  tech="property-based differential test against a sequential scan on 1-5 ranks",
  level_note="Random search incl. all-negative and tied coordinates and empty ranks."),
P("C13", "Tapering scales only the ends it names, by the documented ramp",
  "Tapering a trace multiplies the first nonzero-started and last samples by the chosen ramp (linear, cosine or squared cosine) of the requested lengths and leaves every other sample, and every other trace, unchanged; leading and trailing zero (muted) samples stay zero. No sample ever grows in magnitude or changes sign, and no memory outside the traces is touched, for any trace content including all-zero traces.",
  ["inputs"],
  "all trace contents, lengths, ramp lengths up to the trace's (also longer than its live part) and ramp kinds",
  "The tests taper one constant trace with a few ramp lengths.",
  ["src/utils/signal_processing/taper.cc", "src/utils/signal_processing/Taper_function.cc", "src/Flow/Set.cc"],
  [("mute detection and ramp application", "src/utils/signal_processing/taper.cc")],
  ["exseis::utils::taper", "Set::taper output"],
  tech="property-based differential test against a reference taper under AddressSanitizer",
  level_note="Random traces up to a few hundred samples."),
P("C14", "Automatic gain control normalises each sample by its window",
  "Gain control replaces every sample by sample times target divided by the chosen statistic (RMS, triangular RMS, mean absolute value - each over the live, non-zero samples - or median) of the window around it, the window shrinking at the trace ends, computed from the original trace. Samples of a dead window stay zero. It never reads outside the trace, scales with the target, and (except where a window's statistic is zero) is unaffected by rescaling the input.",
  ["inputs"],
  "all traces, window lengths, gain statistics and targets",
  "The tests check a handful of constant or linear traces.",
  ["src/utils/signal_processing/AGC.cc", "src/utils/signal_processing/Gain_function.cc", "src/Flow/Set.cc"],
  [("window sweep", "src/utils/signal_processing/AGC.cc"), ("statistics", "src/utils/signal_processing/Gain_function.cc")],
  ["exseis::utils::AGC", "Set::AGC output"],
  tech="differential and metamorphic property test under AddressSanitizer",
  level_note="Random traces against a double-precision reference with a stated tolerance."),
P("C15", "Temporal filters act as the Butterworth filter they are asked for",
  "A temporal filter passes, attenuates and leaves in place each frequency according to the requested type (lowpass, highpass, bandpass, bandstop) and corner frequencies, acts linearly and on each trace independently of the others, and is zero phase where that is what is computed. The time and frequency domain variants and both ways of giving corners obey the same contract, and no memory outside the traces is touched.",
  ["inputs", "configurations"],
  "all traces, sampling rates, corners, orders, padding and window options",
  "The tests compare one or two fixed signals with tabulated coefficients.",
  ["src/temporalfilter.cc", "src/Flow/Set.cc"],
  [("filter design and application", "src/temporalfilter.cc")],
  ["temporalFilter()", "Set::temporalFilter output"],
  tech="metamorphic property test (linearity, independence, frequency response against the analytic Butterworth magnitude)",
  level_note="Random traces and corners; floating point tolerances stated in the harness."),
P("C16", "Gather detection partitions the file at every line change",
  "For any file the detected gathers, taken in order over the whole distributed list, are exactly the maximal runs of consecutive traces with the same in-line and cross-line numbers, each with its length and numbers. The answer does not depend on the number of processes or where their shares of the file begin and end.",
  ["inputs", "configurations"],
  "all inline/crossline sequences, rank counts (also more ranks than traces or gathers)",
  "The tests detect gathers on one process only; the merge of runs across processes is never executed.",
  ["src/gather.cc", "include/ExSeisDat/PIOL/operations/gather.hh"],
  [("per-process run detection and cross-process merge", "src/gather.cc")],
  ["getIlXlGathers()"],
  tech="property-based differential test against sequential run-length encoding on 1-5 ranks",
  level_note="Random run structures with runs spanning several ranks."),
P("C17", "A distributed vector is one array seen by every process",
  "An element of a distributed vector written by any process is the value every process reads at that index after the next synchronisation, for every element type and size, every vector length and every process count. Elements never overlap or spill into other memory, and an index outside the vector is refused on every process without changing anything.",
  ["histories", "configurations", "schedules"],
  "all lengths, element types, rank counts and sequences of reads and writes from any rank",
  "The tests use the vector on one process only.",
  ["include/ExSeisDat/utils/Distributed_vector.hh", "include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"],
  [("one-sided window access", "include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"), ("index to owner mapping", "include/ExSeisDat/utils/decomposition")],
  ["Distributed_vector get/set/operator[]"],
  tech="stateful model-based property test on 1-5 ranks (array model)",
  level_note="Random epochs of non-conflicting writes followed by reads."),
P("C18", "Block decomposition divides a range exactly",
  "Dividing a range over any number of processes gives contiguous blocks that cover every index once, in rank order, with sizes differing by at most one; the location reported for an index names the process whose block holds it and its position there. The work splits used by the library's file and set operations obey the same law.",
  ["inputs", "configurations"],
  "all ranges (including empty and near the integer limits) and process counts",
  "The tests check a few dozen constants.",
  ["src/utils/decomposition", "include/ExSeisDat/utils/decomposition"],
  [("remainder distribution", "src/utils/decomposition/block_decomposition.cc")],
  ["block_decomposition", "block_decomposition_location"],
  tech="property-based algebraic laws (cover, order, balance, inverse)",
  level_note="Exhaustive for small ranges and counts, random elsewhere."),
P("C19", "The I/O layer reads and writes exactly the requested bytes",
  "Contiguous, strided and listed reads and writes of any offsets, sizes and counts transfer exactly the requested bytes and no others, whatever the per-call size limit, independent or collective mode, and the differing amounts (or nothing at all) requested by the different processes, and every such call completes on all of them. The options are kept to: no transfer moves more than the limit unless it is a single block, all transfers are of the mode asked for, and the file is opened on the communicator and with the hints given. A reported file size is the size set or the end of the last write.",
  ["inputs", "configurations", "histories"],
  "all offset/size/stride/list requests, buffer limits, modes, rank counts",
  "The tests run on one process with fixed pattern files and regular strides.",
  ["src/DataMPIIO.cc", "include/ExSeisDat/PIOL/DataMPIIO.hh"],
  [("chunking and balancing calls", "src/DataMPIIO.cc contigIO/listIO/viewIO")],
  ["DataMPIIO read/write/setFileSz/getFileSz"],
  tech="stateful model-based property test (byte array model) on 1-5 ranks",
  level_note="Random operation sequences with tiny buffer limits to force chunking; sizes above 2 GB are not reached."),
P("C20", "The C interface does what the C++ interface does",
  "Every sequence of calls made through the C interface, for files, rules, parameters, sets, sorting and extremes, gives the same files, values and reported results as the corresponding C++ calls. Handles may be created and freed in any valid order without leaks of effect between them.",
  ["histories", "inputs"],
  "all call sequences and arguments accepted by the C interface",
  "C wrapper tests check with mocks that each wrapper forwards fixed arguments once.",
  ["src/PIOL_C_bindings.cc", "src/Flow/Flow_C_bindings.cc", "include/ExSeisDat/PIOL.h", "include/ExSeisDat/Flow.h"],
  [("wrapper functions", "src/PIOL_C_bindings.cc, src/Flow/Flow_C_bindings.cc")],
  ["files written and values read through PIOL_* and Flow C functions"],
  tech="stateful differential property test (C calls against C++ calls)",
  level_note="Random call sequences compared byte for byte and value for value."),
P("C21", "I/O failures and invalid requests are reported, not swallowed",
  "If a file cannot be opened, or an underlying read or write fails or transfers less than was asked for, or a header value is outside what SEG-Y can hold, the failure is recorded as an error or warning in the log of the process that met it, and no call reports success as though complete data had been transferred. Valid calls record no error.",
  ["fault_sequences", "inputs"],
  "all positions of an injected I/O fault in the sequence of I/O calls, all invalid header values, missing and unreadable files",
  "The tests check a few fixed error paths and never make an MPI-IO call fail in mid-transfer.",
  ["src/DataMPIIO.cc", "src/Logger.cc", "src/WriteSEGY.cc", "src/ReadSEGY.cc", "src/ObjectSEGY.cc"],
  [("error propagation from MPI-IO to the log", "src/DataMPIIO.cc"), ("value checks", "src/WriteSEGY.cc")],
  ["Logger::isErr / numStat after each call"],
  tech="property-based fault injection (MPI-IO interposition failing the k-th call) with log invariant",
  level_note="Faults are injected at the MPI-IO boundary by a link-time interposer; all positions k of generated histories are tried within the budget."),
P("C22", "Damaged input never crashes the reader or corrupts memory",
  "Opening and reading any file, however truncated, extended or overwritten with arbitrary bytes in its headers, either returns data taken from that file or records an error or warning; it never crashes, hangs, or reads or writes outside the buffers given to it, and the trace count reported never exceeds what the file can hold.",
  ["inputs"],
  "all byte strings as files, and all reads within the reported counts",
  "Only well-formed files are read in the tests.",
  ["src/ReadSEGY.cc", "src/ObjectSEGY.cc", "src/DataMPIIO.cc", "src/segy_utils.cc"],
  [("header decoding and size arithmetic", "src/ReadSEGY.cc")],
  ["ReadDirect on generated files under sanitizers"],
  tech="structure-aware fuzzing of SEG-Y bytes under ASan/UBSan with an independent reader as oracle",
  level_note="Mutation-based random search; sanitizers detect memory errors, an independent decoder checks returned data."),
P("C23", "4D binning pairs each trace with its true closest partner",
  "Given a baseline and a monitor survey, the 4D binning tool writes two equally long files in which the i-th traces are partners: each is a whole, unmodified input trace, every kept pair's distance (dsdr) is the minimum over all candidates of the other survey (of the same in-line/cross-line when asked for), and it is within the requested maximum. Among equally near candidates the first by source x, then by position in the file, is the partner, so the result does not depend on the number of processes.",
  ["inputs", "configurations"],
  "all pairs of surveys, distance limits, rank counts",
  "There is no automated test of the utility.",
  ["util/fourdbin.cc", "util/4dcore.cc", "util/4dio.cc"],
  [("rank-pairwise exhaustive search", "util/4dcore.cc calc4DBin"), ("matched trace output", "util/4dio.cc")],
  ["files written by exseis-fourdbin"],
  tech="end-to-end property test against a brute-force O(n*m) reference on 1-4 ranks",
  level_note="Random small surveys, 1-4 ranks; distances that single precision can not separate may fall either way."),
P("C24", "Command-line utilities produce what they say",
  "Concatenate writes all traces of all matching inputs, when told to ask first only after a yes; the file maker writes a valid file of the size, interval and trace count asked for with its documented header pattern; the replicator writes the input's header and then its payload the requested number of times by each of its methods; the sort tool writes the input traces in sorted order; the min/max and assessment tools report what a direct scan of the files shows. Each gives the same output for any number of processes.",
  ["inputs", "configurations"],
  "all option values, input files and rank counts",
  "There is no automated test of the utilities.",
  ["util/concatenate.cc", "util/filemake.cc", "util/makerep.cc", "util/minmax.cc", "util/sort.cc", "util/assess.cc", "util/sglobal.cc"],
  [("argument handling and decomposition loops", "util/*.cc")],
  ["files and text written by the installed tools"],
  tech="end-to-end property test of the command-line tools against reference outputs",
  level_note="Random option sets and small files, 1-4 ranks."),
P("C25", "Velocity models and angle conversion use the stored grid",
  "A 3D model file read through the model reader reports the inline/crossline origin, step and count of its grid, and reading any list of (inline, crossline) positions returns the stored trace of the corresponding grid cell. Converting radon gathers to angle gathers keeps every gather's traces, in order, with the requested number of angles, and no memory outside the traces is touched.",
  ["inputs", "configurations"],
  "all grid shapes, origins, steps, positions and gather sizes",
  "The tests use one fixed grid on one process.",
  ["src/ReadSEGYModel.cc", "src/ReadModel.cc", "src/Flow/Set.cc", "src/Flow/RadonGatherState.cc"],
  [("grid index computation", "src/ReadSEGYModel.cc")],
  ["ReadModel calls", "Set::toAngle output"],
  tech="property-based differential test against a reference grid",
  level_note="Random regular grids."),
P("C26", "Order checking accepts exactly the ordered files",
  "Checking a file against a sort order succeeds if and only if its traces, in file order, are in that order over the whole file, whatever the number of processes and wherever the process boundaries fall. A file just sorted by a key always passes the check for that key.",
  ["inputs", "configurations"],
  "all key sequences, sort types, rank counts",
  "The tests check ordered and reversed files on one process.",
  ["src/sort.cc", "util/verifysort.cc"],
  [("local check and global reduction", "src/sort.cc checkOrder")],
  ["checkOrder()", "exseis-versort output"],
  tech="property-based differential test against a sequential scan on 1-5 ranks",
  level_note="Random nearly sorted sequences with a single inversion at or off a process boundary."),
P("C27", "Survey outlines and trace listings say where the traces are",
  "The KML outline of a file runs from the smallest to the largest source coordinates of its traces as longitude and latitude, whether they are given in degrees or as UTM coordinates of any zone in either hemisphere, with one place per file, however many processes take part. Only metres without a zone are called invalid; a zone which does not exist, or a command without an input or an output, is refused without writing anything. The trace listing shows the header values stored for the trace asked for.",
  ["inputs", "configurations"],
  "all coordinates of all zones, scalers, file lists and rank counts",
  "There is no automated test of the utilities.",
  ["util/segy2kml.cc", "util/traceanalysis.cc"],
  [("inverse projection and number formatting", "util/segy2kml.cc"), ("listing", "util/traceanalysis.cc")],
  ["files and text written by the installed tools"],
  tech="end-to-end property test against an independent map projection and header reader",
  level_note="Random small surveys up to 80 degrees of latitude; outlines compared to within a centimetre."),
P("C28", "Process groups get the right collective answers and work on their own",
  "For a library handle made for any group of processes: gathers return every member's values in group order, bit for bit; sums, maxima, minima and exclusive prefix offsets are those of the members' values over the whole range of the type, the same on every member; rank and size are those of the group. Files, sorts, minima and maxima, gathers and data sets of one group depend on the members of that group alone: groups working at the same time at their own pace each get what they would get by themselves, and none waits for another.",
  ["inputs", "schedules", "configurations"],
  "all divisions of the processes into groups, values, lengths and interleavings of the groups' work",
  "The tests use the world communicator, where every collective spans all the processes.",
  ["src/CommunicatorMPI.cc", "src/ExSeis.cc", "src/DataMPIIO.cc", "src/minmax.cc", "src/sort.cc", "src/gather.cc", "include/ExSeisDat/utils/mpi/MPI_type.hh"],
  [("collectives", "src/CommunicatorMPI.cc"), ("file communicator", "src/DataMPIIO.cc Init"), ("types", "include/ExSeisDat/utils/mpi/MPI_type.hh")],
  ["values returned on each process", "files written by each group"],
  tech="property-based test over generated process groups against values worked out from the generator and reference-encoded files",
  level_note="Random divisions of up to 4 processes (6 in the thorough tier); a few rounds of work per group."),
P("C29", "What the library takes it gives back",
  "When the objects a program made with the library (files, sets, rules, parameters, models, vectors, handles, from C++ or C) are gone, in whatever order they went, nothing is left of what the work took: no open file or descriptor, no MPI file, datatype, info object, window, communicator or request, and no memory, also where opening a file failed or what was read was damaged. Repeating any history of calls any number of times therefore holds no more than doing it once.",
  ["histories", "inputs", "configurations"],
  "all histories of calls on all objects and all orders of release, errors included",
  "The tests are short programs, whose leaks end with them.",
  ["src/DataMPIIO.cc", "src/Rule.cc", "src/Param.cc", "src/temporalfilter.cc", "src/Flow/Set.cc", "src/Flow/Cache.cc", "src/PIOL_C_bindings.cc", "src/Flow/Flow_C_bindings.cc", "include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"],
  [("file handles, views and info", "src/DataMPIIO.cc"), ("rule entries", "src/Rule.cc ~Rule"), ("plans", "src/temporalfilter.cc"), ("C handles", "src/PIOL_C_bindings.cc")],
  ["MPI objects, descriptors and memory held by the process"],
  tech="property-based test of generated call histories, repeated, with counted resources",
  level_note="Random histories of up to ten steps on 1-3 ranks, repeated three times or more."),

P("C30", "Working memory follows the limit and the request, not the size of the data",
  "Data sets larger than memory are processed in blocks: whatever the size of the files of a set, and whatever its operations, a process holds no more sample data at once than a small multiple of the block limit plus a fixed amount for each trace (headers and indices) and, for operations over gathers, of a gather; opening a file of any size takes a fixed amount, reading or writing part of it an amount in proportion to that part, and filemake what its memory option says.",
  ["inputs", "histories", "configurations"],
  "all file sizes, trace lengths, operations, limits and numbers of processes",
  "The tests use files that fit in memory many times over, so that a copy of a whole file goes unseen.",
  ["src/Flow/Set.cc", "src/ReadSEGY.cc", "src/WriteSEGY.cc", "src/ObjectSEGY.cc", "src/DataMPIIO.cc", "src/ReadSEGYModel.cc", "util/filemake.cc"],
  [("block size of operations on single traces", "src/Flow/Set.cc startSingle"), ("operations on gathers", "src/Flow/Set.cc startGather"), ("blocks of a made file", "util/filemake.cc")],
  ["highest amount of memory a call has allocated"],
  tech="property-based test with measured memory against a bound computed from the limit and the request",
  level_note="Random sets of 1 to 10 MB per process with limits of a few traces, sparse files to 20 GB, 1-3 ranks."),
P("C31", "The library starts and ends MPI when that is left to it, once, and not otherwise",
  "A program needs no MPI calls of its own: the first handle made starts MPI unless it is running already, and if the library started it, it ends it at the program's exit, once, after everything else, however the program ends. MPI that the program started is left to the program, unless it tells the library to manage it; told not to, the library neither starts nor ends MPI; and MPI the program has ended itself is not ended again. Handles may be made and dropped any number of times in between, from C++ or C, and go on working.",
  ["histories", "configurations"],
  "all orders of starting, ending, managing, making, dropping and using, alone or under mpirun",
  "The test driver starts and ends MPI itself, once, the same way in every test.",
  ["src/CommunicatorMPI.cc", "include/ExSeisDat/PIOL/CommunicatorMPI.hh", "src/ExSeis.cc", "src/PIOL_C_bindings.cc"],
  [("who manages MPI", "src/CommunicatorMPI.cc MPIManager"), ("choice of the program", "src/CommunicatorMPI.cc manageMPI")],
  ["MPI_Init and MPI_Finalize calls with their caller", "state of MPI after each step", "exit status and results of the program"],
  tech="model-based property test of whole programs run as processes of their own",
  level_note="Random programs of up to a dozen steps, alone or on 1-3 processes."),
]

# Checks that are built and registered; the others are listed as not applicable with a reason.
CLAIMED = []
HOOKS = ["6cbd1dc", "a314603", "23aae2e"]
NOT_APPLICABLE = {}

def load_overrides():
    p = os.path.join(ROOT, "tools", "claims.json")
    if os.path.exists(p):
        d = json.load(open(p))
        return d.get("claimed", []), d.get("not_applicable", {})
    return CLAIMED, NOT_APPLICABLE

def main():
    claimed, na = load_overrides()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            f.write(json.dumps(q) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[],
             notes="Every check is property-based testing / fuzzing: see DESIGN.md.",
             hooks=dict(guard="EXSEISDAT_VERIF_HOOKS",
                        enable="-DEXSEISDAT_VERIF_HOOKS among the compiler flags run.py builds /repo's sources with (variable SAN)",
                        source_commits=HOOKS))
    for p in PROPS:
        if p["id"] in claimed:
            m["checks"].append(dict(property=p["id"],
                quick_cmd="python3 run.py %s" % p["id"],
                thorough_cmd="python3 run.py %s --thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique=p["_tech"], level="exploration", level_note=p["_level_note"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=na.get(p["id"], "check not built yet")))
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
