"""Writes checks.json (per-check configuration read by run.py)."""
import json, os
C = {}
def chk(id, jobs, rule, **k): C[id] = dict(jobs=jobs, rule=rule, **k)

MPI = "Open MPI runs with the 'individual' collective-I/O component (see DESIGN.md, trusted base)."
chk("C01", [1, 2, 3, 4],
    "A case is a trace count, trace length, sample-bit style, division into write calls (contiguous or indexed, interleaved or not, with or without headers, in any order) and per-rank shares, I/O limits, and a read-back split. Non-trivial: more than one trace and (several write calls, several ranks or arbitrary bit patterns); distinct by draw sequence.",
    assumptions=[MPI])
chk("C02", [1, 2, 3, 4],
    "A case is a rule set (default, extended, subsets, custom byte positions, raw-copy) and header values per trace (integers over the whole type range, coordinates of every decimal scale with shared scalers), a division among ranks and a read-back path. Non-trivial: at least two traces and at least one scaled field with a non-zero fraction or above 2^31/10000, or a custom or raw-copy rule; distinct by draw sequence.",
    assumptions=[MPI])
chk("C03", [2, 3, 4],
    "A case is one logical file written twice under two different configurations (participating process count, shares, batches, call kinds, order, I/O options) and read under a third. Non-trivial: the two configurations differ and there is more than one trace; distinct by draw sequence.",
    assumptions=[MPI])
chk("C05", [1, 2, 3, 4],
    "A case is a file (new or existing) and a history of overlapping writes of samples, headers or both, contiguous or indexed, with different rules, over several openings. Non-trivial: at least two writes that overlap; distinct by draw sequence.",
    assumptions=[MPI])
chk("C04", [1, 2, 3, 4],
    "A case is a file, rules and a list of reads (contiguous, indexed ascending, indexed any order with duplicates; samples, headers or both; skips; empty lists on some ranks) in canary-guarded buffers. Non-trivial: more than one trace and at least one indexed or partial read; distinct by draw sequence.",
    assumptions=[MPI])
chk("C06", [1, 2, 3, 4],
    "A case is a text, sample count, interval and trace count, an order of the writer's calls and a set of traces written by the processes. Non-trivial: more than one file-level field set and traces written or a text of more than one line; distinct by draw sequence.",
    assumptions=[MPI])
chk("C07", [1, 1, 1, 2],
    "A case is a foreign file (IBM/IEEE samples, ASCII/EBCDIC text, positive/negative/zero scalers) or a batch of bit patterns for the number conversions. Non-trivial: IBM format, EBCDIC text, or a non-unit scaler, or a conversion batch; distinct by draw sequence.",
    assumptions=[MPI, "Texts hold at least one character that is printable in only one of the two encodings."])
chk("C08", [1, 1, 1, 1],
    "A case is a history of rule additions, replacements, removals and copies checked against a model map after each step, followed by stores, loads and block copies over parameter blocks. Non-trivial: at least four operations, one of them a replacement, removal or partial copy; distinct by draw sequence.")

chk("C09", [1, 2, 3, 4],
    "A case is a list of key records (many or few ties, reversed, sorted, negative), a division among the ranks (of the world or of a sub-communicator), a sort type or comparison of one's own, a form of the answer and a rule set. Non-trivial: more than two traces, the order changes, and several ranks or ties; distinct by draw sequence.",
    assumptions=[MPI])
chk("C10", [1, 2, 3, 4],
    "A case is 1-4 input files in up to three (samples, interval) groups with random complete headers, a sort type (or two sorts), a rule set, a memory block size and output by call or destructor. Non-trivial: the sort moves at least one trace and there are more than three; distinct by draw sequence.",
    assumptions=[MPI, "Traces with equal keys may follow either of the two input orders across files: by file, or by trace number then file (the library's)."])
chk("C13", [1, 1, 2, 3],
    "A case is a ramp kind (linear, cosine, cosine squared, or one's own; C or C++ function), left and right lengths up to the trace length, and traces with muted starts and ends, dead traces and signed zeros - tapered directly in exactly sized blocks, or through a data set on several processes. Non-trivial: some ramp and more than two samples (or more than one trace through a set); distinct by draw sequence.",
    assumptions=[MPI, "Ramps are no longer than the trace, the function's asserted precondition."])
chk("C14", [1, 1, 2, 3],
    "A case is a statistic (RMS, triangular RMS, mean absolute, median, or one's own; C or C++), a window shorter than the trace, a target and traces with muted parts - gained directly, with two scaling laws, or through a data set. Non-trivial: a window of more than one sample and more than three samples (or several traces through a set); distinct by draw sequence.",
    assumptions=[MPI, "The window is shorter than the trace, the function's asserted precondition.", "Zero samples count as muted: they are left out of the number of samples a mean is over.", "A zero median has no defined gain."])
chk("C15", [1, 1, 1, 3],
    "A case is a filter type, order or stopband corners in any order, corner frequencies, sampling rate, domain, padding, window and traces: coefficients are compared with the analogue prototype's complex response, traces with a reference forward-backward filter (time) or spectrum product (frequency), plus linearity and independence of traces; or the filter runs through a data set on several processes. Non-trivial: more than three samples, a design, or more than one trace through a set; distinct by draw sequence.",
    assumptions=[MPI, "Cases too badly conditioned for single precision are labelled ill-conditioned and only run under the sanitizers."])
chk("C12", [1, 2, 3, 4],
    "A case is a distributed list of points (own records), parameter blocks (any two float, long or short fields) or a data set of several files and groups, with values all negative, all positive, mixed, tied, constant, of any finite bit pattern or with a single extreme, and any shares including none. Non-trivial: more than one trace and several processes (or several non-empty files); distinct by draw sequence.",
    assumptions=[MPI, "In a set of several groups the number of a trace is its number in its group's output or in the whole set."])
chk("C16", [1, 2, 3, 4],
    "A case is one or two files whose in-line and cross-line numbers form runs of random lengths (constant, all different, returning lines, changes in one number only, extreme values) with random other header bytes, on the world or a sub-communicator. Non-trivial: more than one run and more than two traces; distinct by draw sequence.",
    assumptions=[MPI])
chk("C17", [1, 2, 3, 4],
    "A case is two vectors of one of nine element types (1 to 5000 bytes), lengths from zero, on the world or a sub-communicator, and up to four rounds of writes by one, owning, other or scattered processes, in and out of range, each followed by a barrier and reads from every process against a model; half the cases watch the memory behind each share. Non-trivial: more than one element of more than one byte on several processes; distinct by draw sequence.",
    assumptions=[MPI, "Within a round an element has one writing process, as one-sided access requires.", "A refused read returns a default value (release builds; with assertions on it aborts)."])
chk("C18", [1, 1, 2, 4],
    "A case is a range (up to 2^64-1) and a process count, all or 300 of whose blocks are checked with their locations; or a data set whose operation records which traces each process works on. Non-trivial: more than one index and more than one process; distinct by draw sequence.",
    assumptions=[MPI])
chk("C26", [1, 2, 3, 4],
    "A case is a file of up to 200 traces (as generated, ordered by the key, ordered but for one swap - half of them at a process boundary - or one displaced trace, or ordered by another key), a sort type, and a check by blocks, by uneven shares, by the tool, or after a set's sort. Non-trivial: more than two traces; distinct by draw sequence.",
    utils=["exseis-versort"],
    assumptions=[MPI, "A check succeeds when it does so on every process.", "Traces with equal keys are in order either way."])
chk("C25", [1, 2, 3, 4],
    "A case is a grid (either coordinate consecutive, steps of either sign, single lines) and a list of positions in any order with repeats read by range, by list or through ReadModel; or radon files in up to two groups with gathers on the grid, converted by a set (with gains before and after, or twice) or by the tool and compared with the conversion's formula. Non-trivial: more than two grid traces and more than one position, or more than one gather; distinct by draw sequence.",
    utils=["exseis-radon"],
    assumptions=[MPI, "Samples whose radon trace number is 0 or lies on a rounding boundary are not compared.", "Positions lie on the grid."])

chk("C11", [1, 2, 3, 4],
    "A case is 1-4 files in up to three (samples, interval) groups with complete random headers (and files the pattern must not match), a set built from a pattern, file by file, from readers, with three rule sets, and up to five operations (tapers, gains, gains that do not commute, filters, sorts) with texts set early, between or late, a memory block size, output by call or destructor. Every output trace is compared with the input trace after the same operations applied once, in order. Non-trivial: more than one trace and an operation that changes samples or sorts; distinct by draw sequence.",
    assumptions=[MPI, "After a filter samples are compared to 0.2% of the trace's largest value.", "Ties of a sort may follow either input order across files."])
chk("C19", [1, 2, 3, 4],
    "A case is a list of raw file operations (contiguous, strided and indexed reads and writes, collective or independent, on the world or a sub-communicator, with limits from one byte up, offsets beyond 2 GiB in sparse files, uneven amounts and block sizes per process) against a byte-level model of the file. Non-trivial: some operation needs several calls under the limit or lies beyond 2 GiB; distinct by draw sequence.",
    assumptions=[MPI])
chk("C21", [1, 2, 3, 4],
    "A case is a write or read scenario run once as it is (nothing may be recorded) and once with a fault (error, short transfer, nothing moved, view lost) at a drawn one of the MPI-IO calls it made, once or from then on, on one process or all of them; or header values at and beyond the SEG-Y range; or a request that can not be met (missing or unreadable files, sizes, intervals, traces beyond the end); or a history of the log. Non-trivial: a fault was injected and there is more than one trace, or some special value and more than one trace; distinct by draw sequence.",
    assumptions=[MPI, "A fault moves fewer bytes than asked for or none; what a failed call transferred is not judged, what the other calls and processes wrote is."])
chk("C20", [1, 2, 3, 4],
    "A case is a program in C (write, read back, reverse) with drawn sizes; or a history of up to 30 C calls on rules, parameters, files, readers and library handles made and freed in any order, each mirrored in C++; or a data set built and processed through both; or tapers, gains, weights and shares called directly through both. Non-trivial: more than three kinds of call (or a processed set, or more than one trace); distinct by draw sequence.",
    extra_src=["c20_c.c"],
    assumptions=[MPI, "The C++ interface is the oracle; its own behaviour is what the other checks decide."])

chk("C22", [1, 1, 2, 3],
    "A case is a SEG-Y file (IBM or IEEE) damaged up to four times - cut, extended, overwritten, shifted, with bits flipped, header fields at extreme values, replaced by noise, or followed by a hole of up to a terabyte - then read within the counts it reports (by range, list, any order; headers, samples or both; any rules and I/O limits), as a velocity model, in a set of up to three files, or by a tool. What is returned is compared with an independent reader unless something was reported; sanitizers and guards watch the memory. Non-trivial: at least one read was made (or the file holds several traces); distinct by draw sequence.",
    utils=["exseis-minmax", "exseis-versort"],
    assumptions=[MPI, "Only reads within the reported counts are made.", "A position on a damaged grid may be answered with any trace of the file."])

chk("C24", [1, 2, 3, 4],
    "A case runs one utility with drawn options: concatenate (asked beforehand and accepted or refused, or not asked) and segsort on up to four files in three groups, filemake (all divisions; one or several memory blocks), makerep by each method (file system blocks from 3600 bytes to 2 MiB, up to five copies, several steps), minmax on tied, increasing or random coordinates, assess on several files; what it writes and prints is compared with a reference made from the options and inputs. Non-trivial: more than one trace (and more than one copy; more than two traces; more than one file); distinct by draw sequence.",
    utils=["exseis-concatenate", "exseis-filemake", "exseis-makerep", "exseis-minmax", "exseis-segsort", "exseis-assess"],
    ldflags="-Wl,--wrap=exit",
    assumptions=[MPI, "The block and step sizes of makerep are set through a hook; their defaults are among those drawn."])

chk("C23", [1, 2, 3, 4],
    "A case is two surveys of up to 70 traces (lines sailed along x or y, scattered places, few places with many ties, whole-number distances; the monitor sailed the other way in part or whole; shuffled; any scaler; few in-lines and cross-lines; IBM or IEEE samples), a largest distance (given, none or the distance of some pair), the tool's options and its block sizes. The two output files are compared with an exhaustive search. Non-trivial: both surveys have more than one trace and at least one pair must be kept; distinct by draw sequence.",
    utils=["exseis-fourdbin"],
    assumptions=[MPI, "Distances that single precision can not separate (relative difference below 1e-6) may fall either way.", "Among equally near partners the first by source x and then by position in the file is the partner.", "Block sizes are set through a hook; the defaults are among those drawn."])

chk("C27", [1, 2, 3],
    "A case is one to three files of up to 31 traces placed in any UTM zone and hemisphere or in degrees (with whole degrees and small fractions among them), listed in a file or given one by one, whose outlines are compared with an independent projection (Krueger's series); or a command with a zone which does not exist or without an input or output; or a trace of a file with random headers whose listing is compared with an independent reading. Non-trivial: more than one trace or file; distinct by draw sequence.",
    utils=["exseis-segy2kml", "exseis-traceanalysis"],
    assumptions=[MPI, "Outlines are right to within a centimetre (1e-8 degrees where the input is in degrees).", "Latitudes are up to 80 degrees, as for UTM."])

chk("C28", [1, 2, 3, 4],
    "A case divides the processes into groups of any sizes and orders. Either every group makes up to five collective calls of its own (gathers of four types with any bits and any length, sum, max, min, offset, barrier, ranks, reductions by MPI type) and the results are compared with values worked out from the generator, or every group writes, reads back, sorts, scans and processes one or two files of its own at its own pace, compared with a reference encoding. Non-trivial: more than one process makes collective calls, or several groups work on files; distinct by draw sequence.",
    assumptions=[MPI, "All processes of a group make the same calls in the same order."])

chk("C29", [1, 1, 2, 3],
    "A case is a history of up to ten steps (files written, opened, missing or damaged, read by range, list or any order, closed; blocks of rules and parameters; sets with operations, sorted, filtered, turned to angles, output by call or destructor; sorts, gathers, extremes, models, distributed vectors; the same through the C interface; library handles replaced) over six slots freed in any order, run three times. What is open, allocated and alive after the second and third time is compared with what was before. Non-trivial: more than one step; distinct by draw sequence.",
    assumptions=[MPI, "C++ allocations must balance exactly; the heap as a whole, which the MPI library shares, counts as growing when it grows six times in a row.", "What the first run of a history leaves is taken to be made once for all (the next runs must leave nothing)."])

chk("C30", [1, 1, 2, 3],
    "A case measures the highest point of the C++ heap while a data set of 1 to 10 MB is put through up to three operations in blocks of a few traces (the limit set through a hook); while its gathers are turned to angles; while a file of up to 20 GB is opened, read or written here and there by any of the calls; or while filemake writes 8 MB per process with 1 MiB. The bound is twice the limit (or some multiple of what is transferred) and words per trace of index. Non-trivial: all but files below 4 MB; distinct by draw sequence.",
    utils=["exseis-filemake"],
    assumptions=[MPI, "Memory is that allocated by C++ (operator new): the buffers of the MPI library are its own.", "The large files are sparse."])

chk("C31", [1, 1, 1, 1],
    "A case is a program of up to a dozen steps (starting and ending MPI by itself, telling the library to manage it or not, making and dropping handles through C++ and C, writing and reading files, ending by return or exit), started alone or by mpirun on up to three processes. What the program records - every start and end of MPI with who asked for it, the state after each step, wrong results, its exit status - is compared with a model. Non-trivial: a handle is made and there are more than two steps; distinct by draw sequence.",
    assumptions=[MPI, "A program which tells the library not to manage MPI starts it itself before making a handle, and keeps no handle past its own end of MPI."])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    json.dump(C, open(os.path.join(here, "checks.json"), "w"), indent=1)
