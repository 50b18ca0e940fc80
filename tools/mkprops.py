#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that edits stay reviewable).
import json, os
P = []
def prop(id, title, st, over, text, why, files, mech, obs):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None)))
L = 'src/oifitslib/'
prop('C01', 'A write reported successful left a complete, exact, checksummed file',
 'If writing a dataset to a file (in one call or table by table) reports success, the stored file, decoded by an independent FITS reader, holds exactly that dataset: every table, keyword, row, channel and value at the latest format revision, valid checksums on every table, the creation date of the current clock, and table numbers (EXTVER) that count up from 1 for each kind or are those the caller gave. A dataset the format cannot hold (identifiers beyond 16 bits, keyword values that are not numbers) is reported as failed, not stored altered. A write during which the storage failed so that the file is not complete is reported as failed.',
 ['inputs', 'fault_sequences', 'schedules'], 'all datasets (any mix of tables, sizes and optional columns), all sequences of disk errors, full disk, short writes and open/close failures during the write',
 'The tests write a few fixed files to a working disk and compare two library runs with each other; no write ever fails, and nothing decodes the bytes independently.',
 [L+'write_fits.c', L+'oifile.c'], [('cfitsio status propagated to the caller', L+'write_fits.c'), ('whole-file writer checks close', L+'oifile.c:write_oi_fits')], ['status value', 'bytes on the simulated disk'])
prop('C02', 'A read reported successful returned the complete exact content',
 'If reading a file reports success, the dataset delivered (whole-file or table by table, sequentially or by name) contains every OIFITS table of the file with exactly the stored values, for every legal layout of the file (table order, column order, foreign tables, optional columns, both format versions). A malformed table of data, correlation or polarisation is left out with a message that names its kind, and everything else is delivered unharmed. A table of a later revision than the library knows, or with a text column of non-standard width where exactness is required, is read with a printed warning, and a standard one without. A transient or permanent read error never yields a shorter or altered dataset with a success status and without a message that names what was lost.',
 ['inputs', 'fault_sequences', 'schedules'], 'all well-formed files (both versions), all layouts, all sequences of read, seek and open faults',
 'The tests read a handful of sample files from a disk that never fails; most assertions are about counts of tables.',
 [L+'read_fits.c', L+'oifile.c'], [('status checks after each cfitsio call', L+'read_fits.c'), ('table loops that continue or stop on status', L+'oifile.c:read_oi_fits')], ['status value', 'returned structs'])
prop('C03', 'An incomplete file is never silently accepted as a complete one',
 'A file cut short at any byte, or left behind by a writer that crashed at any point, is never read with a success status and no diagnostic while tables, rows or values of it are missing or wrong. Only a file that ends exactly between two tables may be read as the dataset made of its complete tables (and the table a crashed writer was building, as long as it bears no checksum yet, cannot be told from a foreign one). A file cut inside a table is never read with success unless that table is named as skipped.',
 ['crash_points', 'inputs', 'fault_sequences'], 'all datasets, all truncation offsets, all crash points of the writing process (including torn writes)',
 'No test reads a truncated file or stops a writer half way.',
 [L+'oifile.c', L+'read_fits.c', L+'write_fits.c'], [('distinguishing end of file from a failed read', L+'oifile.c, '+L+'read_fits.c'), ('checksum verification while reading', L+'read_fits.c:verify_chksum')], ['status value', 'stdout/stderr'])
prop('C04', 'Stored bytes altered after writing are noticed when the table is read',
 'If any bytes of a checksummed table, or of the primary header, change after the file was written, then reading the file either fails, reports that table as bad, or prints a checksum warning; it never delivers altered content without a word (apart from the cards that identify the table and the checksum cards themselves). The warning names the table concerned (its position, EXTNAME and EXTVER). On an unaltered file no such warning is ever given.',
 ['inputs', 'fault_sequences'], 'all written datasets, all alterations (bit flips, overwritten, zeroed or swapped sectors, misdirected blocks) that leave the checksum cards alone',
 'The tests never read a damaged file.',
 [L+'read_fits.c', L+'write_fits.c'], [('checksums written for each table', L+'write_fits.c'), ('checksums verified for each table', L+'read_fits.c')], ['stdout/stderr', 'returned structs'])
prop('C05', 'Every operation finishes in a bounded number of steps',
 'Reading, writing, checking, filtering, merging and upgrading end (in success or failure) after a number of I/O steps bounded by the size of the data, however many I/O calls fail, for however long, and however the input file is damaged. None of them loops or waits forever.',
 ['fault_sequences', 'inputs', 'schedules'], 'all files including damaged ones, all transient and persistent fault sequences',
 'Tests run only on healthy files and disks, where every loop ends at the end of the file.',
 [L+'oifile.c', L+'read_fits.c', 'src/util/oifits-check.c', 'src/util/oifits-filter.c', 'src/util/oifits-merge.c', 'src/util/oifits-upgrade.c'], [('loops over tables end on status', L+'oifile.c:read_oi_fits')], ['number of simulated I/O operations'])
prop('C06', 'Existing files are never overwritten or damaged without being asked to',
 'No operation or tool ever changes its input files, and none changes or removes an already existing output file unless overwriting was requested explicitly; instead it reports failure. A filter run asked to overwrite gives what it gives when writing a new file, and one that cannot read its input leaves the old output alone. This holds for any fault or crash during the operation, however the paths are spelled, and reading or checking never creates or changes any file.',
 ['fault_sequences', 'crash_points', 'inputs', 'histories'], 'all tools and file-writing calls, all inputs, all faults and crash points, existing and absent outputs',
 'One or two tests write over files in a temporary directory; none has a pre-existing output and a failure together.',
 [L+'oifile.c', 'src/util/oifits-filter.c', 'src/util/oifits-merge.c', 'src/util/oifits-upgrade.c'], [('exclusive creation of output', L+'oifile.c:write_oi_fits'), ('--clobber check', 'src/util/oifits-filter.c')], ['bytes of every file on the simulated disk', 'exit status'])
prop('C07', 'Merging conserves every datum and keeps all cross-references right',
 'The file produced by a successful merge is exactly the union of the inputs: every data, correlation and polarisation table appears once, in input order, with values unchanged; targets are united by name and renumbered from 1 with all their attributes kept; physically identical array and wavelength tables are shared, different ones are kept apart under unique names; and every reference still leads to the same target, array, wavelength or correlation table as before. The merged header holds the earliest observation date and, for each keyword, the common value, MULTIPLE where the inputs differ, or UNKNOWN where a required one is missing.',
 ['inputs', 'fault_sequences', 'histories'], 'all lists of two or more datasets with overlapping or clashing names (including earlier merge results), all disk fault sequences during the tool run',
 'Tests merge three sample files and mostly count tables.',
 [L+'oimerge.c', L+'oifile.c', 'src/util/oifits-merge.c'], [('name and id maps per input', L+'oimerge.c'), ('matching of arrays and wavelengths', L+'oimerge.c:match_oi_array, match_oi_wavelength')], ['bytes of the output file', 'exit status'])
prop('C08', 'Filtering keeps exactly the data that satisfy the given criteria',
 'The output of a successful filter run holds exactly the tables, records and channels of the input that satisfy the criteria (names, target, date, wavelength, baseline, spatial frequency and signal-to-noise ranges, data types, flagging), in order and with values unchanged apart from the documented flagging or nulling of single data points and the renumbering of a selected target. Tables left empty are dropped, everything the kept data tables refer to is kept, and the default criteria keep all data within the default ranges.',
 ['inputs', 'configurations', 'fault_sequences'], 'all datasets, all combinations of filter options (through the tool and the library call), all disk fault sequences',
 'Tests apply a few fixed filters to a few files and check selected properties.',
 [L+'oifilter.c', 'src/util/oifits-filter.c'], [('per-table and per-record acceptance', L+'oifilter.c'), ('pruning of unreferenced tables', L+'oifilter.c')], ['bytes of the output file', 'returned structs'])
prop('C09', 'Upgrading a version 1 file loses nothing and derives the right header',
 'The upgrade tool turns any version 1 file into a version 2 file with the same targets, arrays, wavelengths and data (values, flags, coordinates, references unchanged, time column zeroed, new mandatory items filled with the documented neutral values) and a header with the given origin, observer and mode, and telescope, instrument, object and observation date derived from the content. Reading a version 1 file derives the same header items.',
 ['inputs', 'fault_sequences'], 'all version 1 (and mixed) files, all disk fault sequences',
 'Tests upgrade one sample file and only check that it succeeds.',
 [L+'oifile.c', L+'read_fits.c', L+'alloc_fits.c', 'src/util/oifits-upgrade.c'], [('upgrade of table revisions', L+'alloc_fits.c, '+L+'oifile.c'), ('header derivation', L+'oifile.c:set_oi_header')], ['bytes of the output file', 'returned structs'])
prop('C10', 'Running out of memory ends in a reported failure, never in a wrong result',
 'If any memory allocation fails during any operation or tool run, the operation either ends with an error status or message (including a diagnosed abort), or completes with the exact result. It never crashes on an invalid access, never reports success with a missing or altered result, and never damages an input file or an output file it was not asked to replace.',
 ['fault_sequences', 'inputs'], 'every allocation of every operation (read, write, merge, filter, upgrade, check, copy), single failures and persistent exhaustion',
 'No test makes an allocation fail.',
 [L+'chkmalloc.c', L+'alloc_fits.c', L+'oimerge.c', L+'oifilter.c', L+'oifile.c'], [('checked allocation', L+'chkmalloc.c')], ['process termination', 'stderr', 'bytes on disk'])
prop('C11', 'A failed or finished operation leaves nothing behind in the process',
 'After any operation on a file, successful or failed, no file handle stays open and every later operation in the same process, on the same or other files, behaves exactly as in a fresh process; once the faults stop, repeating the failed operation gives the fault-free result. A dataset that was read, copied, filtered or merged and then freed leaves no memory allocated.',
 ['histories', 'fault_sequences'], 'all sequences of operations in one process with faults at arbitrary points of some of them',
 'Each test runs one short fault-free sequence; handles and memory are not counted.',
 [L+'oifile.c', L+'free_fits.c', L+'read_fits.c', L+'oifilter.c', L+'oimerge.c'], [('cleanup on the error paths', L+'oifile.c'), ('free functions', L+'free_fits.c')], ['open simulated handles', 'live allocations', 'results of later operations'])
prop('C12', 'The checker reports every breach it looks for and invents none',
 'The check tool says all checks passed if and only if the file has none of the breaches it tests for (header values, table presence and uniqueness, dates, targets, elements, cross-references, correlations, flags); otherwise it names each breached rule, at the right severity, once, with the tables or records where it occurs. A file it could not read completely is never declared good.',
 ['inputs', 'fault_sequences'], 'all datasets with any combination of breaches, all read fault sequences',
 'Tests run the checks on a few files with known breaches, one at a time, without I/O faults.',
 [L+'oicheck.c', 'src/util/oifits-check.c'], [('table of check functions', 'src/util/oifits-check.c'), ('check functions', L+'oicheck.c')], ['stdout', 'exit status'])
prop('C13', 'Results depend only on the input, not on memory, clock or history',
 'Two runs of the same operation on the same input produce the same result (same output file except for the creation date and the checksums it enters, same messages, same exit status), whatever the previous content of memory, the time of day, clock jumps, and earlier operations of the process. No uninitialised value reaches an output file or a returned dataset.',
 ['schedules', 'histories', 'inputs', 'configurations'], 'all operations and inputs, all initial contents of heap and stack, all clock values and jumps',
 'A test sees one memory image per run, usually zero-filled, and one clock.',
 [L+'read_fits.c', L+'write_fits.c', L+'alloc_fits.c', L+'oimerge.c', L+'oifilter.c'], [('explicit initialisation of all fields', L+'read_fits.c, '+L+'alloc_fits.c')], ['bytes of output files under different memory fills and clocks'])
prop('C14', 'No input file can make the library or tools access invalid memory',
 'For any bytes in an input file (damaged, truncated, inconsistent or malicious tables, sizes, types and names) and any I/O fault sequence, reading, checking, filtering, merging, upgrading and freeing never access memory outside their allocations, use memory after freeing it, or execute undefined arithmetic. They end normally or with a reported error.',
 ['inputs', 'fault_sequences'], 'all file contents obtained by damaging well-formed files at the byte, keyword, column or table level; all fault sequences',
 'Tests only feed well-formed files, without sanitizers.',
 [L+'read_fits.c', L+'oifile.c', L+'free_fits.c', L+'oifilter.c', L+'oimerge.c', L+'oicheck.c'], [('bounds on strings and vectors', L+'read_fits.c')], ['AddressSanitizer and UndefinedBehaviorSanitizer reports', 'signals'])
prop('C15', 'Every cross-reference lookup finds the right table, or reports none',
 'In any dataset obtained by reading, merging or filtering, looking up an array, station, wavelength, correlation table or target by the name or number a data table or record refers to returns precisely the object with that name or number, and returns nothing if there is none. Table counts, lists and lookups always agree with each other.',
 ['inputs', 'histories', 'fault_sequences'], 'all datasets including ones with missing, unreferenced or duplicate names, all orders of tables in the file, after any chain of read/merge/filter',
 'Tests look up a few names in a few files.',
 [L+'oifile.c', L+'oimerge.c', L+'oifilter.c'], [('name-indexed hash tables beside the lists', L+'oifile.c')], ['return values of the lookup calls'])
prop('C16', 'A pipeline interrupted anywhere can be rerun to the same final result',
 'After a crash, failure or full disk at any point of any step of a chain of tool runs (upgrade, filter, merge, check), rerunning the interrupted step after removing or overwriting its output gives exactly the result of an uninterrupted run, and an interrupted step never reports success. Run again over its remains, a step refuses or, if asked to overwrite, replaces them by the right result. Steps already completed keep their results.',
 ['crash_points', 'histories', 'fault_sequences'], 'all pipelines of up to five tool runs, all crash and fault points, restart with only the durable files surviving',
 'No test crashes a tool or chains several of them.',
 ['src/util/oifits-merge.c', 'src/util/oifits-filter.c', 'src/util/oifits-upgrade.c', 'src/util/oifits-check.c', L+'oifile.c'], [('exit status reflects the write', 'src/util/*.c')], ['bytes of all files after restart', 'exit status'])
prop('C17', 'Iterators visit each accepted datum once, in order, with right coordinates',
 'Iterating over the visibility, squared visibility or bispectrum data of a dataset, with or without a filter, visits exactly the channels that the filter accepts (all channels without one), each once, in table, record and channel order, with the right table, record, channel, wavelength and spatial frequencies (for bispectra of all three baselines), and then keeps reporting the end. This holds for any number of iterators in use at the same time over the same or different datasets, mixed with other calls, whichever results are asked for, and whatever becomes of the filter passed at the start; nothing in the dataset changes.',
 ['schedules', 'inputs', 'configurations'], 'all datasets (also with missing or short wavelength tables), all filters, all interleavings of several iterators with one another and with other library calls',
 'Tests run one iterator at a time over one sample file with one filter.',
 [L+'oiiter.c', L+'oifilter.c'], [('iterator state kept by the caller', L+'oiiter.h'), ('filter copied at the start', L+'oiiter.c')], ['values returned by the iterator calls'])
prop('C18', 'Copies, filtered and merged datasets are independent of their sources',
 'A copy of any table is equal to its source in all fields, and a dataset made by filtering or merging has the right content, and from then on they share nothing with their sources: changing or freeing a source, in any order and at any time, changes nothing in what was made from it, and the other way round; nothing is freed twice and, once everything is freed, no memory is left allocated.',
 ['histories', 'schedules', 'inputs'], 'all sequences of reading, copying, filtering, merging, changing and freeing of all kinds of tables and datasets',
 'Tests free everything in one fixed order at the end and never change a source after copying it.',
 [L+'alloc_fits.c', L+'free_fits.c', L+'oifilter.c', L+'oimerge.c'], [('deep copies', L+'alloc_fits.c:dup_oi_*'), ('ownership of tables and hash keys', L+'oifile.c:free_oi_fits')], ['content of all living objects after each step', 'live allocations'])
prop('C19', 'Counts, version and atomicity tests and summaries agree with the content',
 'For any dataset obtained by reading, filtering or merging, the numbers of unflagged data, the tests for format version 1 or 2 and for being an atomic dataset, the textual summary (of every table, in order) and the description of a filter say exactly what the dataset or filter holds; the summaries printed by the tools are those of the file read and the file written. Repeating a question, or asking other ones in between, never changes an answer.',
 ['inputs', 'histories', 'fault_sequences', 'configurations'], 'all datasets and filters, all chains of reads, filters and merges, all orders of the questions, all disk fault sequences during tool runs',
 'Tests print summaries without looking at them and count the data of a few sample files.',
 [L+'oifile.c', L+'oifilter.c', 'src/util/oifits-check.c', 'src/util/oifits-filter.c', 'src/util/oifits-merge.c'], [('shared text buffer', L+'oifile.c:format_oi_fits_summary'), ('counting loops', L+'oifile.c:count_oi_fits_data')], ['return values', 'stdout'])
prop('C20', 'Errors are handed on, stop everything, and are reported where wanted',
 'Every reading or writing function called with an error status already set does nothing: no I/O, no output, no change to its arguments, the file position or the status. Otherwise the value it returns equals the status it leaves. If it fails, a message naming the function and the status appears on the error stream, unless messages are switched off (oi_hush_errors), and then nothing does; reaching the end of the tables is no error and gives no message; success gives none and leaves none on the error stack of CFITSIO, except that reading a whole file reports each table it leaves out once. No call changes the switch. A tool that fails says something.',
 ['fault_sequences', 'inputs', 'histories', 'configurations'], 'all sequences of calls of all reading and writing functions on sound, damaged, missing and existing files, all statuses on entry, both settings of the message switch, all disk fault sequences',
 'Tests call each function with a clear status on good files; error paths, inherited errors and messages are never looked at.',
 [L+'read_fits.c', L+'write_fits.c', L+'oifile.c', L+'exchange.h', 'src/util/oifits-check.c', 'src/util/oifits-filter.c', 'src/util/oifits-merge.c', 'src/util/oifits-upgrade.c'], [('return at once if status is set', L+'read_fits.c, '+L+'write_fits.c'), ('oi_hush_errors', L+'exchange.h'), ('report at the end of each function', L+'read_fits.c, '+L+'write_fits.c, '+L+'oifile.c')], ['status and return values', 'stdout/stderr', 'number of simulated I/O operations'])
prop('C21', 'oitable-demo stores exactly what a description says and lists a file truly',
 'The example program oitable-demo turns a well-formed text description (one table of each kind, any spacing and number format, optional items given or not) into an OIFITS file that holds exactly the tables, keywords, rows, channels and values described, with valid checksums, omitted optional items absent or at their defaults, and a header made from it (array, instrument and first target, date of OI_VIS). It then lists every data and polarisation table of the OIFITS file it is given, kind by kind in file order, wherever the tables are in the file, with the names of the array, wavelength and correlation tables each refers to, and stops with a failure at the first one that refers to a table the file does not hold. If the description cannot be opened, the output exists and may not be replaced, or the storage fails so that the file is not complete or the listing not whole, the program exits with a failure, without a crash.',
 ['inputs', 'fault_sequences', 'configurations'], 'all well-formed descriptions, all combinations of omitted optional items, all listed files (both versions, any layout, missing references), all disk fault sequences',
 'The program is built but no test runs it.',
 [L+'oitable-demo.c', L+'read_fits.c', L+'write_fits.c'], [('scanning of optional items', L+'oitable-demo.c:scan_opt_string'), ('status after writing and closing', L+'oitable-demo.c:demo_write'), ('one pass over the file per kind of table', L+'oitable-demo.c:demo_read')], ['exit status', 'bytes on the simulated disk', 'stdout'])
open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
