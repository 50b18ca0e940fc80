#include "scen.h"
#define D(n) void n(Plan &, RunResult &)
D(c01); D(c02); D(c03); D(c04); D(c05); D(c06); D(c07); D(c08); D(c09); D(c12); D(c15); D(c10); D(c13); D(c14);
D(c11); D(c16); D(c17); D(c18); D(c19); D(c20); D(c21);
const Scen SCENS[] = {
  {"C01", c01, "Each run draws a dataset (every table kind, optional column and size class), a way of writing it (whole file, table by table in shuffled order, overwriting, read then write, several writes in one process), writes it fault-free and then up to four times under disk errors, full disk, short writes and failing open/seek/close; every successful write is decoded independently."},
  {"C02", c02, "Each run encodes a dataset (version 1 or 2) with an independent FITS encoder in a drawn layout, reads it whole-file or table-level fault-free and then five times under read, seek, open and short-transfer faults; every successful read is compared with the reference dataset."},
  {"C03", c03, "Each run writes a dataset with the library, then reads back six incomplete versions of the file: cut at drawn offsets or left by a writer crashed (possibly in mid-write, or on a full disk) at a drawn operation."},
  {"C04", c04, "Each run writes a dataset with the library, alters it in six drawn ways (bit flips, overwritten or zeroed or misdirected sectors, header digits) outside the checksum cards, and reads it back."},
  {"C05", c05, "Each run draws input files (half of them damaged at byte, card or table level), an operation or tool, and runs it fault-free and under three fault sequences (half of them persistent) within a step budget proportional to the data."},
  {"C06", c06, "Each run draws inputs, a tool or write call, and a prior state of the output path, then runs it fault-free and four times under faults, full disk and crashes; all bytes on the simulated disk are compared before and after."},
  {"C07", c07, "Each run draws two to four datasets with overlapping targets, arrays, wavelengths and names (including names of earlier merge results and version 1 inputs), merges them with the tool (fault-free, then three times under faults and full disk; sometimes merging the result again) or by library call, and compares every successful result with a reference merge."},
  {"C08", c08, "Each run draws a dataset, often with values that meet limits exactly, and a combination of filter criteria, applies it with the tool (fault-free and three times under faults) or once or twice by library call, and compares every result with a reference filter. Runs in which a criterion lies within rounding error of a value are skipped."},
  {"C09", c09, "Each run draws a version 1 (or mixed) file in any layout and upgrades it with the tool, fault-free and three times under faults and full disk, or reads it; results are compared with the reference content and derived header."},
  {"C10", c10, "Each run draws inputs and an operation or tool, runs it fault-free and then eight times with allocation failures (single, several or persistent, in the repository's code or in cfitsio) at drawn points, alone or with disk faults; each outcome must be a reported failure or equal the fault-free result."},
  {"C13", c13, "Each run draws inputs (some damaged), an operation and I/O faults and executes it under different clocks, clock jumps, histories and memory contents, including two builds whose uninitialised stack and heap hold a pattern or zeros; all outcomes must agree."},
  {"C14", c14, "Each run draws files damaged at byte, card, column or table level and I/O faults and runs every operation on them under AddressSanitizer and UndefinedBehaviorSanitizer."},
  {"C12", c12, "Each run draws a dataset with zero to four deliberate breaches (20 kinds) and runs the check tool fault-free and three times under read faults; the printed report is compared with a reference checker."},
  {"C15", c15, "Each run reads one to three files (with missing, unreferenced and duplicate names), applies up to three further merges and filters, then makes every look-up by every name and number occurring anywhere plus absent ones; fault-free and twice under read faults."},
  {"C11", c11, "Each run performs two to six library operations (whole-file and table-level reads and writes, filters, merges, copies, checks, iterations, and several table-level readers and writers interleaved by a seeded scheduler) in one process, with disk faults in some of them, damaged inputs and inputs replaced in between, and compares every operation with the same operation in a fresh process, counting open handles and live allocations after each; failed ones are repeated once the faults are over."},
  {"C16", c16, "Each run draws a pipeline of two to five tool runs whose outputs feed later ones, executes it once undisturbed and once with crashes (including torn writes), I/O faults and full disks in its steps; each step is rerun (over the remains, or after removing them) until it succeeds, and every file, exit status and text is compared with the undisturbed pipeline."},
  {"C17", c17, "Each run reads one or two files (some damaged, some under read faults) and lets a seeded scheduler advance up to five iterators of different kinds, datasets and filters alternately, mixed with filtering, checking, look-ups, restarts and calls beyond the end; every datum, pointer and coordinate is compared with a reference iteration."},
  {"C18", c18, "Each run reads one or two files (some damaged, some under read faults) and performs a drawn sequence of copying single tables, filtering, merging, overwriting all values of one object and freeing objects, comparing every living object with the content it must have after each event; freed memory is overwritten."},
  {"C19", c19, "Each run reads one to three files, derives further datasets by drawn filters and merges, and compares counts, version and atomicity tests, summaries and filter descriptions with the content, and then what a drawn tool prints with the files it read and wrote, fault-free and under faults."},
  {"C20", c20, "Each run lets one process make two to fourteen calls of all reading and writing functions, whole-file and table by table, on sound, damaged, missing and existing files, with errors already set or not and error messages wanted or not, fault-free and three times under disk faults, judging what each call returns, does and prints; then a drawn tool, fault-free and three times under faults."},
  {"C21", c21, "Each run draws a dataset with one table of each kind and writes its text description in drawn spacing and number formats with drawn optional items left out, lets oitable-demo make a file of it and list that file or another one (fault-free, then four times under disk faults or a full disk), and compares the file and the listing with the dataset."},
};
const int NSCENS = sizeof SCENS / sizeof SCENS[0];
