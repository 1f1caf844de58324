#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or []}})

prop("C01", "Overrun guard: the byte past a block faults, the whole block is usable",
 "Every successful non-empty allocation made through any C or C++ allocation entry point while below-protection is off yields a range whose every byte can be read and written, followed by an inaccessible page that starts at the first page boundary at or after the end of the range, for as long as the block lives. "
 "The padding between the end of the block and that page is smaller than the alignment in force for the request, so a size that is a multiple of the alignment (always, with alignment 1) faults on the very first byte past the end, on reads and on writes. "
 "This holds whatever other blocks were allocated, resized or freed before or since.",
 ["inputs", "histories", "configurations"],
 "all sizes, alignments, entry points and preceding/following allocation histories; default alignment from environment or run-time setting",
 "dumatest probes one or two fixed sizes on a fresh heap; it never probes after splits, reuse, table growth or with alignments above a page.",
 ["src/duma.c", "paging.h", "src/dumapp.cpp"],
 [("placement of user range against the dead page", "src/duma.c _duma_allocate, !protectBelow branch"),
  ("page protection", "paging.h Page_AllowAccess/Page_DenyAccess")],
 ["read/write probes with a fault handler inside the process"])

prop("C02", "Underrun guard: with below-protection the byte before a block faults",
 "While below-protection is on (environment or run-time switch), every successful non-empty allocation starts on a page boundary, the page immediately before it is inaccessible to reads and writes for as long as the block lives, and every byte of the requested range is readable and writable. "
 "Blocks allocated before and after a switch of the mode each keep the guard of the mode they were allocated under, and a requested alignment larger than a page is honoured without making any neighbouring block's guard accessible.",
 ["inputs", "histories", "configurations"],
 "all sizes, alignments (including above the page size), entry points, and histories mixing both modes",
 "dumatest checks a single fixed allocation per mode; no test mixes modes or uses alignments above a page with below-protection.",
 ["src/duma.c", "paging.h", "duma.h"],
 [("below-protect placement", "src/duma.c _duma_allocate, protectBelow branch"),
  ("run-time switch", "duma.h DUMA_SET_PROTECT_BELOW")])

prop("C03", "Freed memory stays inaccessible and, by default, is never handed out again",
 "Once a block has been released (freed, deleted, resized to zero, or moved by a resize) no byte of it can be read or written, unless a later allocation hands that memory out again. "
 "With the default free-protection setting (-1) this lasts until the process exits: no later allocation ever overlaps a released block, and releasing it or checking it again is always recognised as an error. "
 "This holds for every release path and every size, including after any number of later allocations.",
 ["histories", "inputs", "configurations"],
 "all histories of allocation, resize and release over all entry points, under every free-protection setting",
 "tests free a handful of blocks and never look at the memory afterwards, except one fixed use-after-free probe.",
 ["src/duma.c", "duma_hlp.h", "paging.h"],
 [("release keeps the slot as protected", "src/duma.c _duma_deallocate"),
  ("trimming of protected memory", "duma_hlp.h reduceProtectedMemory")])

prop("C04", "Live blocks never overlap and nobody but the owner changes their bytes",
 "At any moment the ranges of all live blocks are pairwise disjoint, and the bytes the program stored in a live block stay exactly what it stored until it writes them again, resizes or releases the block. "
 "No allocation, release, resize, check, report or internal growth of the debugger's own bookkeeping alters them, for any number of live and released blocks and under any memory budget.",
 ["histories", "inputs", "configurations"],
 "all histories, with enough live and released blocks to force repeated growth of the internal tables and reuse of trimmed memory",
 "tstheap does a random walk but never verifies contents or overlap; it fixes one configuration.",
 ["src/duma.c", "duma_hlp.h"],
 [("best-fit search and split of free memory", "src/duma.c _duma_allocate"),
  ("bookkeeping growth", "src/duma.c allocateMoreSlots"),
  ("slack initialisation must stay outside live ranges", "duma_hlp.h _duma_init_slack")])

prop("C05", "Fresh contents, resize contents and reported size are exact",
 "Freshly allocated memory holds the configured fill byte in every byte (zero-cleared allocation: zero; a string duplicate: the string and its terminator, nothing after it), and with the fill setting -1 the debugger itself writes none of the block. "
 "Resizing keeps the first min(old,new) bytes, reads as zero beyond the old size, behaves as a fresh allocation for a null pointer, and releases the old block exactly once (resizing to size zero just releases and yields null). "
 "The usable size reported for any live block is exactly the size last requested for it.",
 ["inputs", "histories", "configurations"],
 "all sizes and element counts, fill settings from environment and at run time, and chains of resizes with growth and shrinkage",
 "no test reads the initial contents back except for a couple of bytes; no test checks resize contents or usable size over sizes.",
 ["src/duma.c"],
 [("fill of new memory", "src/duma.c _duma_allocate end"), ("resize", "src/duma.c _duma_realloc"),
  ("duplicate", "src/duma.c _duma_strdup"), ("usable size", "src/duma.c _duma_malloc_usable_size")])

prop("C06", "Every block has the alignment that was configured or asked for",
 "A block from a default-aligned entry point is aligned to the configured default alignment, or, when it is smaller than that, to the largest power of two not exceeding its size; explicitly aligned requests are aligned exactly as asked, and page-aligned requests to the page, with either protection mode. "
 "An explicit or default alignment that is not a power of two stops the program with a diagnostic, except that the POSIX aligned-allocation call rejects it, or one smaller than a pointer, with EINVAL and without allocating.",
 ["inputs", "configurations", "histories"],
 "all power-of-two and non-power-of-two alignments (below, at and above the page size, including values beyond 32 bits), sizes, protection modes, default alignments",
 "no test inspects the alignment of returned addresses beyond a single memalign call.",
 ["src/duma.c", "duma.h"],
 [("alignment selection and check", "src/duma.c _duma_allocate"), ("EINVAL", "src/duma.c _duma_posix_memalign"),
  ("run-time default", "duma.h DUMA_SET_ALIGNMENT")])

prop("C07", "Every bad release is stopped and named; no good release ever is",
 "Releasing, resizing or checking an address that is not the start of a live block (already released, inside a block, in front of it, on the stack, or never allocated) stops the program before the call returns, and so does releasing a block through the wrong family (C, scalar new, array new, and their class-member variants). "
 "The diagnostic states which of these it is: the address, both families on a mismatch, and the recorded source file and line of the allocation or of the earlier release when these were given. "
 "A matching release of a live block, or of a null pointer, never stops the program.",
 ["histories", "inputs", "configurations"],
 "all pairs of allocation and release entry points, all wrong addresses relative to live/released blocks, after arbitrary valid histories, with every free-protection setting",
 "testoperators enumerates the operator pairs once on a fresh heap and only looks at whether the process died, never at the message or at other addresses.",
 ["src/duma.c", "duma_hlp.h", "src/dumapp.cpp"],
 [("address lookup", "duma_hlp.h slotForUserAddress/nearestSlotForUserAddress"),
  ("family comparison", "src/duma.c _duma_deallocate"), ("manual check", "src/duma.c duma_check")])

prop("C08", "Any change of the no-man's-land is caught at the next check, never falsely",
 "Every accessible byte around a live block that is not part of it holds the configured slack fill, and if the program changes any of them to another value the program is stopped with a diagnostic giving the block's address, size, origin and the side (above or below) no later than when the block is released or checked, or all blocks are checked. "
 "With a check frequency of N, all live blocks are checked at every N-th allocation or release, so the damage is noticed after at most N of them. "
 "As long as the program writes only inside its blocks, no check ever stops it.",
 ["inputs", "histories", "configurations"],
 "every slack byte position and value, either side, either protection mode, every check trigger, every check frequency, any history in between",
 "no existing test damages the slack at all.",
 ["duma_hlp.h", "src/duma.c"],
 [("slack fill and check", "duma_hlp.h _duma_init_slack/_duma_check_slack/_duma_check_all_slacks"),
  ("periodic check", "src/duma.c CHECK_FREQ counters")])

prop("C09", "The leak report lists exactly the blocks still live, with their origin",
 "At normal process end, and whenever a frame end is requested, the report has one line per block that is live at that moment and carries source information, with its address, exact size, kind of allocation call and (except in the shared library, whose report omits it) source position of its last allocation or resize, and no line for any other block. "
 "The two totals are exact: reported leaks, and further live blocks without source information; with the report-all setting every live block gets its line and the second total is zero; with no live block nothing is reported. "
 "The debugger's own internal allocations never appear, and reporting changes neither the exit status nor any block.",
 ["histories", "inputs", "configurations"],
 "all histories of attributed and unattributed allocations, resizes and releases, sizes, file names and line numbers, ended by exit, return or frame end",
 "existing tests print a report but nothing compares it with what is live.",
 ["src/duma.c", "src/print.c", "duma.h", "dumapp.h"],
 [("report", "src/duma.c DUMA_delFrame/_duma_exit"), ("origin recording", "src/duma.c _duma_allocate, _duma_deallocate")])

prop("C10", "Zero-size requests follow the configured strategy and can always be released",
 "A zero-size C allocation follows the configured strategy: 0 stops the program with a diagnostic, 1 returns null, 2 returns one and the same non-null address, 3 (default) returns an address distinct from that of every other live block; zero-size C++ allocation is never null and follows its own strategy (2 or 3), independent of the C one. "
 "Under 2 and 3 the byte at the address and the memory around it cannot be read or written, and the address can be passed to the matching release, to a resize, and to the manual and global checks any number of times a valid program may, without disturbing any other block; its usable size is zero.",
 ["histories", "inputs", "configurations"],
 "all strategies from the documented environment variables, all entry points with size zero (and zero element count or size), mixed histories",
 "dumatest makes one zero-size request under the default strategy; strategies 0, 1, 2 and release/resize of such blocks are untested.",
 ["src/duma.c", "src/dumapp.cpp", "README.md"],
 [("strategy switch", "src/duma.c _duma_allocate"), ("environment", "src/duma.c duma_getenvvars"),
  ("shared zero-size page", "src/duma.c _duma_init")])

prop("C11", "Failure to get memory is reported as documented and damages nothing",
 "When a request cannot be satisfied, because the system refuses memory at any point or because the size, element count product or alignment makes it unrepresentable, the C entry points stop the program with a diagnostic if fail-exit is on (default) and otherwise return null (ENOMEM for the POSIX call), nothrow operator new returns null and throwing operator new throws bad_alloc, whatever fail-exit says. "
 "When the system refuses memory while the library starts, the program is stopped with the diagnostic or starts normally, under every setting. "
 "A request never yields a block smaller than asked. "
 "After a failed request every earlier block, including one whose resize failed, is still live with unchanged contents and guards, and later requests work again once memory is available.",
 ["fault_sequences", "inputs", "histories", "configurations"],
 "every point at which the system's memory mapping call fails (single failures, runs of failures, size limits), all sizes up to the maximum of the size type, all entry points, both fail-exit settings and all free-protection settings",
 "testmemlimit requests a few fixed huge sizes; no test makes a mapping fail or checks other blocks afterwards.",
 ["src/duma.c", "paging.h", "src/dumapp.cpp", "duma_hlp.h"],
 [("map failure path with retry after trimming", "src/duma.c _duma_allocate"), ("mapping", "paging.h Page_Create"), ("tables at start-up", "src/duma.c _duma_init"),
  ("bad_alloc/null", "src/dumapp.cpp duma_new_operator"), ("bookkeeping growth failure", "src/duma.c allocateMoreSlots")])

prop("C12", "Memory and string functions match the C standard and trap bad overlaps",
 "For arguments whose regions do not overlap destructively, the replaced memory and string functions (copy, move, string copy, bounded copy, append, bounded append, duplicate) write exactly the bytes and return exactly the value the C standard prescribes, and read or write nothing beyond; overlapping moves are always allowed and correct. "
 "When source and destination overlap so that a standard call would be undefined, the copy and append functions stop the program with a diagnostic naming the call and the addresses before changing any byte, except that a memory copy to a lower overlapping address is allowed and correct when the overlap setting is on, and a copy onto itself is never reported. "
 "No call on disjoint regions is ever reported, for regions adjacent to each other or to a guard page.",
 ["inputs", "configurations"],
 "all lengths, contents, relative placements of source, destination and terminators, and both overlap settings, attributed and unattributed entry points",
 "dumatest calls each function at most once with disjoint literals.",
 ["src/duma.c", "duma.h"],
 [("overlap tests and byte loops", "src/duma.c _duma_memcpy/_duma_memmove/_duma_strcpy/_duma_strncpy/_duma_strcat/_duma_strncat/_duma_strdup")])

prop("C13", "C++ operators keep the language contract and attribute their call sites",
 "Every form of operator new (plain, nothrow, array, with source position, and through the header's macros) yields a distinct usable block recorded under its family with the call site when one is given, and every matching form of operator delete releases it, also when a constructor throws, when destructors delete further objects, and for null pointers. "
 "On exhaustion the installed new-handler is called again and again until an attempt succeeds; with no handler, or when the handler throws bad_alloc, throwing forms throw bad_alloc and nothrow forms return null. "
 "Diagnostics on a release through a deletion expression compiled with the header's macros name the file and line of the innermost such expression, for any nesting of destructors up to the depth DUMA_MAX_DEL_DEPTH the headers set.",
 ["programs", "histories", "inputs", "fault_sequences"],
 "all operator forms and their pairings, nesting depth of deletions, number of failing attempts before success, handler behaviours",
 "testoperators and dumatestpp use each operator once with success; new-handlers, throwing constructors and nested deletions are not exercised.",
 ["src/dumapp.cpp", "dumapp.h", "src/duma.c"],
 [("allocation loop", "src/dumapp.cpp duma_new_operator"), ("delete macro call-site stack", "dumapp.h delete macro"),
  ("operator forms", "src/dumapp.cpp")])

prop("C14", "Memory budgets bound released-but-protected memory and spare live blocks",
 "With free-protection set to N kB the released memory that is kept protected never exceeds N kB, and with 0 none is kept. A released block that fits into what is left of the budget is kept, so that touching it faults and releasing it again is recognised; so is one smaller than the budget for which enough older memory can be given back. Kept memory is given back only when a later release or allocation needs its room. "
 "With a total limit of M kB, whenever memory has to be obtained from the system protected memory is given back until live plus protected memory keep within M (to within the 1 MB granularity of the memory pool), as far as there is protected memory to give back; requests that still exceed it are served rather than refused. "
 "Giving memory back never touches a live block, its guard or its contents, and can be repeated for any number of release and allocation rounds: the memory and the table entries given back are used again.",
 ["histories", "configurations", "inputs"],
 "all budgets, block sizes relative to the budget, and release/allocation histories long enough to trim repeatedly",
 "tests only set budgets to run in limited memory; nothing measures what is kept or checks blocks after trimming.",
 ["duma_hlp.h", "src/duma.c"],
 [("trimming", "duma_hlp.h reduceProtectedMemory"), ("budget test", "src/duma.c _duma_deallocate"),
  ("total limit", "src/duma.c _duma_allocate MAX_ALLOC")])

prop("C15", "Documented environment variables and run-time switches take effect as documented",
 "Each documented environment variable (alignment, protect-below, fill, slack fill, check frequency, zero-size strategies, fail-exit, free protection, memory limit, free access, show allocations, report all leaks, memcpy overlap, banner, output to stdout, stderr and file) alone and in any combination changes exactly the behaviour documented for it; unset variables leave the documented default; out-of-range strategies are ignored, and byte-valued settings use their low eight bits. "
 "A variable's effect does not depend on the order of the environment or on other variables whose names share a prefix with it. "
 "The run-time switches for alignment, protection side and fill act on every later allocation and on no earlier one.",
 ["configurations", "inputs", "histories"],
 "all combinations and orders of settings with valid, boundary and out-of-range values, with decoy variables, followed by a probing history",
 "tests use one or two fixed settings; no combination or ordering is tried.",
 ["src/duma.c", "duma.h", "README.md", "duma.3"],
 [("environment reader", "src/duma.c duma_getenv/duma_getenvvars"), ("run-time switches", "duma.h DUMA_SET_*")])

prop("C16", "All guarantees hold when threads allocate, resize, check and release together",
 "When any number of threads allocate, resize, release, query the size of, check and report blocks concurrently, including releasing each other's blocks and C++ allocation and deletion, every block keeps its contents, alignment, guard and exclusivity, every valid call returns and none is reported as an error. "
 "Afterwards the leak report and the allocation statistics are exactly those of some sequential order of the same calls. "
 "A nested call made while the debugger already holds its own lock in the same thread never deadlocks.",
 ["schedules", "histories"],
 "all interleavings of per-thread call sequences; explored by perturbing the schedule at every system call inside the debugger",
 "thread-test runs one fixed pattern of malloc/free and only checks that it does not crash; size queries, resizes and checks never run concurrently.",
 ["src/sem_inc.c", "duma_sem.h", "src/duma.c", "dumapp.h"],
 [("recursive lock", "src/sem_inc.c lock/unlock, DUMA_get_sem/DUMA_rel_sem"), ("lock use in each entry point", "src/duma.c")])

prop("C17", "Messages are complete and exact and go to exactly the selected outputs",
 "Every message the debugger prints is the complete text with every number, address, size, character and string inserted exactly (decimal and hexadecimal over the whole range of the type, negative values included, strings and file names of any length a program can supply without memory corruption, null strings as NULL). "
 "Each message is written in full, once and unchanged, to each selected output (standard output, standard error, file, which is appended to and created if needed) and to no other; with an unusable output file the other outputs still get it. "
 "A fatal message is written before the process is stopped, and the process is stopped even if it handles or ignores the stopping signal.",
 ["inputs", "configurations"],
 "all format directives and values of the internal formatter, file-name and expression lengths around and beyond the internal buffer size, all output selections and file states",
 "no test examines any message text.",
 ["src/print.c", "print.h", "src/duma.c"],
 [("formatter", "src/print.c DUMA_vsprintf/sprintAddr/sprintLong"), ("routing", "src/print.c DUMA_Print"),
  ("fatal path", "src/print.c DUMA_Abort/DUMA_Exit")])

prop("C18", "Nothing of the debugger's memory is accessible to the program but live blocks",
 "Between calls, of all the memory the debugger obtained from the system only the pages that hold live blocks (with the checked padding of blocks aligned to more than a page) can be read or written by the program: its block table, its unused pool, its zero-size pages, the guards and released memory cannot. "
 "A stray access there faults instead of corrupting the bookkeeping, and this holds again after every kind of call, including failed, internal-growth and reporting calls, and inside new-handlers.",
 ["histories", "configurations", "fault_sequences"],
 "the accessibility of every page obtained from the system after every call of arbitrary histories",
 "no test looks at the accessibility of anything except a fixed guard.",
 ["src/duma.c", "paging.h", "duma_hlp.h"],
 [("lock-down of the table around each call", "src/duma.c Page_AllowAccess/Page_DenyAccess of the list"),
  ("pool protection", "src/duma.c _duma_init, _duma_allocate")])

prop("C19", "A correct program behaves the same with, without and under the debugger",
 "A program that uses the allocation, string and C++ allocation interfaces correctly produces the same output and exit status when it is linked with the static library, linked with or preloaded with the shared library, compiled with the headers' macros or without, compiled with the debugger disabled by its off-switch, or run with the system allocator alone, under every setting that provides the alignment it relies on and does not limit memory below its needs. "
 "This includes programs that rely on library routines which allocate or release memory internally, that use the standard aligned-allocation functions, and that start threads or exit in any normal way.",
 ["programs", "configurations", "inputs"],
 "generated correct programs over the C and C++ allocation and string interfaces, in every build flavour",
 "each existing test program is built in two or three flavours, but none compares behaviour between flavours.",
 ["src/duma.c", "src/dumapp.cpp", "duma.h", "dumapp.h", "noduma.h", "duma.sh.in"],
 [("global replacement functions", "src/duma.c end"), ("macro wrappers and off-switch", "duma.h, dumapp.h, noduma.h")])

prop("C20", "Every build configuration keeps the core guarantees",
 "For every supported combination of build-time options (leak detection on or off, explicit initialisation, exit-handler versus attribute registration, system getenv versus own, C++ support on or off, global replacement on or off, thread safety on or off, static or shared), the configuration generator produces a header with which the library builds and guards, contents, release diagnostics, slack checks and, where enabled, leak reports hold. "
 "With explicit initialisation, blocks allocated before the initialisation call can be used and released normally after it and are never reported as leaks. "
 "The start-up text names the kind of library and the options it was built with, and the diagnostics about failed system calls give the system's error text or, with DUMA_NO_STRERROR, the error number.",
 ["configurations", "histories"],
 "all supported build-option combinations, each exercised with generated histories",
 "the test suite builds exactly one static and one shared configuration.",
 ["createconf.c", "src/duma.c", "src/dumapp.cpp", "src/sem_inc.c", "duma.h", "dumapp.h"],
 [("option translation", "createconf.c writeFile"), ("conditional code", "src/duma.c #ifdef DUMA_*")])

prop("C21", "The allocation trace and statistics match the calls made",
 "With show-allocations on, every allocation and every release of a block prints one trace line with the exact byte count and, when leak detection has them, the source position of the call and of the original allocation; released null pointers print nothing and zero-size requests carry the extra warning. "
 "The final statistics equal the number of allocation and release lines printed plus those of the debugger's own start-up, whatever the mix of entry points, resizes and internal growth. "
 "With it off no trace line is printed, and turning it on changes nothing else the program can observe.",
 ["histories", "inputs", "configurations"],
 "all single-threaded histories over all entry points, sizes including zero, and source positions",
 "no test switches the trace on.",
 ["src/duma.c"],
 [("trace", "src/duma.c _duma_allocate/_duma_deallocate SHOW_ALLOC"), ("statistics", "src/duma.c DUMA_delFrame")])

prop("C22", "Header utilities: assertions, checked arrays and return-address protection",
 "The assertion macro lets the program continue exactly when its expression is true and otherwise prints the expression text, file and line and stops it; a checked array reference yields the element for every index inside the array and stops the program for every other index, evaluating the index once; return-address protection is silent in functions whose return address (with compilers that do not tell it: the four marker words kept among the function's variables) is intact, for every way of returning, and stops those where it has been changed by the time their protected return begins. "
 "The macros that stand for allocating, releasing, copying, checking and setting functions evaluate each of their arguments exactly once, and from an inclusion of noduma.h to the next one of a header all their names are plain ones again. With the debugger's off-switch the same source compiles and all of these, and the frame, check and setting macros, do nothing but the plain array access.",
 ["programs", "inputs"],
 "all expressions' truth values, element types, array sizes and indices (negative, at and beyond the end, huge), and both states of the off-switch",
 "no test uses checked arrays or return protection except once with a valid index.",
 ["duma.h", "src/duma.c", "noduma.h"],
 [("assertion", "duma.h DUMA_ASSERT, src/duma.c _duma_assert"), ("checked arrays", "duma.h CA_DEFINE/CA_DECLARE/CA_REF"),
  ("return protection", "duma.h DUMA_FN_PROT_*")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
