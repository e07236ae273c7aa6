"""Per-property configuration of the checks, and the texts of their evidence."""
REAL = ["typelib library (typelib/*.cc, utilmm), compiled from /repo", "csupport container plugin (std::vector, std::string)"]
STUB_MEM = ["the heap: deterministic seed-shuffled arena with red zones, no reuse or immediate reuse, injected bad_alloc, finite-memory cap"]
STUB_OUT = ["write(2) on the simulated descriptor, the FILE's device, the stream's buffer and the caller's stream"]
ASSUME = ["the compiler, libstdc++, boost and the sanitizer run-time are correct",
          "generated types and values are bounded (nesting depth <= 5, containers mostly < 10 elements, some of up to 400 kB)",
          "faults outside the seams (hardware, signals) do not occur"]

PROPS = {}


def prop(pid, quick, thorough, rule, states, real=None, stub=None, assume=None, sim="tsim", technique=None, note="", **kw):
    PROPS[pid] = dict(sim=sim, quick_runs=quick, thorough_runs=thorough, rule=rule, states=states,
                      real=real or REAL, stub=stub or STUB_MEM, assume=ASSUME + (assume or []),
                      technique=technique or "deterministic simulation with fault injection, seeded search", note=note, **kw)


TY = "distinct generated type descriptions (by content)"
prop("C01", 250000, 8000000,
     "each run: a random type and value, then 1-4 dumps to random sinks (vector, C++ stream, descriptor, FILE, caller's stream) with a random fault at a random write/allocation/capacity; what the sink received is compared byte by byte with an independently computed image. Non-trivial: an injected fault fired during a dump.",
     TY, stub=STUB_MEM + STUB_OUT, note="Seeded search over types, values, sinks and fault positions; the oracle is an image computed by an independent model from natively written memory.")
prop("C02", 250000, 8000000,
     "each run: a random type and value, then dumps into guarded buffers of random capacities, several around each write boundary, plus size queries. Non-trivial: at least one capacity below the image size.",
     TY, note="Seeded search over types, values and capacities (device-full points); guard bytes plus poisoned red zones detect any write outside the capacity.")
prop("C03", 200000, 6000000,
     "each run: a random type and value; its image cut at random points, extended by random surplus, or delivered by a caller's stream that fails at a random read; then the destination is reloaded with the good image and destroyed. Non-trivial: a truncated, overlong or failing input was presented.",
     TY, stub=STUB_MEM + ["the caller's input stream"], note="Seeded search; exact-size heap blocks with red zones detect reads beyond the input.")
prop("C04", 80000, 2500000,
     "each run: a random type and value; its image is corrupted (bit flips, overwritten/removed/inserted/transposed bytes, damaged element counts biased to overflow boundaries) under a finite memory, loaded, re-dumped if accepted, reloaded with the good image, destroyed. Non-trivial: a corrupted image was presented.",
     TY, stub=STUB_MEM + ["the caller's input stream"], note="Seeded search over corruptions with finite simulated memory.")
prop("C05", 120000, 4000000,
     "each run: a random type and value and a destination holding another value; a random number of failed transfers (lost connection, stream error, memory exhaustion) then a complete one through a random entry point and chunking. Non-trivial: a transfer or fault happened before the successful load.",
     TY, stub=STUB_MEM + ["the caller's input stream"], note="Seeded search over histories of failed and successful transfers.")
prop("C06", 200000, 6000000,
     "each run: a random type and a history of init/zero/copy/compare/destroy operations on several values mirrored in a model, with allocation failures at random allocations. Non-trivial: an injected allocation failure fired.",
     TY, note="Seeded search over operation histories and allocation failures; native decoding of every value after every operation, leak accounting at the end.")
prop("C07", 200000, 6000000,
     "each run: a random container type and a history of container operations mirrored on a model sequence, with rejected operations, throwing predicates and visitors, and allocation failures. Non-trivial: the history mutated the container.",
     "distinct container contents (by content) reached", note="Seeded search over operation histories; the container is decoded natively and compared with the model sequence after each operation.")
RG = "distinct registry contents (names, aliases and definitions) reached after an operation"
STUB_REG = STUB_MEM + ["the documents given to the importers (generated by the exporter, then damaged)"]
prop("C08", 150000, 5000000,
     "each run: a universe of type names with two alternative definitions each, then a history of 2-26 operations (define, derive, alias, remove alias/type, clear, merge, import good and damaged documents, minimal, default namespace), half of the runs with allocation failures at random allocations; after every operation a full scan (every name, every dependency, every relative name) and a comparison of everything that must not have changed; leak accounting at the end. Non-trivial: an operation of the history was refused or interrupted.",
     RG, real=REAL + ["tlb importer and exporter (libxml2 is the system's)"], stub=STUB_REG, note="Seeded search over operation histories with injected allocation failures and damaged documents.")
prop("C09", 150000, 5000000,
     "each run: two to four registries filled from a universe with conflicting definitions, merged in sequence (some merges interrupted by an allocation failure, then retried), or merged in both orders, or minimised; the result is compared with the union computed from snapshots by an independent structural comparison. Non-trivial: the registries overlapped, a merge was refused, or a minimal registry was extracted.",
     RG, note="Seeded search over registry contents, merge orders and interruption points.")
prop("C10", 120000, 4000000,
     "each run: a history of 2-17 definitions, derivations, aliases, alias removals and default-namespace changes, many of them invalid, mirrored on a reference model of the name tables; after every operation all candidate names (absolute and relative) are resolved, the iteration, prefix ranges and alias sets compared. Non-trivial: an operation was refused, or removed names or changed the namespace.",
     RG, note="Seeded search over histories of name operations against a reference model.")
prop("C20", 150000, 5000000,
     "each run: a random set of types (nested compounds, arrays, vectors, pointers, self-reference, aliases), then 1-3 rounds of resizing random subsets (also through aliases, also with an unknown name), each checked against a model of all sizes and offsets, with values created, copied, compared, dumped, loaded and destroyed before and after. Non-trivial: a resizing was performed or refused.",
     "distinct sets of type layouts reached", note="Seeded search over histories of resizings against a reference model of the layout.")
prop("C21", 200000, 6000000,
     "each run: a random type and value and a history of visits with one visitor object: complete, stopped at a random callback, thrown from a random callback, or interrupted by an allocation failure; the recorded callbacks are compared with the sequence computed from natively decoded memory. Non-trivial: a visit was stopped or thrown out of.",
     TY, note="Seeded search over types, values and interruption points against an independent enumeration of the value's parts.")
DOC = "distinct registry contents saved"
STUB_IO = STUB_MEM + ["the file system under /sim/ (open, read, write, writev, close, ENOSPC, EIO, EINTR, short writes) and the caller's streams"]
REAL_IO = REAL + ["tlb importer and exporter, idl exporter (libxml2 and libstdc++ file streams are the system's)"]
prop("C11", 250000, 8000000,
     "each run: a random registry saved 1-5 times in a random format to a simulated file, or to the caller's stream, with a random fault at a random open, write, close or allocation; a save that reports success must have stored the reference document, the registry must be unchanged, and a last save without faults must give the reference document. Non-trivial: a fault fired during a save.",
     DOC, real=REAL_IO, stub=STUB_IO, note="Seeded search over registries, formats, sinks and fault positions.")
prop("C12", 250000, 8000000,
     "each run: a random registry (all type kinds, aliases, metadata and source identifiers with characters that need escaping, resized types, opaques) saved to a file or stream and loaded into a fresh process-like registry through a file, stream or string, under random transfer sizes, with failed attempts before the successful one; both registries are then compared by content, and re-saved. Non-trivial: a failed or split transfer happened before the successful one.",
     DOC, real=REAL_IO, stub=STUB_IO, note="Seeded search over registries and transfers against an independent structural comparison.")
prop("C13", 250000, 8000000,
     "each run: a random registry saved, the document damaged (cut, bytes changed, elements and attributes removed, repeated, exchanged, renamed; numbers replaced), and loaded 1-3 times into a registry that already holds something, through a file, stream or string with read failures and allocation failures; afterwards everything the registry held before is unchanged, it is still consistent, an undamaged document still loads, nothing leaked. Non-trivial: an import was refused or interrupted.",
     DOC, real=REAL_IO, stub=STUB_IO, note="Seeded search over damaged documents and failing reads.")
prop("C19", 250000, 8000000,
     "each run: the same content put into two to four registries in different orders, at different addresses (seeded heap placement), with detours (temporary types, failed operations, earlier failed saves); all documents in each format must be identical, and refusals too. Non-trivial: at least one detour or failed save happened.",
     DOC, real=REAL_IO, stub=STUB_IO, note="Seeded search over fill orders, heap placements and histories.")
prop("C17", 20000, 600000,
     "each run: a seeded search path (directories in seeded listing order, missing, empty, unreadable, not directories, failing in the middle of the listing; entries that are good plugins, duplicates, links, other files, libraries without entry point, libraries that cannot be loaded; a missing or a compiled-in path), then 1-4 plugin managers (some interrupted by an allocation failure or loads that fail only once); the importers, exporters, types and containers available are compared with those of the loadable plugins. Non-trivial: a fault was met.",
     "distinct search path contents", real=REAL + ["the shipped plugins (tlb, idl, csupport) and seven plugin libraries of the harness, loaded by the real dlopen"],
     stub=STUB_MEM + ["opendir, readdir, stat and dlopen under /sim/ (listing order, EACCES, EIO, ENOENT, load failures)", "getenv of the search path"],
     note="Seeded search over directory contents, listing orders and failures.")
prop("C30", 200000, 6000000,
     "each run: up to four generated types (nested compounds with padding, arrays of arrays and of compounds, unsupported parts) and a history of programs compiled with one compiler object (some interrupted by an allocation failure or refused), each used several times on seeded bytes, in-place conversions, and the scalar helpers; every byte is compared with an independently computed origin map, and converting twice gives the input back. Non-trivial: a program was used, or a compilation refused or interrupted.",
     TY, note="Seeded search over types, values and histories of compilations with injected allocation failures.")
prop("C33", 150000, 5000000,
     "each run: a random registry (all exportable kinds, template-like and underscored names, aliases) exported to a stream or a file with random options, the earlier attempts with faults; the document is read line by line: each name used was declared before in the scope in which it is used, nothing is declared twice, and every compound, enumeration and alias has the declaration that an independent model of the registry's types expects; the export is refused exactly when that model says so. Non-trivial: the document uses names.",
     DOC, real=REAL_IO, stub=STUB_IO, note="Seeded search over registries, options and failed attempts against an independent reader of the document.")
prop("C34", 150000, 5000000,
     "each run: a random type and 2-7 headers and lines with one output object or the stream manipulators, values changing in between, some streams full at a random byte and some allocations failing; columns are compared one by one with an independent enumeration of the scalars. Non-trivial: every run.",
     "distinct headers and lines", stub=STUB_MEM + ["the caller's stream"], note="Seeded search over types, values, separators and faults.")
SCH = "distinct schedules (sequence of thread switches and the event counts at which they happen)"
REAL_TH = REAL + ["the process-wide services (utilmm singleton server, plugin manager), POSIX threads (one runs at a time)"]
STUB_TH = STUB_MEM + ["the thread scheduler: every memory access of the library, every atomic, lock, once and static-initialisation operation is a point where the seed decides which thread goes on",
                      "the run-time of the compiler's thread instrumentation (happens-before race detection, use of freed memory, deadlock detection)",
                      "mutexes, condition variables, once-initialisation, function-local static guards"]
AS_TH = ["memory accesses are sequentially consistent in the simulation; races are reported from the happens-before order, not only when they do harm",
         "accesses inside libstdc++.so, libboost and libxml2 are only seen where the library's own (instrumented) code makes them"]
prop("C14", 40000, 4000000,
     "each run: 2-4 threads acquiring, copying, handing over, using and releasing handles on 1-4 services (with dependencies held, used while constructing, used while destroying, or acquired late; constructors failing at a chosen attempt; allocation failures) and on the plugin manager, under a seeded scheduler; invariants are checked in the services' constructors and destructors and at each use, then a later client acquires each service. Non-trivial: there were more thread switches than threads.",
     SCH, real=REAL_TH, stub=STUB_TH, assume=AS_TH, sim="thsim", interleavings=True, selftest_runs=1000,
     note="Seeded search over schedules (four strategies: at synchronisation, anywhere, at shared data, priority-based) and fault sequences.")
prop("C15", 20000, 1500000,
     "each run: in a fresh process, 2-3 threads each run a random program on registries of their own (define, derive, alias, merge, minimal, save, load good and damaged documents) or on values of types of their own under a seeded scheduler, some with allocation failures; each program's transcript is then compared with the one it gives alone. Non-trivial: there were more thread switches than threads.",
     SCH, real=REAL_TH, stub=STUB_TH, assume=AS_TH, sim="thsim", interleavings=True, selftest_runs=600,
     note="Seeded search over schedules and programs; race detection at every access of the library's code.")
prop("C16", 20000, 1500000,
     "each run: in a fresh process, 2-3 threads run random programs (copy, compare, dump, load, size, visit, print, describe, layout, look up, iterate, container operations, byte order, casts) on values of their own and on shared values of shared types and a shared registry, under a seeded scheduler, some with allocation failures; each program's transcript is then compared with the one it gives alone, and shared values and registry with their state before. Non-trivial: there were more thread switches than threads.",
     SCH, real=REAL_TH, stub=STUB_TH, assume=AS_TH, sim="thsim", interleavings=True, selftest_runs=600,
     note="Seeded search over schedules, types and programs; race detection at every access of the library's code.")
prop("C36", 4000, 400000,
     "each run: a seeded registry (numerics, enums, strings, compounds with padding, arrays, vectors; values made in seven ways) and a history of 2-25 operations by a Ruby program: handles on fields and elements taken, kept, dropped and used after their value, registry or container element is gone; assignments through every accessor, container modifications (also interrupted by break and exceptions), copies, casts, pointers, loads, byte swaps, metadata; garbage collections (full, minor, lazy, compacting) at seeded Ruby lines and calls into the C API. Every value and handle is compared with a mirror made of plain Ruby objects; at the end every zone has to be given up. Non-trivial: a garbage collection happened inside an operation.",
     "distinct states of the program (types, mirrors, handles)", sim="rbsim", interleavings=True, selftest_runs=600,
     real=REAL + ["the Ruby bindings (bindings/ruby/ext/*.cc and bindings/ruby/lib/typelib/*.rb)", "the Ruby 3.2 interpreter and its garbage collector, embedded"],
     stub=["when the garbage collector runs (its own triggers are disabled: seeded points only)", "address-space randomisation (off)", "the gems utilrb, facets and backports, reduced to the functions the bindings use",
           "the heap of the C++ part (no reuse of freed memory, AddressSanitizer)"],
     note="Seeded search over garbage-collection schedules and histories of Ruby operations against a mirror.")

prop("C37", 4000, 400000,
     "each run: the world of C36, with operations that have to be refused drawn among about 150 kinds (unknown, foreign and invalid types, definitions, indices, buffers, casts, handles that are gone) as well as definitions, merges, copies and aliases, while seeded allocations of the C++ part fail; any operation can be interrupted by exceptions of the program. After each one, the registry and every value and handle are compared with their mirror: an operation that raised left everything as it was, or (assignments and loads) only its target valid with some content. Non-trivial: an operation was refused or an allocation failed.",
     "distinct states of the program (types, mirrors, handles)", sim="rbsim", interleavings=True, selftest_runs=600,
     real=REAL + ["the Ruby bindings (bindings/ruby/ext/*.cc and bindings/ruby/lib/typelib/*.rb)", "the Ruby 3.2 interpreter and its garbage collector, embedded"],
     stub=["which C++ allocations fail", "when the garbage collector runs (seeded points only)", "address-space randomisation (off)", "the gems utilrb, facets and backports, reduced to the functions the bindings use",
           "the heap of the C++ part (no reuse of freed memory, AddressSanitizer)"],
     note="Seeded search over failing allocations, refused operations and garbage-collection schedules against a mirror.")
prop("C39", 4000, 400000,
     "each run: a history of up to about 40 operations on up to five Ruby registries: definitions in all syntaxes, derived types, aliases, removals (with use of the removed classes and values), metadata, merges with and without conflicts, copies, minimal registries, XML round trips, resizings, modifications while the registry is enumerated, queries, and access through Ruby modules; allocations of the C++ part and functions of the interpreter fail, garbage is collected at seeded points. After each operation the registry is compared as a whole with a model made of plain Ruby objects, including the identity of classes. Non-trivial: a failure or a garbage collection hit an operation, or one was refused.",
     "distinct registries", sim="rbsim", interleavings=True, selftest_runs=600,
     real=REAL + ["the Ruby bindings (bindings/ruby/ext/*.cc and bindings/ruby/lib/typelib/*.rb)", "the Ruby 3.2 interpreter and its garbage collector, embedded"],
     stub=["which C++ allocations and interpreter calls fail", "when the garbage collector runs (seeded points only)", "address-space randomisation (off)", "the gems utilrb, facets and backports, reduced to the functions the bindings use",
           "the heap of the C++ part (no reuse of freed memory, AddressSanitizer)"],
     note="Seeded search over histories of registry operations, failures and garbage-collection schedules against a model.")
IMPORT_STUB = ["castxml and gccxml: a model of C++ headers that reports what they define in the format of these compilers", "source files", "processes, pipes, the clock, make's job server",
               "the scheduling of Ruby threads (seeded switches at blocking operations and at lines of the bindings)", "the gems utilrb, facets and backports, reduced to the functions the bindings use"]
prop("C35", 4000, 300000,
     "each run: up to 3 C++ headers are made up: namespaces, nested, anonymous and homonymous types, templates, base classes, vectors, strings, arrays, pointers, typedefs, enums of every size, bitfields, unions, virtual functions, opaque types, comments in different styles, unusual names, paths and encodings. The simulated compiler lays them out (Itanium ABI) and reports them as castxml or gccxml do (elements in any order). What the import adds to the registry (which has other types already) is compared with what the model says is defined and can be represented, in both directions, with its metadata. Non-trivial: every run.",
     "distinct registries after imports", sim="rbsim", interleavings=True, selftest_runs=600,
     real=REAL + ["bindings/ruby/lib/typelib/gccxml.rb, cxx.rb and the rest of the Ruby bindings", "the Ruby 3.2 interpreter, embedded"],
     stub=IMPORT_STUB,
     assume=["The compilers' reports follow the conventions of castxml --castxml-gccxml (a report in the repository, test/ruby/cxx_import_tests/namespaces.xml, and the documentation of GCC-XML)."],
     note="Seeded search over generated headers and compilers' reports against a model of what they define. The clang-based importer is not covered (it is a program that needs the clang libraries).")
prop("C38", 4000, 300000,
     "each run: up to 5 headers are imported with 1 to 5 threads, a job server shared with other jobs, or none. The seed decides every thread switch, how long compilers take, and which faults occur: a compiler fails, is killed, cannot be started or gives nothing or part of its report, reading fails, no more threads or processes, the job server disappears, headers with contradicting definitions, source files that cannot be read. Checked: the end of the import within bounded simulated time, threads, processes and tokens left, the number of compilers at a time, the kind of the error, the registry (unchanged after a failure, complete after a success). Non-trivial: more than one thread.",
     "distinct registries and outcomes of imports", sim="rbsim", interleavings=True, selftest_runs=600,
     real=REAL + ["bindings/ruby/lib/typelib/gccxml.rb, cxx.rb and the rest of the Ruby bindings", "the Ruby 3.2 interpreter, embedded, with real Ruby threads"],
     stub=IMPORT_STUB,
     note="Seeded search over thread schedules and failures of external programs.")
