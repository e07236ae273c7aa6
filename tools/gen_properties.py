#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "A dump delivers the whole image or reports failure, on every kind of sink",
  "Marshalling a value to a byte vector, C++ stream, file descriptor, C FILE or caller-written stream either completes, and then the sink has received the value's whole image exactly once and in order, or reports failure (by an exception, or for a C++ stream through the stream's error state), and then the sink has received only a prefix of that image. The image is the value's bytes in memory order with every container replaced by a 64-bit element count followed by the images of its elements, and with the padding after the last data byte of the outermost value left out. Marshalling never modifies the value.",
  ["inputs", "fault_sequences"],
  "for every type and value the library can marshal, every sink kind, and every sequence of short writes, interrupted writes, write errors and full-device conditions at any write",
  "The tests dump a few fixed structures to sinks that never fail; no test makes a sink fail, split or stop in the middle of an image, and none covers nested containers and arrays of arbitrary shape.",
  ["typelib/value_ops.cc", "typelib/value_ops.hh", "typelib/memory_layout.cc", "lang/csupport/containers.cc"],
  [("layout-driven dump interpreter", "typelib/value_ops.cc ValueOps::dump"),
   ("per-sink output streams", "typelib/value_ops.cc VectorOutputStream, OstreamOutputStream, FDOutputStream, FileOutputStream"),
   ("container element marshalling", "lang/csupport/containers.cc Vector::dump, String::dump")],
  observe=["bytes accepted by the simulated sink", "exception or stream state after the call", "value memory before and after"])

p("C02", "Dumping into a caller's buffer respects its capacity; announced size is exact",
  "Marshalling into a caller-supplied buffer of any capacity never writes outside that capacity; it returns the image's exact size, with exactly the image in the buffer and every later byte untouched, when the image fits, and returns 0 when it does not fit. The dump size announced for a value is always exactly the number of bytes that a complete dump of it produces.",
  ["inputs", "fault_sequences"],
  "for every type, value and buffer capacity from zero to beyond the image size (the point at which the device is full)",
  "The tests try one fitting buffer and one too small buffer on fixed structures; they do not place the capacity limit inside each part of arbitrary images.",
  ["typelib/value_ops.cc", "typelib/memory_layout.cc", "lang/csupport/containers.cc"],
  [("capacity check per write", "typelib/value_ops.cc ByteArrayOutputStream"),
   ("size computation", "typelib/value_ops.cc getDumpSize, ByteCounterStream")],
  observe=["return value", "guard bytes around and after the buffer"])

p("C03", "A truncated or overlong image is never accepted",
  "Loading a value from a buffer that holds only a proper prefix of an image, or an image followed by extra bytes other than exactly the type's own trailing padding, is always reported as an error, and never reads outside the supplied buffer. An error raised by a caller's input stream in the middle of a load is always passed on to the caller. After such a failure the destination is still a valid value that can be loaded again successfully, or destroyed, without leaking.",
  ["inputs", "fault_sequences"],
  "for every type, value, cut point or surplus length of its image, and every input-stream failure point",
  "The tests truncate one image at one or two points; the guarantee is for every cut point of every image, and for the state of the destination afterwards.",
  ["typelib/value_ops.cc", "lang/csupport/containers.cc", "typelib/typemodel.cc"],
  [("bounds-checked input streams", "typelib/value_ops.cc VectorInputStream, ByteArrayInputStream"),
   ("exact-consumption check", "typelib/value_ops.cc load"),
   ("trailing padding allowance", "typelib/typemodel.cc Compound::getTrailingPadding")],
  observe=["exception or success", "sanitised allocator", "subsequent load of the good image"])

p("C04", "Corrupt images are loaded safely or rejected, never misread",
  "Loading an arbitrarily corrupted image terminates and either reports an error or succeeds; when it succeeds, marshalling the loaded value again gives back the data that was loaded. Whatever happened, no memory outside the value, its containers and the input is touched, and the destination stays a valid value that can be reloaded, or destroyed, without leaking.",
  ["inputs", "fault_sequences"],
  "for every type and every corruption of its images: flipped, overwritten, removed, inserted or transposed bytes, including damaged element counts, combined with memory exhaustion",
  "No test feeds a corrupted image; the damaging cases need particular values in particular nested element counts.",
  ["typelib/value_ops.cc", "lang/csupport/containers.cc"],
  [("container size handling on load", "lang/csupport/containers.cc Vector::load, Vector::resize, String::load"),
   ("layout-driven load interpreter", "typelib/value_ops.cc ValueOps::load")],
  observe=["sanitised allocator (out-of-bounds, use-after-free, leak)", "re-dump of the accepted value"])

p("C05", "A value survives a dump/load transfer over any channel, with retries",
  "Loading a complete image into any valid destination of the same type, whatever the destination held before (including what an earlier failed load left there), makes it equal to the original: same scalars, same container sizes and elements, reported equal by comparison, and giving the same image when marshalled again. This holds for every load entry point (byte vector, raw buffer with or without the trailing padding, caller's stream delivering in any chunking), and the original is unchanged.",
  ["inputs", "fault_sequences", "histories"],
  "for every type and value, every destination history, and every sequence of failed transfers before the successful one",
  "The tests round-trip a handful of structures into freshly initialised destinations; the guarantee is about every value shape and about dirty destinations after failures.",
  ["typelib/value_ops.cc", "typelib/memory_layout.cc", "lang/csupport/containers.cc"],
  [("symmetric dump and load interpreters", "typelib/value_ops.cc ValueOps::dump, ValueOps::load"),
   ("container resize on load", "lang/csupport/containers.cc Vector::resize")],
  observe=["destination decoded natively", "compare result", "second image"])

p("C06", "Value initialisation, copy and destruction stay sound when memory runs out",
  "Initialising, zeroing, copying, comparing and destroying values behave like the same operations on plain C++ objects: a copy equals its source and shares no storage with it, an initialised enum holds one of its symbols and containers start empty, zeroing leaves all-zero data and empty containers, and two values compare equal exactly when their data outside padding is equal. If memory runs out in the middle of any of them the error is reported, the source of a copy is unchanged, both values remain valid (they can be operated on again, or destroyed), and over a whole lifetime nothing is leaked, freed twice or used after being freed.",
  ["inputs", "histories", "fault_sequences"],
  "for every type and sequence of value operations, with an allocation failure possible at every allocation",
  "The tests run these operations on a few structures with memory always available; an allocation failure in the middle of a nested container copy never happens in them.",
  ["typelib/value_ops.cc", "typelib/memory_layout.cc", "lang/csupport/containers.cc"],
  [("layout interpreters", "typelib/value_ops.cc ValueOps::init, zero, copy, compare, destroy"),
   ("vector growth", "lang/csupport/containers.cc Vector::resize, Vector::copy"),
   ("initialisation layout", "typelib/memory_layout.cc simplifyInit")],
  observe=["sanitised allocator", "native decoding of source and destination after each operation"])

p("C07", "Containers behave as sequences through any operation history and failure",
  "A container value manipulated through any sequence of push, indexed get and set, erase, conditional erase, clear, copy and visit always holds exactly the element sequence that a plain sequence subjected to the same operations would hold, with erase removing the first equal element and conditional erase examining each element once in order. An operation that is rejected (wrong element type) changes nothing, and one that is aborted (memory exhaustion, a predicate or visitor that throws) leaves a valid container that can still be used, and destroyed, without leaking.",
  ["histories", "fault_sequences", "inputs"],
  "for every element type (scalars, compounds, strings, nested containers), every operation sequence, and every failure point",
  "The tests apply a few operations to vectors of integers and one nested vector, without failures.",
  ["lang/csupport/containers.cc", "typelib/typemodel.hh", "typelib/value_ops.cc"],
  [("vector operations", "lang/csupport/containers.cc Vector::push, erase, delete_if_impl, setElement, resize, copy, visit"),
   ("string operations", "lang/csupport/containers.cc String")],
  observe=["native decoding of the container after every operation", "sanitised allocator"])

p("C08", "A registry stays closed and consistent through any history of operations",
  "After any sequence of defining, aliasing, deriving, importing, merging, minimising and removing types, with any of them failing (rejected input, conflicting definition, an allocation that fails), every registered name designates exactly one live type, every type is registered under its own name, and every type used by a registered type (field, element, pointed-to) is registered in the same registry and is that very object. Removing a type removes exactly it, everything depending on it, and their names. Destroying the registry releases every type exactly once.",
  ["histories", "fault_sequences"],
  "for every sequence of registry operations, with failures possible at each of them",
  "The tests check single operations on small registries that succeed; none checks the whole registry after a failed operation or a long mixed history.",
  ["typelib/registry.cc", "typelib/typemodel.cc", "typelib/typebuilder.cc", "lang/tlb/import.cc", "lang/csupport/containers.cc"],
  [("registration", "typelib/registry.cc Registry::add, Registry::alias"),
   ("dependent removal", "typelib/registry.cc Registry::remove, reverseDepends"),
   ("merging", "typelib/typemodel.cc Type::merge, do_merge")],
  state=[("name tables", "absolute and relative name to type", "typelib/registry.hh m_global, m_current")],
  observe=["full scan of the registry after every operation", "leak accounting at the end"])

p("C09", "Merging registries is a union that never alters an existing definition",
  "A merge that succeeds leaves the destination with exactly the union of both registries' names (plus the names that these aliases imply for array, pointer and container types), every definition structurally identical to the one it came from, the source unchanged, and the two registries sharing no type; merging the same source again changes nothing. A merge is refused when a name has two different definitions, and neither a refused nor an interrupted merge changes any type the destination already had. Extracting the minimal registry for a type, or for the types that a base registry lacks, yields these types with everything they depend on, identically defined, and nothing else but their aliases.",
  ["inputs", "histories", "fault_sequences"],
  "for every pair of registries (disjoint, overlapping, conflicting), every merge order, and failures at any allocation in the merge",
  "The tests merge two or three hand-written registries; the guarantee is about all overlaps, conflict positions and interruption points.",
  ["typelib/registry.cc", "typelib/typemodel.cc", "lang/csupport/containers.cc"],
  [("merge with definition check", "typelib/typemodel.cc Type::try_merge, Type::merge, do_merge, do_compare"),
   ("registry-level merge", "typelib/registry.cc Registry::merge, Registry::minimal")],
  observe=["structural snapshot of both registries before and after"])

p("C10", "Type name lookup always reflects the history of definitions and aliases",
  "At any point of any history of type definitions, aliases, alias removals, default-namespace changes and refused operations, an absolute name resolves exactly to the type it was last given to and undefined names do not resolve; a relative name resolves within the default namespace or one of the namespaces enclosing it, independently of the order in which types and namespaces were declared. Iterating over a registry yields each name exactly once in the documented order, the aliases reported for a type are exactly those in force, and a refused operation (bad, duplicate or undefined name) changes no resolution.",
  ["histories", "fault_sequences"],
  "for every history of naming operations, including refused ones, and every declaration order",
  "The tests check a few names in one fixed order; agreement between incremental updates and a recomputation, over all orders, is never checked.",
  ["typelib/registry.cc", "typelib/typename.cc", "typelib/registryiterator.hh", "typelib/typemodel.cc"],
  [("incremental relative-name table", "typelib/registry.cc Registry::add"),
   ("recomputed relative-name table", "typelib/registry.cc updateCurrentNameMap, importNamespace"),
   ("derived-name aliases", "typelib/typemodel.cc Indirect::modifiedDependencyAliases")],
  observe=["lookup of every candidate name after every step"])

p("C11", "Saving a registry reports success only if the complete document was stored",
  "Saving a registry in any supported output format to a file or stream either delivers the complete document, or reports the failure (by an exception, or for a caller's stream through the stream's error state), whatever fails underneath: opening, any write, the final flush or the closing of the file. A failed save leaves the registry unchanged, and a later save of it gives the same document as if nothing had failed.",
  ["fault_sequences", "inputs"],
  "for every registry, output format and sequence of open, short-write, write, flush and close failures",
  "No test makes the file system fail; a final flush error can only be seen with an injected fault.",
  ["typelib/exporter.cc", "typelib/pluginmanager.cc", "lang/tlb/export.cc", "lang/idl/export.cc"],
  [("file saving", "typelib/exporter.cc Exporter::save"),
   ("stream saving", "typelib/pluginmanager.cc PluginManager::save")],
  observe=["bytes stored by the simulated disk", "exception or stream state"])

p("C12", "Saving a registry as a type library and loading it back gives the same types",
  "Loading the type-library document of a registry into a fresh registry reproduces every persistent type and alias under the same name with an identical definition (category, size, field names, types and offsets, enumeration symbols and values, container kinds and elements), together with its metadata and source identifiers, however the document is delivered (file, or stream in chunks of any size). Saving the reloaded registry gives the same document again.",
  ["inputs", "fault_sequences"],
  "for every registry of exportable types, including names, metadata and identifiers with characters special to the document syntax, and every chunking or retry of the delivery",
  "The tests round-trip one hand-written registry from a regular file; special characters, empty values and nesting combinations are not covered.",
  ["lang/tlb/export.cc", "lang/tlb/import.cc", "typelib/exporter.cc", "typelib/importer.cc"],
  [("document writer", "lang/tlb/export.cc TlbExportVisitor"),
   ("document reader", "lang/tlb/import.cc Factory, load_*"),
   ("dependency-ordered saving", "typelib/exporter.cc Exporter::save")],
  observe=["structural snapshot of original and reloaded registries"])

p("C13", "A damaged type-library document is refused or loads as consistent types",
  "Importing a type-library document that is truncated, garbled, inconsistent or cut short by a read error terminates and either reports an error or leaves a consistent registry (every type used by another one is registered); a truncated document is always refused. Types that existed before the import keep their definitions, nothing is leaked or corrupted, and the good document still imports correctly afterwards.",
  ["inputs", "fault_sequences"],
  "for every document and every truncation, byte or element damage, read error and allocation failure during import",
  "The tests import one malformed and a few well-formed documents; damage at arbitrary points and read errors never occur in them.",
  ["lang/tlb/import.cc", "lang/tlb/xmltools.hh", "typelib/importer.cc", "typelib/typebuilder.cc", "typelib/registry.cc"],
  [("document reader", "lang/tlb/import.cc TlbImport::load, parse, Factory::build"),
   ("name validation", "typelib/typename.cc isValidTypename, typelib/registry.cc Registry::add")],
  observe=["exception or success", "registry scan", "leak accounting"])

p("C14", "A shared service instance exists exactly while it has clients, on any schedule",
  "Whatever the interleaving of threads acquiring, copying, using and releasing handles on process-wide services such as the plugin manager, at most one instance of each service exists at any time, it is fully constructed before any client can use it, it is the same for all clients that overlap, it is destroyed exactly once after its last client is gone, and a later client gets a fresh one. No schedule leads to a deadlock, a data race or the use of a destroyed instance, and a failure while creating an instance is reported to the client that asked for it and leaves the service usable by others.",
  ["schedules", "fault_sequences"],
  "for every interleaving of client threads at memory-access granularity, and every failure of instance creation",
  "The tests are single-threaded and never let the last client go while another one arrives.",
  ["typelib/utilmm/singleton/server.cc", "typelib/utilmm/singleton/server.hh", "typelib/utilmm/singleton/dummy.cc", "typelib/utilmm/singleton/bits/wrapper.tcc", "typelib/utilmm/singleton/bits/use.tcc", "typelib/pluginmanager.cc"],
  [("reference counting under one lock", "typelib/utilmm/singleton/dummy.cc attach, detach, instance"),
   ("instance table", "typelib/utilmm/singleton/server.cc server::attach, detach")],
  state=[("instance table", "service name to instance", "typelib/utilmm/singleton/server.hh singletons")],
  observe=["constructor and destructor log of instrumented services", "scheduler's race and deadlock detection"])

p("C15", "Independent registries can be used from different threads at the same time",
  "Threads that each create, fill, derive, merge, import and export registries of their own, at the same time, obtain exactly the results they would obtain one after the other, on every interleaving, with no data race on state the library shares behind the scenes. A failure (refused definition, malformed document) in one thread does not affect the others.",
  ["schedules", "histories"],
  "for every interleaving of threads at memory-access granularity, and every mix of per-thread registry operations",
  "The tests are single-threaded.",
  ["typelib/registry.cc", "typelib/pluginmanager.cc", "typelib/typemodel.cc", "lang/csupport/containers.cc", "lang/tlb/import.cc", "lang/tlb/export.cc"],
  [("shared null type", "typelib/registry.cc Registry::null"),
   ("container factories", "typelib/typemodel.cc Container::createContainer, registerContainer"),
   ("shared plugin manager", "typelib/pluginmanager.cc")],
  observe=["per-thread results against the sequential ones", "scheduler's race detection"])

p("C16", "Values of shared types can be processed from different threads at the same time",
  "Threads that concurrently initialise, copy, compare, marshal, load, visit and destroy values of their own whose types they share, or that concurrently read the same value and the same registry, obtain exactly the results they would obtain alone, on every interleaving, with no data race.",
  ["schedules", "inputs"],
  "for every interleaving of threads at memory-access granularity, every type and every mix of value operations",
  "The tests are single-threaded, so hidden shared state in types, layouts or containers cannot show.",
  ["typelib/value_ops.cc", "typelib/memory_layout.cc", "lang/csupport/containers.cc", "typelib/typemodel.cc", "typelib/value.cc"],
  [("const, stateless type descriptions", "typelib/typemodel.cc"),
   ("layouts computed per call", "typelib/memory_layout.hh layout_of"),
   ("container operations without shared scratch state", "lang/csupport/containers.cc")],
  observe=["per-thread results against the sequential ones", "scheduler's race detection"])

p("C17", "Plugin discovery tolerates bad entries and does not depend on directory order",
  "The importers, exporters and container types available after plugin discovery are exactly those of the loadable plugins found in the configured directories, whatever the order in which the file system lists them. A directory that is missing, empty, unreadable or fails while being listed, a file that is not a plugin, and a plugin that cannot be loaded cost only themselves: discovery never fails as a whole and all other plugins work.",
  ["configurations", "fault_sequences"],
  "for every search path, directory content and listing order, and every failure of directory reads and library loads",
  "The tests run with one correct search path whose directories each hold one good plugin.",
  ["typelib/pluginmanager.cc", "typelib/pluginmanager.hh"],
  [("search-path scan", "typelib/pluginmanager.cc PluginManager::PluginManager, loadPluginFromDirectory"),
   ("per-plugin loading", "typelib/pluginmanager.cc loadPlugin")],
  observe=["import, export and container creation after discovery", "exceptions"])

p("C19", "A saved document depends only on the registry's content",
  "Two registries with the same types, aliases, metadata and source identifiers give byte-identical documents in every output format, whatever the order in which they were filled, the addresses at which their types live, the earlier saves (successful or failed) of these or other registries, and the sink used. Saving never changes the registry, and a registry that cannot be saved is refused in the same way every time.",
  ["histories", "configurations", "fault_sequences"],
  "for every registry, fill order, memory placement and history of earlier saves including failed ones",
  "The tests export a fixed registry once and compare it to a fixed text.",
  ["typelib/exporter.cc", "lang/tlb/export.cc", "lang/idl/export.cc", "typelib/registry.cc"],
  [("name-ordered, dependency-ordered saving", "typelib/exporter.cc Exporter::save"),
   ("per-save exporter objects", "typelib/pluginmanager.cc PluginManager::save")],
  observe=["document bytes across runs"])

p("C20", "Resizing types keeps every dependent definition consistent",
  "After any sequence of type resizings in a registry, every resized type has its new size, every compound using a resized type has its following fields shifted by the change and its size adjusted, every array's size is its dimension times its element's size, and all other types are unchanged, in whatever order the types were declared. Values of the resized types can then be created, copied, marshalled and destroyed correctly, and a resizing that names an unknown type is refused without harm.",
  ["histories", "inputs"],
  "for every registry, including types that refer to themselves through pointers, and every sequence of resizings",
  "The tests resize one or two types once in small registries.",
  ["typelib/registry.cc", "typelib/typemodel.cc", "lang/csupport/containers.cc"],
  [("size propagation", "typelib/registry.cc Registry::resize, typelib/typemodel.cc Type::resize, do_resize"),
   ("layout held by vectors", "lang/csupport/containers.cc Vector::element_layout")],
  observe=["structural snapshot against a model", "value operations afterwards"])

p("C21", "Visiting a value reaches every part once, even after aborted visits",
  "Visiting a value calls the visitor exactly once for each scalar, enumeration, opaque and other part of it, in memory order, with the right address and type, including all elements of arrays and containers. A visit that is stopped or that throws at any point neither modifies the value nor affects a later visit with the same visitor.",
  ["inputs", "histories", "fault_sequences"],
  "for every type and value, and every sequence of complete, stopped and aborted visits",
  "The tests visit two fixed structures once.",
  ["typelib/value.cc", "typelib/typevisitor.cc", "typelib/value.hh", "lang/csupport/containers.cc"],
  [("dispatch stack", "typelib/value.cc ValueVisitor::TypeDispatch"),
   ("container element visiting", "lang/csupport/containers.cc Vector::visit, String::visit")],
  observe=["log of visitor calls against the value model"])

# -- properties this technique cannot decide here (not_applicable in MANIFEST.json)
p("C30", "Endianness conversion is its own inverse and converts every field",
  "Converting a value's byte order, in place or through a compiled program, converts every multi-byte scalar it contains, including in nested compounds, arrays and enumerations, and changes no other data; converting twice gives the original value back. A type that cannot be converted is refused with an error, and a compiler object works the same after a refused or interrupted compilation as a fresh one.",
  ["inputs", "histories"], "for every supported type and value, and every history of compilations, refused ones and allocation failures", "The tests convert one fixed structure.",
  ["typelib/endianness.cc", "typelib/endian_swap.hh"],
  [("compiled swap table", "typelib/endianness.cc CompileEndianSwapVisitor")])
p("C31", "Type name validation and decomposition agree with each other",
  "Every name accepted as a type name can be split into namespace and base name and rebuilt into the same name, and names that could not be are refused.",
  ["inputs"], "for every string", "The tests try a fixed list of names.",
  ["typelib/typename.cc", "typelib/typename.hh"],
  [("name parsing", "typelib/typename.cc isValidTypename, splitTypename, getNamespace, getTypename")])
p("C32", "Typed access to a value is granted only for a compatible C++ type",
  "Casting a value to a C++ type succeeds only if the value's type has the same category, signedness and size, and then gives exactly the stored datum.",
  ["inputs"], "for every value type and every C++ scalar type", "The tests cast a few scalars.",
  ["typelib/value_cast.hh", "typelib/value.hh"],
  [("cast visitor", "typelib/value_cast.hh CastVisitor")])
p("C33", "An IDL document declares every type as it is, before it is used",
  "In an exported IDL document every type name that is used has been declared earlier in the document, in the namespace under which it is used; nothing is declared twice, and every compound, enumeration and alias is declared: compounds with their fields in order, with the IDL types and array dimensions that stand for theirs (larger types as byte sequences, if so asked), enumerations with their symbols, aliases as definitions of their type. A registry that IDL cannot express (pointers, arrays of arrays, containers of arrays, aliases that have the name of a generated sequence; opaque types unless they are to be exported as any) is refused, and only such a registry is.",
  ["inputs", "fault_sequences"], "for every registry, set of options and history of failed exports", "The tests compare the export of one registry to a fixed text.",
  ["lang/idl/export.cc", "typelib/exporter.cc"],
  [("IDL writer", "lang/idl/export.cc IDLExportVisitor")])
p("C34", "CSV display lists one column per scalar, aligned with its header",
  "The CSV header and every CSV line of a value of a type without variable-size containers have one column per scalar, in the same order, showing its value; an output that could not be written completely leaves the stream in a failed state and does not affect later lines.",
  ["inputs", "fault_sequences"], "for every such type and value, and every failure of the stream or of an allocation", "The tests print one structure.",
  ["typelib/csvoutput.cc", "typelib/csvoutput.hh"],
  [("CSV visitors", "typelib/csvoutput.cc HeaderVisitor, LineVisitor")])
p("C35", "Importing C++ headers yields the types that the headers define",
  "Importing C++ headers through castxml or gccxml adds exactly the representable types and typedefs that the given headers define, and the types these are made of: every record with the size, the fields (those of base classes included), types and offsets the compiler reports, every enum with its size and values, every typedef as an alias, with names, source locations, documentation and base classes as metadata. What Typelib cannot represent (bitfields, unions, virtual or private parts, open arrays, pointers to templates...) is left out together with what depends on it, and never makes the import fail, nor imports a type with another layout. Types that were in the registry before stay as they were.",
  ["inputs", "programs"], "for every set of headers, whatever they define, and every way their definitions are reported",
  "The tests compare a fixed set of headers, and need a compiler that is not always installed.",
  ["bindings/ruby/lib/typelib/gccxml.rb", "bindings/ruby/lib/typelib/cxx.rb", "tools/typelib-clang-tlb-importer"],
  [("reader of the compiler's reports", "bindings/ruby/lib/typelib/gccxml.rb"),
   ("names of templates", "bindings/ruby/lib/typelib/cxx.rb"),
   ("registry construction from Ruby", "bindings/ruby/lib/typelib/registry.rb, bindings/ruby/ext/registry.cc")])
p("C36", "Ruby value wrappers keep alive the memory they refer to",
  "A Ruby object that designates a value, a field or an element keeps the underlying memory and registry alive for as long as it is reachable, on every garbage-collection schedule, and reads and writes the current content of its place; if that place is gone (an element removed or moved by its container), using it raises a Ruby exception and touches no memory. Memory that no Ruby object designates any more is given up.",
  ["schedules", "histories"], "for every garbage-collection schedule and sequence of Ruby operations",
  "The Ruby tests do not control when the garbage collector runs.",
  ["bindings/ruby/ext", "bindings/ruby/lib/typelib"],
  [("memory zones and dependencies between wrappers", "bindings/ruby/ext/memory.cc, bindings/ruby/ext/value.cc, bindings/ruby/lib/typelib/type.rb"),
   ("wrapped types and their registry", "bindings/ruby/ext/registry.cc, bindings/ruby/ext/value.cc"),
   ("invalidation of element handles", "bindings/ruby/ext/specialized_types.cc, bindings/ruby/lib/typelib/container_type.rb")])

p("C37", "Ruby operations that cannot be done raise, and leave values and types intact",
  "Any operation of the Ruby bindings that is asked for something impossible (unknown, foreign or ill-formed types and definitions, indices out of range, buffers of the wrong size, incompatible casts and copies, handles that are gone) or that runs out of memory in C++ code raises a Ruby exception: the process never terminates, no memory is accessed out of bounds, the registry keeps exactly its types (a merge that fails may have added some of its source's), and all values keep their content, except for the target of an interrupted assignment or load, which remains a valid value.",
  ["inputs", "faults", "histories"], "for every invalid request, every point at which an allocation fails, and every history around them",
  "The Ruby tests check a few refusals and no allocation failure.",
  ["bindings/ruby/ext", "bindings/ruby/lib/typelib"],
  [("translation of C++ exceptions", "bindings/ruby/ext/typelib_ruby.hh, bindings/ruby/ext/typelib_ruby.cc"),
   ("definition of types from Ruby", "bindings/ruby/ext/registry.cc"),
   ("checks of arguments", "bindings/ruby/ext/value.cc, bindings/ruby/ext/specialized_types.cc, bindings/ruby/ext/convert.cc")])

p("C38", "A C++ import in parallel ends, as one in sequence or with an exception",
  "Importing several headers in parallel gives the same registry as importing them one by one, on every schedule of its threads. If a compiler cannot be started, fails, is killed or delivers nothing or only a part of its output, if a thread cannot be created, or if headers contradict each other, the import raises that error and adds nothing (types of a consistent part in case of a contradiction); it never hangs and never succeeds with types missing. It runs no more compilers than it holds tokens of the job server, and when it is over, no thread of it is left and all the tokens are given back.",
  ["schedules", "faults", "inputs"], "for every schedule of the threads, every failure of external programs, and every state of the job server",
  "The tests neither run imports in parallel nor make a compiler fail.",
  ["bindings/ruby/lib/typelib/gccxml.rb", "bindings/ruby/lib/typelib/cxx.rb"],
  [("threads and queues of the import", "bindings/ruby/lib/typelib/gccxml.rb"),
   ("calls of the compilers, preprocessing", "bindings/ruby/lib/typelib/gccxml.rb"),
   ("merge of the results", "bindings/ruby/ext/registry.cc, typelib/registry.cc")])

p("C39", "Ruby registries show the whole type set, and edit it all or not at all",
  "A registry used from Ruby always holds exactly the types, aliases and metadata that the operations so far define: every definition syntax (creation blocks, names, classes, derived type names) has the same effect as defining that type directly; enumeration, lookup, dependency and alias queries, type introspection, comparisons, textual forms and access through a Ruby module agree with that set; a type keeps its class for as long as it is registered. Removing a type removes what depends on it and nothing else, and its class and values remain usable. Copies, minimal registries, merges and XML round trips hold what they should, and the originals are unaffected. An operation that fails because memory or the interpreter gives out leaves the registry as before it or as after it.",
  ["histories", "inputs", "fault_sequences"], "for every history of registry operations from Ruby, every point at which an allocation fails, and every schedule of garbage collections",
  "The tests run each operation once on registries of two or three types, without failures or collections.",
  ["bindings/ruby/ext/registry.cc", "bindings/ruby/ext/metadata.cc", "bindings/ruby/lib/typelib/registry.rb", "bindings/ruby/lib/typelib/registry_export.rb", "bindings/ruby/lib/typelib/type.rb"],
  [("definition, removal and enumeration", "bindings/ruby/ext/registry.cc, bindings/ruby/lib/typelib/registry.rb"),
   ("classes of the types", "bindings/ruby/ext/value.cc type_to_class, specialized classes under bindings/ruby/lib/typelib"),
   ("access through modules", "bindings/ruby/lib/typelib/registry_export.rb")],
  observe=["what each method returns", "the whole registry after each operation, against a model"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
