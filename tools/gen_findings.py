#!/usr/bin/env python3
"""Writes /verif/known_findings.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = []
FIXED = {  # commit subject -> (property, what failed)
 "fix: loading an empty container must empty the target": ("C05", "loading an image with an empty container into a destination whose container was not empty kept the old elements"),
 "fix: report failing writes when dumping to a FILE": ("C01", "a dump to a FILE whose device is full or failing reported success"),
 "fix: refuse vector sizes that overflow the byte count": ("C04", "a corrupt element count wrapped the byte count around: heap overflow, values with fractional element counts"),
 "fix: make the growth of vectors exception-safe": ("C06", "an allocation failure while a vector of non-trivial elements grew leaked the copies and destroyed elements twice"),
 "fix: allow pushing one of a vector's own elements into it": ("C07", "pushing an element of a vector into the same vector read freed memory after reallocation"),
 "fix: implement the removal of elements from strings": ("C07", "erase() never found and delete_if() never removed anything in /std/string"),
 "fix: make Registry::isSame compare all the types of the two registries": ("C09", "isSame reported registries with different contents as the same"),
 "fix: resolve relative names independently of the declaration order": ("C10", "a relative name resolved differently depending on the order in which types and namespaces were declared, and a refused definition could leave the name tables inconsistent"),
 "fix: do not leave dangling types behind when a merge fails": ("C08", "a merge interrupted by memory exhaustion left registered types whose dependencies had been destroyed"),
 "fix: do not leak types whose registration is refused": ("C08", "type objects whose registration was refused were leaked"),
 "fix: do not allocate memory when releasing a singleton": ("C08", "releasing the plugin manager when memory is exhausted terminated the process"),
 "fix: do not leak a singleton that could not be registered": ("C14", "an instance whose registration failed was leaked"),
 "fix: keep the singleton server valid while a service is destroyed": ("C14", "a service whose destructor released the last other service made the server read freed memory"),
 "fix: do not truncate array names when an allocation fails": ("C10", "building /T[2] returned /T when memory ran out"),
 "fix: simplify arrays of empty types correctly": ("C09", "an array of an empty type corrupted the layout, or made it fail with length_error"),
 "fix: refuse to resize an unknown type": ("C20", "resizing an unknown type dereferenced a null pointer after having changed other types"),
 "fix: do not follow pointers when resizing types": ("C20", "resizing recursed without end through a self-referential type, and changed the size of pointers"),
 "fix: shift fields only once when resizings compensate each other": ("C20", "the fields of a compound whose parts' size changes add up to zero were shifted several times"),
 "fix: shift the fields of a compound that is resized with one of its parts": ("C20", "resizing a compound together with the type of one of its fields left the following fields at their old offsets"),
 "fix: update the layout of vector elements when types are resized": ("C20", "vectors of a resized type used the old layout of their elements"),
 "fix: accept pointers and opaques inside arrays and containers in layouts": ("C06", "comparing values of a type with an array of pointers was refused"),
 "fix: report errors when closing the file a registry is saved to": ("C11", "a save whose last flush or close failed (full disk) reported success"),
 "fix: escape all the names and texts saved in type libraries": ("C12", "names, sources and metadata with markup characters gave documents that could not be read back"),
 "fix: save metadata values which a CDATA block cannot hold": ("C12", "metadata values with ']]>', carriage returns or no text were not read back as saved"),
 "fix: do not resize existing containers when importing a type library": ("C13", "importing a document with a container of another size resized the container type shared by the existing types"),
 "fix: keep the source identifiers of containers in type libraries": ("C12", "source identifiers of containers were lost"),
 "fix: keep the size of resized enums in type libraries": ("C12", "an enum that had been resized was read back with its original size"),
 "fix: refuse type libraries using derived types that cannot be built": ("C13", "a document using a derived type that cannot be built dereferenced a null pointer"),
 "fix: report allocation failures while formatting a registry": ("C11", "memory exhaustion while a document was formatted gave a truncated document reported as complete"),
 "fix: make IDL documents independent of what the exporter saved before": ("C19", "an IDL document contained leftovers of the exporter's earlier (failed) saves"),
 "fix: do not leak attribute values when memory runs out": ("C13", "an allocation failure during an import leaked libxml2 strings"),
 "fix: make the order of a saved document independent of temporary types": ("C19", "the order of the types in a document depended on array and pointer types that had been used temporarily"),
 "fix: reject malformed array dimensions and accept the ones beyond INT_MAX": ("C10", "T[2147483648] resolved to a type of another dimension, T[x] to T[0]"),
 "fix: do not write to the container table when plugins get reloaded": ("C15", "creating a registry in one thread raced with creating a container in another (container table rewritten at each plugin reload)"),
 "fix: keep the singleton server while a service under construction uses it": ("C14", "a service that acquired and released another one in its constructor, while no other existed, had the server deleted under it (use of freed memory)"),
 "fix: handle padding of nested compounds and the size of enums when compiling byte swaps": ("C16", "swapping the byte order of a 1-byte enum wrote 4 bytes (out of bounds); data after the padding of a nested compound was misplaced"),
 "fix: do not refuse aliases whose derived names are not valid": ("C10", "an alias was refused half-way, leaving inconsistent names, when a derived name would be invalid"),
 "fix: opaque values were left out of CSV lines": ("C34", "a line of a type with opaque fields had fewer columns than the header"),
 "fix: Endian::from_network could not be instantiated": ("C30", "using Endian::from_network did not compile"),
 "fix: compiling the byte swap of an array of dimension zero used an uninitialized range": ("C30", "compiling the conversion of a type with an array of arrays of dimension zero crashed"),
 "fix: IDL export wrote containers of arrays as containers of an undefined type": ("C33", "a container of arrays was exported with an element type that is not declared"),
 "fix: IDL export wrote integers of unsupported sizes without a type": ("C33", "an integer of 3 or 16 bytes was exported without a type name"),
 "fix: IDL export declared enums under a name that is not the one it refers to": ("C33", "an enum with a name that needs conversion was declared and used under different names"),
 "fix: IDL export declared the blobs under names that are not the ones it refers to": ("C33", "types replaced by blobs were declared and used under different names"),
 "fix: plugins leaked when the plugin manager cannot be constructed": ("C17", "plugins leaked when discovery fails midway"),
 "fix: missing directories in the plugin path are not fatal, and libraries load in a fixed order": ("C17", "a missing directory or empty entry in the search path made all plugins unavailable; which of two plugins with the same name is used depended on the listing order"),
 "fix: a plugin library found twice got registered twice": ("C17", "a library reachable in two ways registered its types twice: definitions refused"),
 "fix: plugins leaked when the manager already has one with that name": ("C17", "a plugin with a name that is taken was leaked"),
 "fix: vectors of elements with padding could not be marshalled without their padding": ("C01", "with a layout that leaves the padding out (merge_skip_copy=false), vectors whose elements have padding were dumped and loaded with it, so that the image was wrong"),
 "fix: Ruby memory zones that the collector has not finalised yet got reused": ("C36", "a memory zone that the collector had found dead but not finalised yet was given to a new value at the same address, and then given up under it"),
 "fix: Typelib::CXXRegistry cannot be instantiated when its class is created before the allocator is known": ("C36", "Typelib::CXXRegistry.new raised TypeError"),
 "fix: large unsigned integers converted wrongly between Ruby and Typelib": ("C36", "unsigned integers beyond the signed range were read as other values, or could not be assigned"),
 "fix: C++ exceptions thrown in the Ruby bindings' methods terminated the interpreter": ("C37", "C++ exceptions left the bindings' methods through C frames: the interpreter died"),
 "fix: Ruby metadata objects did not keep their registry alive": ("C36", "a metadata object used after its registry was collected read freed memory"),
 "fix: Ruby values outlive the types that were removed from their registry": ("C36", "values of types removed from their registry read freed type descriptions"),
 "fix: serialising an invalidated Ruby value with options raised ArgumentError": ("C36", "to_byte_array with options on an invalidated value raised ArgumentError instead of TypeError"),
 "fix: removing elements of a vector while iterating on it from Ruby read freed memory": ("C36", "a block that modified the vector it iterates on made the iteration read freed elements"),
 "fix: using an invalidated Ruby value dereferenced a null pointer": ("C36", "passing an invalidated value to another one's methods crashed"),
 "fix: Ruby values lost assignments to converted fields, and kept handles on reallocated elements": ("C36", "assignments to converted fields of elements of arrays and vectors were lost; handles on elements deleted by zero! or an element assignment read freed memory"),
 "fix: converting a Ruby string to char* or to an empty array wrote out of bounds": ("C36", "assigning a Ruby string to an array of characters of dimension zero wrote out of bounds"),
 "fix: non-ASCII Ruby strings were truncated when converted to /std/string": ("C36", "Ruby strings with multi-byte characters lost their last bytes when assigned to /std/string"),
 "fix: modifying a Ruby registry while enumerating its types crashed or never ended": ("C37", "a block that modified the registry it enumerates crashed the program or never ended"),
 "fix: Ruby registries accepted types of other registries, which may be deleted before them": ("C37", "a compound or container could be defined over a type of another registry, which was freed under it"),
 "fix: types which are refused by a Ruby registry were leaked": ("C37", "types whose definition was refused were leaked"),
 "fix: allocation failures while creating Ruby objects terminated the process": ("C37", "a C++ allocation failure while Ruby objects were created left a C frame: the interpreter died"),
 "fix: low-level accessors of Ruby containers accessed elements out of bounds": ("C36", "raw_get and do_set of vectors accessed elements behind the end and before the start"),
 "fix: vector.raw_memcpy left handles on the elements it reallocates valid": ("C36", "handles on elements reallocated by raw_memcpy read freed memory"),
 "fix: Ruby values created after a resize could be initialized with the layout of the previous size": ("C36", "a value created after its type was resized was initialised with the cached layout of the previous size (out of bounds)"),
 "fix: allocation failures while creating Ruby values leaked or corrupted their memory": ("C37", "an allocation failure while a value is created or dropped leaked memory or read uninitialised memory"),
 "fix: marshalling an empty Ruby value dereferenced an empty buffer": ("C36", "marshalling a value whose image is empty dereferenced an empty vector"),
 "fix: vector.push left an additional element if copying its argument failed": ("C37", "a push whose copy ran out of memory left an additional element in the vector"),
 "fix: pointers to invalidated Ruby values could still be created": ("C37", "to_ptr and similar methods accepted handles on elements that are gone"),
 "fix: enums which do not have the size of an int were accessed out of their bounds": ("C21", "visiting an enum of 1 or 2 bytes read 4 bytes"),
 "fix: Ruby type definitions with negative sizes or fields outside of their compound were accepted": ("C37", "a compound smaller than its fields, or types of negative sizes, could be defined from Ruby: values accessed out of bounds"),
 "fix: reading a negative index of a Ruby array returned an element if it had been read before": ("C37", "the refusal of a negative array index depended on which elements had been read before"),
 "fix: the size of enums was not imported from C++ headers": ("C35", "enums of 1, 2 or 8 bytes were imported with 4 bytes"),
 "fix: attributes of the compiler's output with an equal sign or escaped quotes were damaged": ("C35", "nothing was imported from files with = or quotes in their path"),
 "fix: typedefs of fundamental types were imported only if something else used the fundamental type": ("C35", "typedef bool foo_t was lost if no imported type had a bool"),
 "fix: headers in directories with a colon in their names could not be imported": ("C35", "ArgumentError for a path with a colon"),
 "fix: compounds with bitfields were imported with fields at wrong offsets": ("C35", "int a:1 was imported as an int at the offset of its byte, TypeError for unnamed bitfields"),
 "fix: pointers to templates, or to types being defined, aborted the import of C++ headers": ("C35", "struct Foo { Foo* next; } raised NotFound"),
 "fix: arrays without dimensions aborted the import of C++ headers": ("C35", "char data[] raised"),
 "fix: constant templates, containers and arrays aborted the import of C++ headers": ("C35", "a field const Foo<int> raised"),
 "fix: types defined within unions or functions aborted the import of C++ headers": ("C35", "NoMethodError for types nested in unions"),
 "fix: base classes that are not compounds aborted the import of C++ headers": ("C35", "NoMethodError for classes derived from std::vector or from opaque types"),
 "fix: compounds with fields of the same name as a field of a base class were imported": ("C35", "a compound with two fields of the same name"),
 "fix: empty enums and enums with values beyond the range of int aborted the import of C++ headers": ("C35", "an exception for enum { A = 0xffffffff }"),
 "fix: opaques that are templates were defined again as compounds by the C++ importer": ("C35", "an opaque named /Foo</int32_t> was not recognised"),
 "fix: containers with elements that cannot be represented aborted the import of C++ headers": ("C35", "internal error for std::vector<void*>; std::vector<bool> imported with a wrong size"),
 "fix: the C++ importer took types for others of the same name in different namespaces": ("C35", "an opaque /Image took the place of a typedef /ns/Image"),
 "fix: type names that contain 0x0 were damaged by the C++ importer": ("C35", "Frame0x01 was imported as Frame1"),
 "fix: types defined on the first line of a header got the comment at its end as documentation": ("C35", "lines[-1] is the last line"),
 "fix: headers that are not encoded in UTF-8 could not be imported": ("C35", "ArgumentError for Latin-1 comments"),
 "fix: failures of gccxml were reported as a NameError": ("C38", "undefined variable in the error message"),
 "fix: incomplete output of the compiler was imported": ("C38", "a truncated report was imported as if complete"),
 "fix: parallel C++ imports that failed left threads behind, or never ended": ("C38", "the import raised while its threads were running with tokens of the job server, or waited for ever for one of them"),
 "fix: look up relaxed names in the namespace they are asked for": ("C39", "Types::Ns::SomeType was not found once another namespace had been searched"),
 "fix: do not take a namespace for a type called like the module": ("C39", "Types.ns, then Types.Types, gave the namespace ns"),
 "fix: find the types inside a type that was reached through an alias": ("C39", "Types.ns.A.Child was not found after Types.AliasOfA"),
 "fix: make Registry#export_to_ruby work on plain modules": ("C39", "SystemStackError"),
 "fix: give access to converted types inside of converted types": ("C39", "NoMethodError for DelegateClass"),
 "fix: leave the registry as it was if aliases or namespaces cannot be changed": ("C10", "after a failed allocation in clearAliases, names that are not enumerated were still found"),
 "fix: show the types that a removed type was hiding": ("C10", "T was undefined in namespace /A once /A/T was removed, although /T exists"),
 "fix: do not take null types for any type of the same name": ("C09", "a registry with a compound /T was merged into one with a null type /T, which stayed"),
 "fix: do not move fields that share memory out of their compound when resizing": ("C20", "fields of unions got negative offsets when types were made smaller"),
    "fix: nested option hashes of Registry#import and #export crashed the interpreter": ("C39", "an option that is itself a hash was passed on as a list of strings and read as a configuration set: the interpreter crashed"),
    "fix: releasing a registry while memory is exhausted ended the process": ("C37", "Registry::clear(), called by the destructor, allocated copies of the names: std::terminate when an operation that had run out of memory released its registry"),
    "fix: IDL typedefs could have the name of a sequence that is exported after them": ("C33", "an alias with a generated name (/T/vector__A_T_) was declared twice if the exporter met it before the container"),
    "fix: keep the kind and the source of aliases in Registry::minimal": ("C39", "Registry::minimal turned derived aliases into persistent ones without their source: an export of the registry they were added to could not be loaded again"),
}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s in FIXED:
        fixed.append("fixed: property=%s %s %s" % (FIXED[s][0], h, FIXED[s][1]))
    elif s.startswith("fix:"):
        print("unlisted fix:", l)
json.dump({"known": KNOWN, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
open(os.path.join(V, "known_findings.json"), "a").write("\n")
