# planted bugs, third batch (Ruby bindings and C++ importer): see seeds1.py
RB = "bindings/ruby/lib/typelib/"
EXT = "bindings/ruby/ext/"
GX = RB + "gccxml.rb"

CASTXML = r'''
#!/usr/bin/env ruby
# stand-in for castxml: prints the report that lies beside the header
exit 1 if ARGV.last =~ /broken/
STDOUT.write(File.read(ARGV.last + ".xml"))
'''

HEAD = r'''
require 'typelib'
require 'timeout'
def report(header, rows)
    File.write(header + ".xml", "<?xml version=\"1.0\"?>\n<GCC_XML version=\"0.9.0\">\n" + rows.join("\n") + "\n</GCC_XML>\n")
end
STD = ['  <Namespace id="_1" name="::" members=""/>',
       '  <FundamentalType id="_2" name="int" size="32" align="32"/>',
       '  <FundamentalType id="_3" name="double" size="64" align="64"/>',
       '  <FundamentalType id="_4" name="char" size="8" align="8"/>']
def check(what) ; (STDERR.puts(what); exit 1) unless yield ; end
def registry
    r = Typelib::Registry.new
    Typelib::Registry.add_standard_cxx_types(r)
    r
end
def import(r, *files, **opts)
    Typelib::GCCXMLLoader.load(r, nil, 'c', required_files: files, castxml: true, **opts)
end
'''

rbug("C35-second-base-class", "C35", [(GX, "c.add(name, type, base_offset + offset)", "c.add(name, type, offset)")],
"a class with more than one base class",
"the fields of the second base class are imported at the offsets they have in that class alone, i.e. over those of the first", HEAD + r'''
h = File.join(Dir.pwd, "two.hpp")
File.write(h, "struct A {\n int a;\n int c;\n};\nstruct B {\n int b;\n};\nstruct C : A, B {\n int d;\n};\n")
report(h, STD + [%{  <File id="f1" name="#{h}"/>},
 '  <Struct id="_5" name="A" context="_1" access="public" file="f1" line="1" members="_6 _7" size="64" align="32"/>',
 '  <Field id="_6" name="a" type="_2" context="_5" access="public" file="f1" line="2" offset="0"/>',
 '  <Field id="_7" name="c" type="_2" context="_5" access="public" file="f1" line="3" offset="32"/>',
 '  <Struct id="_8" name="B" context="_1" access="public" file="f1" line="5" members="_9" size="32" align="32"/>',
 '  <Field id="_9" name="b" type="_2" context="_8" access="public" file="f1" line="6" offset="0"/>',
 '  <Struct id="_10" name="C" context="_1" access="public" file="f1" line="8" members="_11" size="128" align="32">',
 '    <Base type="_5" access="public" virtual="0" offset="0"/>',
 '    <Base type="_8" access="public" virtual="0" offset="8"/>',
 '  </Struct>',
 '  <Field id="_11" name="d" type="_2" context="_10" access="public" file="f1" line="9" offset="96"/>'])
r = registry
import(r, h)
c = r.get('/C')
check("offsets") { %w{a c b d}.map { |f| c.offset_of(f) } == [0, 4, 8, 12] }
check("size") { c.size == 16 }
''', CASTXML)

rbug("C35-real-file-name", "C35", [(GX, 'attributes["name"] = File.expand_path(attributes["name"])', 'attributes["name"] = File.realpath(attributes["name"])')],
"a header, or its directory, that is reached through a symbolic link",
"the header is not recognized as the one that was asked for, and its types are silently not imported", HEAD + r'''
Dir.mkdir("real"); File.symlink("real", "link")
h = File.join(Dir.pwd, "link", "one.hpp")
File.write(h, "struct A {\n int a;\n};\n")
report(h, STD + [%{  <File id="f1" name="#{h}"/>},
 '  <Struct id="_5" name="A" context="_1" access="public" file="f1" line="1" members="_6" size="32" align="32"/>',
 '  <Field id="_6" name="a" type="_2" context="_5" access="public" file="f1" line="2" offset="0"/>'])
r = registry
import(r, h)
check("A is missing") { r.include?('/A') }
''', CASTXML)

rbug("C35-bracket-far-below", "C35", [(GX, r"""                while line >= 0 && content[line - 1] =~ /^\s*{?\s*$/
                    line = line - 1
                end
""", r"""                line -= 1 if content[line - 1] =~ /^\s*{?\s*$/
""")],
"a definition whose opening bracket lies more than one line below its name, as gccxml reports the line of the bracket",
"the recorded location is an empty line, and the documentation above the definition is not found", HEAD + r'''
h = File.join(Dir.pwd, "one.hpp")
File.write(h, "// what A is\nstruct A\n\n\n{\n int a;\n};\n")
report(h, STD + [%{  <File id="f1" name="#{h}"/>},
 '  <Struct id="_5" name="A" context="_1" access="public" file="f1" line="5" members="_6" size="32" align="32"/>',
 '  <Field id="_6" name="a" type="_2" context="_5" access="public" file="f1" line="6" offset="0"/>'])
r = registry
import(r, h)
md = r.get('/A').metadata
check("line #{md.get('source_file_line')}") { md.get('source_file_line') == ["#{File.realpath(h)}:2"] }
check("doc #{md.get('doc')}") { md.get('doc').map(&:strip) == ["what A is"] }
''', CASTXML)

rbug("C35-members-of-the-first-base-only", "C35", [(GX, """                        base_type.each_field do |name, _|
                            base_type.field_metadata[name].get('source_file_line').each do |file_line|
""", """                        base_type.each_field.first(1).each do |name, _|
                            base_type.field_metadata[name].get('source_file_line').each do |file_line|
""")],
"a class whose base class has more than one field",
"only the first field that a class has from a base class gets its source location", HEAD + r'''
h = File.join(Dir.pwd, "two.hpp")
File.write(h, "struct A {\n int a;\n int c;\n};\nstruct C : A {\n int d;\n};\n")
report(h, STD + [%{  <File id="f1" name="#{h}"/>},
 '  <Struct id="_5" name="A" context="_1" access="public" file="f1" line="1" members="_6 _7" size="64" align="32"/>',
 '  <Field id="_6" name="a" type="_2" context="_5" access="public" file="f1" line="2" offset="0"/>',
 '  <Field id="_7" name="c" type="_2" context="_5" access="public" file="f1" line="3" offset="32"/>',
 '  <Struct id="_10" name="C" context="_1" access="public" file="f1" line="5" members="_11" size="96" align="32">',
 '    <Base type="_5" access="public" virtual="0" offset="0"/>',
 '  </Struct>',
 '  <Field id="_11" name="d" type="_2" context="_10" access="public" file="f1" line="6" offset="64"/>'])
r = registry
import(r, h)
md = r.get('/C').field_metadata
check("c #{md['c'].get('source_file_line')}") { md['c'].get('source_file_line') == ["#{h}:3"] }
''', CASTXML)

rbug("C38-bounded-reports", "C38", [(GX, "            xml_queue = Queue.new\n", "            # Do not accumulate reports, they are big\n            xml_queue = parallel_level > 1 ? SizedQueue.new(parallel_level) : Queue.new\n")],
"a parallel import in which a report cannot be understood while several others are still to come",
"nothing reads the reports any more: the compiler threads block forever and the import never returns", HEAD + r'''
files = (0...8).map do |i|
    h = File.join(Dir.pwd, "h#{i}.hpp")
    File.write(h, "struct A#{i} {\n int a;\n};\n")
    report(h, STD + [%{  <File id="f1" name="#{h}"/>},
     %{  <Struct id="_5" name="A#{i}" context="_1" access="public" file="f1" line="1" members="_6" size="32" align="32"/>},
     '  <Field id="_6" name="a" type="_2" context="_5" access="public" file="f1" line="2" offset="0"/>'])
    h
end
r = registry
import(r, *files, parallel_level: 3)
check("types") { (0...8).all? { |i| r.include?("/A#{i}") } }
File.write(files[0] + ".xml", "nothing\n")
File.write(files[1] + ".xml", "nothing\n")
r = registry
Timeout.timeout(30) do
    begin
        import(r, *files, parallel_level: 3)
        check("accepted") { false }
    rescue RuntimeError => e
        check("other error #{e}") { e.message =~ /GCCXML output/ }
    end
end
''', CASTXML)

rbug("C38-token-kept-on-failure", "C38", [(GX, """                ensure
                    job_server.get
                end
""", """                ensure
                    job_server.get unless $ERROR_INFO
                end
""")],
"a parallel import that fails",
"the import returns to its caller without the token that it had given back to the job server: from then on, one job too many runs", HEAD + r'''
class Server
    attr_reader :tokens
    def initialize(n); @tokens = n; @m = Mutex.new; @c = ConditionVariable.new end
    def get
        @m.synchronize { @c.wait(@m) while @tokens == 0; @tokens -= 1 }
        return unless block_given?
        begin yield
        ensure put
        end
    end
    def put; @m.synchronize { @tokens += 1; @c.signal } end
end
s = Server.new(2)
files = %w{a broken c}.map { |n| h = File.join(Dir.pwd, n + ".hpp"); File.write(h, ""); report(h, STD + [%{  <File id="f1" name="#{h}"/>}]); h }
import(registry, files[0], files[2], parallel_level: 3, job_server: s)
check("tokens after a success: #{s.tokens}") { s.tokens == 2 }
failed = begin
    import(registry, *files, parallel_level: 3, job_server: s)
    false
rescue ArgumentError then true
end
check("did not fail") { failed }
check("tokens after a failure: #{s.tokens}") { s.tokens == 2 }
''', CASTXML)

rbug("C38-compiler-error-lost", "C38", [(GX, """            in_queue.clear
            out_queue.clear
            raise
        end

        def self.registry_thread(""", """            in_queue.clear
            out_queue.clear
            out_queue.push(nil) # the registry thread does not have to go on
            raise if Thread.current == Thread.main
        end

        def self.registry_thread(""")],
"a compiler that fails in a parallel import",
"the error is swallowed: the import succeeds with only a part of the types", HEAD + r'''
files = %w{a broken c}.map { |n| h = File.join(Dir.pwd, n + ".hpp"); File.write(h, ""); report(h, STD + [%{  <File id="f1" name="#{h}"/>}]); h }
[1, 3].each do |level|
    failed = begin
        import(registry, *files, parallel_level: level)
        false
    rescue ArgumentError then true
    end
    check("did not fail (#{level})") { failed }
end
''', CASTXML)

rbug("C36-unknown-element-among-known", "C36", [(RB + "container_type.rb", """                while @elements.size > self.size
                    if el = @elements.pop
                        el.invalidate
                    end
                end
""", """                while @elements.size > self.size && (el = @elements.pop)
                    el.invalidate
                end
""")],
"a container that shrinks without moving its elements, when the last elements that are known to Ruby are separated by unknown ones",
"handles on elements that are gone stay usable and give access to memory that is not theirs any more", HEAD + r'''
r = registry
s = r.create_compound('/S') { |c| c.add('a', '/int32_t'); c.add('b', '/double') }
v = r.create_container('/std/vector', '/S').new
8.times { |i| e = s.new; e.a = i; e.b = i; v << e }
first, third, last = v.raw_get(1), v.raw_get(3), v.raw_get(7)
check("values") { [first.a, third.a, last.a] == [1, 3, 7] }
count = 0
v.delete_if { |e| (count += 1) > 2 }
check("size") { v.size == 2 }
check("first") { first.a == 1 }
[last, third].each do |h|
    gone = begin
        h.a
        false
    rescue TypeError then true
    end
    check("a handle on a removed element is usable") { gone }
end
''')

rbug("C36-root-never-released", "C36", [(EXT + "memory.cc", """    if (entry->owned)
        memory_delete(ptr);
    if (entry->root_ptr)
        memory_unref(entry->root_ptr);
""", """    if (entry->owned)
        memory_delete(ptr);
    else if (entry->root_ptr && memory_types.find(ptr) != memory_types.end())
        memory_unref(entry->root_ptr);
""")],
"a value a field of which has been accessed",
"the memory of the value is never given up", HEAD + r'''
r = registry
r.create_compound('/S') { |c| c.add('x', '/int32_t'); c.add('y', '/int32_t') }
s = r.create_compound('/T') { |c| c.add('a', '/int32_t'); c.add('b', '/S') }
def use(s, count)
    count.times { v = s.new; v.raw_get('b').x = 1; v = nil }
end
use(s, 20); GC.start
before = Typelib::MemoryZone.table_size
use(s, 2000)
3.times { use(s, 1); GC.start }
after = Typelib::MemoryZone.table_size
check("#{before} zones before, #{after} after") { after < before + 500 }
''')

rbug("C36-zone-destroyed-by-any-owner", "C36", [(EXT + "memory.cc", """    --(entry->refcount);
    if (entry->refcount)
        return;
""", """    if (entry->refcount > 1 && !entry->owned)
    {
        --(entry->refcount);
        return;
    }
""")],
"two wrappers of the same value (a cast), one of which is collected before the other",
"the memory goes away with the first of its wrappers", HEAD + r'''
r = registry
s = r.create_compound('/S') { |c| c.add('x', '/int32_t'); c.add('y', '/int32_t') }
t = r.create_compound('/T') { |c| c.add('x', '/int32_t'); c.add('y', '/int32_t') }
values = (0...200).map { |i| v = s.new; v.x = i; v }
def look(values, t)
    values.each_with_index { |v, i| check("cast") { v.cast(t).x == i } }
end
look(values, t)
3.times { GC.start }
count = Typelib::MemoryZone.table_size
check("#{count} zones") { count >= 200 }
values.each_with_index { |v, i| check("content") { v.x == i } }
''')

rbug("C37-one-past-the-array", "C37", [(EXT + "specialized_types.cc", """    size_t index = NUM2INT(rbindex);

    if (index >= array.getDimension())
    {
        rb_raise""", """    size_t index = NUM2INT(rbindex);

    if (index > array.getDimension())
    {
        rb_raise""")],
"an assignment to the element just after the end of an array",
"it writes out of the array, over the next field", HEAD + r'''
r = registry
r.create_array('/int32_t', 2)
s = r.create_compound('/S') { |c| c.add('a', '/int32_t[2]'); c.add('b', '/int32_t') }
v = s.new
v.b = 5
raised = begin
    v.raw_get('a').do_set(2, 7) 
    false
rescue IndexError, ArgumentError then true
end
begin; v.raw_get('a')[2] = 7
rescue IndexError, ArgumentError
end
check("b is #{v.b}") { v.b == 5 }
check("no exception") { raised }
''')

rbug("C37-slice-past-the-end", "C37", [(EXT + "specialized_types.cc", "        if (index + size > array.getDimension())\n", "        if (size > array.getDimension())\n")],
"a part of an array that starts in it and ends after it",
"elements that are not of the array are handed out, and can be read and written", HEAD + r'''
r = registry
r.create_array('/int32_t', 2)
s = r.create_compound('/S') { |c| c.add('a', '/int32_t[2]'); c.add('b', '/int32_t') }
v = s.new
v.b = 5
check("whole") { v.raw_get('a').do_get(0, 2).size == 2 }
raised = begin
    v.raw_get('a').do_get(1, 2)
    false
rescue IndexError, ArgumentError then true
end
check("no exception") { raised }
''')

rbug("C37-null-dereference", "C37", [(EXT + "specialized_types.cc", """    if (!ptr_value)
        rb_raise(rb_eArgError, "cannot deference a NULL pointer");

    Value new_value""", """    Value new_value""")],
"a pointer that is null",
"what it points to is handed out, and using it ends the process", HEAD + r'''
r = registry
v = r.build('/int32_t*').value_new(true)
check("null") { v.null? }
raised = begin
    v.deference
    false
rescue ArgumentError then true
end
check("no exception") { raised }
''')

rbug("C37-number-taken-for-an-enum", "C37", [(EXT + "specialized_types.cc", """        try {
            e.get(value);
            return value;
        }
        catch(Enum::ValueNotFound const&) {  }
        rb_raise(rb_eArgError, "%i is not a valid value for %s", value, e.getName().c_str());
""", """        bool above = false, below = false;
        for (Enum::ValueMap::const_iterator it = e.values().begin(); it != e.values().end(); ++it)
        {
            above = above || it->second >= value;
            below = below || it->second <= value;
        }
        if (above && below)
            return value;
        rb_raise(rb_eArgError, "%i is not a valid value for %s", value, e.getName().c_str());
""")],
"an enum with holes between its values, and a number that lies in a hole",
"a number that is not one of the enum's values can be assigned", HEAD + r'''
r = registry
r.create_enum('/E') { |e| e.add('A', 1); e.add('B', 2); e.add('C', 9) }
s = r.create_compound('/S') { |c| c.add('e', '/E') }
v = s.new
v.e = 9
check("C") { v.e == :C }
v.e = 'B'
raised = begin
    v.e = 5
    false
rescue ArgumentError then true
end
check("no exception") { raised }
check("B") { v.e == :B }
''')

REG = RB + "registry.rb"
rbug("C39-copy-through-a-document", "C39", [(REG, "            copy.merge(self)\n            copy\n", "            copy.merge_xml(to_xml)\n            copy\n")],
"a registry that holds an array, container or pointer type that no other type uses",
"a copy of a registry lacks the derived types that nothing else uses", HEAD + r'''
r = registry
r.create_compound('/S') { |c| c.add('a', '/int32_t') }
r.build('/S[3]')
copy = r.dup
check("S") { copy.include?('/S') }
check("S[3]") { copy.each.map(&:name).include?('/S[3]') }
''')

rbug("C39-dependencies-of-the-parent", "C39", [(RB + "type.rb", "                @recursive_dependencies = Set.new\n", "                @recursive_dependencies = set || Set.new\n")],
"the dependencies of a type asked for before the ones of a type it uses",
"the recursive dependencies of the inner type include those of the outer one", HEAD + r'''
r = registry
i = r.create_compound('/I') { |c| c.add('a', '/int32_t') }
s = r.create_compound('/S') { |c| c.add('i', '/I'); c.add('d', '/double') }
check("S") { s.recursive_dependencies.map(&:name).sort == %w{/I /double /int32_t} }
check("I") { i.recursive_dependencies.map(&:name).sort == %w{/int32_t} }
''')

rbug("C39-minimal-always-with-aliases", "C39", [(EXT + "registry.cc", "registry.minimal(auto_types, RTEST(with_aliases))", "registry.minimal(auto_types, true)")],
"a registry reduced to what another one lacks, where types and aliases of the latter are used by the former",
"the aliases that the other registry has are in the result although they were not asked for", HEAD + r'''
base = registry
base.create_compound('/S') { |c| c.add('a', '/int32_t') }
base.alias('/T', '/S')
r = base.dup
r.create_compound('/U') { |c| c.add('s', '/S') }
check("with") { r.minimal(base, true).include?('/T') }
m = r.minimal(base, false)
check("S") { m.include?('/S') && m.include?('/U') }
check("T") { !m.include?('/T') }
''')
