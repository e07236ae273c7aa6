# planted bugs, fifth batch (C++): see seeds1.py
RG = "typelib/registry.cc"
TM = "typelib/typemodel.cc"
VO = "typelib/value_ops.cc"
CT = "lang/csupport/containers.cc"

bug("C34-unknown-enum-no-column", "C34", [("typelib/csvoutput.cc", """            { display(v); }
""", """            { /* there is no symbol to show */ }
""")], "an enumeration that holds a value without symbol",
"the line lacks a column: those behind it are under the wrong header", r'''
#include <typelib/csvoutput.hh>
int main()
{
    Std r;
    Enum* e = new Enum("/E"); e->add("A", 1); e->add("B", 2); r.add(e);
    Compound* c = new Compound("/S"); c->addField("a", *r.get("/int32_t"), 0); c->addField("e", *e, 4); c->addField("b", *r.get("/int32_t"), 8); r.add(c);
    int32_t v[3] = { 10, 7, 20 };
    CSVOutput csv(*c, ";", true);
    std::ostringstream h, l; csv.header(h, "x"); csv.display(l, v);
    string H = h.str(), L = l.str();
    CHECK(std::count(H.begin(), H.end(), ';') == 2);
    CHECK(std::count(L.begin(), L.end(), ';') == 2);
    return 0;
}
''')

bug("C33-back-to-the-enclosing-module", "C33", [("lang/idl/export.cc", """    if (m_namespace != ns)
""", """    if (m_namespace.compare(0, ns.size(), ns) != 0)
""")], "a type that depends on one of a namespace below its own",
"the type is declared in the module of the type it depends on", r'''
int main()
{
    Registry r; Type const& n = num(r, "/int32_t", 4);
    Compound* c = new Compound("/A/B/T"); c->addField("a", n, 0); r.add(c);
    Compound* d = new Compound("/A/U"); d->addField("t", *c, 0); r.add(d);
    string doc = PluginManager::save("idl", r);
    int level = 0, at = -1;
    std::istringstream in(doc); string l;
    bool in_struct = false;
    while (std::getline(in, l))
    {
        if (l.find("module ") != string::npos) ++level;
        else if (l.find("struct ") != string::npos) { in_struct = true; if (l.find("struct U") != string::npos) at = level; }
        else if (l.find("};") != string::npos) { if (in_struct) in_struct = false; else --level; }
    }
    CHECK(at == 1);
    return 0;
}
''')

bug("C19-namespace-of-the-last-save", "C19", [("typelib/exporter.cc", """    std::string last_namespace;
""", """    static std::string last_namespace;
""")], "a registry with several namespaces saved after another one that ended in one of them",
"the document depends on what was saved before", r'''
int main()
{
    PluginManager::self manager;
    auto fill = [](Registry& r) { num(r, "/A/x", 4); num(r, "/B/y", 4); num(r, "/C/z", 4); };
    for (string kind : { "tlb", "idl" })
    {
        Registry r; fill(r);
        string first = PluginManager::save(kind, r);
        for (string n : { "/A/q", "/B/q", "/C/q" })
        {
            Registry other; num(other, n, 4);
            PluginManager::save("tlb", other);
            CHECK(PluginManager::save(kind, r) == first);
        }
    }
    return 0;
}
''')

bug("C12-last-metadata-value", "C12", [("lang/tlb/import.cc", """                    metadata.add(key, value);
                    break;
""", """                    metadata.set(key, value);
                    break;
""")], "a type or field that has several values for one metadata key",
"only the last value is there after saving and loading the registry", r'''
int main()
{
    Std r; Compound* c = new Compound("/S"); c->addField("a", *r.get("/int32_t"), 0); r.add(c);
    c->getMetaData().add("doc", "one"); c->getMetaData().add("doc", "two");
    std::istringstream in(PluginManager::save("tlb", r));
    std::unique_ptr<Registry> q(PluginManager::load("tlb", in));
    CHECK(q->get("/S")->getMetaData().get("doc").size() == 2);
    return 0;
}
''')

bug("C11-only-bad-streams", "C11", [("typelib/exporter.cc", """    file.exceptions(std::ifstream::failbit | std::ifstream::badbit);
""", """    file.exceptions(std::ifstream::badbit);
""")], "a device that is full, seen only when the file is closed",
"a save to a file whose last bytes could not be written reports success", r'''
int main()
{
    Std r;
    PluginManager::self manager;
    std::unique_ptr<Exporter> e(manager->exporter("tlb"));
    utilmm::config_set config;
    CHECK(throws([&] { e->save("/dev/full", config, r); }));
    return 0;
}
''')

bug("C21-stack-as-vector", "C21", [("typelib/value.cc", """        std::list<uint8_t*> m_stack;
""", """        std::vector<uint8_t*> m_stack;
"""), ("typelib/value.cc", """            : m_visitor(visitor) { }
""", """            : m_visitor(visitor) { m_stack.reserve(8); }
"""), ("typelib/value.cc", """#include "typevisitor.hh"
""", """#include "typevisitor.hh"
#include <vector>
""")], "a value nested more than eight levels deep below an array",
"the elements of the array that come after the deep one are visited at the address of the first", r'''
struct V : ValueVisitor { vector<int32_t> seen; bool visit_(int32_t& v) { seen.push_back(v); return true; } using ValueVisitor::visit_; };
int main()
{
    Std r;
    Type const* t = r.get("/int32_t");
    for (int i = 0; i < 12; ++i)
    {
        Compound* c = new Compound("/C" + std::to_string(i)); c->addField("f", *t, 0); r.add(c);
        t = c;
    }
    Type const& a = *r.build(t->getName() + "[4]");
    int32_t v[4] = { 1, 2, 3, 4 };
    V visitor; visitor.apply(Value(v, a));
    CHECK(visitor.seen == vector<int32_t>(v, v + 4));
    return 0;
}
''')

bug("C10-derived-aliases-of-new-names-only", "C10", [(RG, """            if (it.isAlias()) continue;
            set<Type const*> dependencies = it->dependsOn();
            if (dependencies.count(base_type))
""", """            // compounds and enums have no names that depend on those of others
            if (it.isAlias() || it.isPersistent()) continue;
            set<Type const*> dependencies = it->dependsOn();
            if (dependencies.count(base_type))
""")], "an alias for the element type of a container that exists already",
"the container cannot be found under the name that has the alias", r'''
int main()
{
    Std r;
    Type const& v = vec(r, *r.get("/int32_t"));
    r.alias("/int32_t", "/other");
    CHECK(r.get("/std/vector</other>") == &v);
    return 0;
}
''')

bug("C17-linked-plugins-skipped", "C17", [("typelib/pluginmanager.cc", """        if (it->path().extension() == ".so" || it->path().extension() == ".dylib")
""", """        if (is_regular_file(it->symlink_status()) && (it->path().extension() == ".so" || it->path().extension() == ".dylib"))
""")], "a plugin directory in which a plugin is a symbolic link",
"the plugin is not loaded", r'''
#include <dirent.h>
#include <sys/stat.h>
#include <limits.h>
int main()
{
    char dir[] = "/tmp/demo-links-XXXXXX"; CHECK(mkdtemp(dir));
    string path = getenv("TYPELIB_PLUGIN_PATH"), d;
    std::istringstream in(path); vector<string> links;
    while (getline(in, d, ':'))
    {
        DIR* h = opendir(d.c_str());
        if (!h) continue;
        while (dirent* e = readdir(h))
        {
            string n = e->d_name;
            if (n.size() < 3 || n.substr(n.size() - 3) != ".so") continue;
            char real[PATH_MAX]; CHECK(realpath((d + "/" + n).c_str(), real));
            string l = string(dir) + "/" + n;
            if (!symlink(real, l.c_str())) links.push_back(l);
        }
        closedir(h);
    }
    setenv("TYPELIB_PLUGIN_PATH", dir, 1);
    bool ok = true;
    {
        PluginManager::self m;
        try { std::unique_ptr<Importer> i(m->importer("tlb")); } catch (std::exception const&) { ok = false; }
    }
    for (string const& l : links) unlink(l.c_str());
    rmdir(dir);
    CHECK(!links.empty() && ok);
    return 0;
}
''')

bug("C16-last-symbol-remembered", "C16", [(TM, """        ValueMap::const_iterator it;
        for (it = m_values.begin(); it != m_values.end(); ++it)
        {
            if (it->second == value)
                return it->first;
        }
        throw ValueNotFound(*this, value);
""", """        // most of the time, the same value is asked for again
        if (!m_last_symbol.empty() && m_last_found == value)
            return m_last_symbol;

        ValueMap::const_iterator it;
        for (it = m_values.begin(); it != m_values.end(); ++it)
        {
            if (it->second == value)
            {
                m_last_found = value;
                m_last_symbol = it->first;
                return it->first;
            }
        }
        throw ValueNotFound(*this, value);
"""), ("typelib/typemodel.hh", """        integral_type m_last_value;
        ValueMap m_values;
""", """        integral_type m_last_value;
        ValueMap m_values;
        mutable integral_type m_last_found;
        mutable std::string m_last_symbol;
""")], "two threads that display values of the same enumeration",
"one thread gets the symbol that another one has asked for, or a data race", r'''
#include <thread>
#include <atomic>
int main()
{
    Enum e("/E");
    for (int i = 0; i < 40; ++i) e.add("S" + std::to_string(i), i);
    std::atomic<bool> bad(false);
    auto run = [&](int a) {
        string want[2] = { "S" + std::to_string(a), "S" + std::to_string(a + 1) };
        for (int i = 0; i < 400000 && !bad; ++i)
            if (e.get(a + i / 4 % 2) != want[i / 4 % 2]) bad = true;
    };
    for (int k = 0; k < 20 && !bad; ++k)
    {
        std::thread x(run, 3), y(run, 20), z(run, 30);
        x.join(); y.join(); z.join();
    }
    CHECK(!bad);
    return 0;
}
''')

bug("C04-count-zero-in-low-half", "C04", [(VO, """                boost::uint64_t element_count;
                stream.read(reinterpret_cast< boost::uint8_t* >(&element_count), sizeof( boost::uint64_t ));
                if (element_count == 0)
""", """                boost::uint64_t stored_count;
                stream.read(reinterpret_cast< boost::uint8_t* >(&stored_count), sizeof( boost::uint64_t ));
                unsigned int element_count = stored_count;
                if (element_count == 0)
""")], "an image in which an element count has bits above the 32nd",
"the count is misread: the image is accepted as one of another value", r'''
int main()
{
    Std r; Type const& v = vec(r, *r.get("/int32_t"));
    for (int n = 0; n < 3; ++n)
    {
        vector<uint8_t> image(8 + 4 * n);
        image[0] = n; image[5] = 1;
        vector<int32_t> value;
        CHECK(throws([&] { load(Value(&value, v), image); }));
    }
    return 0;
}
''')

bug("C05-string-load-keeps-the-tail", "C05", [(CT, """    string_ptr->clear();

    std::vector<uint8_t> buffer;
    buffer.resize(element_count);
    stream.read(&buffer[0], element_count);
    (*string_ptr).append(reinterpret_cast<const char*>(&buffer[0]), element_count);
""", """    std::vector<uint8_t> buffer;
    buffer.resize(element_count);
    stream.read(&buffer[0], element_count);
    // leave the string as it is if the data is not there
    string_ptr->replace(0, element_count, reinterpret_cast<const char*>(&buffer[0]), element_count);
""")], "loading into a string that is longer than the loaded one",
"the end of the old text stays", r'''
int main()
{
    Std r; Type const& t = str(r);
    string a = "short", b = "a string that is longer";
    vector<uint8_t> image = dump(Value(&a, t));
    load(Value(&b, t), image);
    CHECK(b == "short");
    return 0;
}
''')

bug("C08-derived-aliases-stay", "C08", [(RG, """            if (types.count(global_it->second.type))
                m_global.erase(global_it++);
            else ++global_it;
        }
        m_current.swap(names);
""", """            if (types.count(global_it->second.type) &&
                    (global_it->second.persistent || global_it->first == global_it->second.type->getName()))
                m_global.erase(global_it++);
            else ++global_it;
        }
        m_current.swap(names);
""")], "removing a type on which a container or array depends that has a second name through an alias",
"the registry keeps names of types that do not belong to it anymore", r'''
int main()
{
    Std r;
    num(r, "/A", 4); r.alias("/A", "/B");
    r.build("/A[3]"); vec(r, *r.get("/A"));
    CHECK(r.has("/B[3]", false));
    std::set<Type*> gone = r.remove(*r.get("/A"));
    size_t n = 0;
    for (RegistryIterator it = r.begin(); it != r.end(); ++it, ++n)
        CHECK(!gone.count(const_cast<Type*>(&*it)));
    return 0;
}
''')
