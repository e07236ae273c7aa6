# planted bugs, second batch (C++): see seeds1.py
VO = "typelib/value_ops.cc"
CT = "lang/csupport/containers.cc"
TM = "typelib/typemodel.cc"
IMP = "lang/tlb/import.cc"
SV = "typelib/utilmm/singleton/"

bug("C13-unfinished-push-parse", "C13", [(IMP, """    xmlDocPtr doc = xmlParseMemory(document.c_str(), document.length());
    if (!doc)
        throw Parsing::MalformedXML();
""", """    // Feed the document by blocks, libXML copies what it gets as a whole otherwise
    size_t const block = 4096;
    xmlParserCtxtPtr context = xmlCreatePushParserCtxt(NULL, NULL, NULL, 0, NULL);
    for (size_t pos = 0; pos < document.length(); pos += block)
    {
        size_t count = std::min(block, document.length() - pos);
        xmlParseChunk(context, document.c_str() + pos, count, 0);
    }
    xmlDocPtr doc = context->myDoc;
    bool valid = context->wellFormed;
    xmlFreeParserCtxt(context);
    if (!valid)
    {
        xmlFreeDoc(doc);
        doc = NULL;
    }
    if (!doc)
        throw Parsing::MalformedXML();
""")], "a document that ends early, at a place where what is there is not wrong by itself",
"the parser is never told that the document is over: a truncated document is accepted, with the types that it still contains", r'''
int main()
{
    Std r; num(r, "/other", 4);
    string doc = PluginManager::save("tlb", r);
    bool full = false;
    for (size_t n = 0; n <= doc.size(); ++n)
    {
        std::istringstream in(doc.substr(0, n));
        Registry back; utilmm::config_set c;
        bool ok = !throws([&] { PluginManager::load("tlb", in, c, back); });
        if (n == doc.size()) full = ok && back.has("/other");
        else if (n + 3 < doc.size()) CHECK(!ok);
    }
    CHECK(full);
    return 0;
}
''')

bug("C13-type-made-of-itself", "C13", [(IMP, """                TypeNode    type(it->second);
                m_map.erase(it);

                base = type.loader(type, *this);
""", """                TypeNode    type(it->second);
                base = type.loader(type, *this);
                m_map.erase(basename);
""")], "an inconsistent document in which a type contains itself, directly or through others",
"the import recurses without end and the process crashes", r'''
static bool refused(char const* doc)
{
    std::istringstream in(doc);
    Registry back; utilmm::config_set c;
    return throws([&] { PluginManager::load("tlb", in, c, back); });
}
int main()
{
    CHECK(!refused("<?xml version=\"1.0\"?><typelib><numeric name=\"/n\" category=\"sint\" size=\"4\"/><compound name=\"/A\" size=\"4\"><field name=\"a\" type=\"/n\" offset=\"0\"/></compound></typelib>"));
    CHECK(refused("<?xml version=\"1.0\"?><typelib><compound name=\"/A\" size=\"8\"><field name=\"a\" type=\"/B\" offset=\"0\"/></compound><compound name=\"/B\" size=\"8\"><field name=\"a\" type=\"/A\" offset=\"0\"/></compound></typelib>"));
    return 0;
}
''')

NAMES = r'''
#include <typelib/utilmm/singleton/use.hh>
#include <atomic>
#include <thread>
template<int N> struct S { int v[8]; S() { for (int i = 0; i < 8; ++i) v[i] = N; } ~S() { for (int i = 0; i < 8; ++i) v[i] = -1; } bool ok() const { for (int i = 0; i < 8; ++i) if (v[i] != N) return false; return true; } };
'''
bug("C14-lookup-without-lock", "C14", [(SV + "dummy.cc", """dummy *dummy::instance(std::string const &name) {
  server::lock_type locker(server::sing_mtx);
  return""", """dummy *dummy::instance(std::string const &name) {
  // the caller holds a reference: neither the server nor its service can go
  return""")], "a thread that uses its handle while another one creates or releases another service",
"the table of services is read while it is being modified: data race, a lookup can miss its service", NAMES + r'''
using utilmm::singleton::use;
static std::atomic<bool> go(false), stop(false), bad(false);
template<int N> static void churn() { while (!go); while (!stop) { use<S<N> > a; use<S<N + 1> > b; use<S<N + 2> > c; use<S<N + 3> > d; use<S<N + 4> > e; if (!a->ok() || !e->ok()) bad = true; } }
template<int N> static void reader() { use<S<N> > mine; while (!go); while (!stop) if (!mine->ok()) bad = true; }
int main()
{
    std::thread t[] = { std::thread(churn<0>), std::thread(churn<10>), std::thread(churn<20>), std::thread(reader<5>), std::thread(reader<15>), std::thread(reader<25>), std::thread(reader<8>) };
    go = true;
    for (int i = 0; i < 200 && !bad; ++i) usleep(100000);
    stop = true;
    for (auto& x : t) x.join();
    CHECK(!bad);
    return 0;
}
''')

bug("C14-instance-remembered", "C14", [(SV + "bits/wrapper.tcc", """      return static_cast<wrapper *>(dummy::instance(name()))->value;
""", """      // The service does not move: look it up only once
      static wrapper *the_wrapper = static_cast<wrapper *>(dummy::instance(name()));
      return the_wrapper->value;
""")], "a service that is released by its last client, and acquired again later by the same process",
"the later client is given the destroyed instance", NAMES + r'''
using utilmm::singleton::use;
template<int N> struct Counted { static int live; void* me; Counted() : me(this) { ++live; } ~Counted() { me = 0; --live; } };
template<int N> int Counted<N>::live = 0;
int main()
{
    for (int i = 0; i < 3; ++i)
    {
        char* hole = new char[256];
        {
            use<Counted<1> > a;
            CHECK(Counted<1>::live == 1);
            CHECK(a->me == (void*)&*a);
            use<Counted<1> > b(a);
            CHECK(&*a == &*b);
        }
        CHECK(Counted<1>::live == 0);
        new char[64 * (i + 1)];
        (void)hole;
    }
    return 0;
}
''', "-fsanitize=address")

bug("C14-lock-not-reentrant", "C14", [(SV + "server.hh", """      typedef boost::recursive_mutex mutex_type;
""", """      typedef boost::mutex mutex_type;
"""), (SV + "server.hh", """# include "boost/thread/recursive_mutex.hpp"
""", """# include "boost/thread/mutex.hpp"
"""), (SV + "server.cc", """using boost::recursive_mutex;
""", """using boost::mutex;
"""), (SV + "server.cc", """boost::recursive_mutex utilmm::singleton::server::sing_mtx;
""", """boost::mutex utilmm::singleton::server::sing_mtx;
""")], "a service whose constructor or destructor itself uses another service",
"deadlock: the lock is requested again by the thread that holds it", NAMES + r'''
using utilmm::singleton::use;
struct Outer { use<S<1> > in; bool ok() { return in->ok(); } };
int main()
{
    alarm(20);
    use<Outer> o;
    CHECK(o->ok());
    return 0;
}
''')

bug("C15-last-factory-remembered", "C15", [(TM, """        AvailableContainers::const_iterator it = s_available_containers.find(name);
        if (it == s_available_containers.end())
            throw UnknownContainer(name);
        return (*it->second)(r, on);
""", """        // The same kind is usually asked for many times in a row
        static std::string last_name;
        static ContainerFactory last_factory;
        if (name != last_name)
        {
            AvailableContainers::const_iterator it = s_available_containers.find(name);
            if (it == s_available_containers.end())
                throw UnknownContainer(name);
            last_name = name;
            last_factory = it->second;
        }
        return (*last_factory)(r, on);
""")], "two threads that create containers of different kinds in registries of their own",
"a thread gets a container of the kind that the other thread asked for", r'''
#include <atomic>
#include <thread>
static std::atomic<bool> bad(false), go(false);
static void work(bool strings)
{
    while (!go);
    for (int i = 0; i < 60000 && !bad; ++i)
    {
        Registry r; Type const& c = num(r, "/int8_t", 1);
        try
        {
            Type const& t = Container::createContainer(r, strings ? "/std/string" : "/std/vector", c);
            if (t.getName() != (strings ? "/std/string" : "/std/vector</int8_t>")) bad = true;
        }
        catch (std::exception const&) { bad = true; }
    }
}
int main()
{
    { Std warm; }
    std::thread a(work, true), b(work, false), c(work, true), d(work, false);
    go = true;
    a.join(); b.join(); c.join(); d.join();
    CHECK(!bad);
    return 0;
}
''')

bug("C15-import-table-shared", "C15", [(IMP, """        TypeMap all_types;
        for(xmlNodePtr node = root_node""", """        static TypeMap all_types;
        all_types.clear();
        for(xmlNodePtr node = root_node""")], "two threads that import documents into registries of their own",
"a thread imports the types of the other's document, or reads the table while it is modified", r'''
#include <atomic>
#include <thread>
static std::atomic<bool> bad(false), go(false);
static void work(int k)
{
    Std r; for (int i = 0; i < 6; ++i) num(r, "/t" + std::to_string(k) + "_" + std::to_string(i), 4);
    string doc = PluginManager::save("tlb", r);
    while (!go);
    for (int i = 0; i < 2000 && !bad; ++i)
        try
        {
            std::istringstream in(doc); Registry back; utilmm::config_set c;
            PluginManager::load("tlb", in, c, back);
            if (!back.isSame(r)) bad = true;
        }
        catch (std::exception const&) { bad = true; }
}
int main()
{
    PluginManager::self hold;
    std::thread a(work, 0), b(work, 1), c(work, 2);
    go = true;
    a.join(); b.join(); c.join();
    CHECK(!bad);
    return 0;
}
''')

bug("C16-element-layout-on-demand", "C16", [(CT, """    , element_layout(getElementLayout(on))
{
}
""", """{
}
"""), (CT, """    return element_layout.isMemcpy();
""", """    return hasElementLayout() && element_layout.isMemcpy();
"""), (CT, """bool Vector::hasElementLayout() const
{
""", """bool Vector::hasElementLayout() const
{
    // computed when first needed
    if (element_layout.isEmpty())
        element_layout = getElementLayout(getIndirection());
"""), ("lang/csupport/containers.hh", """    Typelib::MemoryLayout element_layout;
""", """    mutable Typelib::MemoryLayout element_layout;
""")], "two threads that process values of the same container type, which no one used before",
"the layout of the elements is computed by both at the same time, into the type they share", r'''
#include <atomic>
#include <thread>
static std::atomic<int> ready(0), turn(0); static std::atomic<bool> bad(false);
static Type const* volatile type;
static void work(int k)
{
    for (int i = 1; i <= 4000; ++i)
    {
        while (turn < i) ;
        Type const& t = *type;
        vector<char> a(t.getSize()), b(t.getSize());
        Value va(a.data(), t), vb(b.data(), t);
        Typelib::init(va); Typelib::init(vb);
        Container const& c = static_cast<Container const&>(t);
        vector<char> e(c.getIndirection().getSize());
        Value ve(e.data(), c.getIndirection());
        Typelib::init(ve);
        c.push(a.data(), ve); c.push(a.data(), ve);
        Typelib::copy(vb, va);
        if (c.getElementCount(b.data()) != 2) bad = true;
        Typelib::destroy(ve); Typelib::destroy(va); Typelib::destroy(vb);
        ++ready;
    }
}
int main()
{
    vector<std::unique_ptr<Std> > keep;
    std::thread t[4]; for (int k = 0; k < 4; ++k) t[k] = std::thread(work, k);
    for (int i = 1; i <= 4000; ++i)
    {
        keep.emplace_back(new Std);
        Std& r = *keep.back();
        type = &vec(r, vec(r, vec(r, str(r))));
        turn = i;
        while (ready < 4 * i) std::this_thread::yield();
    }
    for (auto& x : t) x.join();
    CHECK(!bad);
    return 0;
}
''', "-fsanitize=address")

bug("C17-empty-entry-ends-the-path", "C17", [("typelib/pluginmanager.cc", """        } while ((pos = s.find(delim)) != std::string::npos);
""", """        } while ((pos = s.find(delim)) != std::string::npos && pos != 0);
""")], "an empty entry in the middle of TYPELIB_PLUGIN_PATH",
"the directories after the empty entry are not searched", r'''
int main()
{
    string path = getenv("TYPELIB_PLUGIN_PATH");
    for (int i = 0; i < 3; ++i)
    {
        string p = path;
        if (i == 1) p = ":" + p + ":";
        if (i == 2) p.replace(p.find(':'), 1, "::");
        setenv("TYPELIB_PLUGIN_PATH", p.c_str(), 1);
        Registry r;
        PluginManager::self m;
        std::unique_ptr<Importer> imp;
        CHECK(!throws([&] { imp.reset(m->importer("tlb")); }));
        std::unique_ptr<Exporter> e;
        CHECK(!throws([&] { e.reset(m->exporter("idl")); }));
    }
    return 0;
}
''')

bug("C30-merged-skips", "C30", [("typelib/endianness.cc", """            m_compiled[current_size - 3] = FLAG_SKIP;
            m_compiled[current_size - 2] = m_compiled[current_size + 1] * type.getDimension();
            m_compiled.pop_back();
            m_compiled.pop_back();
            m_compiled.pop_back();
""", """            // merge with a skip that comes right before
            size_t element_skip = m_compiled[current_size + 1];
            m_compiled.resize(current_size - 3);
            skip(element_skip * type.getDimension());
""")], "a compound with a byte (or padding) right before a multi-dimensional array of bytes",
"the dimension of the outer array is applied to another instruction of the program: data after it is misplaced or memory out of bounds is used", r'''
#include <typelib/endianness.hh>
int main()
{
    Std r;
    Type const& a = *r.build("/int8_t[3][4]");
    Compound* c = new Compound("/C"); c->addField("x", *r.get("/int8_t"), 0); c->addField("y", a, 1); c->addField("z", *r.get("/int32_t"), 16); r.add(c);
    CompileEndianSwapVisitor v; v.apply(*c);
    vector<uint8_t> in(20), out(64, 0xEE);
    for (int i = 0; i < 20; ++i) in[i] = i + 1;
    v.swap(Value(in.data(), *c), Value(out.data(), *c));
    for (int i = 0; i < 13; ++i) CHECK(out[i] == i + 1);
    for (int i = 0; i < 4; ++i) CHECK(out[16 + i] == 20 - i);
    CHECK(out[20] == 0xEE);
    return 0;
}
''', "-fsanitize=address")

bug("C30-index-left-by-a-refusal", "C30", [("typelib/endianness.cc", """        m_output_index = 0;
        m_compiled.clear();
        TypeVisitor::apply(type);
""", """        m_compiled.clear();
        TypeVisitor::apply(type);
        m_output_index = 0;
"""), ("typelib/endianness.hh", """        ~CompileEndianSwapVisitor() { }
""", """        CompileEndianSwapVisitor() : m_output_index(0) { }
        ~CompileEndianSwapVisitor() { }
""")], "a compiler object that is used again after it refused a type in the middle of a compound",
"the next program takes its bytes from the wrong places", r'''
#include <typelib/endianness.hh>
int main()
{
    Std r;
    Compound* bad = new Compound("/B"); bad->addField("x", *r.get("/int32_t"), 0); bad->addField("p", *r.build("/int32_t*"), 8); r.add(bad);
    Compound* c = new Compound("/C"); c->addField("a", *r.get("/int16_t"), 0); c->addField("b", *r.get("/int16_t"), 2); r.add(c);
    CompileEndianSwapVisitor v;
    for (int i = 0; i < 2; ++i)
    {
        if (i) CHECK(throws([&] { v.apply(*bad); }));
        v.apply(*c);
        vector<uint8_t> in(64), out(64);
        for (int k = 0; k < 64; ++k) in[k] = k + 1;
        v.swap(Value(in.data(), *c), Value(out.data(), *c));
        CHECK(out[0] == 2 && out[1] == 1 && out[2] == 4 && out[3] == 3);
    }
    return 0;
}
''')

bug("C33-nested-sequence-elsewhere", "C33", [("lang/idl/export.cc", """        string target_namespace  = getIDLBase(type.getIndirection()).first;
        // We never emit""", """        string target_namespace  = getIDLBase(type.getIndirection()).first;
        if (!target_namespace.empty())
            target_namespace = getIDLAbsoluteNamespace(type.getIndirection().getNamespace(), m_exporter);
        // We never emit""")], "a sequence of sequences of a type that is not in the main namespace",
"the outer sequence is declared in another module than the one in which it is used", r'''
#include <set>
int main()
{
    Std r;
    Compound* s = new Compound("/N/S"); s->addField("a", *r.get("/int32_t"), 0); r.add(s);
    Type const& v = vec(r, vec(r, *s));
    Compound* c = new Compound("/N/U"); c->addField("f", v, 0); r.add(c);
    string doc = PluginManager::save("idl", r);
    std::istringstream in(doc);
    string line, mod; std::set<string> declared; bool open = false;
    auto known = [&](string t) { return t.compare(0, 2, "::") != 0 || declared.count(t); };
    while (getline(in, line))
    {
        std::istringstream l(line); string w, x, y; l >> w >> x;
        if (w == "module") mod += "::" + x;
        else if (w == "struct") { declared.insert(mod + "::" + x); open = true; }
        else if (w == "};") { if (open) open = false; else mod = mod.substr(0, mod.rfind("::")); }
        else if (w == "typedef")
        {
            size_t a = line.find('<'), b = line.rfind('>');
            string of = line.substr(a + 1, b - a - 1), n = line.substr(b + 2);
            CHECK(known(of));
            declared.insert(mod + "::" + n.substr(0, n.size() - 1));
        }
        else if (open && !w.empty()) CHECK(known(w));
    }
    return 0;
}
''')

bug("C34-limited-precision", "C34", [("typelib/csvoutput.cc", """            m_output.push_back(boost::lexical_cast<string>(value));
""", """            ostringstream formatted;
            formatted << value;
            m_output.push_back(formatted.str());
"""), ("typelib/csvoutput.cc", """#include <boost/lexical_cast.hpp>
""", """#include <boost/lexical_cast.hpp>
#include <sstream>
""")], "a floating-point value with more than six significant digits",
"the column does not show the value of its scalar", r'''
#include <typelib/csvoutput.hh>
int main()
{
    Std r;
    double v[2] = { 1.5, 123456789.25 };
    Type const& t = *r.build("/double[2]");
    CSVOutput csv(t, ";", true);
    std::ostringstream out; csv.display(out, v);
    string s = out.str();
    size_t p = s.find(';');
    CHECK(atof(s.c_str()) == v[0]);
    CHECK(atof(s.c_str() + p + 1) == v[1]);
    return 0;
}
''')
