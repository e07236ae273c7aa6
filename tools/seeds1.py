# planted bugs, first batch: (id, property, edits, needs, what breaks, demonstration)
VO = "typelib/value_ops.cc"
CT = "lang/csupport/containers.cc"
ML = "typelib/memory_layout.cc"
RG = "typelib/registry.cc"
TM = "typelib/typemodel.cc"

bug("C01-fd-short-write-repeats", "C01", [(VO, """        ssize_t ret = ::write(fd, data, size);
        if (ret < 0) {
            throw std::runtime_error(
                "write failed in ValueOps::dump: " + std::string(strerror(errno))
            );
        }
        else if (ret != static_cast<ssize_t>(size)) {
            throw std::runtime_error("wrote fewer bytes than expected in ValueOps::dump");
        }
""", """        while (size != 0) {
            ssize_t ret = ::write(fd, data, size);
            if (ret < 0) {
                throw std::runtime_error(
                    "write failed in ValueOps::dump: " + std::string(strerror(errno))
                );
            }
            size -= ret;
        }
""")], "a write() on the descriptor that accepts only part of the data (pipe, socket, nearly full device)",
"a short write is continued with the beginning of the block instead of its rest: the image is corrupt and the dump reports success", r'''
#include <dlfcn.h>
static bool split = false; static string out;
extern "C" ssize_t write(int fd, void const* d, size_t n)
{
    if (fd != 777) { static ssize_t (*real)(int, void const*, size_t) = (ssize_t (*)(int, void const*, size_t))dlsym(RTLD_NEXT, "write"); return real(fd, d, n); }
    if (split && n > 3) n = 3;
    out.append((char const*)d, n); return n;
}
int main()
{
    Std r; Type const& t = *r.build("/int32_t[4]");
    int32_t v[4] = { 1, 0x01020304, 3, 4 };
    for (int i = 0; i < 2; ++i)
    {
        split = i; out.clear();
        bool ok = true;
        try { Typelib::dump(Value(v, t), 777); } catch (std::exception const&) { ok = false; }
        string image((char*)v, sizeof(v));
        if (ok) CHECK(out == image); else CHECK(image.compare(0, out.size(), out) == 0);
        if (!i) CHECK(ok);
    }
    return 0;
}
''', "-rdynamic")

bug("C01-stream-stops-early", "C01", [(VO, """        stream.write(reinterpret_cast<char const*>(data), size);
    }
};
void Typelib::dump(Value v, std::ostream& ostream)
""", """        std::streamsize n = stream.rdbuf()->sputn(reinterpret_cast<char const*>(data), size);
        if (n == 0 && size != 0)
            stream.setstate(std::ios::badbit);
    }
};
void Typelib::dump(Value v, std::ostream& ostream)
""")], "a C++ stream whose buffer accepts only part of a block before failing, and recovers or ends there",
"a partially accepted block leaves the stream in the good state: a truncated image is reported as complete", r'''
struct Buf : std::streambuf { size_t cap; string out; Buf(size_t c) : cap(c) {}
    std::streamsize xsputn(char const* s, std::streamsize n) { size_t k = std::min<size_t>(n, cap - out.size()); out.append(s, k); return k; }
    int overflow(int c) { if (out.size() == cap) return EOF; out += (char)c; return c; } };
int main()
{
    Std r; Type const& t = *r.build("/int32_t[4]");
    int32_t v[4] = { 1, 2, 3, 4 };
    for (size_t cap = 0; cap <= 16; ++cap)
    {
        Buf b(cap); std::ostream s(&b);
        Typelib::dump(Value(v, t), s);
        CHECK(!s || b.out == string((char*)v, 16));
        CHECK(cap != 16 || s);
    }
    return 0;
}
''')

bug("C02-size-of-first-element", "C02", [(VO, """    ByteCounterStream counter;
    ValueOps::dump(v, 0, counter, ops.begin(), ops.end());
    return counter.result;
""", """    ByteCounterStream counter;
    MemoryLayout::const_iterator begin = ops.begin();
    if (ops.size() > 2 && *begin == MemLayout::FLAG_ARRAY && MemoryLayout::skipBlock(begin + 2, ops.end()) + 1 == ops.end())
    {
        // all the elements of an array have the same type
        ValueOps::dump(v, 0, counter, begin + 2, ops.end());
        return counter.result * *(begin + 1);
    }
    ValueOps::dump(v, 0, counter, ops.begin(), ops.end());
    return counter.result;
""")], "an array whose elements hold containers of different sizes, as outermost type",
"the announced size is that of the first element times the dimension instead of the size of the image", r'''
int main()
{
    Std r; vec(r, *r.get("/int8_t")); Type const& t = *r.build("/std/vector</int8_t>[3]");
    vector<int8_t> v[3] = { vector<int8_t>(1), vector<int8_t>(1), vector<int8_t>(1) };
    CHECK(Typelib::getDumpSize(Value(v, t)) == Typelib::dump(Value(v, t)).size());
    v[1].resize(9); v[2].resize(3);
    CHECK(Typelib::getDumpSize(Value(v, t)) == Typelib::dump(Value(v, t)).size());
    return 0;
}
''')

bug("C02-count-may-straddle-the-end", "C02", [(VO, """        if (current + size > buffer_size)
            throw std::exception();

        memcpy(&buffer[current], data, size);
""", """        if (current >= buffer_size || current + size > ((buffer_size + 7) & ~7u))
            throw std::exception();

        memcpy(&buffer[current], data, size);
""")], "a buffer whose size is not a multiple of eight and an image that ends within the next multiple of eight",
"the dump writes up to seven bytes after the buffer and reports success", r'''
int main()
{
    Std r; Type const& t = str(r);
    string s = "some text";
    size_t n = Typelib::getDumpSize(Value(&s, t));
    for (size_t cap = 0; cap <= n; ++cap)
    {
        vector<uint8_t> b(n + 32, 0xee);
        int got = Typelib::dump(Value(&s, t), &b[0], (unsigned int)cap);
        CHECK(got == (cap < n ? 0 : (int)n));
        for (size_t i = cap; i < b.size(); ++i) CHECK(b[i] == 0xee);
    }
    return 0;
}
''')

bug("C03-any-surplus-up-to-the-padding", "C03", [(VO, """    if (stream.in_index != buffer.size() &&
        stream.in_index + type.getTrailingPadding() != buffer.size())
""", """    if (stream.in_index + type.getTrailingPadding() < buffer.size())
""")], "a type with trailing padding, and an image followed by fewer bytes than that padding",
"an overlong image is accepted", r'''
struct S { int32_t a; int8_t b; };
int main()
{
    Std r; Compound* c = new Compound("/S");
    c->addField("a", *r.get("/int32_t"), 0); c->addField("b", *r.get("/int8_t"), 4); c->setSize(8); r.add(c);
    S v = { 5, 6 };
    vector<uint8_t> im = Typelib::dump(Value(&v, *c));
    CHECK(im.size() == 5);
    for (int extra = 0; extra < 6; ++extra)
    {
        vector<uint8_t> b = im; b.resize(im.size() + extra);
        S w; bool refused = throws([&] { Typelib::load(Value(&w, *c), b); });
        CHECK(refused == (extra != 0 && extra != 3));
    }
    return 0;
}
''')

bug("C03-failed-load-drops-elements", "C03", [(CT, """        MarshalOps::const_iterator it_end;
        size_t out_offset = 0;
        for (size_t i = 0; i < element_count; ++i)
        {
            boost::tie(out_offset, it_end) =
                ValueOps::load(&(*vector_ptr)[i * element_size], 0,
                    stream, begin, end);
        }
        return it_end;
""", """        MarshalOps::const_iterator it_end;
        size_t out_offset = 0;
        try
        {
            for (size_t i = 0; i < element_count; ++i)
            {
                boost::tie(out_offset, it_end) =
                    ValueOps::load(&(*vector_ptr)[i * element_size], 0,
                        stream, begin, end);
            }
        }
        catch(...)
        {
            // do not leave a partially loaded vector behind
            vector_ptr->clear();
            throw;
        }
        return it_end;
""")], "an image cut inside a vector of elements that own memory (strings, vectors)",
"the elements that had been loaded before the failure are dropped without being destroyed and leak", r'''
#include <new>
static long live = 0;
void* operator new(size_t n) { ++live; return malloc(n); }
void operator delete(void* p) noexcept { if (p) { --live; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --live; free(p); } }
int main()
{
    Std r; Type const& t = vec(r, str(r));
    vector<string> v(3, string(100, 'x'));
    vector<uint8_t> im = Typelib::dump(Value(&v, t));
    for (size_t n = 0; n < im.size(); ++n)
    {
        vector<uint8_t> b(im.begin(), im.begin() + n);
        long before = live;
        {
            vector<string> w; Value d(&w, t);
            CHECK(throws([&] { Typelib::load(d, b); }));
        }
        CHECK(live == before);
    }
    return 0;
}
''')

bug("C04-string-count-truncated", "C04", [(CT, """    std::vector<uint8_t> buffer;
    buffer.resize(element_count);
    stream.read(&buffer[0], element_count);
    (*string_ptr).append(reinterpret_cast<const char*>(&buffer[0]), element_count);
""", """    uint32_t length = element_count;
    std::vector<uint8_t> buffer;
    buffer.resize(length);
    stream.read(&buffer[0], length);
    (*string_ptr).append(reinterpret_cast<const char*>(&buffer[0]), length);
""")], "an image in which the upper half of a string's 64-bit element count is damaged",
"the damaged image is accepted although marshalling the value gives another image", r'''
int main()
{
    Std r; Type const& t = str(r);
    string s = "text"; vector<uint8_t> im = Typelib::dump(Value(&s, t));
    for (size_t i = 0; i < im.size(); ++i)
    {
        vector<uint8_t> b = im; b[i] ^= 4;
        string d;
        if (!throws([&] { Typelib::load(Value(&d, t), b); }))
            CHECK(Typelib::dump(Value(&d, t)) == b);
    }
    return 0;
}
''')

bug("C05-vector-load-only-grows", "C05", [(CT, """    Type const& element_t = getIndirection();
    size_t      element_size = element_t.getSize();
    resize(vector_ptr, element_count);

    MarshalOps::const_iterator it = begin;
    if (isBlockCopy(begin, end))
    {
        size_t size       = *(++it) * element_count;
        stream.read""", """    Type const& element_t = getIndirection();
    size_t      element_size = element_t.getSize();
    if (!isElementMemcpy() || vector_ptr->capacity() < element_count * element_size || getElementCount(vector_ptr) < element_count)
        resize(vector_ptr, element_count);

    MarshalOps::const_iterator it = begin;
    if (isBlockCopy(begin, end))
    {
        size_t size       = *(++it) * element_count;
        stream.read""")], "loading into a destination whose vector of plain elements already holds more elements than the image",
"the destination keeps its surplus elements, the loaded value differs from the original", r'''
int main()
{
    Std r; Type const& t = vec(r, *r.get("/int32_t"));
    vector<int32_t> v(2, 7), d;
    vector<uint8_t> im = Typelib::dump(Value(&v, t));
    Typelib::load(Value(&d, t), im); CHECK(d == v);
    d.assign(5, 1);
    Typelib::load(Value(&d, t), im); CHECK(d == v);
    return 0;
}
''')

bug("C06-wide-negative-enum", "C06", [(ML, """        uint64_t init_value = type.values().begin()->second;
        init_data.resize(type.getSize());
        for (size_t i = 0; i < type.getSize(); ++i) {
            init_data[i] = init_value;
            init_value >>= 8;
        }
""", """        uint32_t init_value = type.values().begin()->second;
        init_data.resize(type.getSize());
        for (size_t i = 0; i < type.getSize(); ++i) {
            init_data[i] = init_value;
            init_value >>= 8;
        }
""")], "an enum wider than 32 bits whose first symbol has a negative value",
"an initialised enum holds a value that is none of its symbols", r'''
int main()
{
    Std r; Enum* e = new Enum("/E"); e->add("A", -3); e->add("B", 4); r.add(e);
    for (int s = 1; s <= 8; s *= 2)
    {
        e->setSize(s);
        int64_t v = 0; Typelib::init(Value(&v, *e));
        int64_t got = s == 1 ? *(int8_t*)&v : s == 2 ? *(int16_t*)&v : s == 4 ? *(int32_t*)&v : v;
        CHECK(got == -3);
    }
    return 0;
}
''')

bug("C06-failed-copy-empties-source", "C06", [(CT, """    size_t element_count = getElementCount(src_ptr);
    resize(dst_ptr, element_count);
    copy(dst_ptr, 0, src_ptr, 0, element_count);
""", """    size_t element_count = getElementCount(src_ptr);
    if (element_count > dst_ptr->capacity() / std::max<size_t>(1, getIndirection().getSize()) && isElementMemcpy() && dst_ptr->empty())
    {
        // let the vector class allocate exactly what is needed
        std::vector<uint8_t> tmp;
        tmp.swap(*src_ptr);
        dst_ptr->assign(tmp.begin(), tmp.end());
        tmp.swap(*src_ptr);
        return;
    }
    resize(dst_ptr, element_count);
    copy(dst_ptr, 0, src_ptr, 0, element_count);
""")], "memory running out at the allocation made for the copy of a plain vector into an empty one",
"the source of the copy loses its elements when the copy fails", r'''
#include <new>
static long left = -1;
void* operator new(size_t n) { if (left >= 0 && left-- == 0) throw std::bad_alloc(); return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main()
{
    Std r; Type const& t = vec(r, *r.get("/int32_t"));
    vector<int32_t> v(50, 3);
    for (long k = 0; k < 40; ++k)
    {
        vector<int32_t> d; left = k;
        bool failed = throws([&] { Typelib::copy(Value(&d, t), Value(&v, t)); });
        left = -1;
        CHECK(v == vector<int32_t>(50, 3));
        CHECK(failed || d == v);
    }
    return 0;
}
''')

bug("C07-erase-last-match", "C07", [(CT, """    for (size_t i = 0; i < element_count; ++i)
    {
        uint8_t* element_ptr = base_ptr + i * element_size;
        Value    element_v(element_ptr, element_t);
        if (Typelib::compare(element_v, v))
""", """    for (size_t i = element_count; i-- > 0; )
    {
        uint8_t* element_ptr = base_ptr + i * element_size;
        Value    element_v(element_ptr, element_t);
        if (Typelib::compare(element_v, v))
""")], "a vector that holds the erased element several times",
"erase() removes the last equal element instead of the first", r'''
int main()
{
    Std r; Container const& t = dynamic_cast<Container const&>(vec(r, *r.get("/int32_t")));
    vector<int32_t> v = { 1, 2, 3, 2, 4 }; int32_t x = 2;
    CHECK(t.erase(&v, Value(&x, *r.get("/int32_t"))));
    CHECK((v == vector<int32_t>{ 1, 3, 2, 4 }));
    return 0;
}
''')

bug("C07-set-element-in-place-leak", "C07", [(CT, """    Typelib::copy(
        Value(&(*vector_ptr)[idx * getIndirection().getSize()], getIndirection()),
        value);
""", """    if (idx != 0 && getElementCount(ptr) == static_cast<size_t>(idx) + 1)
    {
        // replacing the last element: drop it first, so that its storage can be reused
        resize(vector_ptr, idx);
        push(ptr, value);
        return;
    }
    Typelib::copy(
        Value(&(*vector_ptr)[idx * getIndirection().getSize()], getIndirection()),
        value);
""")], "replacing the last element of a vector, with a value of the wrong type or one of the vector's own elements",
"a refused replacement of the last element shortens the vector", r'''
int main()
{
    Std r; Container const& t = dynamic_cast<Container const&>(vec(r, *r.get("/int32_t")));
    vector<int32_t> v = { 1, 2, 3 }; int64_t bad = 9; int32_t x = 7;
    for (int i = 0; i < 3; ++i)
        CHECK(throws([&] { t.setElement(&v, i, Value(&bad, *r.get("/int64_t"))); }));
    CHECK((v == vector<int32_t>{ 1, 2, 3 }));
    t.setElement(&v, 2, Value(&x, *r.get("/int32_t")));
    CHECK((v == vector<int32_t>{ 1, 2, 7 }));
    return 0;
}
''')

bug("C08-dependents-two-levels", "C08", [(RG, """                if (regIt.isAlias()) continue;
                if (result.count(&t) || queue.count(&t)) continue;
""", """                if (regIt.isAlias()) continue;
                // arrays and pointers are built on demand, nothing refers to them but compounds
                if (result.count(&t) || queue.count(&t)) continue;
                if (!result.empty() && t.getCategory() == Type::Pointer) continue;
""")], "a pointer to a type that depends on the removed type (at least two levels), used or not by others",
"removing a type leaves a pointer type that designates a deleted type", r'''
int main()
{
    Std r; Compound* a = new Compound("/A"); a->addField("a", *r.get("/int32_t"), 0); r.add(a);
    Compound* b = new Compound("/B"); b->addField("a", *a, 0); r.add(b);
    r.build("/B*"); r.build("/A*");
    std::set<Type*> gone = r.remove(*a);
    for (RegistryIterator it = r.begin(); it != r.end(); ++it)
    {
        CHECK(!gone.count(const_cast<Type*>(&*it)));
        std::set<Type const*> d = it->dependsOn();
        for (std::set<Type const*>::iterator i = d.begin(); i != d.end(); ++i)
            CHECK(!gone.count(const_cast<Type*>(*i)));
    }
    return 0;
}
''')

bug("C09-enum-values-ignored", "C09", [(TM, """        if (equality)
            return (m_values == other_type.m_values);
        else
""", """        if (equality && m_values.size() != other_type.m_values.size())
            return false;
        if (equality)
        {
            ValueMap::const_iterator it = m_values.begin(), other_it = other_type.m_values.begin();
            for (; it != m_values.end(); ++it, ++other_it)
                if (it->first != other_it->first)
                    return false;
            return true;
        }
        else
""")], "two registries that define the same enum with the same symbols but other values",
"a merge with a conflicting definition is accepted", r'''
int main()
{
    Registry a, b; Enum* e = new Enum("/E"); e->add("A", 1); e->add("B", 2); a.add(e);
    Enum* f = new Enum("/E"); f->add("A", 1); f->add("B", 3); b.add(f);
    CHECK(throws([&] { a.merge(b); }));
    Registry c; c.merge(b); c.merge(b);
    CHECK(c.isSame(b) && !c.isSame(a));
    return 0;
}
''')

bug("C09-minimal-misses-aliases", "C09", [(RG, """                if (!it.isAlias()) continue;
                if (result->has(it->getName(), false))
""", """                if (!it.isAlias()) continue;
                if (result->has(it->getName(), false) && (it->getCategory() != Type::Container || it->getName() == name))
""")], "extracting the minimal registry of a type that uses a container which has an alias",
"the alias of the container is missing from the minimal registry", r'''
int main()
{
    Std r; Type const& v = vec(r, *r.get("/int32_t"));
    Compound* c = new Compound("/S"); c->addField("a", v, 0); r.add(c);
    r.alias(v.getName(), "/ints"); r.alias("/S", "/T");
    std::unique_ptr<Registry> m(r.minimal("/S"));
    CHECK(m->get("/T") == m->get("/S"));
    CHECK(m->get("/ints") && m->get("/ints") == m->get(v.getName()));
    return 0;
}
''')

bug("C10-prefix-range", "C10", [(RG, """        while (it != end && it.getName().compare(0, prefix.length(), prefix) == 0)
            ++it;

        return it;
""", """        while (it != end && it.getName().compare(0, prefix.length(), prefix) == 0)
        {
            // the names of deeper namespaces come first
            if (!it.isAlias() && it->getCategory() == Type::Array && it.getName().length() > prefix.length() + 3)
                return ++it;
            ++it;
        }

        return it;
""")], "iterating over a prefix under which an array type is registered before other names",
"the iteration over a prefix stops after an array", r'''
int main()
{
    Std r; num(r, "/a/Bcdef", 4); r.build("/a/Bcdef[4]"); num(r, "/a/Cc", 4);
    std::set<string> seen;
    for (RegistryIterator it = r.begin("/a/"); it != r.end("/a/"); ++it) seen.insert(it.getName());
    CHECK(seen.size() == 3);
    return 0;
}
''')

bug("C11-close-error-hidden", "C11", [("lang/tlb/export.cc", """    stream <<
        "</typelib>\\n";
}
""", """    if (stream.good())
        stream << "</typelib>\\n";
    // failures are reported by the writes
    stream.exceptions(std::ios::goodbit);
    stream.flush();
    stream.clear();
}
""")], "the device failing at the last flush of a document (small documents are written only then)",
"a save whose document was not stored reports success", r'''
struct Buf : std::streambuf { size_t cap; string out, pend; Buf(size_t c) : cap(c) {}
    std::streamsize xsputn(char const* s, std::streamsize n) { pend.append(s, n); return n; }
    int overflow(int c) { pend += (char)c; return c; }
    int sync() { size_t k = std::min(cap - out.size(), pend.size()); out += pend.substr(0, k); bool ok = k == pend.size(); pend.clear(); return ok ? 0 : -1; } };
int main()
{
    Std r; num(r, "/X", 4);
    string all = PluginManager::save("tlb", r);
    for (size_t cap = 0; cap <= all.size(); cap += 7)
    {
        Buf b(cap); std::ostream s(&b); bool ok = true;
        try { PluginManager::self manager; PluginManager::save("tlb", r, s); } catch (std::exception const&) { ok = false; }
        s.flush();
        if (s && ok) CHECK(b.out == all);
    }
    return 0;
}
''')

bug("C12-alias-of-container-lost", "C12", [("lang/tlb/import.cc", """                base = type.loader(type, *this);

                if (base->getName() != basename""", """                base = type.loader(type, *this);

                if (base->getCategory() == Type::Container && it != m_map.end())
                    m_map.erase(base->getName());
                if (base->getName() != basename""")], "never", "placeholder", "int main() { return 0; }")

bug("C12-big-field-offset", "C12", [("lang/tlb/import.cc", """            size_t offset = getAttribute<size_t>(xml, "offset");

            Type const*""", """            uint16_t offset = getAttribute<size_t>(xml, "offset");

            Type const*""")], "a compound with a field at an offset of 64 kB or more",
"the field is read back at another offset", r'''
int main()
{
    Std r; Compound* c = new Compound("/S");
    c->addField("a", *r.build("/int8_t[70000]"), 0); c->addField("b", *r.get("/int32_t"), 70000); r.add(c);
    std::istringstream in(PluginManager::save("tlb", r));
    std::unique_ptr<Registry> q(PluginManager::load("tlb", in));
    CHECK(q->get("/S") && q->get("/S")->isSame(*c));
    return 0;
}
''')

bug("C13-refused-type-left-behind", "C13", [("lang/tlb/import.cc", """        compound->normalizeFieldOrder();
        compound->setSize(size);
        return factory.insert(node, std::move(compound));
""", """        compound->normalizeFieldOrder();
        compound->setSize(size);
        if (factory.getRegistry().has(node.name, false))
            factory.getRegistry().get_(*factory.getRegistry().get(node.name)).setSize(size);
        return factory.insert(node, std::move(compound));
""")], "a document that defines a compound whose own name is registered while its fields are being built (an alias of the document with the same name)",
"placeholder", "int main() { return 0; }")

bug("C19-dependencies-by-address", "C19", [("typelib/exporter.cc", """        if (save_it == free_types.end())
            save_it = free_types.begin();
""", """        if (save_it == free_types.end())
        {
            // prefer the type that has been waiting for the longest time
            save_it = free_types.begin();
            for (TypeMap::iterator it = free_types.begin(); it != free_types.end(); ++it)
                if (&(*it->second) < &(*save_it->second))
                    save_it = it;
        }
""")], "several types that can be saved next, created in an order that differs from the order of their names",
"the document depends on the addresses of the types", r'''
int main()
{
    vector<string> docs;
    for (int k = 0; k < 2; ++k)
    {
        Registry r; vector<Type*> t;
        for (int i = 0; i < 8; ++i) t.push_back(new Numeric(string("/n") + char('a' + (k ? 7 - i : i)) + "/X", 4, Numeric::SInt));
        for (int i = 0; i < 8; ++i) r.add(t[i]);
        docs.push_back(PluginManager::save("tlb", r));
    }
    CHECK(docs[0] == docs[1]);
    return 0;
}
''')

bug("C20-array-of-resized", "C20", [(TM, """        if (!Indirect::do_resize(registry, new_sizes))
            return false;

        setSize(getDimension() * getIndirection().getSize());
        return true;
""", """        size_t const old_element_size = getIndirection().getSize();
        if (!Indirect::do_resize(registry, new_sizes))
            return false;

        setSize(getSize() + getDimension() * (getIndirection().getSize() - old_element_size));
        return true;
""")], "resizing a type that is the element of an array (the element already has its new size when the array is handled)",
"the array keeps its old size", r'''
int main()
{
    Std r; r.add(new OpaqueType("/O", 4)); Type const& a = *r.build("/O[5]");
    std::map<string, size_t> m; m["/O"] = 12; r.resize(m);
    CHECK(r.get("/O")->getSize() == 12);
    CHECK(a.getSize() == 60);
    return 0;
}
''')

bug("C21-stack-after-throw", "C21", [("typelib/value.cc", """            m_stack.clear();
            m_stack.push_back( reinterpret_cast<uint8_t*>(value.getData()));
            TypeVisitor::apply(value.getType());
            m_stack.pop_back();
""", """            if (m_stack.empty())
                m_stack.push_back( reinterpret_cast<uint8_t*>(value.getData()));
            else
                m_stack.front() = reinterpret_cast<uint8_t*>(value.getData());
            TypeVisitor::apply(value.getType());
            m_stack.pop_back();
""")], "a visit that throws below the top level, followed by another visit with the same visitor",
"the second visit uses an address left by the aborted one", r'''
struct V : ValueVisitor { vector<void*> seen; bool fail; V() : fail(false) {}
    bool visit_(int32_t& v) { seen.push_back(&v); if (fail) throw std::runtime_error("stop"); return true; } 
    using ValueVisitor::visit_; };
int main()
{
    Std r; Compound* c = new Compound("/S");
    c->addField("a", *r.get("/int32_t"), 0); c->addField("b", *r.get("/int32_t"), 4); r.add(c);
    int32_t x[2] = { 1, 2 }, y[2] = { 3, 4 };
    V v; v.fail = true;
    CHECK(throws([&] { v.apply(Value(x, *c)); }));
    v.fail = false; v.seen.clear();
    v.apply(Value(y, *c));
    CHECK(v.seen.size() == 2 && v.seen[0] == &y[0] && v.seen[1] == &y[1]);
    return 0;
}
''')
del_ids = ["C12-alias-of-container-lost", "C13-refused-type-left-behind"]
