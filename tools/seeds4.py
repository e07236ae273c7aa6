# planted bugs, fourth batch (C++): see seeds1.py
RG = "typelib/registry.cc"
TM = "typelib/typemodel.cc"

bug("C08-removing-a-recursive-type", "C08", [(RG, """                if (result.count(&t) || queue.count(&t)) continue;
""", """                if (queue.count(&t)) continue;
""")], "removing (or asking what depends on) a compound that holds a pointer to itself",
"the search for dependent types never ends for recursive types", r'''
#include <unistd.h>
int main()
{
    alarm(20);
    Std r;
    Compound* c = new Compound("/List"); r.add(c);
    Type const* p = r.build("/List*");
    c->addField("next", *p, 0);
    std::set<Type*> gone = r.remove(*c);
    CHECK(gone.size() == 2);
    CHECK(!r.has("/List", false) && !r.has("/List*", false));
    return 0;
}
''')

bug("C20-resized-but-as-large", "C20", [(TM, """            new_sizes.insert(make_pair(getName(), make_pair(old_size, getSize()) ));
            return true;
""", """            if (getSize() != old_size)
                new_sizes.insert(make_pair(getName(), make_pair(old_size, getSize()) ));
            return true;
""")], "a compound whose fields are resized so that its own size stays the same, visited more than once",
"the compound is resized again for each of its users: the fields are moved several times", r'''
int main()
{
    Std r;
    Compound* a = new Compound("/A"); a->addField("a", *r.get("/int32_t"), 0); r.add(a);
    Compound* b = new Compound("/B"); b->addField("b", *r.get("/int64_t"), 0); r.add(b);
    Compound* c = new Compound("/C"); c->addField("a", *a, 0); c->addField("x", *r.get("/int32_t"), 4); c->addField("b", *b, 8); r.add(c);
    r.build("/C[2]"); r.build("/C[3]");
    std::map<string, size_t> sizes; sizes["/A"] = 8; sizes["/B"] = 4;
    r.resize(sizes);
    CHECK(c->getField("x")->getOffset() == 8);
    CHECK(c->getField("b")->getOffset() == 12);
    CHECK(c->getSize() == 16);
    return 0;
}
''')
