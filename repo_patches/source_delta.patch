From d4d13062785d150a538726fdea249d48683c74bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 001/109] fix: loading an empty container must empty the target

When the image announced zero elements, load() left the previous
content of the destination container untouched.
---
 typelib/value_ops.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 104f4cb..031486a 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -172,7 +172,10 @@ boost::tuple<size_t, MemoryLayout::const_iterator> ValueOps::load(
                 boost::uint64_t element_count;
                 stream.read(reinterpret_cast< boost::uint8_t* >(&element_count), sizeof( boost::uint64_t ));
                 if (element_count == 0)
+                {
+                    type->clear(container_ptr);
                     it = MemoryLayout::skipBlock(++it, end);
+                }
                 else
                 {
                     it = type->load(container_ptr, element_count, stream, ++it, end);
-- 
2.43.0


From 7536698b2a4f72a4e2f01b4c64d240ce72978c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 002/109] fix: report failing writes when dumping to a FILE

FileOutputStream ignored the result of fwrite, so that a dump to a full or
failing device appeared to have succeeded. The file descriptor variant
already reports it.
---
 typelib/value_ops.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 031486a..aa302c0 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -693,7 +693,8 @@ struct FileOutputStream : public OutputStream
 
     void write(boost::uint8_t const* data, size_t size)
     {
-        ::fwrite(data, size, 1, fd);
+        if (size != 0 && ::fwrite(data, size, 1, fd) != 1)
+            throw std::runtime_error("write failed in ValueOps::dump: " + std::string(strerror(errno)));
     }
 };
 void Typelib::dump(Value v, FILE* fd)
-- 
2.43.0


From 78e89c9b80b46aa880b8153411b6da5fe9816f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 003/109] fix: refuse vector sizes that overflow the byte count

The product of the element count and of the element size was not checked.
An element count read from a corrupt stream could wrap around, leading to
a buffer that is smaller than what is later written in it.
---
 lang/csupport/containers.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index b537173..b78ceff 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -6,6 +6,7 @@
 #include <boost/tuple/tuple.hpp>
 #include <string.h>
 #include <limits>
+#include <stdexcept>
 
 #include <iostream>
 
@@ -97,6 +98,9 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
 
     size_t old_raw_size   = ptr->size();
     size_t old_size       = getElementCount(ptr);
+
+    if (element_size != 0 && new_size > ptr->max_size() / element_size)
+        throw std::length_error("too many elements of type " + element_t.getName());
     size_t new_raw_size   = new_size * element_size;
 
     if (!hasElementLayout())
-- 
2.43.0


From 9608a25e2bcc064e3d2302ece6ad8e64947fd6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 004/109] fix: make the growth of vectors exception-safe

When copying an element failed (e.g. because of memory exhaustion) while
moving the elements to a bigger buffer, the elements already moved had been
destroyed but were still in the container, and their copies were leaked.
---
 lang/csupport/containers.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index b78ceff..2dc3463 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -128,12 +128,26 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
         std::vector<uint8_t> new_buffer;
         new_buffer.resize(new_raw_size);
         size_t copy_raw_size = std::min(old_raw_size, new_raw_size);
-        for (size_t i = 0; i < copy_raw_size; i += element_size)
+        size_t initialized_size = 0;
+        try
         {
-            Typelib::init(&new_buffer[i], element_layout);
-            Typelib::copy(&new_buffer[i], &(*ptr)[i], element_layout);
-            Typelib::destroy(&(*ptr)[i], element_layout);
+            for (size_t i = 0; i < copy_raw_size; i += element_size)
+            {
+                Typelib::init(&new_buffer[i], element_layout);
+                initialized_size += element_size;
+                Typelib::copy(&new_buffer[i], &(*ptr)[i], element_layout);
+            }
+        }
+        catch(...)
+        {
+            // Leave the original container untouched
+            for (size_t i = 0; i < initialized_size; i += element_size)
+                Typelib::destroy(&new_buffer[i], element_layout);
+            throw;
         }
+
+        for (size_t i = 0; i < copy_raw_size; i += element_size)
+            Typelib::destroy(&(*ptr)[i], element_layout);
         ptr->swap(new_buffer);
     }
 
-- 
2.43.0


From 8f031a26f67846c7991c02f3bce71ce5ba643e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 005/109] fix: allow pushing one of a vector's own elements
 into it

The value was read after the vector had been resized, i.e. possibly from
a buffer that has been freed by the reallocation.
---
 lang/csupport/containers.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 2dc3463..68869d9 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -5,6 +5,7 @@
 #include <typelib/value_ops_details.hh>
 #include <boost/tuple/tuple.hpp>
 #include <string.h>
+#include <functional>
 #include <limits>
 #include <stdexcept>
 
@@ -167,11 +168,21 @@ void Vector::push(void* ptr, Value v) const
     std::vector<uint8_t>* vector_ptr =
         reinterpret_cast< std::vector<uint8_t>* >(ptr);
 
+    // The value might be one of our own elements, in which case it moves when
+    // the vector gets resized
+    uint8_t* data = reinterpret_cast<uint8_t*>(v.getData());
+    uint8_t* base = vector_ptr->data();
+    bool is_own_element = std::greater_equal<uint8_t*>()(data, base) &&
+        std::less<uint8_t*>()(data, base + vector_ptr->size());
+    size_t offset = is_own_element ? data - base : 0;
+
     size_t size = getElementCount(ptr);
     resize(vector_ptr, size + 1);
+    if (is_own_element)
+        data = vector_ptr->data() + offset;
     Typelib::copy(
             Value(&(*vector_ptr)[size * getIndirection().getSize()], getIndirection()),
-            v);
+            Value(data, getIndirection()));
 }
 
 bool Vector::erase(void* ptr, Value v) const
-- 
2.43.0


From bdc363700ca68bfcd16c5e4b00ada124b283e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 006/109] fix: implement the removal of elements from strings

erase() always reported that the element could not be found and delete_if()
did nothing on /std/string, unlike what the Container interface documents.
---
 lang/csupport/containers.cc | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 68869d9..ec42151 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -457,7 +457,17 @@ void String::push(void* ptr, Value v) const
 
 bool String::erase(void* ptr, Value v) const
 {
-    return false;
+    if (v.getType() != getIndirection())
+        throw std::runtime_error("type mismatch in string erase");
+
+    std::string* string_ptr =
+        reinterpret_cast< std::string* >(ptr);
+
+    size_t pos = string_ptr->find(*reinterpret_cast<std::string::value_type*>(v.getData()));
+    if (pos == std::string::npos)
+        return false;
+    string_ptr->erase(pos, 1);
+    return true;
 }
 
 bool String::compare(void* ptr, void* other) const
@@ -515,7 +525,18 @@ Container::MarshalOps::const_iterator String::load(
     return begin + 2;
 }
 void String::delete_if_impl(void* ptr, DeleteIfPredicate& pred) const
-{}
+{
+    std::string* string_ptr =
+        reinterpret_cast< std::string* >(ptr);
+
+    for (size_t i = 0; i < string_ptr->length(); )
+    {
+        if (pred.should_delete(Value(&(*string_ptr)[i], getIndirection())))
+            string_ptr->erase(i, 1);
+        else
+            ++i;
+    }
+}
 
 Container const& String::factory(Registry& registry, std::list<Type const*> const& on)
 {
-- 
2.43.0


From ea6b02b7fa2c699712a93eeebf45d4d0dbb4012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 007/109] fix: make Registry::isSame compare all the types of
 the two registries

The iterator of the other registry was never incremented and the end
iterator was, so that all types were compared to the first one, and the
loop went past the end of the map.
---
 typelib/registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 3ed6c94..55f2e6f 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -562,9 +562,11 @@ namespace Typelib
 
         while (left_it != left_end)
         {
+            if (left_it->first != right_it->first)
+                return false;
             if (!left_it->second.type->isSame(*right_it->second.type))
                 return false;
-            left_it++; left_end++;
+            ++left_it; ++right_it;
         }
         return true;
     }
-- 
2.43.0


From 1943e9799d5c6f3204c920c2a2c06c046adb5321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 008/109] fix: resolve relative names independently of the
 declaration order

When two types of the current namespace hierarchy had the same relative
name, the one found depended on the order of their names and of their
declaration instead of being the one from the most specific namespace, as it
is when the default namespace is set. The registration is now also
rolled back if it fails halfway.
---
 typelib/registry.cc | 77 +++++++++++++++++++++++++++++++++------------
 typelib/registry.hh |  6 ++++
 2 files changed, 63 insertions(+), 20 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 55f2e6f..bf5013e 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -339,32 +339,69 @@ namespace Typelib
             , persistent
             , source_id };
 
-        m_global.insert (make_pair(name, regtype));
-        m_current.insert(make_pair(name, regtype));
-
-        NameTokenizer tokens( m_namespace );
-        NameTokenizer::const_iterator ns_it = tokens.begin();
-        std::string cur_space = NamespaceMarkString;
-        while(true)
+        // Everything that can fail is done first. The registry is left
+        // untouched if it does.
+        std::vector<std::string> names = getVisibleNames(name);
+        std::vector<NameMap::iterator> inserted;
+        std::vector< std::pair<NameMap::iterator, RegistryType> > replaced;
+        inserted.reserve(names.size());
+        replaced.reserve(names.size());
+
+        TypeMap::iterator global_it = m_global.insert(make_pair(name, regtype)).first;
+        try
         {
-            if (name.size() <= cur_space.size() || string(name, 0, cur_space.size()) != cur_space)
-                break;
-
-            string cur_name  = getRelativeName(name, cur_space);
-
-            // Check if there is already a type with the same relative name
-            TypeMap::iterator it = m_current.find(cur_name);
-            if (it == m_current.end() || !nameSort(it->second.type->getName(), name))
+            for (size_t i = 0; i < names.size(); ++i)
             {
-                m_current.erase(cur_name);
-                m_current.insert(make_pair(cur_name, regtype));
+                pair<NameMap::iterator, bool> result = m_current.insert(make_pair(names[i], regtype));
+                if (result.second)
+                    inserted.push_back(result.first);
+                else
+                    replaced.push_back(make_pair(result.first, regtype));
             }
+        }
+        catch(...)
+        {
+            for (size_t i = 0; i < inserted.size(); ++i)
+                m_current.erase(inserted[i]);
+            m_global.erase(global_it);
+            throw;
+        }
 
-            if (ns_it == tokens.end())
-                break;
+        for (size_t i = 0; i < replaced.size(); ++i)
+            std::swap(replaced[i].first->second, replaced[i].second);
+    }
+
+    std::vector<std::string> Registry::getVisibleNames(std::string const& name) const
+    {
+        std::vector<std::string> result;
+        result.push_back(name);
+
+        // The default namespace and all the ones that enclose it
+        std::vector<std::string> spaces;
+        std::string cur_space = NamespaceMarkString;
+        spaces.push_back(cur_space);
+        NameTokenizer tokens( m_namespace );
+        for (NameTokenizer::const_iterator ns_it = tokens.begin(); ns_it != tokens.end(); ++ns_it)
+        {
             cur_space += *ns_it + NamespaceMarkString;
-            ++ns_it;
+            spaces.push_back(cur_space);
         }
+
+        for (size_t i = 0; i < spaces.size(); ++i)
+        {
+            std::string const& space = spaces[i];
+            if (name.size() <= space.size() || name.compare(0, space.size(), space) != 0)
+                break;
+
+            // A name from a more specific namespace has priority over this one
+            std::string rel_name(name, space.size(), string::npos);
+            bool hidden = false;
+            for (size_t j = i + 1; !hidden && j < spaces.size(); ++j)
+                hidden = (m_global.find(spaces[j] + rel_name) != m_global.end());
+            if (!hidden)
+                result.push_back(rel_name);
+        }
+        return result;
     }
 
     void Registry::add(Type* new_type, const std::string& source_id)
diff --git a/typelib/registry.hh b/typelib/registry.hh
index 79411c8..40a4bbc 100644
--- a/typelib/registry.hh
+++ b/typelib/registry.hh
@@ -121,6 +121,12 @@ namespace Typelib
          */
         void updateCurrentNameMap();
 
+        /** Returns the names under which the type registered as \c name is
+         * visible given the current default namespace, including \c name
+         * itself
+         */
+        std::vector<std::string> getVisibleNames(std::string const& name) const;
+
     public:
         typedef RegistryIterator Iterator;
 
-- 
2.43.0


From 3b74548a5800b24520f1e1bf98e68932abbeda24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 009/109] fix: do not leave dangling types behind when a merge
 fails

When merging a self-referential compound was refused because of a conflict
in one of its fields, or failed for another reason, the pointers and
containers of the compound remained in the target registry and referred to
the deleted compound. Registration failures also leaked the new type, or
left it in the registry while the caller still owned it.
---
 typelib/registry.cc  | 75 ++++++++++++++++++++++++++++++++++----------
 typelib/registry.hh  |  3 ++
 typelib/typemodel.cc | 36 ++++++++++++++++++---
 3 files changed, 93 insertions(+), 21 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index bf5013e..8aacf00 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -61,19 +61,28 @@ namespace Typelib
 
     void Registry::updateCurrentNameMap()
     {
-        m_current.clear();
-
-        for (TypeMap::iterator it = m_global.begin(); it != m_global.end(); ++it)
-            m_current.insert( make_pair(it->first, it->second) );
+        NameMap old_map;
+        m_current.swap(old_map);
 
-        importNamespace(NamespaceMarkString);
-        std::string cur_space = NamespaceMarkString;
-        NameTokenizer tokens( m_namespace );
-        NameTokenizer::const_iterator ns_it = tokens.begin();
-        for (; ns_it != tokens.end(); ++ns_it)
+        try
         {
-            cur_space += *ns_it + NamespaceMarkString;
-            importNamespace(cur_space, true);
+            for (TypeMap::iterator it = m_global.begin(); it != m_global.end(); ++it)
+                m_current.insert( make_pair(it->first, it->second) );
+
+            importNamespace(NamespaceMarkString);
+            std::string cur_space = NamespaceMarkString;
+            NameTokenizer tokens( m_namespace );
+            NameTokenizer::const_iterator ns_it = tokens.begin();
+            for (; ns_it != tokens.end(); ++ns_it)
+            {
+                cur_space += *ns_it + NamespaceMarkString;
+                importNamespace(cur_space, true);
+            }
+        }
+        catch(...)
+        {
+            m_current.swap(old_map);
+            throw;
         }
     }
 
@@ -411,20 +420,52 @@ namespace Typelib
 
     void Registry::add(Type* new_type, bool persistent, const std::string& source_id)
     {
+        Type const* old_type = get(new_type->getName());
         add(new_type->getName(), new_type, persistent, source_id);
 
         // If there are any aliases for any of the type's dependencies, trigger
         // modifiedDependencyAliases()
-        set<Type const*> dependencies = new_type->dependsOn();
-        for (set<Type const*>::const_iterator dep_it = dependencies.begin();
-                dep_it != dependencies.end(); ++dep_it)
+        try
         {
-            if (!getAliasesOf(**dep_it).empty())
+            set<Type const*> dependencies = new_type->dependsOn();
+            for (set<Type const*>::const_iterator dep_it = dependencies.begin();
+                    dep_it != dependencies.end(); ++dep_it)
             {
-                new_type->modifiedDependencyAliases(*this);
-                break;
+                if (!getAliasesOf(**dep_it).empty())
+                {
+                    new_type->modifiedDependencyAliases(*this);
+                    break;
+                }
             }
         }
+        catch(...)
+        {
+            // The type remains owned by the caller if we throw, we must not
+            // refer to it anymore
+            if (old_type != new_type)
+                unregister(new_type);
+            throw;
+        }
+    }
+
+    void Registry::unregister(Type const* type)
+    {
+        TypeMap::iterator global_it = m_global.begin(), global_end = m_global.end();
+        while (global_it != global_end)
+        {
+            if (global_it->second.type == type)
+                m_global.erase(global_it++);
+            else ++global_it;
+        }
+
+        NameMap::iterator current_it = m_current.begin(), current_end = m_current.end();
+        while (current_it != current_end)
+        {
+            if (current_it->second.type == type)
+                m_current.erase(current_it++);
+            else ++current_it;
+        }
+        updateCurrentNameMap();
     }
 
     void Registry::alias(std::string const& base, std::string const& newname, std::string const& source_id)
diff --git a/typelib/registry.hh b/typelib/registry.hh
index 40a4bbc..1c1247b 100644
--- a/typelib/registry.hh
+++ b/typelib/registry.hh
@@ -116,6 +116,9 @@ namespace Typelib
          */
         std::set<Type*> reverseDepends(Type const& type);
 
+        /** Removes all the names that refer to the given type */
+        void unregister(Type const* type);
+
         /** Updates +m_current+ based on +m_global+ and the current default
          * namespace
          */
diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index bfe0c67..0dc6e9e 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -19,11 +19,11 @@ using boost::lexical_cast;
 namespace Typelib
 {
     Type::Type(std::string const& name, size_t size, Category category)
-        : m_size(size)
+        : m_name(name)
+        , m_size(size)
         , m_category(category)
         , m_metadata(new MetaData)
     {
-        setName(name);
     }
 
     Type::Type(Type const& type)
@@ -101,6 +101,21 @@ namespace Typelib
     bool Type::do_compare(Type const& other, bool equality, RecursionStack& stack) const
     { return (getSize() == other.getSize() && getCategory() == other.getCategory()); }
 
+    /** Deletes the types of \c registry that depend on \c type.
+     *
+     * It is used when merging \c type failed, while recursive types that refer
+     * to it have already been added to the registry
+     */
+    static void removeDependents(Registry& registry, Type const& type)
+    {
+        set<Type*> types = registry.remove(type);
+        for (set<Type*>::const_iterator it = types.begin(); it != types.end(); ++it)
+        {
+            if (*it != &type)
+                delete *it;
+        }
+    }
+
     Type const& Type::merge(Registry& registry) const
     {
         RecursionStack stack;
@@ -132,8 +147,20 @@ namespace Typelib
             return *old_type;
 
         Type* new_type = do_merge(registry, stack);
-        stack.insert(make_pair(this, new_type));
-        registry.add(new_type);
+        try
+        {
+            stack.insert(make_pair(this, new_type));
+            registry.add(new_type);
+        }
+        catch(...)
+        {
+            if (!registry.isIncluded(*new_type))
+            {
+                removeDependents(registry, *new_type);
+                delete new_type;
+            }
+            throw;
+        }
         return *new_type;
     }
 
@@ -387,6 +414,7 @@ namespace Typelib
         }
         catch(...) {
             stack.erase(onStackIter);
+            removeDependents(registry, *result);
             throw;
         }
 
-- 
2.43.0


From 06ede7ea7ab01449ff7b015c2c05d8bc0d650aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 010/109] fix: do not leak types whose registration is refused

The registry refuses types with invalid or already used names by throwing, in
which case the types created by the importer, the type builder and the
container factories were lost.
---
 lang/csupport/containers.cc | 19 ++++++++++---------
 lang/tlb/import.cc          | 28 +++++++++++-----------------
 typelib/typebuilder.cc      | 13 +++++++------
 3 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index ec42151..2144dc3 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -7,6 +7,7 @@
 #include <string.h>
 #include <functional>
 #include <limits>
+#include <memory>
 #include <stdexcept>
 
 #include <iostream>
@@ -402,9 +403,9 @@ Container const& Vector::factory(Registry& registry, std::list<Type const*> cons
     std::string full_name = Vector::fullName(contained_type.getName());
     if (! registry.has(full_name))
     {
-        Vector* new_type = new Vector(contained_type);
-        registry.add(new_type);
-        return *new_type;
+        std::unique_ptr<Vector> new_type(new Vector(contained_type));
+        registry.add(new_type.get());
+        return *new_type.release();
     }
 
     const Type *type = registry.get(full_name);
@@ -548,17 +549,17 @@ Container const& String::factory(Registry& registry, std::list<Type const*> cons
 
     Type const* element_type;
     if (!registry.has("/int8_t")) {
-        Type* new_type = new Typelib::Numeric("/int8_t", 1, Numeric::SInt);
-        registry.add(new_type);
-        element_type = new_type;
+        std::unique_ptr<Type> new_type(new Typelib::Numeric("/int8_t", 1, Numeric::SInt));
+        registry.add(new_type.get());
+        element_type = new_type.release();
     }
     else {
         element_type = registry.get("/int8_t");
     }
 
-    String* new_type = new String(*element_type);
-    registry.add(new_type);
-    return *new_type;
+    std::unique_ptr<String> new_type(new String(*element_type));
+    registry.add(new_type.get());
+    return *new_type.release();
 }
 Container::ContainerFactory String::getFactory() const { return factory; }
 
diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 9a6b46e..eb133b0 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -8,6 +8,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 // Helpers
 namespace
@@ -100,10 +101,11 @@ namespace
 
         Registry& getRegistry() { return m_registry; }
 
-        void insert(TypeNode const& type, Type* object)
+        Type const* insert(TypeNode const& type, std::unique_ptr<Type> object)
         {
             loadMetaData(type, object->getMetaData());
-            m_registry.add(object, type.file);
+            m_registry.add(object.get(), type.file);
+            return object.release();
         }
 
         void alias (TypeNode const& type, string const& new_name)
@@ -182,22 +184,16 @@ namespace
             , reinterpret_cast<xmlChar const*>(getAttribute<string>(node.xml, "category").c_str()) );
         size_t      size = getAttribute<size_t>(node.xml, "size");
 
-        Type* type = new Numeric(node.name, size, category.type);
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, std::unique_ptr<Type>(new Numeric(node.name, size, category.type)));
     }
     Type const* load_null(TypeNode const& node, Factory& factory)
     {
-        Type* type = new NullType(node.name);
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, std::unique_ptr<Type>(new NullType(node.name)));
     }
     Type const* load_opaque(TypeNode const& node, Factory& factory)
     {
         size_t size = getAttribute<size_t>(node.xml, "size");
-        Type* type = new OpaqueType(node.name, size);
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, std::unique_ptr<Type>(new OpaqueType(node.name, size)));
     }
     Type const* load_container(TypeNode const& node, Factory& factory)
     {
@@ -226,7 +222,7 @@ namespace
     }
     Type const* load_enum(TypeNode const& node, Factory& factory)
     {
-        Enum* type = new Enum(node.name);
+        std::unique_ptr<Enum> type(new Enum(node.name));
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
         {
             if (xmlStrcmp(xml->name, reinterpret_cast<const xmlChar*>("value")))
@@ -237,8 +233,7 @@ namespace
             type->add(symbol, value);
         }
 
-        factory.insert(node, type);
-        return type;
+        return factory.insert(node, std::move(type));
     }
     Type const* load_alias(TypeNode const& node, Factory& factory)
     {
@@ -251,7 +246,7 @@ namespace
 
     Type const* load_compound(TypeNode const& node, Factory& factory)
     {
-        Compound* compound = new Compound(node.name);
+        std::unique_ptr<Compound> compound(new Compound(node.name));
         size_t size = getAttribute<size_t>(node.xml, "size");
 
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
@@ -271,8 +266,7 @@ namespace
 
         compound->normalizeFieldOrder();
         compound->setSize(size);
-        factory.insert(node, compound);
-        return compound;
+        return factory.insert(node, std::move(compound));
     }
 }
 
diff --git a/typelib/typebuilder.cc b/typelib/typebuilder.cc
index bcec4a1..e9ed3d9 100644
--- a/typelib/typebuilder.cc
+++ b/typelib/typebuilder.cc
@@ -3,6 +3,7 @@
 #include "typemodel.hh"
 #include <boost/lexical_cast.hpp>
 
+#include <memory>
 #include <numeric>
 #include <sstream>
 
@@ -45,9 +46,9 @@ namespace Typelib
                 m_type = base_type;
             else
             {
-                Type* new_type = new Pointer(*m_type);
-                m_registry.add(new_type);
-                m_type = new_type;
+                std::unique_ptr<Type> new_type(new Pointer(*m_type));
+                m_registry.add(new_type.get());
+                m_type = new_type.release();
             }
         }
     }
@@ -77,9 +78,9 @@ namespace Typelib
             m_type = base_type;
         else
         {
-            Type* new_type = new Array(*m_type, new_dim);
-            m_registry.add(new_type);
-            m_type = new_type;
+            std::unique_ptr<Type> new_type(new Array(*m_type, new_dim));
+            m_registry.add(new_type.get());
+            m_type = new_type.release();
         }
     }
 
-- 
2.43.0


From f2256ca50b9ca75884284aeaa6f1cca3a2013cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 011/109] fix: do not allocate memory when releasing a
 singleton

use<>'s destructor built the std::string key of the service it releases. When
that allocation failed, the exception left a destructor and terminated the
process.
---
 typelib/utilmm/singleton/bits/dummy.hh    | 2 +-
 typelib/utilmm/singleton/bits/wrapper.tcc | 3 ++-
 typelib/utilmm/singleton/dummy.cc         | 2 +-
 typelib/utilmm/singleton/server.cc        | 8 ++++++--
 typelib/utilmm/singleton/server.hh        | 2 +-
 5 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/typelib/utilmm/singleton/bits/dummy.hh b/typelib/utilmm/singleton/bits/dummy.hh
index 603fccc..152a278 100644
--- a/typelib/utilmm/singleton/bits/dummy.hh
+++ b/typelib/utilmm/singleton/bits/dummy.hh
@@ -54,7 +54,7 @@ namespace utilmm {
        * singleton server that the singleton identified as @a name has
        * lost one client.
        */
-      static void detach(std::string const &name);
+      static void detach(char const *name);
 
       /** @brief Singleton generic access
        *
diff --git a/typelib/utilmm/singleton/bits/wrapper.tcc b/typelib/utilmm/singleton/bits/wrapper.tcc
index 2934f9c..c31357c 100644
--- a/typelib/utilmm/singleton/bits/wrapper.tcc
+++ b/typelib/utilmm/singleton/bits/wrapper.tcc
@@ -42,7 +42,8 @@ namespace utilmm {
 
     template<typename Ty>
     void wrapper<Ty>::detach() {
-      dummy::detach(name());
+      // called from destructors: must not allocate, as name() would
+      dummy::detach(typeid(Ty).name());
     }
 
     template<typename Ty>
diff --git a/typelib/utilmm/singleton/dummy.cc b/typelib/utilmm/singleton/dummy.cc
index efbccec..e37acb3 100644
--- a/typelib/utilmm/singleton/dummy.cc
+++ b/typelib/utilmm/singleton/dummy.cc
@@ -30,7 +30,7 @@ void dummy::attach(std::string const &name, details::dummy_factory const& inst)
   server::instance().attach(name, inst);
 }
 
-void dummy::detach(std::string const &name) {
+void dummy::detach(char const *name) {
   server::lock_type locker(server::sing_mtx);
   if( server::instance().detach(name) )
     delete server::the_instance;
diff --git a/typelib/utilmm/singleton/server.cc b/typelib/utilmm/singleton/server.cc
index 5f37eb2..d9ebff9 100644
--- a/typelib/utilmm/singleton/server.cc
+++ b/typelib/utilmm/singleton/server.cc
@@ -33,8 +33,12 @@ void server::attach(std::string const &name, details::dummy_factory const& facto
   it->second->incr_ref();
 }
 
-bool server::detach(std::string const &name) {
-  single_map::iterator i = singletons.find(name);
+bool server::detach(char const *name) {
+  // not find(): building the key would allocate, and this is called from
+  // destructors
+  single_map::iterator i = singletons.begin();
+  while( i->first != name )
+    ++i;
 
   if( i->second->decr_ref() ) {
     dummy *to_del = i->second;
diff --git a/typelib/utilmm/singleton/server.hh b/typelib/utilmm/singleton/server.hh
index 30a722c..635d739 100644
--- a/typelib/utilmm/singleton/server.hh
+++ b/typelib/utilmm/singleton/server.hh
@@ -30,7 +30,7 @@ namespace utilmm {
       static server &instance();
 
       void attach(std::string const &name, details::dummy_factory const& factory);
-      bool detach(std::string const &name);
+      bool detach(char const *name);
 
       dummy *get(std::string const &name) const;
 
-- 
2.43.0


From ebca3856bd6d255e07dbeaddd478e3cb50804fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 012/109] fix: do not leak a singleton that could not be
 registered

---
 typelib/utilmm/singleton/server.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/typelib/utilmm/singleton/server.cc b/typelib/utilmm/singleton/server.cc
index d9ebff9..9d92b19 100644
--- a/typelib/utilmm/singleton/server.cc
+++ b/typelib/utilmm/singleton/server.cc
@@ -27,8 +27,16 @@ server::~server() {
 // modifiers
 void server::attach(std::string const &name, details::dummy_factory const& factory) {
   single_map::iterator it = singletons.find(name);
-  if (it == singletons.end())
-    it = singletons.insert( single_map::value_type(name, factory.create()) ).first;
+  if (it == singletons.end()) {
+    dummy *inst = factory.create();
+    try {
+      it = singletons.insert( single_map::value_type(name, inst) ).first;
+    }
+    catch(...) {
+      delete inst;
+      throw;
+    }
+  }
 
   it->second->incr_ref();
 }
-- 
2.43.0


From f9a348c48c920e203d691205484ebc0c8429d36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 013/109] fix: keep the singleton server valid while a service
 is destroyed

When the destructor of a service released the last other service, the nested
detach deleted the server, and the outer one then read the freed server.
---
 typelib/utilmm/singleton/dummy.cc  | 3 ++-
 typelib/utilmm/singleton/server.cc | 5 ++---
 typelib/utilmm/singleton/server.hh | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/typelib/utilmm/singleton/dummy.cc b/typelib/utilmm/singleton/dummy.cc
index e37acb3..9120bf4 100644
--- a/typelib/utilmm/singleton/dummy.cc
+++ b/typelib/utilmm/singleton/dummy.cc
@@ -32,7 +32,8 @@ void dummy::attach(std::string const &name, details::dummy_factory const& inst)
 
 void dummy::detach(char const *name) {
   server::lock_type locker(server::sing_mtx);
-  if( server::instance().detach(name) )
+  server::instance().detach(name);
+  if( server::the_instance && server::the_instance->singletons.empty() )
     delete server::the_instance;
 }
 
diff --git a/typelib/utilmm/singleton/server.cc b/typelib/utilmm/singleton/server.cc
index 9d92b19..5462605 100644
--- a/typelib/utilmm/singleton/server.cc
+++ b/typelib/utilmm/singleton/server.cc
@@ -41,7 +41,7 @@ void server::attach(std::string const &name, details::dummy_factory const& facto
   it->second->incr_ref();
 }
 
-bool server::detach(char const *name) {
+void server::detach(char const *name) {
   // not find(): building the key would allocate, and this is called from
   // destructors
   single_map::iterator i = singletons.begin();
@@ -52,10 +52,9 @@ bool server::detach(char const *name) {
     dummy *to_del = i->second;
 
     singletons.erase(i);
+    // the destructor may itself release services, and so delete this server
     delete to_del;
-    return singletons.empty();
   }
-  return false;
 }
 
 // observers
diff --git a/typelib/utilmm/singleton/server.hh b/typelib/utilmm/singleton/server.hh
index 635d739..883f351 100644
--- a/typelib/utilmm/singleton/server.hh
+++ b/typelib/utilmm/singleton/server.hh
@@ -30,7 +30,7 @@ namespace utilmm {
       static server &instance();
 
       void attach(std::string const &name, details::dummy_factory const& factory);
-      bool detach(char const *name);
+      void detach(char const *name);
 
       dummy *get(std::string const &name) const;
 
-- 
2.43.0


From 35b800c0bd958cc4a690ffffab4225015829e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 014/109] fix: do not truncate array names when an allocation
 fails

A string stream that runs out of memory only sets its state. The name of the
array lost its dimension, and building /T[2] then silently returned /T.
---
 typelib/typemodel.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 0dc6e9e..cb18241 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -556,9 +556,9 @@ namespace Typelib
 
     std::string Array::getArrayName(std::string const& name, size_t dim)
     {
-        std::ostringstream stream;
-        stream << name << '[' << dim << ']';
-        return stream.str();
+        // not with a stringstream, which would silently truncate the name if it
+        // ran out of memory
+        return name + '[' + lexical_cast<string>(dim) + ']';
     }
     size_t  Array::getDimension() const { return m_dimension; }
     bool Array::do_compare(Type const& type, bool equality, RecursionStack& stack) const
-- 
2.43.0


From b3c6a44946b8d196ce30a84185f3130334b812e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 015/109] fix: simplify arrays of empty types correctly

An array whose elements have no content was removed from the layout together
with the operation before it, even if no operation had been pushed just before
it. This corrupted the layout, or threw length_error when there was none.
---
 typelib/memory_layout.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index e8272f2..0d1abcf 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -194,7 +194,10 @@ MemoryLayout::const_iterator MemoryLayout::simplifyInit(const_iterator it, const
             else if (added_ops == 0)
             {
                 // Void all the modifications we've made so far
-                simplified.init_ops.resize(content_i - 4);
+                if (current_op_count)
+                    simplified.init_ops.resize(content_i - 4);
+                else
+                    simplified.init_ops.resize(content_i - 2);
             }
             else
             {
@@ -312,7 +315,10 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
             else if (added_ops == 0)
             {
                 // Void all the modifications we've made so far
-                simplified.ops.resize(content_i - 4);
+                if (current_op_count)
+                    simplified.ops.resize(content_i - 4);
+                else
+                    simplified.ops.resize(content_i - 2);
             }
             else
             {
-- 
2.43.0


From 4be73839d65a7e38a93d10ae70a8fb34d8c60996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 016/109] fix: accept pointers and opaques inside arrays and
 containers in layouts

layout_of(type, true, true) refused a type whose arrays or containers have
pointer or opaque elements, while it accepts them everywhere else. Comparing
two values of such a type was therefore refused.
---
 typelib/memory_layout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 0d1abcf..e54ab38 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -577,7 +577,7 @@ bool MemLayout::Visitor::visit_ (Enum    const& type)
 bool MemLayout::Visitor::visit_ (Array   const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor array_visitor(subops);
+    MemLayout::Visitor array_visitor(subops, accept_pointers, accept_opaques);
     array_visitor.apply(type.getIndirection());
     ops.pushArray(type, subops);
     return true;
@@ -585,7 +585,7 @@ bool MemLayout::Visitor::visit_ (Array   const& type)
 bool MemLayout::Visitor::visit_ (Container const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor container_visitor(subops);
+    MemLayout::Visitor container_visitor(subops, accept_pointers, accept_opaques);
     container_visitor.apply(type.getIndirection());
     ops.pushContainer(type, subops);
     return true;
-- 
2.43.0


From 09833532b98255de8f21e5adca65c4478cf1e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 017/109] fix: refuse to resize an unknown type

Registry::resize dereferenced a null pointer, after having resized some of the
other types.
---
 typelib/registry.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 8aacf00..3ce6310 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -655,6 +655,13 @@ namespace Typelib
         // First, do a copy of new_sizes for our own use. Most importantly, we
         // resolve aliases
         SizeMap sizes;
+        for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
+                it != new_sizes.end(); ++it)
+        {
+            if (!get(it->first))
+                throw Undefined(it->first);
+        }
+
         for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
                 it != new_sizes.end(); ++it)
         {
-- 
2.43.0


From edb9625cb918c6025e45d778797dbcd3a85ec176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 018/109] fix: do not follow pointers when resizing types

Resizing any type of a registry that has a self-referential type (a list node,
for instance) recursed until the stack was exhausted.
---
 typelib/typemodel.cc | 7 +++++++
 typelib/typemodel.hh | 1 +
 2 files changed, 8 insertions(+)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index cb18241..19d2d10 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -603,6 +603,13 @@ namespace Typelib
         return new Pointer(indirect_type);
     }
 
+    bool Pointer::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
+    {
+        // The size of a pointer does not depend on the pointed-to type, which
+        // might moreover be the very type that is being resized
+        return Type::do_resize(registry, new_sizes);
+    }
+
     Container::Container(std::string const& kind, std::string const& name, size_t size, Type const& of)
         : Indirect( name, size, Type::Container, of )
         , m_kind(kind) {}
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 91d6e15..741d0cf 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -499,6 +499,7 @@ namespace Typelib
 
     private:
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const;
+        virtual bool do_resize(Registry& into, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
     };
 
     struct UnknownContainer : public std::runtime_error
-- 
2.43.0


From d44aef823b6a166ed8adcb06a262585a4b9fb939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 019/109] fix: shift fields only once when resizings compensate
 each other

A compound whose fields were resized without changing its own size was not
registered as resized. Its fields were shifted again each time it was reached
through another type.
---
 typelib/typemodel.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 19d2d10..ff649b2 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -431,6 +431,7 @@ namespace Typelib
 
     bool Compound::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
+        bool changed = false;
         size_t global_offset = 0;
         for (FieldList::iterator it = m_fields.begin(); it != m_fields.end(); ++it)
         {
@@ -440,15 +441,13 @@ namespace Typelib
             if (field_type.resize(registry, new_sizes))
             {
                 size_t old_size = new_sizes.find(field_type.getName())->second.first;
+                if (field_type.getSize() != old_size)
+                    changed = true;
                 global_offset += field_type.getSize() - old_size;
             }
         }
-        if (global_offset != 0)
-        {
-            setSize(getSize() + global_offset);
-            return true;
-        }
-        return false;
+        setSize(getSize() + global_offset);
+        return changed;
     }
 
     void Compound::mergeMetaData(Type const& other) const
-- 
2.43.0


From 38b0d16749488630cf311bef946b8730fa36c0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 020/109] fix: shift the fields of a compound that is resized
 with one of its parts

---
 typelib/registry.cc  | 29 +++++++++++++++++++++++++++++
 typelib/registry.hh  |  7 +++++++
 typelib/typemodel.hh |  2 ++
 3 files changed, 38 insertions(+)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 3ce6310..22c1781 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -649,6 +649,28 @@ namespace Typelib
         return true;
     }
 
+    void Registry::resizeListedCompounds(Type& type,
+            std::map<std::string, std::pair<size_t, size_t> >& sizes,
+            std::set<Type const*>& visited)
+    {
+        if (type.getCategory() == Type::Pointer || !visited.insert(&type).second)
+            return;
+
+        // The types this one is made of must be up-to-date first
+        std::set<Type const*> deps = type.dependsOn();
+        for (std::set<Type const*>::const_iterator it = deps.begin(); it != deps.end(); ++it)
+            resizeListedCompounds(get_(**it), sizes, visited);
+
+        std::map<std::string, std::pair<size_t, size_t> >::const_iterator
+            listed = sizes.find(type.getName());
+        if (type.getCategory() == Type::Compound && listed != sizes.end())
+        {
+            size_t const new_size = type.getSize();
+            type.do_resize(*this, sizes);
+            type.setSize(new_size);
+        }
+    }
+
     void Registry::resize(std::map<std::string, size_t> const& new_sizes)
     {
         typedef std::map<std::string, std::pair<size_t, size_t> > SizeMap;
@@ -672,6 +694,13 @@ namespace Typelib
             t.setSize(it->second);
         }
 
+        // The size of the listed compounds is given, but their fields must
+        // still follow the changes of their own types
+        std::set<Type const*> visited;
+        for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
+                it != new_sizes.end(); ++it)
+            resizeListedCompounds(*get_(it->first), sizes, visited);
+
         for(Iterator it = begin(); it != end(); ++it)
         {
             if (it.isAlias()) continue;
diff --git a/typelib/registry.hh b/typelib/registry.hh
index 1c1247b..74766fc 100644
--- a/typelib/registry.hh
+++ b/typelib/registry.hh
@@ -205,6 +205,13 @@ namespace Typelib
          * You should not be using it. This is for internal Typelib use only */
         Type& get_(Type const& type);
 
+        /** Helper for resize(): shifts the fields of the compounds which are
+         * listed in \c sizes and which \c type depends on, the ones that
+         * others are made of first */
+        void resizeListedCompounds(Type& type,
+                std::map<std::string, std::pair<size_t, size_t> >& sizes,
+                std::set<Type const*>& visited);
+
         /** \overload
          */
         void        add(Type* type, std::string const& source_id = "");
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 741d0cf..19df364 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -69,6 +69,8 @@ namespace Typelib
     /** Base class for all type definitions */
     class Type
     {
+        friend class Registry;
+
     public:
 
         enum Category
-- 
2.43.0


From 6c5dfc29b5fdfdf3556534a96e3c1c1abfbc37c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 021/109] fix: update the layout of vector elements when types
 are resized

Vectors kept using the layout their elements had when the vector type was
created.
---
 lang/csupport/containers.cc | 8 ++++++++
 lang/csupport/containers.hh | 1 +
 2 files changed, 9 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 2144dc3..f2f651d 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -26,6 +26,14 @@ Vector::Vector(Type const& on)
 {
 }
 
+bool Vector::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
+{
+    bool result = Container::do_resize(registry, new_sizes);
+    // The element type has been resized by now, if it had to
+    element_layout = getElementLayout(getIndirection());
+    return result;
+}
+
 bool Vector::isElementMemcpy() const
 {
     return element_layout.isMemcpy();
diff --git a/lang/csupport/containers.hh b/lang/csupport/containers.hh
index 75a6d6f..e345449 100644
--- a/lang/csupport/containers.hh
+++ b/lang/csupport/containers.hh
@@ -11,6 +11,7 @@ class Vector : public Typelib::Container
     void copy(std::vector<uint8_t>* dst_ptr, size_t dst_idx, std::vector<uint8_t>* src_ptr, size_t src_idx, size_t count) const;
     void erase(std::vector<uint8_t>* ptr, size_t idx) const;
     std::string getIndirectTypeName(std::string const& element_name) const;
+    bool do_resize(Typelib::Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
 
     Typelib::MemoryLayout element_layout;
 
-- 
2.43.0


From 8a8c1f11b31f10976f73e6d2544330e8f502f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 022/109] fix: report errors when closing the file a registry
 is saved to

---
 typelib/exporter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typelib/exporter.cc b/typelib/exporter.cc
index 9b4468b..8d35a00 100644
--- a/typelib/exporter.cc
+++ b/typelib/exporter.cc
@@ -28,6 +28,8 @@ void Exporter::save(std::string const &file_name,
     // and then call the internal "save()" function giving it the prepared
     // 'ofstream' object
     save(file, config, registry);
+    // the destructor would ignore the errors of the last flush and of the close
+    file.close();
 }
 
 void Exporter::save(std::ostream& stream, utilmm::config_set const& config, Registry const& registry)
-- 
2.43.0


From 7fddf1eec9862de8c515c046ba8753cc482aacb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 023/109] fix: escape all the names and texts saved in type
 libraries

---
 lang/tlb/export.cc | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 19e6185..10f224f 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -51,14 +51,23 @@ namespace
     std::string xmlEscape(std::string const& source)
     {
         string result = source;
-        size_t pos = result.find_first_of("<>");
+        char const* const special = "<>&\"\t\n\r";
+        size_t pos = result.find_first_of(special);
         while (pos != string::npos)
         {
-            if (result[pos] == '<')
-                result.replace(pos, 1, "&lt;");
-            else if (result[pos] == '>')
-                result.replace(pos, 1, "&gt;");
-            pos = result.find_first_of("<>");
+            string escaped;
+            switch(result[pos])
+            {
+                case '<': escaped = "&lt;"; break;
+                case '>': escaped = "&gt;"; break;
+                case '&': escaped = "&amp;"; break;
+                case '"': escaped = "&quot;"; break;
+                case '\t': escaped = "&#9;"; break;
+                case '\n': escaped = "&#10;"; break;
+                default: escaped = "&#13;"; break;
+            }
+            result.replace(pos, 1, escaped);
+            pos = result.find_first_of(special, pos + escaped.length());
         }
 
         return result;
@@ -74,7 +83,7 @@ namespace
         MetaData::Map const& map = metadata.get();
         for (MetaData::Map::const_iterator it = map.begin(); it != map.end(); ++it)
         {
-            std::string key = it->first;
+            std::string key = xmlEscape(it->first);
             MetaData::Values values = it->second;
             if (values.empty())
             {
@@ -121,7 +130,7 @@ namespace
     {
         m_stream
             << m_indent
-            << "<field name=\"" << field.getName() << "\""
+            << "<field name=\"" << xmlEscape(field.getName()) << "\""
             << " type=\""   << xmlEscape(field.getType().getName())  << "\""
             << " offset=\"" << field.getOffset() << "\">\n";
         m_stream << m_indent << emitMetaData(field.getMetaData()) << "\n";
@@ -150,7 +159,7 @@ namespace
     bool TlbExportVisitor::visit_(Numeric const& type)
     {
         m_stream
-            << "<numeric name=\"" << type.getName() << "\" "
+            << "<numeric name=\"" << xmlEscape(type.getName()) << "\" "
             << "category=\"" << getStringCategory(type.getNumericCategory()) << "\" "
             << "size=\"" << type.getSize() << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
@@ -160,7 +169,7 @@ namespace
     }
     bool TlbExportVisitor::visit_ (NullType const& type)
     {
-        m_stream << "<null " << " name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<null " << " name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</null>";
         return true;
@@ -207,11 +216,11 @@ namespace
     bool TlbExportVisitor::visit_ (Enum const& type)
     {
         Enum::ValueMap const& values = type.values();
-        m_stream << "<enum name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         { Indent indenter(m_indent);
             Enum::ValueMap::const_iterator it;
             for (it = values.begin(); it != values.end(); ++it)
-                m_stream << m_indent << "<value symbol=\"" << it->first << "\" value=\"" << it->second << "\"/>\n";
+                m_stream << m_indent << "<value symbol=\"" << xmlEscape(it->first) << "\" value=\"" << it->second << "\"/>\n";
         }
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</enum>";
-- 
2.43.0


From d51d7b63b231f3fffd2b94e582d939374f1058cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 024/109] fix: save metadata values which a CDATA block cannot
 hold

---
 lang/tlb/export.cc | 8 +++++++-
 lang/tlb/import.cc | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 10f224f..bcea643 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -92,7 +92,13 @@ namespace
             else
             {
                 for (MetaData::Values::const_iterator it_value = values.begin(); it_value != values.end(); ++it_value)
-                    stream << "<metadata key=\"" << key << "\"><![CDATA[" << *it_value << "]]></metadata>\n";
+                {
+                    // Some texts cannot be stored in a CDATA block
+                    if (it_value->empty() || it_value->find("]]>") != string::npos || it_value->find('\r') != string::npos)
+                        stream << "<metadata key=\"" << key << "\" value=\"" << xmlEscape(*it_value) << "\" />\n";
+                    else
+                        stream << "<metadata key=\"" << key << "\"><![CDATA[" << *it_value << "]]></metadata>\n";
+                }
             }
         }
         return stream.str();
diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index eb133b0..c1dcf59 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -70,6 +70,9 @@ namespace
             string key = getAttribute<string>(xml, "key");
             metadata.add(key, MetaData::Values());
 
+            if (xmlHasProp(xml, reinterpret_cast<const xmlChar*>("value")))
+                metadata.add(key, getAttribute<string>(xml, "value"));
+
             // Look at a child CDATA block
             xmlNodePtr cdata = xml->children;
             for(; cdata; cdata=cdata->next)
-- 
2.43.0


From e9d25dd93fffeb3932e27ad8eb78c08473f49bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 025/109] fix: do not resize existing containers when importing
 a type library

---
 lang/tlb/import.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index c1dcf59..b3b8fdf 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -211,10 +211,14 @@ namespace
         }
         catch(Parsing::MissingAttribute&) {}
 
-        Type const* container = &Container::createContainer(factory.getRegistry(), kind, *indirect);
+        Registry& registry = factory.getRegistry();
+        size_t known_names = registry.size();
+        Type const* container = &Container::createContainer(registry, kind, *indirect);
+        // Do not modify a container that the registry already had
+        bool existing = (registry.size() == known_names);
         // We use zero size to indicate that the natural platform size should be
         // used
-        if (has_size && size != 0)
+        if (!existing && has_size && size != 0)
         {
             // Update the size to match the one saved in the registry. This is to
             // allow a proper call to resize() later if needed.
-- 
2.43.0


From 41b1b5818a17f89b6f29574a5acea9ac35fbc693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 026/109] fix: keep the source identifiers of containers in
 type libraries

---
 lang/tlb/import.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index b3b8fdf..e1a187f 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -224,6 +224,8 @@ namespace
             // allow a proper call to resize() later if needed.
             factory.getRegistry().get_(*container).setSize(size);
         }
+        if (!existing && !node.file.empty())
+            registry.setSourceID(*container, node.file);
         loadMetaData(node, container->getMetaData());
         return container;
     }
-- 
2.43.0


From ffa99074a3c88b18e8d120d0b81b420ab7514af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 027/109] fix: keep the size of resized enums in type libraries

---
 lang/tlb/export.cc | 5 ++++-
 lang/tlb/import.cc | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index bcea643..2df65e8 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -222,7 +222,10 @@ namespace
     bool TlbExportVisitor::visit_ (Enum const& type)
     {
         Enum::ValueMap const& values = type.values();
-        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
+        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" ";
+        if (type.getSize() != sizeof(Enum::integral_type))
+            m_stream << "size=\"" << type.getSize() << "\" ";
+        m_stream << emitSourceID() << ">\n";
         { Indent indenter(m_indent);
             Enum::ValueMap::const_iterator it;
             for (it = values.begin(); it != values.end(); ++it)
diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index e1a187f..3e4f199 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -241,6 +241,8 @@ namespace
             Enum::integral_type value  = getAttribute<Enum::integral_type>(xml, "value");
             type->add(symbol, value);
         }
+        if (xmlHasProp(node.xml, reinterpret_cast<const xmlChar*>("size")))
+            type->setSize(getAttribute<size_t>(node.xml, "size"));
 
         return factory.insert(node, std::move(type));
     }
-- 
2.43.0


From aba86ee4ba7e33e846479238092682763b7a12aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 028/109] fix: refuse type libraries using derived types that
 cannot be built

---
 lang/tlb/import.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 3e4f199..efcf620 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -155,6 +155,8 @@ namespace
                 return base;
 
             Type const* derived = m_registry.build(name);
+            if (!derived)
+                throw Undefined(name);
             if (derived->getName() != name && !m_registry.has(name, false))
                 m_registry.alias(derived->getName(), name);
 
-- 
2.43.0


From 98e72b343dbdedcaeaf5c27ec4181f0545eaafc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 029/109] fix: report allocation failures while formatting a
 registry

---
 lang/idl/export.cc       | 4 +++-
 lang/tlb/export.cc       | 1 +
 typelib/pluginmanager.cc | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 859e4ba..1b0f873 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -305,7 +305,8 @@ namespace
     IDLExportVisitor::IDLExportVisitor(Registry const& registry, IDLExport const& exporter,
             std::map<std::string, Type const*>& exported_typedefs)
         : m_exporter(exporter)
-        , m_exported_typedefs(exported_typedefs) {}
+        , m_exported_typedefs(exported_typedefs)
+    { m_stream.exceptions(std::ios::badbit | std::ios::failbit); }
 
     bool IDLExportVisitor::visit_(Compound const& type)
     {
@@ -531,6 +532,7 @@ bool IDLExport::save
         {
             IDLExport::checkType(*type);
             ostringstream stream;
+            stream.exceptions(std::ios::badbit | std::ios::failbit);
 
             std::string type_namespace = getIDLAbsoluteNamespace(type.getNamespace(), *this);
 
diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 2df65e8..a263ebf 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -80,6 +80,7 @@ namespace
     std::string TlbExportVisitor::emitMetaData(MetaData const& metadata) const
     {
         std::ostringstream stream;
+        stream.exceptions(std::ios::badbit | std::ios::failbit);
         MetaData::Map const& map = metadata.get();
         for (MetaData::Map::const_iterator it = map.begin(); it != map.end(); ++it)
         {
diff --git a/typelib/pluginmanager.cc b/typelib/pluginmanager.cc
index 2172e00..473b00b 100644
--- a/typelib/pluginmanager.cc
+++ b/typelib/pluginmanager.cc
@@ -163,6 +163,7 @@ std::string PluginManager::save(std::string const& kind, Registry const& registr
 std::string PluginManager::save(std::string const& kind, utilmm::config_set const& config, Registry const& registry)
 {
     ostringstream stream;
+    stream.exceptions(std::ios::badbit | std::ios::failbit);
     save(kind, config, registry, stream);
     return stream.str();
 }
-- 
2.43.0


From 6271a031ac49bdfab612a7550c9933627406ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 030/109] fix: make IDL documents independent of what the
 exporter saved before

---
 lang/idl/export.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 1b0f873..df85e27 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -484,6 +484,11 @@ void IDLExport::save
     m_opaque_as_any  = config.get<bool>("opaque_as_any", false);
     list<string> selection = config.get< list<string> >("selected");
     m_selected_types = set<string>(selection.begin(), selection.end());
+    // Forget what an earlier, maybe failed, save left
+    m_namespace = Typelib::NamespaceMarkString;
+    m_indent.clear();
+    m_typedefs.clear();
+    m_exported_typedefs.clear();
     return Exporter::save(stream, config, type);
 }
 
-- 
2.43.0


From f0537e2d1233c14b2b360efba20d6a54fdcb04de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 031/109] fix: do not leak attribute values when memory runs
 out

---
 lang/tlb/xmltools.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lang/tlb/xmltools.hh b/lang/tlb/xmltools.hh
index bb5a3a7..80c800c 100644
--- a/lang/tlb/xmltools.hh
+++ b/lang/tlb/xmltools.hh
@@ -21,9 +21,17 @@ namespace
         xmlChar* att = xmlGetProp(type, reinterpret_cast<const xmlChar*>(att_name) );
         if (! att)
             throw Parsing::MissingAttribute(att_name, "");
-        std::string ret( reinterpret_cast<const char*>(att));
-        xmlFree(att);
-        return ret;
+        try
+        {
+            std::string ret( reinterpret_cast<const char*>(att));
+            xmlFree(att);
+            return ret;
+        }
+        catch(...)
+        {
+            xmlFree(att);
+            throw;
+        }
     }
 
     template<typename T>
-- 
2.43.0


From f9a56fbf97264c4e4960e59f0f17cd278ee08a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 032/109] fix: make the order of a saved document independent
 of temporary types

---
 typelib/exporter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/exporter.cc b/typelib/exporter.cc
index 8d35a00..1e0a89f 100644
--- a/typelib/exporter.cc
+++ b/typelib/exporter.cc
@@ -53,7 +53,7 @@ void Exporter::save(std::ostream& stream, utilmm::config_set const& config, Regi
     // main algorithm (here) is meant to limit switching between namespaces.
     TypeMap free_types(nameSort);
     std::string last_namespace;
-    while (!types.empty())
+    while (!types.empty() || !free_types.empty())
     {
         TypeMap::iterator it = types.begin();
         TypeMap::iterator const end = types.end();
-- 
2.43.0


From 8b798f96e136d665e3639784c9a2339d6d7667fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 033/109] fix: do not refuse aliases whose derived names are
 not valid

---
 typelib/typemodel.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index ff649b2..b59a339 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -308,7 +308,8 @@ namespace Typelib
                 alias_it != aliases.end(); ++alias_it)
         {
             std::string alias_name = getIndirectTypeName(*alias_it);
-            if (!registry.has(alias_name, false))
+            // Not all names can be derived (e.g. pointers to templates)
+            if (isValidTypename(alias_name, true) && !registry.has(alias_name, false))
                 registry.alias(full_name, alias_name, false);
         }
     }
-- 
2.43.0


From 7718a231a8002ee5263e182d2c5d1a6c910b2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 034/109] fix: reject malformed array dimensions and accept the
 ones beyond INT_MAX

TypeBuilder parsed the dimensions with atoi() into an int: T[2147483648]
silently became another type (T[18446744071562067968]) and T[x] became T[0].
---
 typelib/typebuilder.cc | 29 +++++++++++++++++++++++------
 typelib/typebuilder.hh |  6 +++---
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/typelib/typebuilder.cc b/typelib/typebuilder.cc
index e9ed3d9..9e4f855 100644
--- a/typelib/typebuilder.cc
+++ b/typelib/typebuilder.cc
@@ -3,6 +3,7 @@
 #include "typemodel.hh"
 #include <boost/lexical_cast.hpp>
 
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <sstream>
@@ -53,10 +54,10 @@ namespace Typelib
         }
     }
 
-    void TypeBuilder::addArrayMinor(int new_dim)
+    void TypeBuilder::addArrayMinor(size_t new_dim)
     {
         // build the list of array dimensions
-        std::vector<int> dims;
+        std::vector<size_t> dims;
 
         while(m_type->getCategory() == Type::Array)
         {
@@ -66,12 +67,12 @@ namespace Typelib
         }
 
         addArrayMajor(new_dim);
-        for (std::vector<int>::reverse_iterator it = dims.rbegin();
+        for (std::vector<size_t>::reverse_iterator it = dims.rbegin();
                 it != dims.rend(); ++it)
             addArrayMajor(*it);
     }
 
-    void TypeBuilder::addArrayMajor(int new_dim)
+    void TypeBuilder::addArrayMajor(size_t new_dim)
     {
         Type* base_type = m_registry.get_(Array::getArrayName(m_type->getName(), new_dim));
         if (base_type)
@@ -98,7 +99,7 @@ namespace Typelib
         for (ModifierList::const_iterator it = stack.begin(); it != stack.end(); ++it)
         {
             Type::Category category = it -> category;
-            int size = it -> size;
+            size_t size = it -> size;
 
             if (category == Type::Pointer)
                 builder.addPointer(size);
@@ -117,6 +118,22 @@ namespace Typelib
             : std::runtime_error(what) {}
     };
 
+    static size_t parseDimension(std::string const& full_name, size_t begin, size_t end)
+    {
+        size_t const max = std::numeric_limits<size_t>::max();
+        size_t dim = 0;
+        for (size_t i = begin; i < end; ++i)
+        {
+            if (full_name[i] == ' ')
+                continue;
+            size_t digit = full_name[i] - '0';
+            if (digit > 9 || dim > (max - digit) / 10)
+                throw InvalidIndirectName(full_name + " is not a valid type name: invalid array dimension " + string(full_name, begin, end - begin));
+            dim = dim * 10 + digit;
+        }
+        return dim;
+    }
+
     TypeBuilder::ParsedTypename TypeBuilder::parseTypename(std::string const& full_name)
     {
         ParsedTypename result;
@@ -131,7 +148,7 @@ namespace Typelib
                 if (start == string::npos)
                     throw InvalidIndirectName(full_name + " is not a valid type name: array definition missing opening bracket at character " + boost::lexical_cast<std::string>(end));
                 new_mod.category = Type::Array;
-                new_mod.size = atoi(&full_name[start] + 1);
+                new_mod.size = parseDimension(full_name, start + 1, end);
                 end = start - 1;
                 modlist.push_front(new_mod);
             }
diff --git a/typelib/typebuilder.hh b/typelib/typebuilder.hh
index 1fe4c45..5b27ab2 100644
--- a/typelib/typebuilder.hh
+++ b/typelib/typebuilder.hh
@@ -39,10 +39,10 @@ namespace Typelib
         void addPointer(int level);
         /** Add an outermost dimension to the current type (if it is not
          * an array, builds an array */
-        void addArrayMajor(int size);
+        void addArrayMajor(size_t size);
         /** Add an innermost dimension to the current type (if it is not
          * an array, builds an array */
-        void addArrayMinor(int size);
+        void addArrayMinor(size_t size);
         /** Sets the size of the current type */
         void setSize(int size);
 
@@ -61,7 +61,7 @@ namespace Typelib
         struct Modifier
         {
             Type::Category category;
-            int size; // Size of an array, deference count on multi-dim pointers
+            size_t size; // Size of an array, deference count on multi-dim pointers
         };
         typedef std::list<Modifier> ModifierList;
         typedef std::pair<std::string, ModifierList> ParsedTypename;
-- 
2.43.0


From 4e476420a8fdc80700abeda41de6e3f7ae0828b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 035/109] fix: do not write to the container table when plugins
 get reloaded

Without a permanent client, the plugin manager is recreated, and the plugins
register their containers again, at each creation of a registry. This raced
with the threads creating containers at the same time.
---
 typelib/typemodel.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index b59a339..9920f32 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -623,6 +623,12 @@ namespace Typelib
 
     void Container::registerContainer(std::string const& name, ContainerFactory factory)
     {
+        // The plugins are loaded, and register their containers, again each time
+        // the plugin manager gets recreated, while other threads might be using
+        // the containers
+        AvailableContainers::const_iterator it = s_available_containers.find(name);
+        if (it != s_available_containers.end() && it->second == factory)
+            return;
         s_available_containers[name] = factory;
     }
     Container const& Container::createContainer(Registry& r, std::string const& name, Type const& on)
-- 
2.43.0


From 6d61440c3f0050deb566551f6734b18d8bf4d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 036/109] fix: keep the singleton server while a service under
 construction uses it

---
 typelib/utilmm/singleton/dummy.cc  |  3 +--
 typelib/utilmm/singleton/server.cc | 17 +++++++++++++++--
 typelib/utilmm/singleton/server.hh |  6 ++++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/typelib/utilmm/singleton/dummy.cc b/typelib/utilmm/singleton/dummy.cc
index 9120bf4..82209f0 100644
--- a/typelib/utilmm/singleton/dummy.cc
+++ b/typelib/utilmm/singleton/dummy.cc
@@ -33,8 +33,7 @@ void dummy::attach(std::string const &name, details::dummy_factory const& inst)
 void dummy::detach(char const *name) {
   server::lock_type locker(server::sing_mtx);
   server::instance().detach(name);
-  if( server::the_instance && server::the_instance->singletons.empty() )
-    delete server::the_instance;
+  server::release_if_unused();
 }
 
 dummy *dummy::instance(std::string const &name) {
diff --git a/typelib/utilmm/singleton/server.cc b/typelib/utilmm/singleton/server.cc
index 5462605..a2a511c 100644
--- a/typelib/utilmm/singleton/server.cc
+++ b/typelib/utilmm/singleton/server.cc
@@ -16,7 +16,8 @@ boost::recursive_mutex utilmm::singleton::server::sing_mtx;
  * class utilmm::singleton::server
  */
 // structors
-server::server() {
+server::server()
+  : pending(0) {
   the_instance = this;
 }
 
@@ -28,12 +29,19 @@ server::~server() {
 void server::attach(std::string const &name, details::dummy_factory const& factory) {
   single_map::iterator it = singletons.find(name);
   if (it == singletons.end()) {
-    dummy *inst = factory.create();
+    // the constructor may itself acquire and release services: the server has
+    // to stay, even if they were the only ones
+    dummy *inst = 0;
+    ++pending;
     try {
+      inst = factory.create();
       it = singletons.insert( single_map::value_type(name, inst) ).first;
+      --pending;
     }
     catch(...) {
       delete inst;
+      --pending;
+      release_if_unused();
       throw;
     }
   }
@@ -63,6 +71,11 @@ dummy *server::get(std::string const &name) const {
 }
 
 // statics
+void server::release_if_unused() {
+  if( the_instance && the_instance->singletons.empty() && 0==the_instance->pending )
+    delete the_instance;
+}
+
 server &server::instance() {
   if( 0==the_instance )
     new server;
diff --git a/typelib/utilmm/singleton/server.hh b/typelib/utilmm/singleton/server.hh
index 883f351..84409bf 100644
--- a/typelib/utilmm/singleton/server.hh
+++ b/typelib/utilmm/singleton/server.hh
@@ -38,6 +38,12 @@ namespace utilmm {
 
       single_map singletons;
 
+      // services under construction: they are not in singletons yet
+      size_t pending;
+
+      // deletes the server if it manages no service anymore
+      static void release_if_unused();
+
       static server *the_instance;
 
       typedef boost::recursive_mutex mutex_type;
-- 
2.43.0


From 266fe04641f98d003509c7266c0c7fdeaabb267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 037/109] fix: handle padding of nested compounds and the size
 of enums when compiling byte swaps

---
 typelib/endianness.cc | 16 ++++++++++++----
 typelib/endianness.hh |  3 +++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 2f148f1..54c044e 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -24,6 +24,15 @@ namespace Typelib {
         }
     }
 
+    void CompileEndianSwapVisitor::compileNested(Type const& type)
+    {
+        size_t end = m_output_index + type.getSize();
+        dispatch(type);
+        if (type.getCategory() == Type::Compound && m_output_index < end)
+            skip(end - m_output_index);
+        m_output_index = end;
+    }
+
     bool CompileEndianSwapVisitor::visit_ (Numeric const& type)
     {
         switch(type.getSize())
@@ -51,7 +60,7 @@ namespace Typelib {
 
     bool CompileEndianSwapVisitor::visit_ (Enum const& type)
     {
-        for (int i = SizeOfEnum - 1; i >= 0; --i)
+        for (int i = type.getSize() - 1; i >= 0; --i)
             m_compiled.push_back(m_output_index + i);
         return true;
     }
@@ -75,7 +84,7 @@ namespace Typelib {
         m_compiled.push_back(type.getIndirection().getSize());
 
         size_t current_size = m_compiled.size();
-        TypeVisitor::visit_(type);
+        compileNested(type.getIndirection());
 
         if (m_compiled.size() == current_size + 2 && m_compiled[current_size] == FLAG_SKIP)
         {
@@ -111,8 +120,7 @@ namespace Typelib {
                 skip(new_index - m_output_index);
 
             m_output_index = new_index;
-            dispatch(it->getType());
-            m_output_index = new_index + it->getType().getSize();
+            compileNested(it->getType());
         }
         return true;
     }
diff --git a/typelib/endianness.hh b/typelib/endianness.hh
index c1063aa..cca8de6 100644
--- a/typelib/endianness.hh
+++ b/typelib/endianness.hh
@@ -76,6 +76,9 @@ namespace Typelib
 
     protected:
         void skip(int skip_size);
+        // Compiles a type that is part of another one, including the padding
+        // bytes at its end
+        void compileNested(Type const& type);
         bool visit_ (OpaqueType const& type);
         bool visit_ (Numeric const& type);
         bool visit_ (Enum const& type);
-- 
2.43.0


From 007591ac3ebf744b95a520fe2b4df44a47ff863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 038/109] fix: opaque values were left out of CSV lines

---
 typelib/csvoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/csvoutput.cc b/typelib/csvoutput.cc
index d7b4f45..4929288 100644
--- a/typelib/csvoutput.cc
+++ b/typelib/csvoutput.cc
@@ -95,7 +95,7 @@ namespace
             return true;
         }
         using ValueVisitor::visit_;
-        bool visit_ (Value value, OpaqueType const& type)
+        bool visit_ (Value const& value, OpaqueType const& type)
         {
             display("<" + type.getName() + ">");
             return true;
-- 
2.43.0


From 30692e5c78c3240b204591e429997189191bd126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 039/109] fix: Endian::from_network could not be instantiated

---
 typelib/endian_swap.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/typelib/endian_swap.hh b/typelib/endian_swap.hh
index 8a9f5ce..c9fc59a 100644
--- a/typelib/endian_swap.hh
+++ b/typelib/endian_swap.hh
@@ -87,6 +87,11 @@ namespace Typelib
 #       error "unknown endianness, neither BOOST_ENDIAN_LITTLE_BYTE nor BOOST_ENDIAN_BIG_BYTE are defined"
 #endif
 
+        template<typename S>
+        inline void to_network(const S source, S& dest) { return to_big(source, dest); }
+        template<typename S>
+        inline S to_network(const S source) { return to_big(source); }
+
         /** Converts \c source, which is in network byte order, into native byte order and
          * saves the result into \c dest */
         template<typename S>
@@ -111,11 +116,6 @@ namespace Typelib
          * returns the result */
         template<typename S>
         inline S from_big(const S source) { return to_big(source); }
-
-        template<typename S>
-        inline void to_network(const S source, S& dest) { return to_big(source, dest); }
-        template<typename S>
-        inline S to_network(const S source) { return to_big(source); }
     }
 }
 
-- 
2.43.0


From 4dd8d0b1006946db0cc7c1e6f408032fd315d3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 040/109] fix: compiling the byte swap of an array of dimension
 zero used an uninitialized range

---
 typelib/endianness.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 54c044e..71200de 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -71,6 +71,10 @@ namespace Typelib {
     { throw UnsupportedEndianSwap("pointers"); }
     bool CompileEndianSwapVisitor::visit_ (Array const& type)
     {
+        // nothing to do for e.g. arrays of dimension zero
+        if (type.getSize() == 0)
+            return true;
+
         if (type.getIndirection().getCategory() == Type::Array)
         {
             size_t current_size = m_compiled.size();
-- 
2.43.0


From 1fa61474d590069a8be104beb453da9745a4d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 041/109] fix: IDL export wrote containers of arrays as
 containers of an undefined type

---
 lang/idl/export.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index df85e27..d6f0ce5 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -176,6 +176,8 @@ namespace
             m_namespace = "";
             m_front = "string";
         }
+        else if (type.getIndirection().getCategory() == Type::Array)
+            throw UnsupportedType(type, "containers of arrays are not supported in IDL");
         else
         {
             // Get the basename for "kind"
-- 
2.43.0


From 3a5b24cee7204985c231d3b6f76e8f3ef8270d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 042/109] fix: IDL export wrote integers of unsupported sizes
 without a type

---
 lang/idl/export.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index d6f0ce5..fa24ee4 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -216,6 +216,7 @@ namespace
                 case 2: m_front += "short"; break;
                 case 4: m_front += "long"; break;
                 case 8: m_front += "long long"; break;
+                default: throw UnsupportedType(type, "IDL has no integer of this size");
             }
         }
         else
-- 
2.43.0


From 28526cab4aa8d83ddb376f703bc31584e039b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 043/109] fix: IDL export declared enums under a name that is
 not the one it refers to

---
 lang/idl/export.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index fa24ee4..7814d3d 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -354,7 +354,7 @@ namespace
 
     bool IDLExportVisitor::visit_ (Enum const& type)
     {
-        m_stream << m_indent << "enum " << stripLeadingUnderscore(type.getBasename()) << " { ";
+        m_stream << m_indent << "enum " << normalizeIDLName(type.getBasename()) << " { ";
 
         list<string> symbols;
         Enum::ValueMap const& values = type.values();
-- 
2.43.0


From ae881993cf17c92f8888f86eb62e138f758f2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 044/109] fix: IDL export declared the blobs under names that
 are not the ones it refers to

---
 lang/idl/export.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 7814d3d..ecef9e4 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -602,11 +602,23 @@ bool IDLExport::save
         if (m_blob_threshold && static_cast<int>(type->getSize()) > m_blob_threshold)
         {
             string target_namespace = getIDLAbsoluteNamespace(type.getNamespace(), *this);
+            string target_name = normalizeIDLName(type->getBasename());
+            if (type->getCategory() != Type::Opaque)
+            {
+                // Declare it under the name that the other types use. There is
+                // nothing to declare for the types IDL itself provides
+                pair<string, string> base = getIDLBase(*type, *this);
+                if (base.first.empty())
+                    return false;
+                target_namespace = base.first;
+                target_name = base.second;
+                boost::replace_all(target_name, "::", "_");
+            }
             size_t ns_size = namespaceIndentLevel(target_namespace);
             string indent_string = string(ns_size * 4, ' ');
 
             adaptNamespace(stream, target_namespace);
-            stream << indent_string << "typedef sequence<octet> " << type->getBasename() << ";\n";
+            stream << indent_string << "typedef sequence<octet> " << target_name << ";\n";
             return true;
         }
         else
-- 
2.43.0


From 7f40e7a2e9e05d8aac00a5fb1907f02b857307e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 045/109] fix: plugins leaked when the plugin manager cannot be
 constructed

---
 typelib/pluginmanager.cc | 22 +++++++++++++++++++---
 typelib/pluginmanager.hh |  2 ++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/typelib/pluginmanager.cc b/typelib/pluginmanager.cc
index 473b00b..a058024 100644
--- a/typelib/pluginmanager.cc
+++ b/typelib/pluginmanager.cc
@@ -39,6 +39,19 @@ namespace
 
 PluginManager::PluginManager()
 {
+    try { loadPlugins(); }
+    catch(...)
+    {
+        // the destructor is not called in this case
+        clear();
+        throw;
+    }
+}
+
+void PluginManager::loadPlugins()
+{
+    boost::system::error_code error;
+
     // use the environment variable to override the load-path
     if (const char* pluginPath = getenv("TYPELIB_PLUGIN_PATH")) {
         // the delimiter inside the env-var
@@ -69,9 +82,12 @@ PluginManager::PluginManager()
 }
 
 PluginManager::~PluginManager()
+{ clear(); }
+
+void PluginManager::clear()
 {
-    clear(m_importers);
-    clear(m_exporters);
+    ::clear(m_importers);
+    ::clear(m_exporters);
     for (std::vector<TypeDefinitionPlugin*>::iterator it = m_definition_plugins.begin();
             it != m_definition_plugins.end(); ++it)
         delete *it;
@@ -127,8 +143,8 @@ bool PluginManager::loadPlugin(std::string const& path)
     }
 
     PluginEntryPoint function = reinterpret_cast<PluginEntryPoint>(libentry);
-    function(*this);
     m_library_handles.push_back(libhandle);
+    function(*this);
     return true;
 }
 
diff --git a/typelib/pluginmanager.hh b/typelib/pluginmanager.hh
index 2ead22d..374bb27 100644
--- a/typelib/pluginmanager.hh
+++ b/typelib/pluginmanager.hh
@@ -51,6 +51,8 @@ namespace Typelib
         std::map<std::string, ImportPlugin*> m_importers;
         std::vector<TypeDefinitionPlugin*> m_definition_plugins;
         std::vector<void*> m_library_handles;
+        void loadPlugins();
+        void clear();
         bool loadPluginFromDirectory(std::string const& directory);
         bool loadPlugin(std::string const& path);
 
-- 
2.43.0


From 5fd0307f16fc9bf6dab65650209a8756bf14d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 046/109] fix: missing directories in the plugin path are not
 fatal, and libraries load in a fixed order

---
 typelib/pluginmanager.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/typelib/pluginmanager.cc b/typelib/pluginmanager.cc
index a058024..b454c5b 100644
--- a/typelib/pluginmanager.cc
+++ b/typelib/pluginmanager.cc
@@ -6,6 +6,7 @@
 #include <boost/filesystem.hpp>
 #include <boost/version.hpp>
 #include <dlfcn.h>
+#include <algorithm>
 
 using namespace std;
 using namespace Typelib;
@@ -59,20 +60,21 @@ void PluginManager::loadPlugins()
         // make a copy of the env-var, which we can modify
         std::string s(pluginPath);
         // we need ":" at the end, to catch the last entry in the list
-        if (s.find_last_of(delim) != s.length())
-            s += ":";
+        s += delim;
         // pos of delim for initial loop
         size_t pos = s.find(delim);
         do {
-            // use matched substr to lookup plugins in the directory
-            loadPluginFromDirectory(s.substr(0,pos));
+            // use matched substr to lookup plugins in the directory, ignoring
+            // the empty entries
+            if (pos != 0)
+                loadPluginFromDirectory(s.substr(0,pos));
             // and remote the matched substr from the stored copy
             s.erase(0, pos + delim.length());
         // do all this until we reach the end of the stored copy
         } while ((pos = s.find(delim)) != std::string::npos);
     }
     // fall back to load plugins from compiled-in path
-    else if (exists(TYPELIB_HARDCODED_PLUGIN_PATH)) {
+    else if (exists(TYPELIB_HARDCODED_PLUGIN_PATH, error)) {
         loadPluginFromDirectory(TYPELIB_HARDCODED_PLUGIN_PATH);
     } else {
         std::cerr << "typelib: neither env-var 'TYPELIB_PLUGIN_PATH' nor hardcoded path "
@@ -109,16 +111,26 @@ bool PluginManager::loadPluginFromDirectory(std::string const& directory)
     path plugin_dir(directory);
     bool success = false;
 
+    // The directory might not exist, or not be readable. This must not be fatal
+    boost::system::error_code error;
+    vector<string> libraries;
     directory_iterator end_it;
-    for (directory_iterator it(plugin_dir); it != end_it; ++it)
+    for (directory_iterator it(plugin_dir, error); !error && it != end_it; it.increment(error))
     {
         if (it->path().extension() == ".so" || it->path().extension() == ".dylib")
 #if BOOST_VERSION >= 104600
-            success |= loadPlugin(it->path().string());
+            libraries.push_back(it->path().string());
 #else
-            success |= loadPlugin(it->path().file_string());
+            libraries.push_back(it->path().file_string());
 #endif
     }
+    if (error)
+        std::cerr << "typelib: cannot read directory '" << directory << "': " << error.message() << endl;
+
+    // The order in which the directory gets listed is unspecified
+    sort(libraries.begin(), libraries.end());
+    for (vector<string>::const_iterator it = libraries.begin(); it != libraries.end(); ++it)
+        success |= loadPlugin(*it);
 
     if (!success)
         std::cerr << "typelib: can't load a plugin from directory '" << directory << "'" << endl;
-- 
2.43.0


From 4259429789e3b51efaf682e42e6e7501822d5241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 047/109] fix: a plugin library found twice got registered
 twice

---
 typelib/pluginmanager.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typelib/pluginmanager.cc b/typelib/pluginmanager.cc
index b454c5b..8ea531a 100644
--- a/typelib/pluginmanager.cc
+++ b/typelib/pluginmanager.cc
@@ -147,6 +147,10 @@ bool PluginManager::loadPlugin(std::string const& path)
         return false;
     }
 
+    // The same library might be reachable in different ways
+    if (find(m_library_handles.begin(), m_library_handles.end(), libhandle) != m_library_handles.end())
+        return true;
+
     void* libentry  = dlsym(libhandle, "registerPlugins");
     if (!libentry)
     {
-- 
2.43.0


From c8de0a1a5460f67e56ec74bd3bac987344340a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 048/109] fix: plugins leaked when the manager already has one
 with that name

---
 typelib/plugins.hh | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/typelib/plugins.hh b/typelib/plugins.hh
index 0ff481c..494e0b2 100644
--- a/typelib/plugins.hh
+++ b/typelib/plugins.hh
@@ -3,6 +3,8 @@
 
 #include <boost/type_traits/is_base_and_derived.hpp>
 #include <boost/mpl/if.hpp>
+#include <memory>
+#include "pluginmanager.hh"
 
 namespace Typelib
 {
@@ -36,6 +38,19 @@ namespace Typelib
         { return new Type; }
     };
 
+    /** Registers a GenericIOPlugin. The plugin is deleted if the manager
+     * refuses it, e.g. because it already has a plugin with that name
+     */
+    template<typename Type>
+    bool registerIOPlugin(PluginManager& manager, char const* name)
+    {
+        std::unique_ptr< GenericIOPlugin<Type> > plugin(new GenericIOPlugin<Type>(name));
+        if (!manager.add(plugin.get()))
+            return false;
+        plugin.release();
+        return true;
+    }
+
     class TypeDefinitionPlugin
     {
     public:
@@ -45,12 +60,12 @@ namespace Typelib
 }
 
 #define TYPELIB_REGISTER_IO2(name, klass1, klass2) extern "C" void registerPlugins(Typelib::PluginManager& manager) {\
-    manager.add(new Typelib::GenericIOPlugin<klass1>(#name)); \
-    manager.add(new Typelib::GenericIOPlugin<klass2>(#name)); \
+    Typelib::registerIOPlugin<klass1>(manager, #name); \
+    Typelib::registerIOPlugin<klass2>(manager, #name); \
 }
 
 #define TYPELIB_REGISTER_IO1(name, klass1) extern "C" void registerPlugins(Typelib::PluginManager& manager) {\
-    manager.add(new Typelib::GenericIOPlugin<klass1>(#name)); \
+    Typelib::registerIOPlugin<klass1>(manager, #name); \
 }
 
 #endif
-- 
2.43.0


From 40918fbdd4da3cd0df8018b23c76c616502a0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 049/109] fix: vectors of elements with padding could not be
 marshalled without their padding

---
 lang/csupport/containers.cc | 11 +++++++++--
 lang/csupport/containers.hh |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index f2f651d..c939d4c 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -39,6 +39,13 @@ bool Vector::isElementMemcpy() const
     return element_layout.isMemcpy();
 }
 
+bool Vector::isBlockCopy(MarshalOps::const_iterator begin, MarshalOps::const_iterator end) const
+{
+    return isElementMemcpy() && end - begin > 2 &&
+        begin[0] == MemLayout::FLAG_MEMCPY && begin[1] == getIndirection().getSize() &&
+        begin[2] == MemLayout::FLAG_END;
+}
+
 bool Vector::hasElementLayout() const
 {
     return !element_layout.isEmpty();
@@ -343,7 +350,7 @@ Container::MarshalOps::const_iterator Vector::dump(
         reinterpret_cast< std::vector<uint8_t> const* >(container_ptr);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isBlockCopy(begin, end))
     {
         // optimize a bit: do a huge memcpy if possible
         size_t size       = *(++it) * element_count;
@@ -377,7 +384,7 @@ Container::MarshalOps::const_iterator Vector::load(
     resize(vector_ptr, element_count);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isBlockCopy(begin, end))
     {
         size_t size       = *(++it) * element_count;
         stream.read(&(*vector_ptr)[0], size);
diff --git a/lang/csupport/containers.hh b/lang/csupport/containers.hh
index e345449..3fffabd 100644
--- a/lang/csupport/containers.hh
+++ b/lang/csupport/containers.hh
@@ -11,6 +11,7 @@ class Vector : public Typelib::Container
     void copy(std::vector<uint8_t>* dst_ptr, size_t dst_idx, std::vector<uint8_t>* src_ptr, size_t src_idx, size_t count) const;
     void erase(std::vector<uint8_t>* ptr, size_t idx) const;
     std::string getIndirectTypeName(std::string const& element_name) const;
+    bool isBlockCopy(MarshalOps::const_iterator begin, MarshalOps::const_iterator end) const;
     bool do_resize(Typelib::Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
 
     Typelib::MemoryLayout element_layout;
-- 
2.43.0


From 70dd3bf2fe7e4ff43be2bc121210f691533d1502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 050/109] fix: Ruby memory zones that the collector has not
 finalised yet got reused

---
 bindings/ruby/ext/memory.cc | 116 ++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 58 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index 1bed435..b09a6d0 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -11,8 +11,10 @@ static VALUE cMemoryZone;
 struct MemoryZone
 {
     void* ptr;
-    MemoryZone(void* ptr)
-        : ptr(ptr) {}
+    // The Ruby object that has to be kept as long as this zone is used
+    VALUE dependency;
+    MemoryZone()
+        : ptr(0), dependency(Qnil) {}
 };
 static st_table* MemoryTable;
 
@@ -43,18 +45,21 @@ static struct st_hash_type memory_table_type = {
 };
 #endif
 
+/* There is one entry for each known pointer, whose reference count is the number
+ * of MemoryZone objects that refer to it plus the number of entries that have it
+ * as root pointer.
+ *
+ * The entry does not remember the MemoryZone objects: the garbage collector is
+ * free to reclaim an unreachable object a long time before it finalizes it, so
+ * one could never know if such an object may still be used.
+ */
 struct MemoryTableEntry
 {
     int refcount;
-    VALUE object;
     bool owned;
     void* root_ptr;
-    MemoryTableEntry(VALUE object, bool owned, void* root_ptr = 0)
-        : refcount(1), object(object), owned(owned), root_ptr(root_ptr)
-    {
-        if (root_ptr && owned)
-            rb_raise(rb_eArgError, "given both a root pointer and owned=true for object %llu", NUM2ULL(rb_obj_id(object)));
-    }
+    MemoryTableEntry(bool owned, void* root_ptr)
+        : refcount(1), owned(owned), root_ptr(root_ptr) {}
 };
 
 struct RbMemoryLayout
@@ -95,6 +100,15 @@ memory_touch_all()
 }
 #endif
 
+static MemoryTableEntry*
+memory_entry(void* ptr)
+{
+    MemoryTableEntry* entry = 0;
+    if (st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry))
+        return entry;
+    return 0;
+}
+
 bool
 typelib_ruby::memory_ref(void *ptr)
 {
@@ -102,8 +116,8 @@ typelib_ruby::memory_ref(void *ptr)
     fprintf(stderr, "%p: ref\n", ptr);
 #   endif
 
-    MemoryTableEntry* entry = 0;
-    if (st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry))
+    MemoryTableEntry* entry = memory_entry(ptr);
+    if (entry)
     {
         ++(entry->refcount);
         return true;
@@ -181,43 +195,6 @@ typelib_ruby::memory_delete(void *ptr)
     ruby_xfree(ptr);
 }
 
-static VALUE
-memory_aref(void *ptr)
-{
-    MemoryTableEntry* entry;
-    if (!st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry)) {
-        return Qnil;
-    }
-    if ((VALUE)entry == Qundef)
-        rb_bug("found undef in memory table");
-
-    return entry->object;
-}
-
-static void
-memory_aset(void *ptr, VALUE obj, bool owned, void* root_ptr)
-{
-    if (! NIL_P(memory_aref(ptr)))
-        rb_raise(rb_eArgError, "there is already a wrapper for %p", ptr);
-
-    if (ptr == root_ptr)
-        rb_raise(rb_eArgError, "pointer and root pointer are equal");
-
-    if (!memory_ref(ptr))
-    {
-        MemoryTableEntry* entry = new MemoryTableEntry(obj, owned, root_ptr);
-        st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
-
-        if (root_ptr)
-        {
-            MemoryTableEntry* root_entry = 0;
-            if (!st_lookup(MemoryTable, (st_data_t)root_ptr, (st_data_t*)&root_entry))
-                rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
-            ++(root_entry->refcount);
-        }
-    }
-}
-
 VALUE
 typelib_ruby::memory_allocate(size_t size)
 {
@@ -264,26 +241,49 @@ typelib_ruby::memory_init(VALUE ptr, VALUE type)
     }
 }
 
+static void
+memory_zone_mark(MemoryZone* zone)
+{
+    // The zone might be within the object's slot. rb_gc_mark() also forbids the
+    // garbage collector to move the object
+    rb_gc_mark(zone->dependency);
+}
+
 VALUE
 typelib_ruby::memory_wrap(void* ptr, bool take_ownership, void* root_ptr)
 {
-    VALUE zone = memory_aref(ptr);
-    if (NIL_P(zone))
+    if (root_ptr && take_ownership)
+        rb_raise(rb_eArgError, "given both a root pointer and owned=true for %p", ptr);
+    if (root_ptr && !memory_entry(root_ptr))
+        rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
+
+    MemoryZone* cxx_zone = new MemoryZone;
+    VALUE zone = Data_Wrap_Struct(cMemoryZone, memory_zone_mark, memory_zone_unref, cxx_zone);
+
+    if (!ptr)
+        return zone;
+
+    MemoryTableEntry* entry = memory_entry(ptr);
+    if (entry)
     {
 #       ifdef VERBOSE
-        fprintf(stderr, "%p: wrapping new memory zone\n", ptr);
+        fprintf(stderr, "%p: already known memory zone\n", ptr);
 #       endif
-
-        zone = Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, new MemoryZone(ptr));
-        memory_aset(ptr, zone, take_ownership, root_ptr);
+        ++(entry->refcount);
+        if (take_ownership)
+            entry->owned = true;
     }
     else
     {
 #       ifdef VERBOSE
-        fprintf(stderr, "%p: already known memory zone\n", ptr);
+        fprintf(stderr, "%p: wrapping new memory zone\n", ptr);
 #       endif
+        entry = new MemoryTableEntry(take_ownership, root_ptr);
+        st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
+        if (root_ptr)
+            memory_ref(root_ptr);
     }
-
+    cxx_zone->ptr = ptr;
     return zone;
 }
 
@@ -324,7 +324,7 @@ memory_zone_to_ptr(VALUE self)
     void* ptr    = memory_cptr(self);
 
     *reinterpret_cast<void**>(newptr) = ptr;
-    rb_iv_set(result, "@pointed_to_memory", self);
+    memory_zone(result)->dependency = self;
     return result;
 }
 
@@ -349,7 +349,7 @@ string_to_memory_ptr(VALUE self)
     fprintf(stderr, "wrapping string value from Ruby\n");
 #   endif
     VALUE ptr = memory_wrap(StringValuePtr(self), false, 0);
-    rb_iv_set(ptr, "@buffer_string", self);
+    memory_zone(ptr)->dependency = self;
     return ptr;
 }
 
-- 
2.43.0


From 7d91c6d63aa89b63f864d885c9dd38918345aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 051/109] fix: Typelib::CXXRegistry cannot be instantiated when
 its class is created before the allocator is known

---
 bindings/ruby/lib/typelib.rb | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index 780349c..ac2881d 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -201,9 +201,11 @@ require 'typelib/metadata'
 
 require 'typelib/registry'
 require 'typelib/registry_export'
-require 'typelib/cxx_registry'
 require 'typelib/specializations'
 require 'typelib_ruby'
+# A class gets the allocator its parent has when it is created. The one of
+# Registry is defined by typelib_ruby
+require 'typelib/cxx_registry'
 
 Typelib::Type.instance_variable_set :@metadata, Typelib::MetaData.new
 Typelib::IndirectType.instance_variable_set :@metadata, Typelib::MetaData.new
-- 
2.43.0


From f62520ca6256a46bae1abba5df585eef02b9c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 052/109] fix: large unsigned integers converted wrongly
 between Ruby and Typelib

---
 bindings/ruby/ext/convert.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 44645de..2386fa0 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -18,7 +18,7 @@ bool RubyGetter::visit_ (uint8_t & value) { m_value = INT2FIX(value); return fal
 bool RubyGetter::visit_ (int16_t & value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (uint16_t& value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (int32_t & value) { m_value = INT2NUM(value); return false; }
-bool RubyGetter::visit_ (uint32_t& value) { m_value = INT2NUM(value); return false; }
+bool RubyGetter::visit_ (uint32_t& value) { m_value = UINT2NUM(value); return false; }
 bool RubyGetter::visit_ (int64_t & value) { m_value = LL2NUM(value);  return false; }
 bool RubyGetter::visit_ (uint64_t& value) { m_value = ULL2NUM(value); return false; }
 bool RubyGetter::visit_ (float   & value) { m_value = rb_float_new(value); return false; }
@@ -90,7 +90,7 @@ bool RubySetter::visit_ (uint16_t& value) { value = NUM2UINT(m_value); return fa
 bool RubySetter::visit_ (int32_t & value) { value = NUM2INT(m_value); return false; }
 bool RubySetter::visit_ (uint32_t& value) { value = NUM2UINT(m_value); return false; }
 bool RubySetter::visit_ (int64_t & value) { value = NUM2LL(m_value);  return false; }
-bool RubySetter::visit_ (uint64_t& value) { value = NUM2LL(m_value); return false; }
+bool RubySetter::visit_ (uint64_t& value) { value = NUM2ULL(m_value); return false; }
 bool RubySetter::visit_ (float   & value) { value = NUM2DBL(m_value); return false; }
 bool RubySetter::visit_ (double  & value) { value = NUM2DBL(m_value); return false; }
 
-- 
2.43.0


From e7044fa31f7920ddfe8ff04379b97b4eca880717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 053/109] fix: C++ exceptions thrown in the Ruby bindings'
 methods terminated the interpreter

---
 bindings/ruby/ext/memory.cc            | 10 ++--
 bindings/ruby/ext/metadata.cc          | 12 ++---
 bindings/ruby/ext/registry.cc          | 56 ++++++++++-----------
 bindings/ruby/ext/specialized_types.cc | 70 +++++++++++++-------------
 bindings/ruby/ext/strings.cc           |  6 +--
 bindings/ruby/ext/typelib.hh           | 30 +++++++++++
 bindings/ruby/ext/typelib_ruby.cc      |  6 +--
 bindings/ruby/ext/value.cc             | 56 ++++++++++-----------
 8 files changed, 138 insertions(+), 108 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index b09a6d0..907e302 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -367,11 +367,11 @@ void typelib_ruby::Typelib_init_memory()
     rb_iv_set(mTypelib, "@__memory_table__", table);
 
     cMemoryZone = rb_define_class_under(mTypelib, "MemoryZone", rb_cObject);
-    rb_define_method(cMemoryZone, "zone_address", RUBY_METHOD_FUNC(memory_zone_address), 0);
-    rb_define_method(cMemoryZone, "to_ptr", RUBY_METHOD_FUNC(memory_zone_to_ptr), 0);
-    rb_define_method(cMemoryZone, "invalidate", RUBY_METHOD_FUNC(memory_zone_invalidate), 0);
-    rb_define_singleton_method(cMemoryZone, "table_size", RUBY_METHOD_FUNC(memory_zone_table_size), 0);
+    rb_define_method(cMemoryZone, "zone_address", TYPELIB_RUBY_METHOD(memory_zone_address), 0);
+    rb_define_method(cMemoryZone, "to_ptr", TYPELIB_RUBY_METHOD(memory_zone_to_ptr), 0);
+    rb_define_method(cMemoryZone, "invalidate", TYPELIB_RUBY_METHOD(memory_zone_invalidate), 0);
+    rb_define_singleton_method(cMemoryZone, "table_size", TYPELIB_RUBY_METHOD(memory_zone_table_size), 0);
 
-    rb_define_method(rb_cString, "to_memory_ptr", RUBY_METHOD_FUNC(string_to_memory_ptr), 0);
+    rb_define_method(rb_cString, "to_memory_ptr", TYPELIB_RUBY_METHOD(string_to_memory_ptr), 0);
 }
 
diff --git a/bindings/ruby/ext/metadata.cc b/bindings/ruby/ext/metadata.cc
index 1ed511b..6ac1e17 100644
--- a/bindings/ruby/ext/metadata.cc
+++ b/bindings/ruby/ext/metadata.cc
@@ -90,12 +90,12 @@ void typelib_ruby::Typelib_init_metadata()
     cMetaData   = rb_define_class_under(mTypelib, "MetaData", rb_cObject);
     rb_define_alloc_func(cMetaData, metadata_alloc);
 
-    rb_define_method(cMetaData, "include?", RUBY_METHOD_FUNC(metadata_include_p), 1);
-    rb_define_method(cMetaData, "get", RUBY_METHOD_FUNC(metadata_get), 1);
-    rb_define_method(cMetaData, "add", RUBY_METHOD_FUNC(metadata_add), -1);
-    rb_define_method(cMetaData, "clear", RUBY_METHOD_FUNC(metadata_clear), -1);
-    rb_define_method(cMetaData, "delete", RUBY_METHOD_FUNC(metadata_clear), -1);
-    rb_define_method(cMetaData, "keys", RUBY_METHOD_FUNC(metadata_keys), 0);
+    rb_define_method(cMetaData, "include?", TYPELIB_RUBY_METHOD(metadata_include_p), 1);
+    rb_define_method(cMetaData, "get", TYPELIB_RUBY_METHOD(metadata_get), 1);
+    rb_define_method(cMetaData, "add", TYPELIB_RUBY_METHOD(metadata_add), -1);
+    rb_define_method(cMetaData, "clear", TYPELIB_RUBY_METHOD(metadata_clear), -1);
+    rb_define_method(cMetaData, "delete", TYPELIB_RUBY_METHOD(metadata_clear), -1);
+    rb_define_method(cMetaData, "keys", TYPELIB_RUBY_METHOD(metadata_keys), 0);
     enc_utf8 = rb_enc_find("utf-8");
 }
 
diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 5c3b167..2e9aa4b 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -710,35 +710,35 @@ void typelib_ruby::Typelib_init_registry()
     cRegistry = rb_define_class_under(mTypelib, "Registry", rb_cObject);
     eNotFound = rb_define_class_under(mTypelib, "NotFound", rb_eRuntimeError);
     rb_define_alloc_func(cRegistry, registry_alloc);
-    rb_define_method(cRegistry, "size", RUBY_METHOD_FUNC(registry_size), 0);
-    rb_define_method(cRegistry, "get", RUBY_METHOD_FUNC(registry_do_get), 1);
-    rb_define_method(cRegistry, "build", RUBY_METHOD_FUNC(registry_do_build), -1);
-    rb_define_method(cRegistry, "each_type", RUBY_METHOD_FUNC(registry_each_type), 2);
+    rb_define_method(cRegistry, "size", TYPELIB_RUBY_METHOD(registry_size), 0);
+    rb_define_method(cRegistry, "get", TYPELIB_RUBY_METHOD(registry_do_get), 1);
+    rb_define_method(cRegistry, "build", TYPELIB_RUBY_METHOD(registry_do_build), -1);
+    rb_define_method(cRegistry, "each_type", TYPELIB_RUBY_METHOD(registry_each_type), 2);
     // do_import is called by the Ruby-defined import, which formats the
     // option hash (if there is one), and can detect the import type by extension
-    rb_define_method(cRegistry, "do_import", RUBY_METHOD_FUNC(registry_import), 4);
-    rb_define_method(cRegistry, "do_export", RUBY_METHOD_FUNC(registry_export), 2);
-    rb_define_method(cRegistry, "merge_xml", RUBY_METHOD_FUNC(registry_merge_xml), 1);
-    rb_define_method(cRegistry, "alias", RUBY_METHOD_FUNC(registry_alias), 2);
-    rb_define_method(cRegistry, "remove_alias", RUBY_METHOD_FUNC(registry_remove_alias), 1);
-    rb_define_method(cRegistry, "clear_aliases", RUBY_METHOD_FUNC(registry_clear_aliases), 0);
-    rb_define_method(cRegistry, "aliases_of", RUBY_METHOD_FUNC(registry_aliases_of), 1);
-    rb_define_method(cRegistry, "merge", RUBY_METHOD_FUNC(registry_merge), 1);
-    rb_define_method(cRegistry, "do_minimal", RUBY_METHOD_FUNC(registry_minimal), 2);
-    rb_define_method(cRegistry, "includes?", RUBY_METHOD_FUNC(registry_includes_p), 1);
-    rb_define_method(cRegistry, "do_resize", RUBY_METHOD_FUNC(registry_resize), 1);
-    rb_define_method(cRegistry, "reverse_depends", RUBY_METHOD_FUNC(registry_reverse_depends), 1);
-    rb_define_method(cRegistry, "remove", RUBY_METHOD_FUNC(registry_remove), 1);
-    rb_define_method(cRegistry, "source_id_of", RUBY_METHOD_FUNC(registry_source_id_of), 1);
-    rb_define_method(cRegistry, "do_create_numeric", RUBY_METHOD_FUNC(registry_do_create_numeric), 3);
-    rb_define_method(cRegistry, "do_create_compound", RUBY_METHOD_FUNC(registry_create_compound), 3);
-    rb_define_method(cRegistry, "do_create_enum", RUBY_METHOD_FUNC(registry_create_enum), 3);
-    rb_define_method(cRegistry, "create_opaque", RUBY_METHOD_FUNC(registry_create_opaque), 2);
-    rb_define_method(cRegistry, "create_null", RUBY_METHOD_FUNC(registry_create_null), 1);
-
-    rb_define_singleton_method(cRegistry, "add_standard_cxx_types", RUBY_METHOD_FUNC(registry_add_standard_cxx_types), 1);
-
-    rb_define_singleton_method(cRegistry, "available_containers", RUBY_METHOD_FUNC(registry_available_container), 0);
-    rb_define_method(cRegistry, "define_container", RUBY_METHOD_FUNC(registry_define_container), 3);
+    rb_define_method(cRegistry, "do_import", TYPELIB_RUBY_METHOD(registry_import), 4);
+    rb_define_method(cRegistry, "do_export", TYPELIB_RUBY_METHOD(registry_export), 2);
+    rb_define_method(cRegistry, "merge_xml", TYPELIB_RUBY_METHOD(registry_merge_xml), 1);
+    rb_define_method(cRegistry, "alias", TYPELIB_RUBY_METHOD(registry_alias), 2);
+    rb_define_method(cRegistry, "remove_alias", TYPELIB_RUBY_METHOD(registry_remove_alias), 1);
+    rb_define_method(cRegistry, "clear_aliases", TYPELIB_RUBY_METHOD(registry_clear_aliases), 0);
+    rb_define_method(cRegistry, "aliases_of", TYPELIB_RUBY_METHOD(registry_aliases_of), 1);
+    rb_define_method(cRegistry, "merge", TYPELIB_RUBY_METHOD(registry_merge), 1);
+    rb_define_method(cRegistry, "do_minimal", TYPELIB_RUBY_METHOD(registry_minimal), 2);
+    rb_define_method(cRegistry, "includes?", TYPELIB_RUBY_METHOD(registry_includes_p), 1);
+    rb_define_method(cRegistry, "do_resize", TYPELIB_RUBY_METHOD(registry_resize), 1);
+    rb_define_method(cRegistry, "reverse_depends", TYPELIB_RUBY_METHOD(registry_reverse_depends), 1);
+    rb_define_method(cRegistry, "remove", TYPELIB_RUBY_METHOD(registry_remove), 1);
+    rb_define_method(cRegistry, "source_id_of", TYPELIB_RUBY_METHOD(registry_source_id_of), 1);
+    rb_define_method(cRegistry, "do_create_numeric", TYPELIB_RUBY_METHOD(registry_do_create_numeric), 3);
+    rb_define_method(cRegistry, "do_create_compound", TYPELIB_RUBY_METHOD(registry_create_compound), 3);
+    rb_define_method(cRegistry, "do_create_enum", TYPELIB_RUBY_METHOD(registry_create_enum), 3);
+    rb_define_method(cRegistry, "create_opaque", TYPELIB_RUBY_METHOD(registry_create_opaque), 2);
+    rb_define_method(cRegistry, "create_null", TYPELIB_RUBY_METHOD(registry_create_null), 1);
+
+    rb_define_singleton_method(cRegistry, "add_standard_cxx_types", TYPELIB_RUBY_METHOD(registry_add_standard_cxx_types), 1);
+
+    rb_define_singleton_method(cRegistry, "available_containers", TYPELIB_RUBY_METHOD(registry_available_container), 0);
+    rb_define_method(cRegistry, "define_container", TYPELIB_RUBY_METHOD(registry_define_container), 3);
 }
 
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 0dec20d..43c06b1 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -710,57 +710,57 @@ void typelib_ruby::Typelib_init_specialized_types()
 {
     VALUE mTypelib  = rb_define_module("Typelib");
     cNumeric   = rb_define_class_under(mTypelib, "NumericType", cType);
-    rb_define_singleton_method(cNumeric, "integer?", RUBY_METHOD_FUNC(numeric_type_integer_p), 0);
-    rb_define_singleton_method(cNumeric, "unsigned?", RUBY_METHOD_FUNC(numeric_type_unsigned_p), 0);
-    rb_define_singleton_method(cNumeric, "size", RUBY_METHOD_FUNC(numeric_type_size), 0);
-    rb_define_singleton_method(cNumeric, "to_ruby", RUBY_METHOD_FUNC(&numeric_to_ruby), 1);
-    rb_define_method(cNumeric, "typelib_from_ruby", RUBY_METHOD_FUNC(&numeric_from_ruby), 1);
+    rb_define_singleton_method(cNumeric, "integer?", TYPELIB_RUBY_METHOD(numeric_type_integer_p), 0);
+    rb_define_singleton_method(cNumeric, "unsigned?", TYPELIB_RUBY_METHOD(numeric_type_unsigned_p), 0);
+    rb_define_singleton_method(cNumeric, "size", TYPELIB_RUBY_METHOD(numeric_type_size), 0);
+    rb_define_singleton_method(cNumeric, "to_ruby", TYPELIB_RUBY_METHOD(numeric_to_ruby), 1);
+    rb_define_method(cNumeric, "typelib_from_ruby", TYPELIB_RUBY_METHOD(numeric_from_ruby), 1);
 
     cOpaque    = rb_define_class_under(mTypelib, "OpaqueType", cType);
     cNull      = rb_define_class_under(mTypelib, "NullType", cType);
 
     cIndirect  = rb_define_class_under(mTypelib, "IndirectType", cType);
-    rb_define_singleton_method(cIndirect, "deference",    RUBY_METHOD_FUNC(indirect_type_deference), 0);
+    rb_define_singleton_method(cIndirect, "deference",    TYPELIB_RUBY_METHOD(indirect_type_deference), 0);
 
     cPointer  = rb_define_class_under(mTypelib, "PointerType", cIndirect);
-    rb_define_method(cPointer, "deference", RUBY_METHOD_FUNC(pointer_deference), 0);
-    rb_define_method(cPointer, "null?", RUBY_METHOD_FUNC(pointer_nil_p), 0);
+    rb_define_method(cPointer, "deference", TYPELIB_RUBY_METHOD(pointer_deference), 0);
+    rb_define_method(cPointer, "null?", TYPELIB_RUBY_METHOD(pointer_nil_p), 0);
 
     cCompound = rb_define_class_under(mTypelib, "CompoundType", cType);
-    rb_define_singleton_method(cCompound, "get_fields",   RUBY_METHOD_FUNC(compound_get_fields), 0);
-    rb_define_method(cCompound, "typelib_get_field", RUBY_METHOD_FUNC(compound_field_get), 2);
-    rb_define_method(cCompound, "typelib_set_field", RUBY_METHOD_FUNC(compound_field_set), 2);
+    rb_define_singleton_method(cCompound, "get_fields",   TYPELIB_RUBY_METHOD(compound_get_fields), 0);
+    rb_define_method(cCompound, "typelib_get_field", TYPELIB_RUBY_METHOD(compound_field_get), 2);
+    rb_define_method(cCompound, "typelib_set_field", TYPELIB_RUBY_METHOD(compound_field_set), 2);
 
     cEnum = rb_define_class_under(mTypelib, "EnumType", cType);
-    rb_define_singleton_method(cEnum, "keys", RUBY_METHOD_FUNC(enum_keys), 0);
-    rb_define_singleton_method(cEnum, "value_of",      RUBY_METHOD_FUNC(enum_value_of), 1);
-    rb_define_singleton_method(cEnum, "name_of",      RUBY_METHOD_FUNC(enum_name_of), 1);
-    rb_define_singleton_method(cEnum, "to_ruby",      RUBY_METHOD_FUNC(&numeric_to_ruby), 1);
-    rb_define_method(cEnum, "typelib_from_ruby",    RUBY_METHOD_FUNC(&numeric_from_ruby), 1);
+    rb_define_singleton_method(cEnum, "keys", TYPELIB_RUBY_METHOD(enum_keys), 0);
+    rb_define_singleton_method(cEnum, "value_of",      TYPELIB_RUBY_METHOD(enum_value_of), 1);
+    rb_define_singleton_method(cEnum, "name_of",      TYPELIB_RUBY_METHOD(enum_name_of), 1);
+    rb_define_singleton_method(cEnum, "to_ruby",      TYPELIB_RUBY_METHOD(numeric_to_ruby), 1);
+    rb_define_method(cEnum, "typelib_from_ruby",    TYPELIB_RUBY_METHOD(numeric_from_ruby), 1);
 
     cArray    = rb_define_class_under(mTypelib, "ArrayType", cIndirect);
-    rb_define_singleton_method(cArray, "length", RUBY_METHOD_FUNC(array_class_length), 0);
-    rb_define_method(cArray, "do_get",  RUBY_METHOD_FUNC(array_get), -1);
-    rb_define_method(cArray, "do_set",  RUBY_METHOD_FUNC(array_set), 2);
-    rb_define_method(cArray, "do_each",    RUBY_METHOD_FUNC(array_do_each), 0);
-    rb_define_method(cArray, "size",    RUBY_METHOD_FUNC(array_size), 0);
+    rb_define_singleton_method(cArray, "length", TYPELIB_RUBY_METHOD(array_class_length), 0);
+    rb_define_method(cArray, "do_get",  TYPELIB_RUBY_METHOD(array_get), -1);
+    rb_define_method(cArray, "do_set",  TYPELIB_RUBY_METHOD(array_set), 2);
+    rb_define_method(cArray, "do_each",    TYPELIB_RUBY_METHOD(array_do_each), 0);
+    rb_define_method(cArray, "size",    TYPELIB_RUBY_METHOD(array_size), 0);
 
     cContainer = rb_define_class_under(mTypelib, "ContainerType", cIndirect);
-    rb_define_singleton_method(cContainer, "container_kind", RUBY_METHOD_FUNC(container_kind), 0);
-    rb_define_singleton_method(cContainer, "natural_size",   RUBY_METHOD_FUNC(container_natural_size), 0);
-    rb_define_singleton_method(cContainer, "random_access?",   RUBY_METHOD_FUNC(container_random_access_p), 0);
-    rb_define_method(cContainer, "length",    RUBY_METHOD_FUNC(container_length), 0);
-    rb_define_method(cContainer, "size",    RUBY_METHOD_FUNC(container_length), 0);
-    rb_define_method(cContainer, "do_clear",    RUBY_METHOD_FUNC(container_clear), 0);
-    rb_define_method(cContainer, "do_push",    RUBY_METHOD_FUNC(container_do_push), 1);
-    rb_define_method(cContainer, "do_get",    RUBY_METHOD_FUNC(container_do_get), 2);
-    rb_define_method(cContainer, "do_set",    RUBY_METHOD_FUNC(container_do_set), 2);
-    rb_define_method(cContainer, "do_each",      RUBY_METHOD_FUNC(container_each), 1);
-    rb_define_method(cContainer, "do_erase",     RUBY_METHOD_FUNC(container_erase), 1);
-    rb_define_method(cContainer, "do_delete_if", RUBY_METHOD_FUNC(container_delete_if), 0);
+    rb_define_singleton_method(cContainer, "container_kind", TYPELIB_RUBY_METHOD(container_kind), 0);
+    rb_define_singleton_method(cContainer, "natural_size",   TYPELIB_RUBY_METHOD(container_natural_size), 0);
+    rb_define_singleton_method(cContainer, "random_access?",   TYPELIB_RUBY_METHOD(container_random_access_p), 0);
+    rb_define_method(cContainer, "length",    TYPELIB_RUBY_METHOD(container_length), 0);
+    rb_define_method(cContainer, "size",    TYPELIB_RUBY_METHOD(container_length), 0);
+    rb_define_method(cContainer, "do_clear",    TYPELIB_RUBY_METHOD(container_clear), 0);
+    rb_define_method(cContainer, "do_push",    TYPELIB_RUBY_METHOD(container_do_push), 1);
+    rb_define_method(cContainer, "do_get",    TYPELIB_RUBY_METHOD(container_do_get), 2);
+    rb_define_method(cContainer, "do_set",    TYPELIB_RUBY_METHOD(container_do_set), 2);
+    rb_define_method(cContainer, "do_each",      TYPELIB_RUBY_METHOD(container_each), 1);
+    rb_define_method(cContainer, "do_erase",     TYPELIB_RUBY_METHOD(container_erase), 1);
+    rb_define_method(cContainer, "do_delete_if", TYPELIB_RUBY_METHOD(container_delete_if), 0);
 
     VALUE mVector = rb_define_module_under(cContainer, "StdVector");
-    rb_define_method(mVector, "contained_memory_id", RUBY_METHOD_FUNC(vector_contained_memory_id), 0);
-    rb_define_method(mVector, "raw_memcpy", RUBY_METHOD_FUNC(vector_raw_memcpy), 2);
+    rb_define_method(mVector, "contained_memory_id", TYPELIB_RUBY_METHOD(vector_contained_memory_id), 0);
+    rb_define_method(mVector, "raw_memcpy", TYPELIB_RUBY_METHOD(vector_raw_memcpy), 2);
 }
 
diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index f9b2c79..0f3d1cd 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -108,8 +108,8 @@ static VALUE value_to_string(VALUE mod, VALUE self, VALUE known_good_type)
 
 void typelib_ruby::Typelib_init_strings()
 {
-    rb_define_singleton_method(cType, "to_string",    RUBY_METHOD_FUNC(&value_to_string), 2);
-    rb_define_singleton_method(cType, "from_string",  RUBY_METHOD_FUNC(&value_from_string), 3);
-    rb_define_method(cType, "string_handler?", RUBY_METHOD_FUNC(&value_string_handler_p), 0);
+    rb_define_singleton_method(cType, "to_string",    TYPELIB_RUBY_METHOD(value_to_string), 2);
+    rb_define_singleton_method(cType, "from_string",  TYPELIB_RUBY_METHOD(value_from_string), 3);
+    rb_define_method(cType, "string_handler?", TYPELIB_RUBY_METHOD(value_string_handler_p), 0);
 }
 
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index c893879..4991344 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -2,6 +2,8 @@
 #define __RUBY_EXT_TYPELIB_HH__
 
 #include <ruby.h>
+#include <exception>
+#include <new>
 #include <typelib/typemodel.hh>
 #include <typelib/value.hh>
 #include <typelib/registry.hh>
@@ -196,6 +198,34 @@ namespace typelib_ruby {
     extern VALUE memory_allocate(size_t size);
     extern void  memory_init(VALUE ptr, VALUE type);
     extern void* memory_cptr(VALUE ptr);
+
+    /** C++ exceptions must not be thrown through the Ruby interpreter: all
+     * functions which are exposed as Ruby methods must be registered with
+     * TYPELIB_RUBY_METHOD, which converts the exceptions they do not handle
+     * themselves to Ruby ones
+     */
+    template<typename F, F function> struct MethodGuard;
+
+    template<typename... Args, VALUE (*function)(Args...)>
+    struct MethodGuard<VALUE (*)(Args...), function>
+    {
+        static VALUE call(Args... args)
+        {
+            // rb_exc_raise does not return, it must therefore not be called
+            // before the C++ exception is destroyed
+            VALUE error = Qnil;
+            try { return function(args...); }
+            catch(std::bad_alloc const&)
+            { error = rb_exc_new2(rb_eNoMemError, "failed to allocate memory"); }
+            catch(std::exception const& e)
+            { error = rb_exc_new2(rb_eRuntimeError, e.what()); }
+            rb_exc_raise(error);
+            return Qnil;
+        }
+    };
+
+#define TYPELIB_RUBY_METHOD(function) \
+    RUBY_METHOD_FUNC((&typelib_ruby::MethodGuard<decltype(&function), &function>::call))
 }
 
 #endif
diff --git a/bindings/ruby/ext/typelib_ruby.cc b/bindings/ruby/ext/typelib_ruby.cc
index 3f7c5ee..03590cf 100644
--- a/bindings/ruby/ext/typelib_ruby.cc
+++ b/bindings/ruby/ext/typelib_ruby.cc
@@ -53,9 +53,9 @@ extern "C" void Init_typelib_ruby()
     Typelib_init_memory();
     Typelib_init_metadata();
 
-    rb_define_singleton_method(mTypelib, "big_endian?", RUBY_METHOD_FUNC(typelib_is_big_endian), 0);
+    rb_define_singleton_method(mTypelib, "big_endian?", TYPELIB_RUBY_METHOD(typelib_is_big_endian), 0);
 
-    rb_define_singleton_method(rb_mKernel, "immediate?", RUBY_METHOD_FUNC(kernel_is_immediate), 1);
-    rb_define_singleton_method(rb_mKernel, "numeric?", RUBY_METHOD_FUNC(kernel_is_numeric), 1);
+    rb_define_singleton_method(rb_mKernel, "immediate?", TYPELIB_RUBY_METHOD(kernel_is_immediate), 1);
+    rb_define_singleton_method(rb_mKernel, "numeric?", TYPELIB_RUBY_METHOD(kernel_is_numeric), 1);
 }
 
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index ec6f331..056342f 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -694,37 +694,37 @@ static VALUE typelib_compare(VALUE, VALUE to, VALUE from)
 void typelib_ruby::Typelib_init_values()
 {
     VALUE mTypelib  = rb_define_module("Typelib");
-    rb_define_singleton_method(mTypelib, "do_copy", RUBY_METHOD_FUNC(typelib_do_copy), 2);
-    rb_define_singleton_method(mTypelib, "do_compare", RUBY_METHOD_FUNC(typelib_compare), 2);
+    rb_define_singleton_method(mTypelib, "do_copy", TYPELIB_RUBY_METHOD(typelib_do_copy), 2);
+    rb_define_singleton_method(mTypelib, "do_compare", TYPELIB_RUBY_METHOD(typelib_compare), 2);
 
     cType     = rb_define_class_under(mTypelib, "Type", rb_cObject);
     rb_define_alloc_func(cType, value_alloc);
-    rb_define_singleton_method(cType, "==",            RUBY_METHOD_FUNC(type_equal_operator), 1);
-    rb_define_singleton_method(cType, "size",          RUBY_METHOD_FUNC(&type_size), 0);
-    rb_define_singleton_method(cType, "do_memory_layout", RUBY_METHOD_FUNC(&type_memory_layout), 4);
-    rb_define_singleton_method(cType, "do_dependencies",  RUBY_METHOD_FUNC(&type_dependencies), 0);
-    rb_define_singleton_method(cType, "casts_to?",     RUBY_METHOD_FUNC(&type_can_cast_to), 1);
-    rb_define_singleton_method(cType, "value_new", RUBY_METHOD_FUNC(&value_new), 1);
-    rb_define_singleton_method(cType, "from_memory_zone", RUBY_METHOD_FUNC(&value_from_memory_zone), 1);
-    rb_define_singleton_method(cType, "from_address", RUBY_METHOD_FUNC(&value_from_address), 1);
-
-    rb_define_method(cType, "do_from_buffer", RUBY_METHOD_FUNC(&value_do_from_buffer), 5);
-    rb_define_method(cType, "zero!",      RUBY_METHOD_FUNC(&value_zero), 0);
-    rb_define_method(cType, "memory_eql?",      RUBY_METHOD_FUNC(&value_memory_eql_p), 1);
-    rb_define_method(cType, "endian_swap",      RUBY_METHOD_FUNC(&value_endian_swap), 0);
-    rb_define_method(cType, "endian_swap!",      RUBY_METHOD_FUNC(&value_endian_swap_b), 0);
-    rb_define_method(cType, "zone_address", RUBY_METHOD_FUNC(&value_address), 0);
-    rb_define_method(cType, "do_cast", RUBY_METHOD_FUNC(&value_do_cast), 1);
-    rb_define_method(cType, "do_invalidate", RUBY_METHOD_FUNC(&value_invalidate), 0);
-
-    rb_define_singleton_method(mTypelib, "do_basename",  RUBY_METHOD_FUNC(typelib_do_basename), 1);
-    rb_define_singleton_method(mTypelib, "do_namespace", RUBY_METHOD_FUNC(typelib_do_namespace), 1);
-    rb_define_singleton_method(mTypelib, "split_typename", RUBY_METHOD_FUNC(typelib_do_split_name), 1);
-
-    rb_define_singleton_method(cType, "to_csv", RUBY_METHOD_FUNC(type_to_csv), -1);
-    rb_define_method(cType, "to_csv", RUBY_METHOD_FUNC(value_to_csv), -1);
-    rb_define_method(cType, "do_byte_array", RUBY_METHOD_FUNC(value_do_byte_array), 4);
-    rb_define_method(cType, "marshalling_size", RUBY_METHOD_FUNC(value_marshalling_size), 0);
+    rb_define_singleton_method(cType, "==",            TYPELIB_RUBY_METHOD(type_equal_operator), 1);
+    rb_define_singleton_method(cType, "size",          TYPELIB_RUBY_METHOD(type_size), 0);
+    rb_define_singleton_method(cType, "do_memory_layout", TYPELIB_RUBY_METHOD(type_memory_layout), 4);
+    rb_define_singleton_method(cType, "do_dependencies",  TYPELIB_RUBY_METHOD(type_dependencies), 0);
+    rb_define_singleton_method(cType, "casts_to?",     TYPELIB_RUBY_METHOD(type_can_cast_to), 1);
+    rb_define_singleton_method(cType, "value_new", TYPELIB_RUBY_METHOD(value_new), 1);
+    rb_define_singleton_method(cType, "from_memory_zone", TYPELIB_RUBY_METHOD(value_from_memory_zone), 1);
+    rb_define_singleton_method(cType, "from_address", TYPELIB_RUBY_METHOD(value_from_address), 1);
+
+    rb_define_method(cType, "do_from_buffer", TYPELIB_RUBY_METHOD(value_do_from_buffer), 5);
+    rb_define_method(cType, "zero!",      TYPELIB_RUBY_METHOD(value_zero), 0);
+    rb_define_method(cType, "memory_eql?",      TYPELIB_RUBY_METHOD(value_memory_eql_p), 1);
+    rb_define_method(cType, "endian_swap",      TYPELIB_RUBY_METHOD(value_endian_swap), 0);
+    rb_define_method(cType, "endian_swap!",      TYPELIB_RUBY_METHOD(value_endian_swap_b), 0);
+    rb_define_method(cType, "zone_address", TYPELIB_RUBY_METHOD(value_address), 0);
+    rb_define_method(cType, "do_cast", TYPELIB_RUBY_METHOD(value_do_cast), 1);
+    rb_define_method(cType, "do_invalidate", TYPELIB_RUBY_METHOD(value_invalidate), 0);
+
+    rb_define_singleton_method(mTypelib, "do_basename",  TYPELIB_RUBY_METHOD(typelib_do_basename), 1);
+    rb_define_singleton_method(mTypelib, "do_namespace", TYPELIB_RUBY_METHOD(typelib_do_namespace), 1);
+    rb_define_singleton_method(mTypelib, "split_typename", TYPELIB_RUBY_METHOD(typelib_do_split_name), 1);
+
+    rb_define_singleton_method(cType, "to_csv", TYPELIB_RUBY_METHOD(type_to_csv), -1);
+    rb_define_method(cType, "to_csv", TYPELIB_RUBY_METHOD(value_to_csv), -1);
+    rb_define_method(cType, "do_byte_array", TYPELIB_RUBY_METHOD(value_do_byte_array), 4);
+    rb_define_method(cType, "marshalling_size", TYPELIB_RUBY_METHOD(value_marshalling_size), 0);
 
     Typelib_init_specialized_types();
 }
-- 
2.43.0


From b0a4286e86fe2b42e07c61838b55b6e2bc995b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 054/109] fix: Ruby metadata objects did not keep their
 registry alive

---
 bindings/ruby/ext/metadata.cc          | 6 ++++--
 bindings/ruby/ext/specialized_types.cc | 2 +-
 bindings/ruby/ext/typelib.hh           | 5 ++++-
 bindings/ruby/ext/value.cc             | 2 +-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/ext/metadata.cc b/bindings/ruby/ext/metadata.cc
index 6ac1e17..e3465ab 100644
--- a/bindings/ruby/ext/metadata.cc
+++ b/bindings/ruby/ext/metadata.cc
@@ -10,9 +10,11 @@ using namespace typelib_ruby;
 VALUE typelib_ruby::cMetaData;
 rb_encoding* enc_utf8;
 
-VALUE cxx2rb::metadata_wrap(MetaData& metadata)
+VALUE cxx2rb::metadata_wrap(MetaData& metadata, VALUE registry)
 {
-    return Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    VALUE result = Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    rb_iv_set(result, "@registry", registry);
+    return result;
 }
 
 static VALUE metadata_include_p(VALUE self, VALUE key)
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 43c06b1..f768bae 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -33,7 +33,7 @@ static VALUE compound_get_fields(VALUE self)
         rb_ary_store(field_def, 0, field_name);
         rb_ary_store(field_def, 1, INT2FIX(it->getOffset()));
         rb_ary_store(field_def, 2, field_type);
-        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData()));
+        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData(), registry));
         rb_ary_push(fieldlist, field_def);
     }
 
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index 4991344..41bc156 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -70,7 +70,10 @@ namespace typelib_ruby {
         template<> inline VALUE class_of<MetaData>() { return cMetaData; }
 
         VALUE type_wrap(Type const& type, VALUE registry);
-        VALUE metadata_wrap(MetaData& metadata);
+        /** Wraps a metadata object which is owned by a type of the given
+         * registry. The returned object keeps the registry alive
+         */
+        VALUE metadata_wrap(MetaData& metadata, VALUE registry);
 
         /* Get the Ruby symbol associated with a C enum, or nil
          * if the value is not valid for this enum
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 056342f..3838f1a 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -122,7 +122,7 @@ VALUE cxx2rb::type_wrap(Type const& type, VALUE registry)
     rb_iv_set(klass, "@name", rb_str_new2(type.getName().c_str()));
     rb_iv_set(klass, "@null", (type.getCategory() == Type::NullType) ? Qtrue : Qfalse);
     rb_iv_set(klass, "@opaque", (type.getCategory() == Type::Opaque) ? Qtrue : Qfalse);
-    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData()));
+    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData(), registry));
 
     if (rb_respond_to(klass, rb_intern("subclass_initialize")))
         rb_funcall(klass, rb_intern("subclass_initialize"), 0);
-- 
2.43.0


From 1aeb480656ca67c8dc480551a27370cc1b74d06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 055/109] fix: Ruby values outlive the types that were removed
 from their registry

---
 bindings/ruby/ext/registry.cc | 18 +++---------------
 bindings/ruby/ext/typelib.hh  | 35 ++++++++++++++++++++++++++---------
 bindings/ruby/ext/value.cc    |  4 ++--
 3 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 2e9aa4b..7c81da2 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -30,16 +30,7 @@ namespace typelib_ruby {
 static
 void registry_free(void* ptr)
 {
-    using cxx2rb::WrapperMap;
-    RbRegistry* rbregistry = reinterpret_cast<RbRegistry*>(ptr);
-    WrapperMap& wrappers = rbregistry->wrappers;
-    for (WrapperMap::iterator it = wrappers.begin(); it != wrappers.end(); ++it)
-    {
-        if (it->second.first)
-            delete it->first;
-    }
-
-    delete rbregistry;
+    delete reinterpret_cast<RbRegistry*>(ptr);
 }
 
 static
@@ -48,7 +39,7 @@ void registry_mark(void* ptr)
     using cxx2rb::WrapperMap;
     WrapperMap const& wrappers = reinterpret_cast<RbRegistry const*>(ptr)->wrappers;
     for (WrapperMap::const_iterator it = wrappers.begin(); it != wrappers.end(); ++it)
-        rb_gc_mark(it->second.second);
+        rb_gc_mark(it->second);
 }
 
 static
@@ -88,15 +79,12 @@ VALUE registry_remove(VALUE self, VALUE rbtype)
     Registry&   registry = *(rbregistry.registry);
     Type const& type(rb2cxx::object<Type>(rbtype));
     std::set<Type*> deleted = registry.remove(type);
+    rbregistry.removed_types->insert(deleted.begin(), deleted.end());
 
     VALUE result = rb_ary_new();
     std::set<Type*>::iterator it, end;
     for (it = deleted.begin(); it != deleted.end(); ++it)
-    {
         rb_ary_push(result, cxx2rb::type_wrap(**it, self));
-        cxx2rb::WrapperMap::iterator wrapper_it = rbregistry.wrappers.find(*it);
-        wrapper_it->second.first = true;
-    }
 
     return result;
 }
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index 41bc156..d010d05 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -39,25 +39,42 @@ namespace typelib_ruby {
     namespace cxx2rb {
         using namespace Typelib;
 
-        typedef std::map<Type const*, std::pair<bool, VALUE> > WrapperMap;
+        typedef std::map<Type const*, VALUE> WrapperMap;
+
+        typedef std::set<Type const*> RemovedTypes;
+
+        /** Deletes a registry along with the types that have been removed from
+         * it
+         */
+        struct RegistryDeleter
+        {
+            boost::shared_ptr<RemovedTypes> removed_types;
+            void operator ()(Typelib::Registry* registry) const
+            {
+                for (RemovedTypes::const_iterator it = removed_types->begin(); it != removed_types->end(); ++it)
+                    delete *it;
+                delete registry;
+            }
+        };
 
         struct RbRegistry
         {
+            /** The types that got removed from the registry. The registry loses
+             * ownership of a type through the remove call
+             *
+             * They are deleted together with the registry itself, as the
+             * layouts of the values that still exist may refer to them.
+             */
+            boost::shared_ptr<RemovedTypes> removed_types;
             boost::shared_ptr<Typelib::Registry> registry;
             /** Map that stores the mapping from Type instances to the
              * corresponding Ruby object
-             *
-             * The boolean flag is false if the registry still owns that type,
-             * and true otherwise. The registry loses ownership of a type
-             * through the remove call
-             *
-             * In both cases, they will be deleted only when the registry is
-             * garbage collected.
              */
             cxx2rb::WrapperMap wrappers;
 
             RbRegistry(Typelib::Registry* registry)
-                : registry(registry) {}
+                : removed_types(new RemovedTypes)
+                , registry(registry, RegistryDeleter { removed_types }) {}
             ~RbRegistry() {}
         };
 
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 3838f1a..9664833 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -112,7 +112,7 @@ VALUE cxx2rb::type_wrap(Type const& type, VALUE registry)
 
     WrapperMap::const_iterator it = wrappers.find(&type);
     if (it != wrappers.end())
-        return it->second.second;
+        return it->second;
 
     VALUE base  = class_of(type);
     VALUE klass = rb_funcall(rb_cClass, rb_intern("new"), 1, base);
@@ -127,7 +127,7 @@ VALUE cxx2rb::type_wrap(Type const& type, VALUE registry)
     if (rb_respond_to(klass, rb_intern("subclass_initialize")))
         rb_funcall(klass, rb_intern("subclass_initialize"), 0);
 
-    wrappers.insert(std::make_pair(&type, std::make_pair(false, klass)));
+    wrappers.insert(std::make_pair(&type, klass));
     return klass;
 }
 
-- 
2.43.0


From ce77da848f52027d1235b1bb47b844c09c619323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 056/109] fix: serialising an invalidated Ruby value with
 options raised ArgumentError

---
 bindings/ruby/lib/typelib/type.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 48fe5ac..4209278 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -281,7 +281,7 @@ module Typelib
         module Invalidate
             def to_memory_ptr; raise TypeError, "invalidated object" end
             def to_ruby; raise TypeError, "invalidated object" end
-            def to_byte_array; raise TypeError, "invalidated object" end
+            def to_byte_array(options = Hash.new); raise TypeError, "invalidated object" end
             def marshalling_size; raise TypeError, "invalidated object" end
         end
 
-- 
2.43.0


From 0771b0dcadb8e4c70626c6124776fafa13161c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 057/109] fix: removing elements of a vector while iterating on
 it from Ruby read freed memory

---
 bindings/ruby/lib/typelib/container_type.rb | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 4a57431..5b747e7 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -159,15 +159,21 @@ module Typelib
 
             def raw_each
                 return enum_for(:raw_each) if !block_given?
-                for idx in 0...size
+                # The block might remove elements
+                idx = 0
+                while idx < size
                     yield(raw_get_no_boundary_check(idx))
+                    idx += 1
                 end
             end
 
             def each
                 return enum_for(:each) if !block_given?
-                for idx in 0...size
+                # The block might remove elements
+                idx = 0
+                while idx < size
                     yield(get_no_boundary_check(idx))
+                    idx += 1
                 end
             end
         end
-- 
2.43.0


From f96c9ac226e5646dbd8b4d08fe75d53f7f59bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 058/109] fix: using an invalidated Ruby value dereferenced a
 null pointer

---
 bindings/ruby/ext/typelib.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index d010d05..b296353 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -131,6 +131,15 @@ namespace typelib_ruby {
             return get_wrapped<T>(self);
         }
 
+        template<> inline Value& object(VALUE self)
+        {
+            check_is_kind_of(self, cxx2rb::class_of<Value>());
+            // Its memory is gone, see Type#invalidate
+            if (RTEST(rb_iv_get(self, "@__typelib_invalidated")))
+                rb_raise(rb_eTypeError, "invalidated object");
+            return get_wrapped<Value>(self);
+        }
+
         template<> inline Registry& object(VALUE self)
         {
             return *object<cxx2rb::RbRegistry>(self).registry;
-- 
2.43.0


From 1cd33294b79dec1d3ff3257051f24ac48df58e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 059/109] fix: Ruby values lost assignments to converted
 fields, and kept handles on reallocated elements

Assigning a converted field only caches the Ruby object, and it gets applied
later. Arrays and containers did not apply what their elements had cached,
and what was cached later overwrote the values set by other means.

Type#zero! and the assignment of a vector's element did not invalidate the
objects that gave access to the elements they deleted.
---
 bindings/ruby/ext/value.cc                  | 10 ++---
 bindings/ruby/lib/typelib.rb                |  6 +--
 bindings/ruby/lib/typelib/array_type.rb     | 14 ++++++
 bindings/ruby/lib/typelib/compound_type.rb  | 23 +++++-----
 bindings/ruby/lib/typelib/container_type.rb | 32 ++++++++++++-
 bindings/ruby/lib/typelib/type.rb           | 50 +++++++++++++++++++++
 6 files changed, 113 insertions(+), 22 deletions(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 9664833..e58d1f1 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -709,10 +709,10 @@ void typelib_ruby::Typelib_init_values()
     rb_define_singleton_method(cType, "from_address", TYPELIB_RUBY_METHOD(value_from_address), 1);
 
     rb_define_method(cType, "do_from_buffer", TYPELIB_RUBY_METHOD(value_do_from_buffer), 5);
-    rb_define_method(cType, "zero!",      TYPELIB_RUBY_METHOD(value_zero), 0);
+    rb_define_method(cType, "do_zero",      TYPELIB_RUBY_METHOD(value_zero), 0);
     rb_define_method(cType, "memory_eql?",      TYPELIB_RUBY_METHOD(value_memory_eql_p), 1);
-    rb_define_method(cType, "endian_swap",      TYPELIB_RUBY_METHOD(value_endian_swap), 0);
-    rb_define_method(cType, "endian_swap!",      TYPELIB_RUBY_METHOD(value_endian_swap_b), 0);
+    rb_define_method(cType, "do_endian_swap",      TYPELIB_RUBY_METHOD(value_endian_swap), 0);
+    rb_define_method(cType, "do_endian_swap!",      TYPELIB_RUBY_METHOD(value_endian_swap_b), 0);
     rb_define_method(cType, "zone_address", TYPELIB_RUBY_METHOD(value_address), 0);
     rb_define_method(cType, "do_cast", TYPELIB_RUBY_METHOD(value_do_cast), 1);
     rb_define_method(cType, "do_invalidate", TYPELIB_RUBY_METHOD(value_invalidate), 0);
@@ -722,9 +722,9 @@ void typelib_ruby::Typelib_init_values()
     rb_define_singleton_method(mTypelib, "split_typename", TYPELIB_RUBY_METHOD(typelib_do_split_name), 1);
 
     rb_define_singleton_method(cType, "to_csv", TYPELIB_RUBY_METHOD(type_to_csv), -1);
-    rb_define_method(cType, "to_csv", TYPELIB_RUBY_METHOD(value_to_csv), -1);
+    rb_define_method(cType, "do_to_csv", TYPELIB_RUBY_METHOD(value_to_csv), -1);
     rb_define_method(cType, "do_byte_array", TYPELIB_RUBY_METHOD(value_do_byte_array), 4);
-    rb_define_method(cType, "marshalling_size", TYPELIB_RUBY_METHOD(value_marshalling_size), 0);
+    rb_define_method(cType, "do_marshalling_size", TYPELIB_RUBY_METHOD(value_marshalling_size), 0);
 
     Typelib_init_specialized_types();
 }
diff --git a/bindings/ruby/lib/typelib.rb b/bindings/ruby/lib/typelib.rb
index ac2881d..3361bf4 100644
--- a/bindings/ruby/lib/typelib.rb
+++ b/bindings/ruby/lib/typelib.rb
@@ -249,12 +249,12 @@ module Typelib
             raise TypeError, "cannot copy, the source has been invalidated"
         end
 
-        if to.respond_to?(:invalidate_changes_from_converted_types)
-            to.invalidate_changes_from_converted_types
-        end
         if from.respond_to?(:apply_changes_from_converted_types)
             from.apply_changes_from_converted_types
         end
+        if to.respond_to?(:invalidate_changes_from_converted_types)
+            to.invalidate_changes_from_converted_types
+        end
 
         to.allocating_operation do
             do_copy(to, from)
diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index aee8b12..85057a7 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -65,6 +65,20 @@ module Typelib
             @elements.clear
         end
 
+        def apply_changes_from_converted_types
+            super
+            if self.class.contains_converted_types?
+                @elements.each { |el| el.apply_changes_from_converted_types if el }
+            end
+        end
+
+        def invalidate_changes_from_converted_types
+            super
+            if self.class.contains_converted_types?
+                @elements.each { |el| el.invalidate_changes_from_converted_types if el }
+            end
+        end
+
         def pretty_print(pp) # :nodoc:
             apply_changes_from_converted_types
             all_fields = enum_for(:each_with_index).to_a
diff --git a/bindings/ruby/lib/typelib/compound_type.rb b/bindings/ruby/lib/typelib/compound_type.rb
index 647eca9..4d09cd7 100644
--- a/bindings/ruby/lib/typelib/compound_type.rb
+++ b/bindings/ruby/lib/typelib/compound_type.rb
@@ -91,26 +91,25 @@ module Typelib
             def apply_changes_from_converted_types
                 super()
                 self.class.converted_fields.each do |field_name|
+                    if @fields[field_name]
+                        @fields[field_name].apply_changes_from_converted_types
+                    end
                     value = instance_variable_get("@#{FIELD_NANE_PREFIX}#{field_name}")
                     if !value.nil?
-                        if @fields[field_name]
-                            @fields[field_name].apply_changes_from_converted_types
-                        end
                         set_field(field_name, value)
+                        # raw_set forgets about it
+                        instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", value)
                     end
                 end
             end
 
-            def dup
-                new_value = super()
-                for field_name in self.class.converted_fields
-                    converted_value = instance_variable_get("@#{FIELD_NANE_PREFIX}#{field_name}")
-                    if !converted_value.kind_of?(Symbol)
-                        converted_value = converted_value.dup
-                    end
-                    instance_variable_set("@#{FIELD_NANE_PREFIX}#{field_name}", converted_value.dup)
+            def raw_set(name, value)
+                result = super
+                if self.class.converted_fields.include?(name)
+                    # The converted value, if there is one, is outdated
+                    instance_variable_set("@#{FIELD_NANE_PREFIX}#{name}", nil)
                 end
-                new_value
+                result
             end
         end
 
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index 5b747e7..d450810 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -75,6 +75,20 @@ module Typelib
             @elements.clear
         end
 
+        def apply_changes_from_converted_types
+            super
+            if self.class.contains_converted_types?
+                @elements.each { |el| el.apply_changes_from_converted_types if el }
+            end
+        end
+
+        def invalidate_changes_from_converted_types
+            super
+            if self.class.contains_converted_types?
+                @elements.each { |el| el.invalidate_changes_from_converted_types if el }
+            end
+        end
+
         # Module included in container types that offer random access
         # functionality
         module RandomAccessContainer
@@ -145,7 +159,13 @@ module Typelib
                     raise ArgumentError, "index out of bounds"
                 end
 
-                do_set(index, value)
+                # Elements that are already known might give access to containers
+                # that the assignment reallocates
+                if (element = raw_get_cached(index)) && value.kind_of?(Type)
+                    Typelib.copy(element, value)
+                else
+                    do_set(index, value)
+                end
             end
 
             def set(index, value)
@@ -309,6 +329,7 @@ module Typelib
             # NOTE: no need to care about convertions to ruby here, as -- when
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
+            apply_changes_from_converted_types
             allocating_operation do
                 for v in array
                     do_push(__element_from_ruby(v))
@@ -352,8 +373,12 @@ module Typelib
             # NOTE: no need to care about convertions to ruby here, as -- when
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
+            el = __element_from_ruby(el)
+            # The elements are moved
+            apply_changes_from_converted_types
+            invalidate_changes_from_converted_types
             handle_invalidation do
-                do_erase(__element_from_ruby(el))
+                do_erase(el)
             end
         end
 
@@ -362,6 +387,9 @@ module Typelib
             # NOTE: no need to care about convertions to ruby here, as -- when
             # the elements require a convertion to ruby -- we convert the whole
             # container to Array
+            # The elements are moved
+            apply_changes_from_converted_types
+            invalidate_changes_from_converted_types
             handle_invalidation do
                 do_delete_if do |el|
                     yield(__element_to_ruby(el))
diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 4209278..2ce6f78 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -672,6 +672,7 @@ module Typelib
         # provided mainly for libraries that are unmarshalling a lot of typelib
         # samples, to remove the overhead of option validation
         def from_buffer_direct(string, accept_pointers = false, accept_opaques = false, merge_skip_copy = true, remove_trailing_skips = true)
+            invalidate_changes_from_converted_types
             allocating_operation do
                 do_from_buffer(string,
                                accept_pointers,
@@ -716,6 +717,55 @@ module Typelib
                 options[:remove_trailing_skips])
         end
 
+        # Returns the size of this value once marshalled by Typelib, i.e. the size of
+        # the byte array returned by {#to_byte_array}
+        #
+        # @return [Integer,nil] the size, or nil if this value cannot be
+        #   marshalled
+        def marshalling_size
+            apply_changes_from_converted_types
+            do_marshalling_size
+        end
+
+        # Initializes the memory to 0
+        #
+        # @return [self]
+        def zero!
+            invalidate_changes_from_converted_types
+            handle_invalidation do
+                do_zero
+            end
+            self
+        end
+
+        # Creates a new value with an endianness opposite of the one of self
+        #
+        # @return [Typelib::Type] a new value whose endianness has been swapped
+        # @see endian_swap!
+        def endian_swap
+            apply_changes_from_converted_types
+            do_endian_swap
+        end
+
+        # Swaps the endianness of self
+        #
+        # @return [self]
+        # @see endian_swap
+        def endian_swap!
+            apply_changes_from_converted_types
+            invalidate_changes_from_converted_types
+            do_endian_swap!
+        end
+
+        # Returns a one-line representation of this value
+        #
+        # @param [String] separator the string that separates the fields
+        # @return [String]
+        def to_csv(separator = " ")
+            apply_changes_from_converted_types
+            do_to_csv(separator)
+        end
+
         # Method called by typelib for internal initialization.
         #
         # Do not override unless you know what you are doing
-- 
2.43.0


From d5b324c5dfa7dae1fe304fb3d78d20e4293b57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 060/109] fix: converting a Ruby string to char* or to an empty
 array wrote out of bounds

---
 bindings/ruby/ext/strings.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index 0f3d1cd..7461400 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -66,7 +66,9 @@ static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_go
     string_buffer_get(value, buffer, buffer_size);
 
     string::size_type from_length = RSTRING_LEN(StringValue(from));
-    if ((buffer_size - 1) < from_length)
+    if (buffer_size == string::npos)
+        rb_raise(rb_eTypeError, "Ruby strings can only be converted to char arrays, got %s", type.getName().c_str());
+    if (buffer_size < from_length + 1)
         rb_raise(rb_eArgError, "array to small: %lu, while %lu was needed", buffer_size, from_length + 1);
 
     strncpy(buffer, StringValueCStr(from), buffer_size);
-- 
2.43.0


From 865e869c4057ecefcdc5d2515c9faa3395930a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 061/109] fix: non-ASCII Ruby strings were truncated when
 converted to /std/string

---
 bindings/ruby/lib/typelib/standard_convertions.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/standard_convertions.rb b/bindings/ruby/lib/typelib/standard_convertions.rb
index fb3e3fb..4b26d59 100644
--- a/bindings/ruby/lib/typelib/standard_convertions.rb
+++ b/bindings/ruby/lib/typelib/standard_convertions.rb
@@ -26,7 +26,7 @@ module Typelib
     end
 
     convert_from_ruby String, '/std/string' do |value, typelib_type|
-        typelib_type.wrap([value.length, value].pack("QA#{value.length}"))
+        typelib_type.wrap([value.bytesize, value].pack("Qa#{value.bytesize}"))
     end
     convert_to_ruby '/std/string', String do |value|
         value = value.to_byte_array[8..-1]
-- 
2.43.0


From 0d078e6dbccb58c93f9fec82702231b4fa5078bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 062/109] fix: modifying a Ruby registry while enumerating its
 types crashed or never ended

---
 bindings/ruby/ext/registry.cc | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 7c81da2..a17a28b 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -358,22 +358,30 @@ VALUE registry_minimal(VALUE self, VALUE rb_auto, VALUE with_aliases)
 
 static void yield_types(VALUE self, bool with_aliases, RegistryIterator it, RegistryIterator end)
 {
-    if (with_aliases)
+    // The block is free to modify the registry
+    VALUE names = rb_ary_new();
+    for (; it != end; ++it)
     {
-        for (; it != end; ++it)
-        {
-            std::string const& type_name = it.getName();
-            VALUE rb_type_name = rb_str_new(type_name.c_str(), type_name.length());
-            rb_yield_values(2, rb_type_name, cxx2rb::type_wrap(*it, self));
-        }
+        if (!with_aliases && it.isAlias())
+            continue;
+
+        std::string const& type_name = it.getName();
+        rb_ary_push(names, rb_str_new(type_name.c_str(), type_name.length()));
     }
-    else
+
+    Registry& registry = rb2cxx::object<Registry>(self);
+    for (long i = 0; i < RARRAY_LEN(names); ++i)
     {
-        for (; it != end; ++it)
-        {
-            if (!it.isAlias())
-                rb_yield(cxx2rb::type_wrap(*it, self));
-        }
+        VALUE name = rb_ary_entry(names, i);
+        Type const* type = registry.get(StringValuePtr(name));
+        // It might have been removed in the meantime
+        if (!type)
+            continue;
+
+        if (with_aliases)
+            rb_yield_values(2, name, cxx2rb::type_wrap(*type, self));
+        else
+            rb_yield(cxx2rb::type_wrap(*type, self));
     }
 }
 
-- 
2.43.0


From 8d5f4b70efb5bd96b91c30d65e4ecd0e91963c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 063/109] fix: Ruby registries accepted types of other
 registries, which may be deleted before them

---
 bindings/ruby/ext/registry.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index a17a28b..1b5f88e 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -56,6 +56,16 @@ VALUE registry_alloc(VALUE klass)
 }
 
 
+/* Checks that a type object is part of the given registry. Types of other
+ * registries may be deleted before this one.
+ */
+static
+void check_is_included(Registry const& registry, Type const& type)
+{
+    if (!registry.isIncluded(type))
+        rb_raise(rb_eArgError, "the given type object comes from a different type registry");
+}
+
 static
 VALUE registry_includes_p(VALUE self, VALUE name)
 {
@@ -78,6 +88,7 @@ VALUE registry_remove(VALUE self, VALUE rbtype)
     RbRegistry& rbregistry = rb2cxx::object<RbRegistry>(self);
     Registry&   registry = *(rbregistry.registry);
     Type const& type(rb2cxx::object<Type>(rbtype));
+    check_is_included(registry, type);
     std::set<Type*> deleted = registry.remove(type);
     rbregistry.removed_types->insert(deleted.begin(), deleted.end());
 
@@ -122,6 +133,7 @@ VALUE registry_reverse_depends(VALUE self, VALUE rbtype)
 {
     Registry const& registry = rb2cxx::object<Registry>(self);
     Type const& type(rb2cxx::object<Type>(rbtype));
+    check_is_included(registry, type);
     std::set<Type const*> rdeps = registry.reverseDepends(type);
 
     VALUE result = rb_ary_new();
@@ -548,9 +560,7 @@ static VALUE registry_define_container(VALUE registry, VALUE kind, VALUE element
 {
     Registry& reg = rb2cxx::object<Registry>(registry);
     Type const& element_type(rb2cxx::object<Type>(element));
-    // Check that +reg+ contains +element_type+
-    if (!reg.isIncluded(element_type))
-        rb_raise(rb_eArgError, "the given type object comes from a different type registry");
+    check_is_included(reg, element_type);
 
     try {
         Container const& new_type = Container::createContainer(reg, StringValuePtr(kind), element_type);
@@ -598,6 +608,7 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
         VALUE rb_name = rb_ary_entry(field, 0);
         std::string field_name(StringValuePtr(rb_name));
         Typelib::Type& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
+        check_is_included(reg, field_type);
         int offset(NUM2INT(rb_ary_entry(field, 2)));
         new_t->addField(field_name, field_type, offset);
     }
-- 
2.43.0


From 5cb4e507d2c05e0b986da80e9f193d89d2992181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 064/109] fix: types which are refused by a Ruby registry were
 leaked

---
 bindings/ruby/ext/registry.cc | 97 +++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 34 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 1b5f88e..8f85017 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -7,6 +7,7 @@
 #include <lang/csupport/standard_types.hh>
 #include <typelib/utilmm/configset.hh>
 #include <set>
+#include <memory>
 
 using namespace Typelib;
 using utilmm::config_set;
@@ -588,6 +589,26 @@ static VALUE registry_add_standard_cxx_types(VALUE klass, VALUE registry)
     return registry;
 }
 
+/* Adds a newly created type to the given registry, which becomes its owner, and
+ * returns the corresponding Ruby object. The type is deleted if the registry
+ * refuses it.
+ */
+static VALUE registry_add_type(VALUE registry, std::unique_ptr<Typelib::Type> new_t)
+{
+    Registry& reg = rb2cxx::object<Registry>(registry);
+
+    VALUE error = Qnil;
+    try { reg.add(new_t.get(), true, ""); }
+    catch(std::runtime_error const& e) { error = rb_exc_new2(rb_eArgError, e.what()); }
+    if (RTEST(error))
+    {
+        // rb_exc_raise does not return
+        new_t.reset();
+        rb_exc_raise(error);
+    }
+    return cxx2rb::type_wrap(*new_t.release(), registry);
+}
+
 /*
  * call-seq:
  *   registry.do_create_compound(name, field_defs, size)
@@ -598,28 +619,35 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
 {
     Registry& reg = rb2cxx::object<Registry>(registry);
 
-    std::unique_ptr<Typelib::Compound> new_t(new Typelib::Compound(StringValuePtr(name)));
-
+    // Check the arguments first, as the functions that convert them do not return
+    // if they are invalid
+    size_t size = NUM2INT(_size);
+    StringValuePtr(name);
     int field_count = RARRAY_LEN(field_defs);
     for (int i = 0; i < field_count; ++i)
+    {
+        VALUE field = rb_ary_entry(field_defs, i);
+        VALUE rb_name = rb_ary_entry(field, 0);
+        StringValuePtr(rb_name);
+        check_is_included(reg, rb2cxx::object<Type>(rb_ary_entry(field, 1)));
+        NUM2INT(rb_ary_entry(field, 2));
+    }
+
+    std::unique_ptr<Typelib::Compound> new_t(new Typelib::Compound(StringValuePtr(name)));
+    for (int i = 0; i < field_count; ++i)
     {
         VALUE field = rb_ary_entry(field_defs, i);
 
         VALUE rb_name = rb_ary_entry(field, 0);
         std::string field_name(StringValuePtr(rb_name));
         Typelib::Type& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
-        check_is_included(reg, field_type);
         int offset(NUM2INT(rb_ary_entry(field, 2)));
         new_t->addField(field_name, field_type, offset);
     }
 
-    Typelib::Compound* type = new_t.release();
-    size_t size = NUM2INT(_size);
     if (size != 0)
-        type->setSize(size);
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+        new_t->setSize(size);
+    return registry_add_type(registry, std::move(new_t));
 }
 
 /*
@@ -630,11 +658,20 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
  */
 static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs, VALUE _size)
 {
-    Registry& reg = rb2cxx::object<Registry>(registry);
+    // Check the arguments first, as the functions that convert them do not return
+    // if they are invalid
+    size_t size = NUM2INT(_size);
+    StringValuePtr(name);
+    int symbol_count = RARRAY_LEN(symbol_defs);
+    for (int i = 0; i < symbol_count; ++i)
+    {
+        VALUE sym = rb_ary_entry(symbol_defs, i);
+        VALUE rb_name = rb_ary_entry(sym, 0);
+        StringValuePtr(rb_name);
+        NUM2INT(rb_ary_entry(sym, 1));
+    }
 
     std::unique_ptr<Typelib::Enum> new_t(new Typelib::Enum(StringValuePtr(name)));
-
-    int symbol_count = RARRAY_LEN(symbol_defs);
     for (int i = 0; i < symbol_count; ++i)
     {
         VALUE sym = rb_ary_entry(symbol_defs, i);
@@ -645,12 +682,9 @@ static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs,
         new_t->add(sym_name, sym_value);
     }
 
-    Typelib::Enum* type = new_t.release();
-    size_t size = NUM2INT(_size);
-    if (size != 0) type->setSize(size);
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+    if (size != 0)
+        new_t->setSize(size);
+    return registry_add_type(registry, std::move(new_t));
 }
 
 /*
@@ -661,11 +695,10 @@ static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs,
  */
 static VALUE registry_create_opaque(VALUE registry, VALUE _name, VALUE _size)
 {
-    Registry& reg = rb2cxx::object<Registry>(registry);
-    Typelib::Type* type = new Typelib::OpaqueType(StringValuePtr(_name), NUM2INT(_size));
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+    char const* name = StringValuePtr(_name);
+    int size = NUM2INT(_size);
+    return registry_add_type(registry, std::unique_ptr<Typelib::Type>(
+                new Typelib::OpaqueType(name, size)));
 }
 
 /*
@@ -678,8 +711,6 @@ static VALUE registry_create_opaque(VALUE registry, VALUE _name, VALUE _size)
  */
 static VALUE registry_do_create_numeric(VALUE registry, VALUE _name, VALUE _size, VALUE _category)
 {
-    Registry& reg = rb2cxx::object<Registry>(registry);
-
     Typelib::Numeric::NumericCategory typelib_category;
     int category = NUM2INT(_category);
     if (category == 0)
@@ -690,10 +721,10 @@ static VALUE registry_do_create_numeric(VALUE registry, VALUE _name, VALUE _size
         typelib_category = Typelib::Numeric::Float;
     else rb_raise(rb_eArgError, "invalid mode %i, accepted modes are 0 (for SInt), 1 (for UInt) and 2 (for Float)", category);
 
-    Typelib::Type* type = new Typelib::Numeric(StringValuePtr(_name), NUM2INT(_size), typelib_category);
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+    char const* name = StringValuePtr(_name);
+    int size = NUM2INT(_size);
+    return registry_add_type(registry, std::unique_ptr<Typelib::Type>(
+                new Typelib::Numeric(name, size, typelib_category)));
 }
 
 /*
@@ -704,11 +735,9 @@ static VALUE registry_do_create_numeric(VALUE registry, VALUE _name, VALUE _size
  */
 static VALUE registry_create_null(VALUE registry, VALUE _name)
 {
-    Registry& reg = rb2cxx::object<Registry>(registry);
-    Typelib::Type* type = new Typelib::NullType(StringValuePtr(_name));
-    try { reg.add(type, true, ""); }
-    catch(std::runtime_error const& e) { rb_raise(rb_eArgError, "%s", e.what()); }
-    return cxx2rb::type_wrap(*type, registry);
+    char const* name = StringValuePtr(_name);
+    return registry_add_type(registry, std::unique_ptr<Typelib::Type>(
+                new Typelib::NullType(name)));
 }
 
 void typelib_ruby::Typelib_init_registry()
-- 
2.43.0


From 014420532c89e6674c15b28992de73a3afbce1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 065/109] fix: allocation failures while creating Ruby objects
 terminated the process

---
 bindings/ruby/ext/metadata.cc | 2 +-
 bindings/ruby/ext/registry.cc | 2 +-
 bindings/ruby/ext/typelib.hh  | 4 ++++
 bindings/ruby/ext/value.cc    | 2 +-
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/ext/metadata.cc b/bindings/ruby/ext/metadata.cc
index e3465ab..323b634 100644
--- a/bindings/ruby/ext/metadata.cc
+++ b/bindings/ruby/ext/metadata.cc
@@ -90,7 +90,7 @@ void typelib_ruby::Typelib_init_metadata()
 {
     VALUE mTypelib  = rb_define_module("Typelib");
     cMetaData   = rb_define_class_under(mTypelib, "MetaData", rb_cObject);
-    rb_define_alloc_func(cMetaData, metadata_alloc);
+    rb_define_alloc_func(cMetaData, TYPELIB_RUBY_ALLOCATOR(metadata_alloc));
 
     rb_define_method(cMetaData, "include?", TYPELIB_RUBY_METHOD(metadata_include_p), 1);
     rb_define_method(cMetaData, "get", TYPELIB_RUBY_METHOD(metadata_get), 1);
diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 8f85017..a536f43 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -745,7 +745,7 @@ void typelib_ruby::Typelib_init_registry()
     VALUE mTypelib  = rb_define_module("Typelib");
     cRegistry = rb_define_class_under(mTypelib, "Registry", rb_cObject);
     eNotFound = rb_define_class_under(mTypelib, "NotFound", rb_eRuntimeError);
-    rb_define_alloc_func(cRegistry, registry_alloc);
+    rb_define_alloc_func(cRegistry, TYPELIB_RUBY_ALLOCATOR(registry_alloc));
     rb_define_method(cRegistry, "size", TYPELIB_RUBY_METHOD(registry_size), 0);
     rb_define_method(cRegistry, "get", TYPELIB_RUBY_METHOD(registry_do_get), 1);
     rb_define_method(cRegistry, "build", TYPELIB_RUBY_METHOD(registry_do_build), -1);
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index b296353..d1eae59 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -255,6 +255,10 @@ namespace typelib_ruby {
 
 #define TYPELIB_RUBY_METHOD(function) \
     RUBY_METHOD_FUNC((&typelib_ruby::MethodGuard<decltype(&function), &function>::call))
+
+    /** The equivalent of TYPELIB_RUBY_METHOD for allocation functions */
+#define TYPELIB_RUBY_ALLOCATOR(function) \
+    (&typelib_ruby::MethodGuard<decltype(&function), &function>::call)
 }
 
 #endif
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index e58d1f1..07cc502 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -698,7 +698,7 @@ void typelib_ruby::Typelib_init_values()
     rb_define_singleton_method(mTypelib, "do_compare", TYPELIB_RUBY_METHOD(typelib_compare), 2);
 
     cType     = rb_define_class_under(mTypelib, "Type", rb_cObject);
-    rb_define_alloc_func(cType, value_alloc);
+    rb_define_alloc_func(cType, TYPELIB_RUBY_ALLOCATOR(value_alloc));
     rb_define_singleton_method(cType, "==",            TYPELIB_RUBY_METHOD(type_equal_operator), 1);
     rb_define_singleton_method(cType, "size",          TYPELIB_RUBY_METHOD(type_size), 0);
     rb_define_singleton_method(cType, "do_memory_layout", TYPELIB_RUBY_METHOD(type_memory_layout), 4);
-- 
2.43.0


From d19f1eb4442b84fecafd179e4d5cd26c12bde5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 066/109] fix: low-level accessors of Ruby containers accessed
 elements out of bounds

---
 bindings/ruby/ext/specialized_types.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index f768bae..280e5bb 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -492,14 +492,23 @@ static VALUE container_do_push(VALUE self, VALUE obj)
     return self;
 }
 
-static VALUE container_do_set(VALUE self, VALUE index, VALUE obj)
+static size_t container_index(Container const& container_t, Value container_v, VALUE rb_index)
+{
+    long index = NUM2LONG(rb_index);
+    if (index < 0 || static_cast<unsigned long>(index) >= container_t.getElementCount(container_v.getData()))
+        rb_raise(rb_eArgError, "index out of bounds");
+    return index;
+}
+
+static VALUE container_do_set(VALUE self, VALUE rb_index, VALUE obj)
 {
     Value container_v = rb2cxx::object<Value>(self);
     Container const& container_t(dynamic_cast<Container const&>(container_v.getType()));
+    size_t index = container_index(container_t, container_v, rb_index);
 
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
-    container_t.setElement(container_v.getData(), NUM2INT(index), element_v);
+    container_t.setElement(container_v.getData(), index, element_v);
     return self;
 }
 
@@ -509,7 +518,8 @@ static VALUE container_do_get(VALUE self, VALUE index, VALUE raw)
     Container const& container_t(dynamic_cast<Container const&>(container_v.getType()));
     VALUE registry = value_get_registry(self);
 
-    Value v = container_t.getElement(container_v.getData(), NUM2INT(index));
+    Value v = container_t.getElement(container_v.getData(),
+            container_index(container_t, container_v, index));
     if (RTEST(raw))
         return cxx2rb::value_wrap(v, registry, self);
     else return typelib_to_ruby(v, registry, self);
-- 
2.43.0


From 3bfd2eea64992de73cf0297c55301e799f665778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 067/109] fix: vector.raw_memcpy left handles on the elements
 it reallocates valid

---
 bindings/ruby/ext/specialized_types.cc      |  8 +++-----
 bindings/ruby/lib/typelib/container_type.rb | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 280e5bb..1b97000 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -619,9 +619,7 @@ static VALUE vector_contained_memory_id(VALUE self)
     return ULL2NUM(reinterpret_cast<uint64_t>(&(*vector)[0]));
 }
 
-/*
- * call-seq:
- *  vector.raw_memcpy(source,size) => nil
+/* Helper method for StdVector#raw_memcpy
  *
  * @param [Integer] source the source raw address
  * @param [Integer] size the number of bytes to be copied
@@ -645,7 +643,7 @@ static VALUE vector_raw_memcpy(VALUE self,VALUE _source,VALUE _size)
 
     unsigned int element_size = container_t.getIndirection().getSize();
     unsigned int size = NUM2UINT(_size);
-    if (size % element_size)
+    if (!element_size || (size % element_size))
         rb_raise(rb_eArgError, "provided size in bytes (%u) is not a round number of elements for vectors of type %s (each element is %u bytes in size)", size, container_t.getName().c_str(), element_size);
 
     std::vector<uint8_t> *vector = reinterpret_cast<std::vector<uint8_t>*>(container_v.getData());
@@ -771,6 +769,6 @@ void typelib_ruby::Typelib_init_specialized_types()
 
     VALUE mVector = rb_define_module_under(cContainer, "StdVector");
     rb_define_method(mVector, "contained_memory_id", TYPELIB_RUBY_METHOD(vector_contained_memory_id), 0);
-    rb_define_method(mVector, "raw_memcpy", TYPELIB_RUBY_METHOD(vector_raw_memcpy), 2);
+    rb_define_method(mVector, "do_raw_memcpy", TYPELIB_RUBY_METHOD(vector_raw_memcpy), 2);
 }
 
diff --git a/bindings/ruby/lib/typelib/container_type.rb b/bindings/ruby/lib/typelib/container_type.rb
index d450810..aba2d50 100644
--- a/bindings/ruby/lib/typelib/container_type.rb
+++ b/bindings/ruby/lib/typelib/container_type.rb
@@ -198,6 +198,20 @@ module Typelib
             end
         end
 
+        # Functionality specific to std::vector
+        module StdVector
+            # Replaces the content of this vector by a raw copy of a memory zone
+            #
+            # @param [Integer] source the source raw address
+            # @param [Integer] size the number of bytes to be copied
+            def raw_memcpy(source, size)
+                invalidate_changes_from_converted_types
+                allocating_operation do
+                    do_raw_memcpy(source, size)
+                end
+            end
+        end
+
         class DeepCopyArray < Array
             def dup
                 result = DeepCopyArray.new
-- 
2.43.0


From 5319ad83a5b0e9ee68e4f04e066751ce500372a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 068/109] fix: Ruby values created after a resize could be
 initialized with the layout of the previous size

---
 bindings/ruby/ext/memory.cc   | 75 +++++++++++++++++++++--------------
 bindings/ruby/ext/registry.cc |  1 +
 bindings/ruby/ext/typelib.hh  |  4 ++
 3 files changed, 50 insertions(+), 30 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index 907e302..4e83729 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -1,5 +1,7 @@
 #include "typelib.hh"
 #include <typelib/value_ops.hh>
+#include <boost/shared_ptr.hpp>
+#include <boost/weak_ptr.hpp>
 #include <ruby.h>
 #include <ruby/version.h>
 
@@ -64,21 +66,21 @@ struct MemoryTableEntry
 
 struct RbMemoryLayout
 {
-    int refcount;
+    Type const* type;
     MemoryLayout layout;
     boost::shared_ptr<Registry> registry;
 
-    RbMemoryLayout()
-        : refcount(0) {}
-    RbMemoryLayout(MemoryLayout const& layout, boost::shared_ptr<Registry> registry)
-        : refcount(0), layout(layout), registry(registry) {}
+    RbMemoryLayout(Type const& type, boost::shared_ptr<Registry> registry)
+        : type(&type), layout(layout_of(type, true)), registry(registry) {}
 };
 
 // MemoryTypes actually holds the memory layout of each memory zone. We cannot
 // simply use the Type object as, at exit, the Ruby GC do not order finalization
 // and therefore the registry can be deleted before the Type instances.
-typedef std::map< void const*, void const* > MemoryTypes;
-typedef std::map< void const*, RbMemoryLayout > TypeLayouts;
+//
+// TypeLayouts holds the layouts that can be shared with new zones
+typedef std::map< void const*, boost::shared_ptr<RbMemoryLayout> > MemoryTypes;
+typedef std::map< Type const*, boost::weak_ptr<RbMemoryLayout> > TypeLayouts;
 MemoryTypes memory_types;
 TypeLayouts memory_layouts;
 
@@ -128,6 +130,21 @@ typelib_ruby::memory_ref(void *ptr)
     }
 }
 
+static void
+memory_forget_layout(MemoryTypes::iterator zone_it)
+{
+    boost::shared_ptr<RbMemoryLayout> layout = zone_it->second;
+    memory_types.erase(zone_it);
+    if (!layout.unique())
+        return;
+
+    // It was the last zone with this layout. The type's current layout might
+    // be another one (see memory_forget_layouts)
+    TypeLayouts::iterator layout_it = memory_layouts.find(layout->type);
+    if (layout_it != memory_layouts.end() && layout_it->second.lock() == layout)
+        memory_layouts.erase(layout_it);
+}
+
 static void
 memory_zone_unref(MemoryZone* ptr)
 {
@@ -164,12 +181,19 @@ typelib_ruby::memory_unref(void *ptr)
 
     MemoryTypes::iterator type_it = memory_types.find(ptr);
     if (type_it != memory_types.end())
+        memory_forget_layout(type_it);
+}
+
+void
+typelib_ruby::memory_forget_layouts(Registry const& registry)
+{
+    for (TypeLayouts::iterator it = memory_layouts.begin(); it != memory_layouts.end(); )
     {
-        TypeLayouts::iterator layout_it = memory_layouts.find(type_it->second);
-        RbMemoryLayout& layout = layout_it->second;
-        if (0 == --layout.refcount)
-            memory_layouts.erase(layout_it);
-        memory_types.erase(type_it);
+        boost::shared_ptr<RbMemoryLayout> layout = it->second.lock();
+        if (layout && layout->registry.get() == &registry)
+            memory_layouts.erase(it++);
+        else
+            ++it;
     }
 }
 
@@ -178,16 +202,7 @@ typelib_ruby::memory_delete(void *ptr)
 {
     MemoryTypes::iterator it = memory_types.find(ptr);
     if (it != memory_types.end())
-    {
-        TypeLayouts::iterator layout_it = memory_layouts.find(it->second);
-        if (layout_it != memory_layouts.end())
-        {
-            RbMemoryLayout& layout = layout_it->second;
-            Typelib::destroy(
-                    static_cast<uint8_t*>(ptr),
-                    layout.layout);
-        }
-    }
+        Typelib::destroy(static_cast<uint8_t*>(ptr), it->second->layout);
 
 #   ifdef VERBOSE
     fprintf(stderr, "%p: deallocated\n", ptr);
@@ -221,21 +236,21 @@ typelib_ruby::memory_init(VALUE ptr, VALUE type)
 
         // For deinitialization later, get or register the type's layout
         Type const& t(rb2cxx::object<Type>(type));
+        boost::shared_ptr<RbMemoryLayout> layout;
         TypeLayouts::iterator layout_it = memory_layouts.find(&t);
-        if (layout_it == memory_layouts.end())
+        if (layout_it != memory_layouts.end())
+            layout = layout_it->second.lock();
+        if (!layout)
         {
             cxx2rb::RbRegistry& registry = rb2cxx::object<cxx2rb::RbRegistry>(type_get_registry(type));
             if (registry.registry->get(t.getName()) != &t)
                 throw std::logic_error("memory_init: mismatch between Ruby-registered registry and C++ registry that really holds the type for " + t.getName());
-            layout_it = memory_layouts.insert(
-                make_pair( &t, RbMemoryLayout(layout_of(t, true), registry.registry) )
-                ).first;
+            layout.reset(new RbMemoryLayout(t, registry.registry));
+            memory_layouts[&t] = layout;
         }
-        RbMemoryLayout& layout = layout_it->second;
-        ++layout.refcount;
 
-        memory_types.insert( make_pair(cptr, &t) );
-        Typelib::init(static_cast<uint8_t*>(cptr), layout.layout);
+        Typelib::init(static_cast<uint8_t*>(cptr), layout->layout);
+        memory_types.insert(make_pair(cptr, layout));
     } catch(std::exception const& e) {
         rb_raise(rb_eArgError, "internal error: %s", e.what());
     }
diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index a536f43..14b210c 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -333,6 +333,7 @@ VALUE registry_resize(VALUE self, VALUE new_sizes)
                 NUM2INT(pair[1])));
     }
     try {
+        memory_forget_layouts(registry);
         registry.resize(sizes);
         return Qnil;
     }
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index d1eae59..2c360e6 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -226,6 +226,10 @@ namespace typelib_ruby {
     extern VALUE memory_wrap(void* ptr, bool take_ownership, void* root_ptr);
     extern VALUE memory_allocate(size_t size);
     extern void  memory_init(VALUE ptr, VALUE type);
+    /** The types of the given registry changed. The zones that already exist
+     * keep the layout they were initialized with.
+     */
+    extern void  memory_forget_layouts(Typelib::Registry const& registry);
     extern void* memory_cptr(VALUE ptr);
 
     /** C++ exceptions must not be thrown through the Ruby interpreter: all
-- 
2.43.0


From cfdc08bb1d08b219e54a38e65b6a187053afefee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 069/109] fix: allocation failures while creating Ruby values
 leaked or corrupted their memory

---
 bindings/ruby/ext/memory.cc | 115 +++++++++++++++++++++---------------
 1 file changed, 69 insertions(+), 46 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index 4e83729..60efce9 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -210,6 +210,56 @@ typelib_ruby::memory_delete(void *ptr)
     ruby_xfree(ptr);
 }
 
+static MemoryZone*
+memory_zone(VALUE ptr)
+{
+    MemoryZone* cptr;
+    Data_Get_Struct(ptr, MemoryZone, cptr);
+    return cptr;
+}
+
+static void
+memory_zone_mark(MemoryZone* zone)
+{
+    // The zone might be within the object's slot. rb_gc_mark() also forbids the
+    // garbage collector to move the object
+    rb_gc_mark(zone->dependency);
+}
+
+static VALUE
+memory_zone_new()
+{
+    VALUE zone = Data_Wrap_Struct(cMemoryZone, memory_zone_mark, memory_zone_unref, 0);
+    DATA_PTR(zone) = new MemoryZone;
+    return zone;
+}
+
+static void
+memory_zone_attach(VALUE zone, void* ptr, bool take_ownership, void* root_ptr)
+{
+    MemoryTableEntry* entry = memory_entry(ptr);
+    if (entry)
+    {
+#       ifdef VERBOSE
+        fprintf(stderr, "%p: already known memory zone\n", ptr);
+#       endif
+        ++(entry->refcount);
+        if (take_ownership)
+            entry->owned = true;
+    }
+    else
+    {
+#       ifdef VERBOSE
+        fprintf(stderr, "%p: wrapping new memory zone\n", ptr);
+#       endif
+        entry = new MemoryTableEntry(take_ownership, root_ptr);
+        st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
+        if (root_ptr)
+            memory_ref(root_ptr);
+    }
+    memory_zone(zone)->ptr = ptr;
+}
+
 VALUE
 typelib_ruby::memory_allocate(size_t size)
 {
@@ -217,12 +267,19 @@ typelib_ruby::memory_allocate(size_t size)
     memory_touch_all();
 #   endif
 
+    VALUE zone = memory_zone_new();
     void* ptr = ruby_xmalloc(size);
 #   ifdef VERBOSE
     fprintf(stderr, "%p: new allocated zone of size %lu\n", ptr, size);
 #   endif
 
-    return memory_wrap(ptr, true, 0);
+    try { memory_zone_attach(zone, ptr, true, 0); }
+    catch(...)
+    {
+        ruby_xfree(ptr);
+        throw;
+    }
+    return zone;
 }
 
 void
@@ -249,21 +306,19 @@ typelib_ruby::memory_init(VALUE ptr, VALUE type)
             memory_layouts[&t] = layout;
         }
 
-        Typelib::init(static_cast<uint8_t*>(cptr), layout->layout);
-        memory_types.insert(make_pair(cptr, layout));
+        it = memory_types.insert(make_pair(cptr, layout)).first;
+        try { Typelib::init(static_cast<uint8_t*>(cptr), layout->layout); }
+        catch(...)
+        {
+            // There is nothing to destroy
+            memory_forget_layout(it);
+            throw;
+        }
     } catch(std::exception const& e) {
         rb_raise(rb_eArgError, "internal error: %s", e.what());
     }
 }
 
-static void
-memory_zone_mark(MemoryZone* zone)
-{
-    // The zone might be within the object's slot. rb_gc_mark() also forbids the
-    // garbage collector to move the object
-    rb_gc_mark(zone->dependency);
-}
-
 VALUE
 typelib_ruby::memory_wrap(void* ptr, bool take_ownership, void* root_ptr)
 {
@@ -272,33 +327,9 @@ typelib_ruby::memory_wrap(void* ptr, bool take_ownership, void* root_ptr)
     if (root_ptr && !memory_entry(root_ptr))
         rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
 
-    MemoryZone* cxx_zone = new MemoryZone;
-    VALUE zone = Data_Wrap_Struct(cMemoryZone, memory_zone_mark, memory_zone_unref, cxx_zone);
-
-    if (!ptr)
-        return zone;
-
-    MemoryTableEntry* entry = memory_entry(ptr);
-    if (entry)
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: already known memory zone\n", ptr);
-#       endif
-        ++(entry->refcount);
-        if (take_ownership)
-            entry->owned = true;
-    }
-    else
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: wrapping new memory zone\n", ptr);
-#       endif
-        entry = new MemoryTableEntry(take_ownership, root_ptr);
-        st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
-        if (root_ptr)
-            memory_ref(root_ptr);
-    }
-    cxx_zone->ptr = ptr;
+    VALUE zone = memory_zone_new();
+    if (ptr)
+        memory_zone_attach(zone, ptr, take_ownership, root_ptr);
     return zone;
 }
 
@@ -310,14 +341,6 @@ typelib_ruby::memory_cptr(VALUE ptr)
     return cptr->ptr;
 }
 
-static MemoryZone*
-memory_zone(VALUE ptr)
-{
-    MemoryZone* cptr;
-    Data_Get_Struct(ptr, MemoryZone, cptr);
-    return cptr;
-}
-
 
 static VALUE
 memory_zone_address(VALUE self)
-- 
2.43.0


From 4424fda24914869015cbe207dd81ee08b26e6ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 070/109] fix: marshalling an empty Ruby value dereferenced an
 empty buffer

---
 bindings/ruby/ext/value.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 07cc502..fb28492 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -581,7 +581,7 @@ VALUE value_do_byte_array(VALUE self, VALUE pointers, VALUE opaques, VALUE merge
 
     vector<uint8_t> buffer;
     Typelib::dump(value, buffer, layout);
-    return rb_str_new(reinterpret_cast<char*>(&buffer[0]), buffer.size());
+    return rb_str_new(reinterpret_cast<char*>(buffer.data()), buffer.size());
 }
 
 /* call-seq:
-- 
2.43.0


From 6af4355de3f2cd010dad457f69696befa04a1348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 071/109] fix: vector.push left an additional element if
 copying its argument failed

---
 lang/csupport/containers.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index c939d4c..fff4eb3 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -196,9 +196,17 @@ void Vector::push(void* ptr, Value v) const
     resize(vector_ptr, size + 1);
     if (is_own_element)
         data = vector_ptr->data() + offset;
-    Typelib::copy(
-            Value(&(*vector_ptr)[size * getIndirection().getSize()], getIndirection()),
-            Value(data, getIndirection()));
+    try
+    {
+        Typelib::copy(
+                Value(&(*vector_ptr)[size * getIndirection().getSize()], getIndirection()),
+                Value(data, getIndirection()));
+    }
+    catch(...)
+    {
+        resize(vector_ptr, size);
+        throw;
+    }
 }
 
 bool Vector::erase(void* ptr, Value v) const
-- 
2.43.0


From e08b1401a4415860726add7a9f9125b4c611dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 072/109] fix: pointers to invalidated Ruby values could still
 be created

---
 bindings/ruby/lib/typelib/type.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/ruby/lib/typelib/type.rb b/bindings/ruby/lib/typelib/type.rb
index 2ce6f78..dd2fa08 100644
--- a/bindings/ruby/lib/typelib/type.rb
+++ b/bindings/ruby/lib/typelib/type.rb
@@ -280,6 +280,7 @@ module Typelib
 
         module Invalidate
             def to_memory_ptr; raise TypeError, "invalidated object" end
+            def to_ptr; raise TypeError, "invalidated object" end
             def to_ruby; raise TypeError, "invalidated object" end
             def to_byte_array(options = Hash.new); raise TypeError, "invalidated object" end
             def marshalling_size; raise TypeError, "invalidated object" end
-- 
2.43.0


From a0f7f15c4e036077e52790ae5f36b25152c4dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 073/109] fix: enums which do not have the size of an int were
 accessed out of their bounds

---
 typelib/endianness.hh | 12 +++++++++++-
 typelib/value.cc      | 40 ++++++++++++++++++++++++++++++++++++++--
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/typelib/endianness.hh b/typelib/endianness.hh
index cca8de6..f8ca5ab 100644
--- a/typelib/endianness.hh
+++ b/typelib/endianness.hh
@@ -27,7 +27,17 @@ namespace Typelib
         bool visit_ (float   & value) { value = Endian::swap(value); return true; }
         bool visit_ (double  & value) { value = Endian::swap(value); return true; }
         bool visit_ (Value const& v, Pointer const& t) { throw UnsupportedEndianSwap("pointers"); }
-        bool visit_ (Enum::integral_type& v, Enum const& e) { v = Endian::swap(v); return true; }
+        bool visit_ (Enum::integral_type& v, Enum const& e)
+        {
+            // The visitor widens enums that are not of the size of integral_type
+            switch(e.getSize())
+            {
+                case 1: return true;
+                case 2: v = static_cast<int16_t>(Endian::swap(static_cast<uint16_t>(v))); return true;
+                case sizeof(Enum::integral_type): v = Endian::swap(v); return true;
+                default: throw UnsupportedEndianSwap("enums of this size");
+            }
+        }
     };
 
     /** Swaps the endianness of +v+ by using a EndianSwapVisitor */
diff --git a/typelib/value.cc b/typelib/value.cc
index 5c1def3..64a108e 100644
--- a/typelib/value.cc
+++ b/typelib/value.cc
@@ -49,10 +49,46 @@ namespace Typelib
             }
         }
 
+        template<typename T>
+        bool enum_cast(uint8_t* value, Enum const& type)
+        {
+            T& v = *reinterpret_cast<T*>(value);
+            Enum::integral_type const before = v;
+            Enum::integral_type after = before;
+            bool ret = m_visitor.visit_(after, type);
+            if (after != before)
+                v = after;
+            return ret;
+        }
+
+        /** True if the values of the given enum have to be sign-extended */
+        static bool is_signed(Enum const& type)
+        {
+            Enum::ValueMap const& values = type.values();
+            for (Enum::ValueMap::const_iterator it = values.begin(); it != values.end(); ++it)
+            {
+                if (it->second < 0)
+                    return true;
+            }
+            return false;
+        }
+
         virtual bool visit_ (Enum const& type)
         {
-            Enum::integral_type& v = *reinterpret_cast<Enum::integral_type*>(m_stack.back());
-            return m_visitor.visit_(v, type);
+            uint8_t* value(m_stack.back());
+            switch(type.getSize())
+            {
+                case sizeof(Enum::integral_type):
+                    return m_visitor.visit_(*reinterpret_cast<Enum::integral_type*>(value), type);
+                case 1:
+                    return is_signed(type) ? enum_cast<int8_t>(value, type) : enum_cast<uint8_t>(value, type);
+                case 2:
+                    return is_signed(type) ? enum_cast<int16_t>(value, type) : enum_cast<uint16_t>(value, type);
+                case 8:
+                    return enum_cast<int64_t>(value, type);
+                default:
+                    throw UnsupportedType(type, "unsupported enum size");
+            }
         }
 
         virtual bool visit_ (Container const& type)
-- 
2.43.0


From 562751abbe07daf9e4365ca9d7a7b3c275e7e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 074/109] fix: Ruby type definitions with negative sizes or
 fields outside of their compound were accepted

---
 bindings/ruby/ext/registry.cc | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 14b210c..46cdb97 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -310,6 +310,16 @@ VALUE registry_merge(VALUE self, VALUE rb_merged)
 }
 
 
+// Converts a size or an offset given by the user. Does not return if it is
+// invalid
+static size_t size_argument(VALUE value)
+{
+    int size = NUM2INT(value);
+    if (size < 0)
+        rb_raise(rb_eArgError, "expected a positive size or offset, got %i", size);
+    return size;
+}
+
 /*
  * call-seq:
  *   resize(new_sizes) => nil
@@ -330,7 +340,7 @@ VALUE registry_resize(VALUE self, VALUE new_sizes)
         VALUE* pair = RARRAY_PTR(map_values[i]);
         sizes.insert(std::make_pair(
                 StringValuePtr(pair[0]),
-                NUM2INT(pair[1])));
+                size_argument(pair[1])));
     }
     try {
         memory_forget_layouts(registry);
@@ -563,10 +573,10 @@ static VALUE registry_define_container(VALUE registry, VALUE kind, VALUE element
     Registry& reg = rb2cxx::object<Registry>(registry);
     Type const& element_type(rb2cxx::object<Type>(element));
     check_is_included(reg, element_type);
+    size_t size = size_argument(_size);
 
     try {
         Container const& new_type = Container::createContainer(reg, StringValuePtr(kind), element_type);
-        size_t size = NUM2INT(_size);
         if (size != 0)
             reg.get_(new_type).setSize(size);
         return cxx2rb::type_wrap(new_type, registry);
@@ -622,7 +632,7 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
 
     // Check the arguments first, as the functions that convert them do not return
     // if they are invalid
-    size_t size = NUM2INT(_size);
+    size_t size = size_argument(_size);
     StringValuePtr(name);
     int field_count = RARRAY_LEN(field_defs);
     for (int i = 0; i < field_count; ++i)
@@ -630,8 +640,12 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
         VALUE field = rb_ary_entry(field_defs, i);
         VALUE rb_name = rb_ary_entry(field, 0);
         StringValuePtr(rb_name);
-        check_is_included(reg, rb2cxx::object<Type>(rb_ary_entry(field, 1)));
-        NUM2INT(rb_ary_entry(field, 2));
+        Type const& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
+        check_is_included(reg, field_type);
+        size_t offset = size_argument(rb_ary_entry(field, 2));
+        if (size != 0 && offset + field_type.getSize() > size)
+            rb_raise(rb_eArgError, "the field %s of %s goes past its end",
+                    StringValuePtr(rb_name), StringValuePtr(name));
     }
 
     std::unique_ptr<Typelib::Compound> new_t(new Typelib::Compound(StringValuePtr(name)));
@@ -661,7 +675,7 @@ static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs,
 {
     // Check the arguments first, as the functions that convert them do not return
     // if they are invalid
-    size_t size = NUM2INT(_size);
+    size_t size = size_argument(_size);
     StringValuePtr(name);
     int symbol_count = RARRAY_LEN(symbol_defs);
     for (int i = 0; i < symbol_count; ++i)
@@ -697,7 +711,7 @@ static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs,
 static VALUE registry_create_opaque(VALUE registry, VALUE _name, VALUE _size)
 {
     char const* name = StringValuePtr(_name);
-    int size = NUM2INT(_size);
+    size_t size = size_argument(_size);
     return registry_add_type(registry, std::unique_ptr<Typelib::Type>(
                 new Typelib::OpaqueType(name, size)));
 }
@@ -723,7 +737,7 @@ static VALUE registry_do_create_numeric(VALUE registry, VALUE _name, VALUE _size
     else rb_raise(rb_eArgError, "invalid mode %i, accepted modes are 0 (for SInt), 1 (for UInt) and 2 (for Float)", category);
 
     char const* name = StringValuePtr(_name);
-    int size = NUM2INT(_size);
+    size_t size = size_argument(_size);
     return registry_add_type(registry, std::unique_ptr<Typelib::Type>(
                 new Typelib::Numeric(name, size, typelib_category)));
 }
-- 
2.43.0


From fb7e7b60ab3b7caf4a57704d4f287a391b5b7886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 075/109] fix: reading a negative index of a Ruby array
 returned an element if it had been read before

---
 bindings/ruby/lib/typelib/array_type.rb | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/ruby/lib/typelib/array_type.rb b/bindings/ruby/lib/typelib/array_type.rb
index 85057a7..3aea126 100644
--- a/bindings/ruby/lib/typelib/array_type.rb
+++ b/bindings/ruby/lib/typelib/array_type.rb
@@ -166,6 +166,10 @@ module Typelib
         end
 
         def raw_get(index)
+            # Negative indices would refer to the last elements of @elements
+            if index < 0
+                raise IndexError, "Out of bounds: #{index} < 0"
+            end
             @elements[index] ||= do_get(index)
         end
 
-- 
2.43.0


From a4e353b1f36f72cd1bd92b0579df0610f9fd484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 076/109] fix: the size of enums was not imported from C++
 headers

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index bc721a5..cb725c5 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -721,7 +721,7 @@ module Typelib
                 id_to_name[id] = pointed_to_name
 
             elsif kind == "Enumeration"
-                type = registry.create_enum(normalized_name) do |e|
+                type = registry.create_enum(normalized_name, Integer(xmlnode['size'] || '0') / 8) do |e|
                     info.enum_values[id].each do |enum_value|
                         e.add(enum_value["name"], Integer(enum_value['init']))
                     end
-- 
2.43.0


From 75aa1236d83e3342c14c1f01686bf9643e7b19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 077/109] fix: attributes of the compiler's output with an
 equal sign or escaped quotes were damaged

---
 bindings/ruby/lib/typelib/gccxml.rb | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index cb725c5..c2d83d2 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -45,6 +45,10 @@ module Typelib
             end
         end
 
+        XML_ENTITIES = Hash[
+            '&lt;' => '<', '&gt;' => '>', '&quot;' => '"', '&apos;' => "'", '&amp;' => '&'
+        ].freeze
+
         STORED_TAGS = %w{Namespace Typedef Enumeration Struct Class ArrayType FundamentalType PointerType CvQualifiedType}
 
         def initialize(required_files)
@@ -123,11 +127,12 @@ module Typelib
                             tag_start(name, Hash['id' => $1, 'virtual' => '1'])
                         end
                     else
-                        raw_attributes = l.gsub(/&lt;/, "<").gsub(/&gt;/, ">").scan(/\w+="[^"]+"/)
+                        raw_attributes = l.scan(/\w+="[^"]+"/)
                         attributes = Hash.new
                         raw_attributes.each do |attr|
-                            attr_name, attr_value = attr.split("=")
-                            attributes[attr_name] = attr_value[1..-2]
+                            attr_name, attr_value = attr.split("=", 2)
+                            attributes[attr_name] =
+                                attr_value[1..-2].gsub(/&(?:lt|gt|quot|apos|amp);/, XML_ENTITIES)
                         end
                         tag_start(name, attributes)
                     end
-- 
2.43.0


From 3ef90bd82c2c4e348ee8f655895118a99e64c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 078/109] fix: typedefs of fundamental types were imported only
 if something else used the fundamental type

---
 bindings/ruby/lib/typelib/gccxml.rb | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index c2d83d2..5813bf8 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -912,12 +912,13 @@ module Typelib
                 end
             end
             registry.each(with_aliases: true) do |name, t|
-                next if (name == t.name) || !filtered_registry.include?(t.name)
-                next if base_registry.include?(name)
+                next if (name == t.name) || base_registry.include?(name)
+                next unless permanent_alias?(name)
 
-                if permanent_alias?(name)
-                    filtered_registry.alias(name, t.name)
+                unless filtered_registry.include?(t.name)
+                    filtered_registry.merge(t.minimal_registry(with_aliases: false))
                 end
+                filtered_registry.alias(name, t.name)
             end
             filtered_registry
         end
-- 
2.43.0


From a07f44cd831d9552771a1703e62918ebe26d99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 079/109] fix: headers in directories with a colon in their
 names could not be imported

---
 bindings/ruby/lib/typelib/gccxml.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 5813bf8..b10b05f 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -884,7 +884,7 @@ module Typelib
             # have a source file/line
             registry.each do |type|
                 if location = type.metadata.get('source_file_line').first
-                    file, line = location.split(':')
+                    file, _, line = location.rpartition(':')
                     line = Integer(line)
                     if doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line)
                         type.metadata.set('doc', doc)
@@ -894,7 +894,7 @@ module Typelib
                 if type.respond_to?(:field_metadata)
                     type.field_metadata.each do |field_name, md|
                         if location = md.get('source_file_line').first
-                            file, line = location.split(':')
+                            file, _, line = location.rpartition(':')
                             line = Integer(line)
                             if doc = GCCXMLLoader.parse_cxx_documentation_before(source_file_content(file), line)
                                 md.set('doc', doc)
-- 
2.43.0


From 94b6e9706bc6e0669ae03a09e68291d17b978afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 080/109] fix: compounds with bitfields were imported with
 fields at wrong offsets

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index b10b05f..0191d76 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -660,6 +660,8 @@ module Typelib
                     field_defs = fields.map do |field|
                         if field['access'] != 'public'
                             return ignore(xmlnode, "ignoring #{name} since its field #{field['name']} is private")
+                        elsif field['bits']
+                            return ignore(xmlnode, "ignoring #{name} since its field #{field['name']} is a bitfield")
                         elsif field_type_name = resolve_type_id(field['type'])
                             [field['name'], field_type_name, Integer(field['offset']) / 8, field['line']]
                         else
-- 
2.43.0


From e6819bbbc74357289e16fcd1447dcbf175c0a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 081/109] fix: pointers to templates, or to types being
 defined, aborted the import of C++ headers

---
 bindings/ruby/lib/typelib/gccxml.rb | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 0191d76..cb2cc07 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -521,6 +521,13 @@ module Typelib
 
             if kind == "PointerType"
                 if pointed_to_type = resolve_type_id(xmlnode['type'])
+                    # Typelib cannot name pointers to arrays, containers and
+                    # templates. Types that (indirectly) point to themselves
+                    # are not defined yet.
+                    if !registry.include?(pointed_to_type) || registry.get(pointed_to_type).name =~ /[\]>]$/
+                        return ignore(xmlnode, "ignoring pointers to #{pointed_to_type}")
+                    end
+
                     pointed_to_name = (id_to_name[id] = "#{pointed_to_type}*")
                     pointer_type = registry.build(pointed_to_name)
                     pointer_type.metadata.set('cxxname', "#{pointer_type.deference.metadata.get('cxxname')}*")
@@ -713,6 +720,10 @@ module Typelib
                     return ignore(xmlnode, "cannot create the #{name} typedef, as it points to #{id_to_name[xmlnode['type']]} which is ignored")
                 end
 
+                unless registry.include?(pointed_to_type)
+                    return ignore(xmlnode, "cannot create the #{name} typedef, as it is used in the definition of #{pointed_to_type}")
+                end
+
                 pointed_to_name = registry.get(pointed_to_type).name
 
                 if name != pointed_to_name
-- 
2.43.0


From dcad0af8b6adc05ac045955890a43b55e871f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 082/109] fix: arrays without dimensions aborted the import of
 C++ headers

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index cb2cc07..0fe1ac4 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -539,6 +539,8 @@ module Typelib
                     value = xmlnode["max"]
                     if value =~ /^(\d+)u?$/
                         size = Integer($1) + 1
+                    elsif value.nil? || value == "-1"
+                        return ignore(xmlnode, "ignoring arrays of #{pointed_to_type} without a dimension")
                     else
                         raise "expected NUMBER (for castxml) or NUMBERu (for gccxml) for the 'max' attribute of an array definition, but got \'#{value}\'"
                     end
-- 
2.43.0


From 8c6122074c11b0181fb424b7161eaf4a6d6a3e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 083/109] fix: constant templates, containers and arrays
 aborted the import of C++ headers

---
 bindings/ruby/lib/typelib/gccxml.rb | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 0fe1ac4..fd65d7a 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -462,9 +462,8 @@ module Typelib
                 spec << 'volatile'
             end
             if name = resolve_type_id(xmlnode['type'])
-                qualified_name = "#{name} #{spec.join(" ")}"
-                id_to_name[xmlnode['id']] = qualified_name
-                return qualified_name, name
+                id_to_name[xmlnode['id']] = name
+                return "#{name} #{spec.join(" ")}", name
             end
         end
 
@@ -553,7 +552,12 @@ module Typelib
             elsif kind == "CvQualifiedType"
                 qualified_name, name = resolve_qualified_type(xmlnode)
                 if qualified_name
-                    registry.alias(qualified_name, name)
+                    # The names of arrays, containers and templates cannot be
+                    # qualified. Types that refer to themselves are not defined
+                    # yet.
+                    if name !~ /[\]>]$/ && registry.include?(name)
+                        registry.alias(qualified_name, name)
+                    end
                     return name
                 else return
                 end
-- 
2.43.0


From cb04236c4aa90b1a6d5a3ef7b0b0985698b9833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 084/109] fix: types defined within unions or functions aborted
 the import of C++ headers

---
 bindings/ruby/lib/typelib/gccxml.rb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index fd65d7a..6fb6126 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -374,7 +374,8 @@ module Typelib
                        id_or_node
                    end
 
-            if !node['name']
+            # The node's context is not stored if it is e.g. a union or a function
+            if !node || !node['name']
                 return
             else
                 name = node['name']
-- 
2.43.0


From 6b644767d72dd98f396401047b7a46dc2cad7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 085/109] fix: base classes that are not compounds aborted the
 import of C++ headers

---
 bindings/ruby/lib/typelib/gccxml.rb | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 6fb6126..6451d1c 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -632,6 +632,10 @@ module Typelib
                         end
 
                         base_type = registry.get(base_type_name)
+                        unless base_type <= Typelib::CompoundType
+                            return ignore(xmlnode, "ignoring #{name}, its base class #{base_type_name} is not a compound")
+                        end
+
                         if child_node['virtual'] != '0'
                             return ignore(xmlnode, "ignoring #{name}, it has virtual base classes")
                         elsif child_node['access'] != 'public'
-- 
2.43.0


From a61d5e9bbfb2b329dbc487bad4b21150390d1b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 086/109] fix: compounds with fields of the same name as a
 field of a base class were imported

---
 bindings/ruby/lib/typelib/gccxml.rb | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 6451d1c..621a626 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -691,6 +691,14 @@ module Typelib
                             end
                         end
                     end
+                    field_names = base_classes.flat_map do |base_type, _|
+                        base_type.each_field.map { |base_field_name, _| base_field_name }
+                    end
+                    field_names.concat(field_defs.map(&:first))
+                    if field_names.uniq.size != field_names.size
+                        return ignore(xmlnode, "ignoring #{name} since it has more than one field of the same name")
+                    end
+
                     type = registry.create_compound(normalized_name, Integer(xmlnode['size']) / 8) do |c|
                         base_classes.each do |base_type, base_offset|
                             base_type.each_field do |name, type|
-- 
2.43.0


From a9aea7997df17946244f4a536a34e58933f20e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 087/109] fix: empty enums and enums with values beyond the
 range of int aborted the import of C++ headers

---
 bindings/ruby/lib/typelib/gccxml.rb | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 621a626..4ddce97 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -758,6 +758,13 @@ module Typelib
                 id_to_name[id] = pointed_to_name
 
             elsif kind == "Enumeration"
+                values = info.enum_values[id].map { |enum_value| Integer(enum_value['init']) }
+                if values.empty?
+                    return ignore(xmlnode, "ignoring the empty enum #{name}")
+                elsif values.any? { |v| v < -2**31 || v >= 2**31 }
+                    return ignore(xmlnode, "ignoring #{name} since it has values that do not fit in an int")
+                end
+
                 type = registry.create_enum(normalized_name, Integer(xmlnode['size'] || '0') / 8) do |e|
                     info.enum_values[id].each do |enum_value|
                         e.add(enum_value["name"], Integer(enum_value['init']))
-- 
2.43.0


From ec047e1bae4c0d5b6262e3fd390cf814b02044ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 088/109] fix: opaques that are templates were defined again as
 compounds by the C++ importer

---
 bindings/ruby/lib/typelib/gccxml.rb | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 4ddce97..ed1abfa 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -585,6 +585,13 @@ module Typelib
 
             normalized_name = normalize_type_name(name)
             id_to_name[id]  = normalized_name
+            if normalized_name != name && opaque?(normalized_name)
+                type = registry.get(normalized_name)
+                registry.alias(name, normalized_name)
+                set_source_file(type, xmlnode)
+                type.metadata.set 'cxxname', cxxname
+                return normalized_name
+            end
 
             access_specifier = xmlnode['access']
             if access_specifier && (access_specifier != 'public')
-- 
2.43.0


From c6cb2d1410d3dd95a6c6af00e5dfd25b6ca548b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 089/109] fix: containers with elements that cannot be
 represented aborted the import of C++ headers

---
 bindings/ruby/lib/typelib/gccxml.rb | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index ed1abfa..55434a0 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -608,17 +608,18 @@ module Typelib
                     if !registry.include?(contained_type)
                         contained_node = find_node_by_name(contained_type)
                         if !contained_node
-                            contained_node = find_node_by_name(contained_type)
-                            raise "Internal error: cannot find definition for #{contained_type}, element of #{name}"
-                        end
-                        if ignored?(contained_node["id"])
+                            return ignore(xmlnode, "ignoring #{name} as there is no definition of its element type #{contained_type}")
+                        elsif ignored?(contained_node["id"])
                             return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
-                        elsif !resolve_type_definition(contained_node)
+                        elsif !resolve_type_definition(contained_node) || !registry.include?(contained_type)
                             return ignore(xmlnode, "ignoring #{name} as its element type #{contained_type} is ignored as well")
                         end
                     end
 
                     type = registry.create_container type_name, template_args[0]
+                    if xmlnode['size'] && Integer(xmlnode['size']) != type.size * 8
+                        return ignore(xmlnode, "ignoring #{name}, it is a specialization of #{type_name} that typelib does not support")
+                    end
                     type.metadata.set('cxxname', cxxname)
                     set_source_file(type, xmlnode)
                     if name != type.name
-- 
2.43.0


From fc56b5523d21ae4d78dee71c3b4c24e82b63d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 090/109] fix: the C++ importer took types for others of the
 same name in different namespaces

---
 bindings/ruby/lib/typelib/gccxml.rb | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 55434a0..4f81bbb 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -22,6 +22,8 @@ module Typelib
         # @return [{String=>Array<Node>}] a mapping from a mangled type name to the XML
         #   nodes that store its definition
         attr_reader :name_to_nodes
+        # @return [String,nil] the ID of the global namespace
+        attr_reader :root_namespace_id
         # @return [{String=>String}] a mapping from all
         #   virtual methods/destructors/operators that have been found. It is
         #   used during resolution to reject the compounds that use them
@@ -95,6 +97,7 @@ module Typelib
 
             child_node = Node.new(name, attributes)
             id_to_node[child_node['id']] = child_node
+            @root_namespace_id = child_node['id'] if name == "Namespace" && child_node['name'] == '::'
             @current_node = child_node
             if (child_node_name = child_node['name'])
                 name_to_nodes[GCCXMLLoader.cxx_to_typelib(child_node_name)] << child_node
@@ -343,6 +346,13 @@ module Typelib
 
         NAMESPACE_NODE_TYPES = %w{Namespace Struct Class}
 
+        # Among the nodes that are called +name+, those that are not within a
+        # namespace, a struct or a class
+        def find_global_nodes(name)
+            root_id = info.root_namespace_id
+            info.name_to_nodes[name].find_all { |node| !root_id || node['context'].to_s == root_id }
+        end
+
         # Given a full Typelib type name, returns a [name, id] pair where +name+
         # is the type's basename and +id+ the context ID (i.e. the GCCXML
         # namespace ID)
@@ -353,12 +363,12 @@ module Typelib
                 name = "/#{name}"
                 break if ns == '/'
                 ns   = ns[0..-2]
-                candidates = info.name_to_nodes[ns].find_all { |n| NAMESPACE_NODE_TYPES.include?(n.name) }
-                if !context
-                    context = candidates.to_a.first
-                else
-                    context = candidates.find { |node| node['context'].to_s == context }
-                end
+                candidates = if !context
+                                 find_global_nodes(ns)
+                             else
+                                 info.name_to_nodes[ns].find_all { |node| node['context'].to_s == context }
+                             end
+                context = candidates.find { |n| NAMESPACE_NODE_TYPES.include?(n.name) }
                 if !context
                     break
                 else context = context["id"].to_s
@@ -792,8 +802,9 @@ module Typelib
         end
 
         def find_node_by_name(typename, node_type: nil)
-            if node = info.name_to_nodes[typename].first
-                return node if !node_type || (node.name == node_type)
+            nodes = find_global_nodes(typename)
+            if !nodes.empty?
+                nodes.find { |node| !node_type || (node.name == node_type) }
             else
                 basename, context = resolve_namespace_of(typename)
                 return if !context
-- 
2.43.0


From c6428926d7c6291ec4cae02d5fab2635523b913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 091/109] fix: type names that contain 0x0 were damaged by the
 C++ importer

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 4f81bbb..6672fd9 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -389,7 +389,7 @@ module Typelib
                 return
             else
                 name = node['name']
-                name = name.gsub(/0x0+/, '')
+                name = name.gsub(/(?<!\w)0x0+/, '')
                 if !cxx
                     # Convert to typelib conventions, and remove the leading
                     # slash
-- 
2.43.0


From e7cc028bee6016fc02e42141d9e7889d3c40c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 092/109] fix: types defined on the first line of a header got
 the comment at its end as documentation

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 6672fd9..1119383 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -858,7 +858,7 @@ module Typelib
             # Lines are given 1-based (as all editors work that way), and we
             # want the line before the definition. Remove two
             line = line - 2
-            while true
+            while line >= 0
                 case l = lines[line]
                 when /^\s*$/
                 when /^\s*(\*|\/\/|\/\*)/
-- 
2.43.0


From 6d29dd38c84d451d016d68d607e839aa4acbf3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 093/109] fix: headers that are not encoded in UTF-8 could not
 be imported

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 1119383..b1ab761 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -491,7 +491,7 @@ module Typelib
                 source_file_contents[file]
             else
                 if File.file?(file)
-                    source_file_contents[file] = File.readlines(file, :encoding => 'utf-8')
+                    source_file_contents[file] = File.readlines(file, :encoding => 'utf-8').map(&:scrub)
                 else
                     source_file_contents[file] = nil
                 end
-- 
2.43.0


From ac28af9b3eb551060ed9a95c16dce88d9c03f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 094/109] fix: failures of gccxml were reported as a NameError

---
 bindings/ruby/lib/typelib/gccxml.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index b1ab761..403eb42 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -1081,7 +1081,7 @@ module Typelib
             Tempfile.open("typelib_gccxml") do |io|
                 cmdline << "-fxml=#{io.path}"
                 unless system(*cmdline)
-                    raise ArgumentError, "gccxml returned an error while parsing #{file}"
+                    raise ArgumentError, "gccxml returned an error while parsing #{composite_file}"
                 end
                 [io.read]
             end
-- 
2.43.0


From 90aa1707708fe7e2c56deb5fbda0345fc4680a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:17 +0000
Subject: [PATCH 095/109] fix: incomplete output of the compiler was imported

---
 bindings/ruby/lib/typelib/gccxml.rb | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 403eb42..4bddbc4 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -115,7 +115,9 @@ module Typelib
             scanner.skip_until(/\n/)
             root_tag = scanner.scan_until(/\n/)
             if root_tag !~ /<GCC_XML/
-                raise RuntimeError, "the provided XML input does not look like a GCCXML output (expected a root GCC_XML tag but got #{root_tag.chomp})"
+                raise RuntimeError, "the provided XML input does not look like a GCCXML output (expected a root GCC_XML tag but got #{root_tag.to_s.chomp})"
+            elsif xml !~ %r{</GCC_XML>\s*\z}
+                raise RuntimeError, "the provided GCCXML output is incomplete, it does not end with the root GCC_XML tag"
             end
 
             while (l = scanner.scan_until(/\n/))
-- 
2.43.0


From 2f44ead6dce93780464dbf5b625be13c866e928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 096/109] fix: parallel C++ imports that failed left threads
 behind, or never ended

---
 bindings/ruby/lib/typelib/gccxml.rb | 66 +++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/bindings/ruby/lib/typelib/gccxml.rb b/bindings/ruby/lib/typelib/gccxml.rb
index 4bddbc4..5cb00cc 100644
--- a/bindings/ruby/lib/typelib/gccxml.rb
+++ b/bindings/ruby/lib/typelib/gccxml.rb
@@ -1128,29 +1128,40 @@ module Typelib
                     NullJobServer.new, xml_queue, registry_queue, required_files, opaques
                 )
             else
-                parsing_threads = (0...(parallel_level - 1)).map do
-                    Thread.new do
-                        parsing_thread(job_server, file_queue, xml_queue,
-                                       **parsing_options)
-                    end
-                end
-                registry_thread = Thread.new do
-                    registry_thread(
-                        job_server, xml_queue, registry_queue, required_files, opaques
-                    )
-                end
+                parsing_threads = []
+                registry_thread = nil
 
                 # Per the make job server protocol, orogen already has a token.
                 # "Give" a token back since we're doing nothing in this thread.
+                job_server.put
                 begin
-                    job_server.put
-                    # Handle errors, we don't care about return values
                     begin
-                        parsing_threads.map(&:value)
+                        (parallel_level - 1).times do
+                            parsing_threads << Thread.new do
+                                parsing_thread(job_server, file_queue, xml_queue,
+                                               **parsing_options)
+                            end
+                        end
+                        registry_thread = Thread.new do
+                            registry_thread(
+                                job_server, xml_queue, registry_queue,
+                                required_files, opaques
+                            )
+                        end
+                    rescue ThreadError
+                        file_queue.clear
+                        raise
                     ensure
-                        xml_queue.push(nil)
+                        # Handle errors, we don't care about return values. Wait
+                        # for all the threads in any case, they use tokens of
+                        # the job server
+                        begin
+                            join_threads(parsing_threads)
+                        ensure
+                            xml_queue.push(nil)
+                            registry_thread&.join
+                        end
                     end
-                    registry_thread.value
                 ensure
                     job_server.get
                 end
@@ -1159,11 +1170,31 @@ module Typelib
             registry.merge(registry_queue.pop) until registry_queue.empty?
         end
 
+        # @api private
+        #
+        # Waits for all the given threads to finish, even if some fail
+        def self.join_threads(threads)
+            thread, *others = threads
+            return unless thread
+
+            begin
+                thread.join
+            ensure
+                join_threads(others)
+            end
+        end
+
         def self.parsing_thread(
             job_server, in_queue, out_queue, castxml: true, **parsing_options
         )
             loop do
-                file = in_queue.pop(true)
+                file =
+                    begin
+                        in_queue.pop(true)
+                    rescue ThreadError # the queue is empty
+                        return
+                    end
+
                 xml = job_server.get do
                     if castxml
                         castxml(file, required_files: [file], **parsing_options)
@@ -1173,7 +1204,6 @@ module Typelib
                 end
                 out_queue.push(xml.first)
             end
-        rescue ThreadError # rubocop:disable Lint/SuppressedException
         rescue Exception # rubocop:disable Lint/RescueException
             # Speedup error propagation
             in_queue.clear
-- 
2.43.0


From 286f261df24bca16c212c641a3fe4cfeffe7faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 097/109] fix: look up relaxed names in the namespace they are
 asked for

The pattern was built once only, with the namespace of the first lookup
of the process: types of other namespaces were not found afterwards.
---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 2e709fb..cf16dac 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -119,7 +119,7 @@ module Typelib
             # Try harder ... for weird naming conventions ... but that's costly
             template_args = template_args_to_typelib(args)
             registry.each(typename_prefix) do |type|
-                if type.name =~ /^#{Regexp.quote(typename_prefix)}[^\/]+$/o
+                if type.name =~ /^#{Regexp.quote(typename_prefix)}[^\/]+$/
                     if type.basename.snakecase == "#{m.to_s.snakecase}#{template_args}"
                         return type
                     end
-- 
2.43.0


From 907206117c71107a7f087453f3435d6f4013f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 098/109] fix: do not take a namespace for a type called like
 the module

Namespaces were cached under the name of the module that gives access to
them, which later lookups took for a type of that name.
---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index cf16dac..273c253 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -183,7 +183,7 @@ module Typelib
             elsif basename = RegistryExport.find_namespace(relaxed_naming, @__typelib_registry_export_typename_prefix, registry, m, *args)
                 ns = Namespace.new
                 ns.initialize_registry_export(self, basename)
-                @__typelib_registry_export_cache[[name, []]] = ns
+                ns
             end
         end
 
-- 
2.43.0


From cc1f412eb9a1ddcc18d8295e2a22aa94ca3cf3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 099/109] fix: find the types inside a type that was reached
 through an alias

They were looked for next to the alias, from then on also when the type
is reached by its own name.
---
 bindings/ruby/lib/typelib/registry_export.rb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index 273c253..bde7ef7 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -144,13 +144,13 @@ module Typelib
             klass
         end
 
-        def setup_export_type(type, basename)
+        def setup_export_type(type, typename)
             if type <= Type
                 type.extend RegistryExport
             else
                 type = RegistryExportDelegate(type)
             end
-            type.initialize_registry_export(self, basename)
+            type.reset_registry_export(registry, __typelib_registry_export_filter_block, "#{typename}/")
             type
         end
 
@@ -179,7 +179,7 @@ module Typelib
                             end
                     end
                 end
-                @__typelib_registry_export_cache[[m, args]] = setup_export_type(exported_type, type.basename)
+                @__typelib_registry_export_cache[[m, args]] = setup_export_type(exported_type, type.name)
             elsif basename = RegistryExport.find_namespace(relaxed_naming, @__typelib_registry_export_typename_prefix, registry, m, *args)
                 ns = Namespace.new
                 ns.initialize_registry_export(self, basename)
-- 
2.43.0


From 1e85b55cac896f0b018fc2ae735e92efab0dccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 100/109] fix: make Registry#export_to_ruby work on plain
 modules

It ended in an infinite recursion, as the module has no registry method.
---
 bindings/ruby/lib/typelib/registry.rb | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/ruby/lib/typelib/registry.rb b/bindings/ruby/lib/typelib/registry.rb
index 9fd8630..04a3573 100644
--- a/bindings/ruby/lib/typelib/registry.rb
+++ b/bindings/ruby/lib/typelib/registry.rb
@@ -109,6 +109,10 @@ module Typelib
         # which it should be done is given in +base_module+
         def export_to_ruby(base_module, options = Hash.new, &block)
             base_module.extend RegistryExport
+            if !base_module.respond_to?(:registry)
+                registry = self
+                base_module.define_singleton_method(:registry) { registry }
+            end
             base_module.reset_registry_export(self, block, '/')
         end
 
-- 
2.43.0


From 4f23b734f62f958b10aa6744cbbce00003388bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:25 +0000
Subject: [PATCH 101/109] fix: give access to converted types inside of
 converted types

The delegate that stands for the Ruby class of the outer type has none of
the private methods of Object, DelegateClass included.
---
 bindings/ruby/lib/typelib/registry_export.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry_export.rb b/bindings/ruby/lib/typelib/registry_export.rb
index bde7ef7..c12ac3b 100644
--- a/bindings/ruby/lib/typelib/registry_export.rb
+++ b/bindings/ruby/lib/typelib/registry_export.rb
@@ -129,7 +129,7 @@ module Typelib
         end
 
         def RegistryExportDelegate(ruby_class)
-            klass = DelegateClass(ruby_class.singleton_class).new(ruby_class)
+            klass = Object.send(:DelegateClass, ruby_class.singleton_class).new(ruby_class)
             m = Module.new do
                 include RegistryExport
 
-- 
2.43.0


From 35531d577c328c0c0b2f8c6a55bac406167e2978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 102/109] fix: leave the registry as it was if aliases or
 namespaces cannot be changed

When removing aliases or changing the default namespace ran out of memory,
the lookup tables did not match anymore: names that were not enumerated
could be found and not be defined again.
---
 typelib/registry.cc | 74 ++++++++++++++++++++++++---------------------
 typelib/registry.hh | 11 +++++--
 2 files changed, 47 insertions(+), 38 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 22c1781..7e60eb6 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -59,31 +59,22 @@ namespace Typelib
     }
     Registry::~Registry() { clear(); }
 
-    void Registry::updateCurrentNameMap()
+    void Registry::updateCurrentNameMap(TypeMap const& types, std::string const& space)
     {
-        NameMap old_map;
-        m_current.swap(old_map);
+        NameMap names;
+        for (TypeMap::const_iterator it = types.begin(); it != types.end(); ++it)
+            names.insert( make_pair(it->first, it->second) );
 
-        try
-        {
-            for (TypeMap::iterator it = m_global.begin(); it != m_global.end(); ++it)
-                m_current.insert( make_pair(it->first, it->second) );
-
-            importNamespace(NamespaceMarkString);
-            std::string cur_space = NamespaceMarkString;
-            NameTokenizer tokens( m_namespace );
-            NameTokenizer::const_iterator ns_it = tokens.begin();
-            for (; ns_it != tokens.end(); ++ns_it)
-            {
-                cur_space += *ns_it + NamespaceMarkString;
-                importNamespace(cur_space, true);
-            }
-        }
-        catch(...)
+        importNamespace(types, names, NamespaceMarkString, false);
+        std::string cur_space = NamespaceMarkString;
+        NameTokenizer tokens( space );
+        NameTokenizer::const_iterator ns_it = tokens.begin();
+        for (; ns_it != tokens.end(); ++ns_it)
         {
-            m_current.swap(old_map);
-            throw;
+            cur_space += *ns_it + NamespaceMarkString;
+            importNamespace(types, names, cur_space, true);
         }
+        m_current.swap(names);
     }
 
     std::string Registry::getDefaultNamespace() const { return m_namespace; }
@@ -92,24 +83,29 @@ namespace Typelib
         if (! isValidNamespace(space, true))
             return false;
 
-        m_namespace = getNormalizedNamespace(space);
-        updateCurrentNameMap();
+        std::string normalized = getNormalizedNamespace(space);
+        updateCurrentNameMap(m_global, normalized);
+        m_namespace.swap(normalized);
         return true;
     }
 
     void Registry::importNamespace(const std::string& name, bool erase_existing)
+    { importNamespace(m_global, m_current, name, erase_existing); }
+
+    void Registry::importNamespace(TypeMap const& types, NameMap& names,
+        std::string const& space, bool erase_existing)
     {
-        const std::string norm_name(getNormalizedNamespace(name));
+        const std::string norm_name(getNormalizedNamespace(space));
         const int         norm_length(norm_name.length());
 
-        TypeMap::const_iterator it = m_global.lower_bound(norm_name);
+        TypeMap::const_iterator it = types.lower_bound(norm_name);
 
-        while ( it != m_global.end() && isInNamespace(it->first, norm_name, true) )
+        while ( it != types.end() && isInNamespace(it->first, norm_name, true) )
         {
             const std::string rel_name(it->first, norm_length, string::npos);
             if (erase_existing)
-                m_current.erase(rel_name);
-            m_current.insert( make_pair(rel_name, it->second) );
+                names.erase(rel_name);
+            names.insert( make_pair(rel_name, it->second) );
             ++it;
         }
     }
@@ -465,7 +461,7 @@ namespace Typelib
                 m_current.erase(current_it++);
             else ++current_it;
         }
-        updateCurrentNameMap();
+        updateCurrentNameMap(m_global, m_namespace);
     }
 
     void Registry::alias(std::string const& base, std::string const& newname, std::string const& source_id)
@@ -522,23 +518,31 @@ namespace Typelib
             );
         }
 
+        TypeMap remaining(m_global);
+        remaining.erase(name);
+        updateCurrentNameMap(remaining, m_namespace);
         m_global.erase(global_it);
-        updateCurrentNameMap();
     }
 
     void Registry::clearAliases()
     {
-        // We remove the aliases from +m_global+ and recompute m_current from
-        // scratch
+        // We recompute m_current from scratch, and remove the aliases from
+        // +m_global+ once this cannot fail anymore
+        TypeMap remaining(m_global);
+        for (TypeMap::const_iterator it = m_global.begin(); it != m_global.end(); ++it)
+        {
+            if (it->first != it->second.type->getName())
+                remaining.erase(it->first);
+        }
+        updateCurrentNameMap(remaining, m_namespace);
+
         TypeMap::iterator global_it = m_global.begin(), global_end = m_global.end();
         while (global_it != global_end)
         {
-            if (global_it->first != global_it->second.type->getName())
+            if (!remaining.count(global_it->first))
                 m_global.erase(global_it++);
             else ++global_it;
         }
-
-        updateCurrentNameMap();
     }
 
     size_t Registry::size() const { return m_global.size(); }
diff --git a/typelib/registry.hh b/typelib/registry.hh
index 74766fc..425b92a 100644
--- a/typelib/registry.hh
+++ b/typelib/registry.hh
@@ -119,10 +119,15 @@ namespace Typelib
         /** Removes all the names that refer to the given type */
         void unregister(Type const* type);
 
-        /** Updates +m_current+ based on +m_global+ and the current default
-         * namespace
+        /** Updates +m_current+ based on the given types and default namespace.
+         *
+         * It is left unchanged if an exception is thrown
          */
-        void updateCurrentNameMap();
+        void updateCurrentNameMap(TypeMap const& types, std::string const& space);
+
+        /** Makes the types of a namespace visible without it in \c names */
+        static void importNamespace(TypeMap const& types, NameMap& names,
+            std::string const& space, bool erase_existing);
 
         /** Returns the names under which the type registered as \c name is
          * visible given the current default namespace, including \c name
-- 
2.43.0


From 3d8d54cc25d22e8a5312d3a3fecc2dbb61c3979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:19 +0000
Subject: [PATCH 103/109] fix: show the types that a removed type was hiding

Relative names of removed types did not resolve to the types that they
name in the enclosing namespaces, as they do once an alias is removed.
---
 typelib/registry.cc | 34 +++++++++++++++++++++++++---------
 typelib/registry.hh |  3 +++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 7e60eb6..6a46572 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -62,6 +62,12 @@ namespace Typelib
     void Registry::updateCurrentNameMap(TypeMap const& types, std::string const& space)
     {
         NameMap names;
+        getVisibleNames(types, space, names);
+        m_current.swap(names);
+    }
+
+    void Registry::getVisibleNames(TypeMap const& types, std::string const& space, NameMap& names)
+    {
         for (TypeMap::const_iterator it = types.begin(); it != types.end(); ++it)
             names.insert( make_pair(it->first, it->second) );
 
@@ -74,7 +80,6 @@ namespace Typelib
             cur_space += *ns_it + NamespaceMarkString;
             importNamespace(types, names, cur_space, true);
         }
-        m_current.swap(names);
     }
 
     std::string Registry::getDefaultNamespace() const { return m_namespace; }
@@ -762,6 +767,24 @@ namespace Typelib
     {
         std::set<Type*> types = reverseDepends(type);
 
+        // Other types may be visible under the names of the removed ones
+        TypeMap remaining(m_global);
+        for (TypeMap::const_iterator it = m_global.begin(); it != m_global.end(); ++it)
+        {
+            if (types.count(it->second.type))
+                remaining.erase(it->first);
+        }
+        NameMap names(m_current);
+        for (NameMap::iterator it = names.begin(); it != names.end();)
+        {
+            if (types.count(it->second.type))
+                names.erase(it++);
+            else ++it;
+        }
+        NameMap visible;
+        getVisibleNames(remaining, m_namespace, visible);
+        names.insert(visible.begin(), visible.end());
+
         TypeMap::iterator global_it = m_global.begin(), global_end = m_global.end();
         while (global_it != global_end)
         {
@@ -769,14 +792,7 @@ namespace Typelib
                 m_global.erase(global_it++);
             else ++global_it;
         }
-
-        NameMap::iterator current_it = m_current.begin(), current_end = m_current.end();
-        while (current_it != current_end)
-        {
-            if (types.count(current_it->second.type))
-                m_current.erase(current_it++);
-            else ++current_it;
-        }
+        m_current.swap(names);
 
         return types;
     }
diff --git a/typelib/registry.hh b/typelib/registry.hh
index 425b92a..176015c 100644
--- a/typelib/registry.hh
+++ b/typelib/registry.hh
@@ -125,6 +125,9 @@ namespace Typelib
          */
         void updateCurrentNameMap(TypeMap const& types, std::string const& space);
 
+        /** Adds all the names visible from a default namespace to \c names */
+        static void getVisibleNames(TypeMap const& types, std::string const& space, NameMap& names);
+
         /** Makes the types of a namespace visible without it in \c names */
         static void importNamespace(TypeMap const& types, NameMap& names,
             std::string const& space, bool erase_existing);
-- 
2.43.0


From 39f23a5c9b0e43e6483cd6ab7571bfe3af6b87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 104/109] fix: do not take null types for any type of the same
 name

A registry with another type under the name of a null type was merged,
dropping that type, while merging them the other way was refused.
---
 typelib/typemodel.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 19df364..625478d 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -259,7 +259,7 @@ namespace Typelib
         NullType(std::string const& name) : Type(name, 0, Type::NullType ) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
         virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
-        { return other.getName() == getName(); }
+        { return Type::do_compare(other, equality, stack) && other.getName() == getName(); }
 
     private:
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new NullType(*this); }
-- 
2.43.0


From 4f156d12a395528f49a9a1e574dcd2c84f233cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:11 +0000
Subject: [PATCH 105/109] fix: do not move fields that share memory out of
 their compound when resizing

Fields were moved by the growth of all the ones declared before, including
the ones that they overlap with as in unions: to negative offsets if these
got smaller.
---
 typelib/typemodel.cc | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 9920f32..8ab04df 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -433,21 +433,39 @@ namespace Typelib
     bool Compound::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
         bool changed = false;
-        size_t global_offset = 0;
+        // The end of the fields, before and after
+        std::vector< std::pair<size_t, size_t> > ends;
+        ends.reserve(m_fields.size());
+        std::pair<size_t, size_t> last(0, 0);
         for (FieldList::iterator it = m_fields.begin(); it != m_fields.end(); ++it)
         {
-            it->setOffset(it->getOffset() + global_offset);
-
             Type& field_type = registry.get_(it->getType());
+            size_t old_size = field_type.getSize();
             if (field_type.resize(registry, new_sizes))
             {
-                size_t old_size = new_sizes.find(field_type.getName())->second.first;
+                old_size = new_sizes.find(field_type.getName())->second.first;
                 if (field_type.getSize() != old_size)
                     changed = true;
-                global_offset += field_type.getSize() - old_size;
             }
+
+            // Move the field with the ones that end before it. The others
+            // overlap with it, as the fields of unions do
+            size_t old_offset = it->getOffset();
+            std::pair<size_t, size_t> previous(0, 0);
+            for (size_t i = 0; i < ends.size(); ++i)
+            {
+                if (ends[i].first > old_offset)
+                    continue;
+                previous.first  = std::max(previous.first, ends[i].first);
+                previous.second = std::max(previous.second, ends[i].second);
+            }
+            it->setOffset(old_offset - previous.first + previous.second);
+
+            ends.push_back(std::make_pair(old_offset + old_size, it->getOffset() + field_type.getSize()));
+            last.first  = std::max(last.first, ends.back().first);
+            last.second = std::max(last.second, ends.back().second);
         }
-        setSize(getSize() + global_offset);
+        setSize(last.second + (getSize() > last.first ? getSize() - last.first : 0));
         return changed;
     }
 
-- 
2.43.0


From 4f677b09fd9ecde031eb45ba5ac10873f568550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 106/109] fix: keep the kind and the source of aliases in
 Registry::minimal

---
 typelib/registry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 6a46572..8ec89fc 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -217,7 +217,7 @@ namespace Typelib
             {
                 if (!it.isAlias()) continue;
                 if (result->has(it->getName(), false))
-                    result->alias(it->getName(), it.getName());
+                    result->alias(it->getName(), it.getName(), it.isPersistent(), it.getSource());
             }
         }
 
-- 
2.43.0


From 0e252e012e9cbbe17e0f7253a0c7345d9f79f583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:43 +0000
Subject: [PATCH 107/109] fix: nested option hashes of Registry#import and
 #export crashed the interpreter

---
 bindings/ruby/lib/typelib/registry.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/lib/typelib/registry.rb b/bindings/ruby/lib/typelib/registry.rb
index 04a3573..f7f2cdd 100644
--- a/bindings/ruby/lib/typelib/registry.rb
+++ b/bindings/ruby/lib/typelib/registry.rb
@@ -140,7 +140,7 @@ module Typelib
                         [ opt[0].to_s, opt[1].map { |child| child.to_s } ]
                     end
                 elsif opt[1].kind_of?(Hash)
-                    [ opt[0].to_s, format_options(opt[1]) ]
+                    [ opt[0].to_s, [format_options(opt[1])] ]
                 else
                     [ opt[0].to_s, opt[1].to_s ]
                 end
-- 
2.43.0


From b3799b5dd90a7930b7de348791e255f5a220a9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:14 +0000
Subject: [PATCH 108/109] fix: releasing a registry while memory is exhausted
 ended the process

---
 typelib/registry.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 8ec89fc..5be89d6 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -553,10 +553,11 @@ namespace Typelib
     size_t Registry::size() const { return m_global.size(); }
     void Registry::clear()
     {
-        // Set the type pointer to 0 on aliases
+        // Set the type pointer to 0 on aliases. This is called by the
+        // destructor: do not use getName(), which allocates a copy
         for (TypeMap::iterator it = m_global.begin(); it != m_global.end(); ++it)
         {
-            if (it->first != it->second.type->getName())
+            if (it->first != it->second.type->m_name)
                 it->second.type = 0;
         }
 
-- 
2.43.0


From 34d8fefca5228d193de3dc1f80210a1c857ab0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:48 +0000
Subject: [PATCH 109/109] fix: IDL typedefs could have the name of a sequence
 that is exported after them

---
 lang/idl/export.cc | 38 ++++++++++++++++++++++----------------
 lang/idl/export.hh |  5 +++--
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index ecef9e4..c26cd25 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -385,7 +385,7 @@ namespace
         std::string typedef_name = getIDLBase(type).second;
         boost::replace_all(typedef_name, "::", "_");
         m_stream << m_indent << "typedef sequence<" << element_name << "> " << typedef_name << ";\n";
-        m_exported_typedefs.insert(make_pair(type.getIndirection().getNamespace() + typedef_name, &type));
+        m_exported_typedefs.insert(make_pair(target_namespace + typedef_name, &type));
 
         return true;
     }
@@ -500,11 +500,23 @@ void IDLExport::generateTypedefs(ostream& stream)
     for (TypedefMap::const_iterator it = m_typedefs.begin();
             it != m_typedefs.end(); ++it)
     {
-        adaptNamespace(stream, it->first);
+        list<TypedefSpec> const& typedefs = it->second;
+        for (list<TypedefSpec>::const_iterator def_it = typedefs.begin(); def_it != typedefs.end(); ++def_it)
+        {
+            // The container that uses this name might have been exported after
+            // the alias was found, so this can be checked only now
+            map<string, Type const*>::const_iterator already_exported =
+                m_exported_typedefs.find(it->first + def_it->name);
+            if (already_exported != m_exported_typedefs.end())
+            {
+                if (*already_exported->second != *def_it->type)
+                    throw UnsupportedType(*def_it->type, "the typedef name " + it->first + def_it->name + " is reserved by the IDL exporter");
+                continue;
+            }
 
-        list<string> const& lines = it->second;
-        for (list<string>::const_iterator str_it = lines.begin(); str_it != lines.end(); ++str_it)
-            stream << m_indent << "typedef " << *str_it << std::endl;
+            adaptNamespace(stream, it->first);
+            stream << m_indent << "typedef " << def_it->declaration << std::endl;
+        }
     }
 }
 
@@ -544,15 +556,7 @@ bool IDLExport::save
 
             std::string type_namespace = getIDLAbsoluteNamespace(type.getNamespace(), *this);
 
-            map<string, Type const*>::const_iterator already_exported =
-                m_exported_typedefs.find(type.getName());
-            if (already_exported != m_exported_typedefs.end())
-            {
-                if (*already_exported->second != *type)
-                    throw UnsupportedType(*type, "the typedef name " + type.getName() + " is reserved by the IDL exporter");
-                return false;
-            }
-            else if (type.getBasename().find_first_of("/<>") != std::string::npos)
+            if (type.getBasename().find_first_of("/<>") != std::string::npos)
             {
                 return false;
             }
@@ -582,8 +586,8 @@ bool IDLExport::save
             else if (type.getBasename().find_first_of(" ") == string::npos)
                 stream << getIDLAbsolute(*type) << " " << base_name << ";";
 
-            std::string def = stream.str();
-            if (!def.empty())
+            TypedefSpec def = { base_name, &*type, stream.str() };
+            if (!def.declaration.empty())
                 m_typedefs[type_namespace].push_back(def);
             return true;
         }
@@ -613,6 +617,8 @@ bool IDLExport::save
                 target_namespace = base.first;
                 target_name = base.second;
                 boost::replace_all(target_name, "::", "_");
+                if (type->getCategory() == Type::Container)
+                    m_exported_typedefs.insert(make_pair(target_namespace + target_name, &*type));
             }
             size_t ns_size = namespaceIndentLevel(target_namespace);
             string indent_string = string(ns_size * 4, ' ');
diff --git a/lang/idl/export.hh b/lang/idl/export.hh
index a641751..a2cab02 100644
--- a/lang/idl/export.hh
+++ b/lang/idl/export.hh
@@ -28,10 +28,11 @@ class IDLExport : public Typelib::Exporter
 
     struct TypedefSpec
     {
-        std::string name_space;
+        std::string name;
+        Typelib::Type const* type;
         std::string declaration;
     };
-    typedef std::map<std::string, std::list<std::string> > TypedefMap;
+    typedef std::map<std::string, std::list<TypedefSpec> > TypedefMap;
     TypedefMap m_typedefs;
 
     /** The set of typedefs that have been exported during the generation
-- 
2.43.0

