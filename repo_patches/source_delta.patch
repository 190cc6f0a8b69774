From ebd9e03705f177196b71f93fb31c55de746f3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:40 +0000
Subject: [PATCH 01/43] fix: list and forward_list post-increment/decrement
 return an iterator

---
 include/cest/forward_list.hpp | 4 ++--
 include/cest/list.hpp         | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index e4a1948..3c5ec8a 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -52,7 +52,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -86,7 +86,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 260725b..1f8596c 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -76,7 +76,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                noexcept {
@@ -84,7 +84,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)             noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -118,7 +118,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                      noexcept {
@@ -126,7 +126,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)                   noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
-- 
2.43.0


From 8c3d70b29e7d84a7e7858b71d00920b13369ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:40 +0000
Subject: [PATCH 02/43] fix: self-assignment of list, deque, set and map keeps
 the elements

---
 include/cest/deque.hpp | 1 +
 include/cest/list.hpp  | 1 +
 include/cest/map.hpp   | 1 +
 include/cest/set.hpp   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 23edbae..48ec738 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -181,6 +181,7 @@ public:
 
   constexpr deque& operator=(const deque& other)
   {
+    if (this == &other) return *this;
     clear();
     for (size_type i = 0; i < other.size(); ++i)
       push_back(other[i]);
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 1f8596c..043c1cc 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -147,6 +147,7 @@ struct list {
 
   constexpr list& operator=(const list& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.cbegin(); it != other.cend(); ++it)
       push_back(*it);
diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index c31b0fd..a1f20af 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -168,6 +168,7 @@ public:
 
   constexpr map& operator=(const map& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index f1a86f2..a3c38c5 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -109,6 +109,7 @@ public:
 
   constexpr set& operator=(const set& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
-- 
2.43.0


From 00e465e84f53037470195ec3e87fc3db41fa7d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:31 +0000
Subject: [PATCH 03/43] fix: vector::push_back accepts a reference to one of
 its own elements

---
 include/cest/vector.hpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index ffea2bb..bfd2557 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -109,16 +109,20 @@ public:
   {
     if (new_cap > m_capacity)
     {
-      value_type *p = m_alloc.allocate(new_cap);
-      for (size_type i = 0; i < m_size; i++)
-        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
-      if (0 != m_capacity) {
-        std::destroy_n(m_p,m_size);
-        m_alloc.deallocate(m_p,m_capacity);
-      }
-      m_p = p;
-      m_capacity = new_cap;
+      relocate(m_alloc.allocate(new_cap),new_cap);
+    }
+  }
+
+  constexpr void relocate(value_type *p, size_type new_cap)
+  {
+    for (size_type i = 0; i < m_size; i++)
+      std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+    if (0 != m_capacity) {
+      std::destroy_n(m_p,m_size);
+      m_alloc.deallocate(m_p,m_capacity);
     }
+    m_p = p;
+    m_capacity = new_cap;
   }
 
   constexpr void resize(size_type count)
@@ -186,10 +190,14 @@ public:
 
   constexpr void push_back(const value_type &value)
   {
-    if (0 == m_capacity) {
-      reserve(1);
-    } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+    if (m_capacity == m_size) {
+      // value may be an element of this vector: copy it before it is relocated
+      const size_type new_cap = m_capacity ? m_capacity * 2 : 1;
+      value_type *p = m_alloc.allocate(new_cap);
+      std::construct_at(&p[m_size],value);
+      relocate(p,new_cap);
+      m_size++;
+      return;
     }
     std::construct_at(&m_p[m_size++],value);
   }
-- 
2.43.0


From 7b0a3b8ea053bdf9974db14ab19f5c587845c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:02 +0000
Subject: [PATCH 04/43] fix: copying and searching a string keeps embedded null
 characters

---
 include/cest/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 121a071..9ea0e5f 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -62,7 +62,8 @@ public:
   constexpr basic_string(const CharT* s, const Allocator &alloc = Allocator())
   : basic_string(s, traits_type::length(s), alloc) {}
 
-  constexpr basic_string(const basic_string& str) : basic_string(str.c_str()) {}
+  constexpr basic_string(const basic_string& str)
+  : basic_string(str.data(), str.size()) {}
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
@@ -136,7 +137,7 @@ public:
 
   constexpr
   size_type find(const basic_string &str, size_type pos = 0) const noexcept {
-    return this->find(str.data(), pos);
+    return this->find(str.data(), pos, str.size());
   }
 
   constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
-- 
2.43.0


From 4f7f418ce5f2e16b2980d77e0a87f919a0275124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 05/43] fix: string::find(CharT, pos) honours its start
 position

---
 include/cest/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 9ea0e5f..c8bb62b 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -140,8 +140,10 @@ public:
     return this->find(str.data(), pos, str.size());
   }
 
-  constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
-    auto *p = traits_type::find(this->data(), this->size(), ch);
+  constexpr size_type find(CharT ch, size_type pos = 0) const noexcept {
+    if (pos >= this->size())
+      return npos;
+    auto *p = traits_type::find(this->data() + pos, this->size() - pos, ch);
     return p ? (p-this->data()) : npos;
   }
 
-- 
2.43.0


From b3d7c0e6ad5365e3779916bd1cd53f8fd9936789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 06/43] fix: string from an empty input range has storage for
 its terminator

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index c8bb62b..7893c99 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -67,7 +67,7 @@ public:
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
-                         const Allocator& alloc = Allocator()) : m_alloc(alloc)
+                         const Allocator& alloc = Allocator()) : basic_string(alloc)
   {
     static_assert(std::is_same_v<
       std::input_iterator_tag,
-- 
2.43.0


From f83720d9f7bb3c80c52f7fac6788133e5ff1697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 07/43] fix: string::push_back accepts a reference to one of
 its own characters

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 7893c99..9bcd24b 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -180,7 +180,7 @@ public:
      return this->find(s, pos, traits_type::length(s));
   }
 
-  constexpr void push_back(const value_type &value) {
+  constexpr void push_back(const value_type value) {
     if (m_size + 1 > m_capacity)
       reserve(m_capacity * 2);
     traits_type::assign(this->data()[  m_size], value);
-- 
2.43.0


From deede9354ea80662cc4f08103c4f2617ce68c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 08/43] fix: string assignment from itself or with embedded
 nulls

---
 include/cest/string.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 9bcd24b..7ec5759 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -221,10 +221,16 @@ public:
 
   constexpr basic_string& operator=(const CharT* s)
   {
-    //const CharT* s  = str.c_str();
-    size_type count = traits_type::length(s);
+    return assign(s, traits_type::length(s));
+  }
 
-    if (m_capacity < count+1) {
+  constexpr basic_string& operator=(const basic_string& str) {
+    return assign(str.data(), str.size());
+  }
+
+  constexpr basic_string& assign(const CharT* s, size_type count)
+  {
+    if (m_capacity < count) {
       m_alloc.deallocate(m_p, m_capacity+1);
       m_capacity = count+1;                    // ensure m_capacity is not 0
       m_p = m_alloc.allocate(m_capacity+1);    // +1 for the null terminator
@@ -232,15 +238,11 @@ public:
         std::construct_at(&m_p[i]);
     }
     
-    traits_type::copy(m_p, s, count+1);
-    m_size = count;
+    traits_type::move(m_p, s, count); // s may refer to this string's storage
+    traits_type::assign(this->data()[m_size = count], CharT());
     return *this;
   }
 
-  constexpr basic_string& operator=(const basic_string& str) {
-    return this->operator=(str.c_str());
-  }
-
   constexpr void reserve(size_type new_cap)
   {
     if (new_cap > m_capacity)
-- 
2.43.0


From 392273689d86599f015de25f8ca1993d3c7116e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 09/43] fix: string equality is usable in constant expressions
 for every character type

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 7ec5759..664e399 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -302,7 +302,7 @@ private:
 };
 
 template<typename _CharT, typename _Traits, typename _Alloc>
-  inline bool
+  inline constexpr bool
   operator==(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
              const basic_string<_CharT, _Traits, _Alloc>& __rhs)
   noexcept
-- 
2.43.0


From 0be2ec84f6705efc05b35f9622d87c2e76faf5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:12 +0000
Subject: [PATCH 10/43] fix: deque iterators step backwards and subtract
 correctly across chunks

---
 include/cest/deque.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 48ec738..be5986e 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -61,7 +61,7 @@ public:
     constexpr iter&     operator--()                noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -81,7 +81,7 @@ public:
     constexpr operator-(const iter& __x, const iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
@@ -122,7 +122,7 @@ public:
     constexpr const_iter& operator--()              noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -142,7 +142,7 @@ public:
     constexpr operator-(const const_iter& __x, const const_iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
-- 
2.43.0


From a720fb3f2f2067428a46a95ac747b0a249ba8c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:12 +0000
Subject: [PATCH 11/43] fix: deque::push_back advances into an already
 allocated chunk

---
 include/cest/deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index be5986e..cca73e0 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -332,9 +332,9 @@ private:
       {
         value_type *p = m_alloc.allocate(CHUNK_SIZE);
         m_chunks.push_back(p);
-        ++m_back_chunk;
       }
-      
+
+      ++m_back_chunk;
       m_back = 0;
     }
     else
-- 
2.43.0


From dca64daa199e3021b1aa7b3e3c4f1f8b433da43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:12 +0000
Subject: [PATCH 12/43] fix: a deque emptied by popping at a chunk border can
 be used again

---
 include/cest/deque.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index cca73e0..a271576 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -234,6 +234,7 @@ public:
         --m_back;
       }
       --m_size;
+      if (empty()) clear(); // the ends may have stepped off their chunk
     }
   }
 
@@ -248,6 +249,7 @@ public:
         ++m_front;
       }
       --m_size;
+      if (empty()) clear(); // the ends may have stepped off their chunk
     }
   }
 
-- 
2.43.0


From 051b305e621e27a39c2ff5bee00c6df58fc561d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:12 +0000
Subject: [PATCH 13/43] fix: deque::end() is reached by incrementing from a
 full last chunk

---
 include/cest/deque.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index a271576..b93cf2f 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -263,13 +263,16 @@ public:
     return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
   }
   constexpr iterator          end()       noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    const size_type chunk = end_chunk();
+    return {&m_chunks[chunk][(m_back+1) % CHUNK_SIZE], &m_chunks[chunk]};
   }
   constexpr const_iterator    end() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    const size_type chunk = end_chunk();
+    return {&m_chunks[chunk][(m_back+1) % CHUNK_SIZE], &m_chunks[chunk]};
   }
   constexpr const_iterator   cend() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    const size_type chunk = end_chunk();
+    return {&m_chunks[chunk][(m_back+1) % CHUNK_SIZE], &m_chunks[chunk]};
   }
   constexpr reference       front() {
     return m_chunks[m_front_chunk][m_front];
@@ -344,9 +347,21 @@ private:
       ++m_back;
     }
 
+    // end() is the start of the next chunk when the last one is full
+    if (end_chunk() == m_chunks.size())
+    {
+      value_type *p = m_alloc.allocate(CHUNK_SIZE);
+      m_chunks.push_back(p);
+    }
+
     m_size++;
   }
 
+  constexpr size_type end_chunk() const noexcept
+  {
+    return m_back == CHUNK_SIZE - 1 ? m_back_chunk + 1 : m_back_chunk;
+  }
+
   allocator_type      m_alloc;
   size_type           m_front;
   size_type           m_back;
-- 
2.43.0


From f938dc2f59dd109a41dd2f8ad06f6f9628494fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 14/43] fix: map iterators advance by node identity, not key
 equality

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index a1f20af..9981ee5 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -62,7 +62,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node == pn->r)
         {
           curr_node = pn;
           pn = pn->p;
@@ -117,7 +117,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node == pn->r)
         {
           curr_node = pn;
           pn = pn->p;
-- 
2.43.0


From 5750874be1378d92be7bfb88ad3b78e10cffafcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 15/43] fix: map::find of a key of another type compiles

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 9981ee5..0041d87 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -246,7 +246,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return iterator(n);
   }
 
   template <class K>
@@ -260,7 +260,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return const_iterator(n);
   }
 
   constexpr void rotate_left(node *&n) {
-- 
2.43.0


From d718e48c0b3b0f717e8f29fef09584765ef8a5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 16/43] fix: copying an empty shared_ptr

---
 include/cest/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 9b465ed..afcfb7b 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -81,11 +81,11 @@ public:
     : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
-    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   template <class Y>
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
-    : ptr_{ptr}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   constexpr ~shared_ptr_base()
   {
-- 
2.43.0


From 178f9de3471bb8146e59f8e97e465217b9df3d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 17/43] fix: shared_ptr assignment maintains the reference
 counts

---
 include/cest/shared_ptr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index afcfb7b..1d8d78b 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -87,6 +87,14 @@ public:
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
     : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
+  constexpr shared_ptr_base& operator=(const shared_ptr_base& r) noexcept
+  {
+    shared_ptr_base tmp(r);
+    nary::swap(ptr_, tmp.ptr_);
+    nary::swap(pctrl_, tmp.pctrl_);
+    return *this;
+  }
+
   constexpr ~shared_ptr_base()
   {
     if (pctrl_ && !--pctrl_->count_)
-- 
2.43.0


From 10cc4177ae4a112b9717b86e8d836218b2f40822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:13 +0000
Subject: [PATCH 18/43] fix: cest::function does not wrap itself when copied
 from a non-const lvalue

---
 include/cest/functional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cest/functional.hpp b/include/cest/functional.hpp
index a614699..4d7c0f7 100644
--- a/include/cest/functional.hpp
+++ b/include/cest/functional.hpp
@@ -58,6 +58,7 @@ public:
   }
 
   template<typename F>
+    requires (!std::is_same_v<std::decay_t<F>, function>)
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
                          R, Args...>>(std::move(f))){}
@@ -74,6 +75,7 @@ public:
   }
 
   template<typename F>
+    requires (!std::is_same_v<std::decay_t<F>, function>)
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
                          void, Args...>>(std::move(f))){}
-- 
2.43.0


From c4f27809feaefec244102f6b541d7957205a81b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:31 +0000
Subject: [PATCH 19/43] fix: cest/iostream.hpp can be included by several
 translation units

---
 include/cest/iostream.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cest/iostream.hpp b/include/cest/iostream.hpp
index c7ffc4f..acd24b3 100644
--- a/include/cest/iostream.hpp
+++ b/include/cest/iostream.hpp
@@ -8,16 +8,16 @@
 namespace cest {
 
 namespace impl {
-  basic_stringbuf cout(string("cout"));
-  basic_stringbuf cerr(string("cerr"));
-  basic_stringbuf clog(string("clog"));
-  basic_stringbuf cin(string("cin"));
+  inline basic_stringbuf cout(string("cout"));
+  inline basic_stringbuf cerr(string("cerr"));
+  inline basic_stringbuf clog(string("clog"));
+  inline basic_stringbuf cin(string("cin"));
 }
 
-ostream cout(&impl::cout);
-ostream cerr(&impl::cerr);
-ostream clog(&impl::clog);
-istream cin(&impl::cin);
+inline ostream cout(&impl::cout);
+inline ostream cerr(&impl::cerr);
+inline ostream clog(&impl::clog);
+inline istream cin(&impl::cin);
 
 using iostream  = basic_iostream<char>;
 using wiostream = basic_iostream<wchar_t>;
-- 
2.43.0


From 2372e989686b2fa84b7633078f8a9896c402562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:31 +0000
Subject: [PATCH 20/43] fix: every header includes what it uses

---
 include/cest/cmath.hpp     | 1 +
 include/cest/complex.hpp   | 3 +++
 include/cest/ios_base.hpp  | 2 ++
 include/cest/pair.hpp      | 2 +-
 include/cest/streambuf.hpp | 4 ++++
 5 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 25e0aae..a8ac844 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -2,6 +2,7 @@
 #define _CEST_CMATH_HPP_
 
 #include "cest/bits/abs.hpp"
+#include <limits> // std::numeric_limits
 
 namespace cest {
 
diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index a87dc0a..16324fc 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -9,6 +9,9 @@
 
 #include <type_traits>
 #include "cest/algorithm.hpp"
+#include "cest/istream.hpp"
+#include "cest/ostream.hpp"
+#include "cest/sstream.hpp"
 
 // Get rid of a macro possibly defined in <complex.h>
 #undef complex
diff --git a/include/cest/ios_base.hpp b/include/cest/ios_base.hpp
index c51d052..e36f348 100644
--- a/include/cest/ios_base.hpp
+++ b/include/cest/ios_base.hpp
@@ -1,6 +1,8 @@
 #ifndef _CEST_IOS_BASE_HPP_
 #define _CEST_IOS_BASE_HPP_
 
+#include <ios> // std::streamsize
+
 namespace cest {
 
   enum _Ios_Fmtflags
diff --git a/include/cest/pair.hpp b/include/cest/pair.hpp
index 15ec31f..e9dd425 100644
--- a/include/cest/pair.hpp
+++ b/include/cest/pair.hpp
@@ -1,7 +1,7 @@
 #ifndef _CEST_PAIR_HPP_
 #define _CEST_PAIR_HPP_
 
-#include <pair>
+#include <utility>
 
 namespace cest {
 
diff --git a/include/cest/streambuf.hpp b/include/cest/streambuf.hpp
index a2ff25a..6a9f113 100644
--- a/include/cest/streambuf.hpp
+++ b/include/cest/streambuf.hpp
@@ -1,6 +1,10 @@
 #ifndef _CEST_STREAMBUF_HPP_
 #define _CEST_STREAMBUF_HPP_
 
+#include "ios_base.hpp" // cest::streamsize
+#include <algorithm>    // std::min
+#include <string>       // std::char_traits
+
 namespace cest {
 
 #define _IsUnused __attribute__ ((__unused__))
-- 
2.43.0


From d0f2d25392a2ed769d6d85fbb4bdd9a69c02ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:31 +0000
Subject: [PATCH 21/43] fix: str() of a string stream compiles

---
 include/cest/sstream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cest/sstream.hpp b/include/cest/sstream.hpp
index 4809b3e..8dd0f85 100644
--- a/include/cest/sstream.hpp
+++ b/include/cest/sstream.hpp
@@ -51,6 +51,8 @@ public:
     _M_string(__str.data(), __str.size(), __str.get_allocator())
   { _M_stringbuf_init(__mode); }
 
+  constexpr __string_type str() const { return _M_string; }
+
   constexpr void str(const __string_type& __s)
   {
     _M_string = __s;
-- 
2.43.0


From c293ef39315c12bb74ac197b7cc8cfbaf22fd2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:31 +0000
Subject: [PATCH 22/43] fix: a string with embedded null characters is written
 in full

---
 include/cest/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 664e399..6984c48 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -7,6 +7,7 @@
 #include <memory>      // std::allocator
 #include <iterator>    // std::reverse_iterator
 #include <limits>      // std::numeric_limits
+#include <string_view> // std::basic_string_view
 #include <type_traits> // std::is_same_v
 
 namespace cest {
@@ -372,7 +373,8 @@ operator<<(
   basic_ostream<CharT, Traits>& os,
   const basic_string<CharT, Traits, Allocator>& str)
 {
-  impl::runtime_ostream(os, str.c_str());
+  impl::runtime_ostream(
+    os, std::basic_string_view<CharT, Traits>(str.data(), str.size()));
   return os;
 }
 
-- 
2.43.0


From d7617e85c749db870a8e8d5bf41d82791b9a9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:22 +0000
Subject: [PATCH 23/43] fix: complex functions compile, calling their cest
 counterparts

---
 include/cest/complex.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index 16324fc..560232a 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -9,6 +9,7 @@
 
 #include <type_traits>
 #include "cest/algorithm.hpp"
+#include "cest/cmath.hpp"
 #include "cest/istream.hpp"
 #include "cest/ostream.hpp"
 #include "cest/sstream.hpp"
@@ -794,7 +795,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     log10(const complex<_Tp>& __z)
-    { return std::log(__z) / log(_Tp(10.0)); }
+    { return cest::log(__z) / log(_Tp(10.0)); }
 
   // 26.2.8/10 sin(__z): Returns the sine of __z.
   template<typename _Tp>
@@ -872,7 +873,7 @@ namespace cest
         }
       else
         {
-          _Tp __t = sqrt(2 * (std::abs(__z) + abs(__x)));
+          _Tp __t = sqrt(2 * (cest::abs(__z) + abs(__x)));
           _Tp __u = __t / 2;
           return __x > _Tp()
             ? complex<_Tp>(__u, __y / __t)
@@ -905,7 +906,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tan(const complex<_Tp>& __z)
-    { return std::sin(__z) / std::cos(__z); }
+    { return cest::sin(__z) / cest::cos(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -933,7 +934,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tanh(const complex<_Tp>& __z)
-    { return std::sinh(__z) / std::cosh(__z); }
+    { return cest::sinh(__z) / cest::cosh(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -1001,14 +1002,14 @@ namespace cest
       if (__x.imag() == _Tp() && __x.real() > _Tp())
         return pow(__x.real(), __y);
 
-      complex<_Tp> __t = std::log(__x);
+      complex<_Tp> __t = cest::log(__x);
       return cest::polar<_Tp>(exp(__y * __t.real()), __y * __t.imag());
     }
 
   template<typename _Tp>
     inline complex<_Tp>
     __complex_pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
-    { return __x == _Tp() ? _Tp() : std::exp(__y * std::log(__x)); }
+    { return __x == _Tp() ? _Tp() : cest::exp(__y * cest::log(__x)); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -1041,7 +1042,7 @@ namespace cest
     {
       return __x > _Tp() ? cest::polar<_Tp>(pow(__x, __y.real()),
 					   __y.imag() * log(__x))
-	                 : std::pow(complex<_Tp>(__x), __y);
+	                 : cest::pow(complex<_Tp>(__x), __y);
     }
 
 } // namespace cest
-- 
2.43.0


From 4d76cafd82e141c6cc581f469a00df489c16f3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:29 +0000
Subject: [PATCH 24/43] fix: fprintf without arguments returns the number of
 characters written

---
 include/cest/cstdio.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 7ba7a78..7a8af72 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -44,6 +44,7 @@ constexpr int fprintf(ostream* stream, const char* format)
   if (!std::is_constant_evaluated())
   {
     (*stream) << format;
+    return int(std::char_traits<char>::length(format));
   }
 
   return 0;
-- 
2.43.0


From 3d9b7ad1ff6cfb992575949f0df84a7c076545c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:29 +0000
Subject: [PATCH 25/43] fix: writing a long to an output stream compiles

---
 include/cest/ostream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 3a9488c..c99f091 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -60,7 +60,10 @@ public:
 
   constexpr __ostream_type&
   operator<<(long __n)
-  { return _M_insert(__n); }
+  {
+    impl::runtime_ostream(*this, __n);
+    return *this;
+  }
 
   constexpr __ostream_type& operator<<(int value)                             {
     impl::runtime_ostream(*this, value);
-- 
2.43.0


From 421a5bd750ad124be64526c29eba9c46ffbf7d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 26/43] fix: complex pow with a positive real base takes the
 whole real exponent

---
 include/cest/complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index 560232a..d512d06 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -1000,7 +1000,7 @@ namespace cest
 	return _Tp();
 #endif
       if (__x.imag() == _Tp() && __x.real() > _Tp())
-        return pow(__x.real(), __y);
+        return exp(__y * log(__x.real()));
 
       complex<_Tp> __t = cest::log(__x);
       return cest::polar<_Tp>(exp(__y * __t.real()), __y * __t.imag());
@@ -1040,7 +1040,7 @@ namespace cest
     inline complex<_Tp>
     pow(const _Tp& __x, const complex<_Tp>& __y)
     {
-      return __x > _Tp() ? cest::polar<_Tp>(pow(__x, __y.real()),
+      return __x > _Tp() ? cest::polar<_Tp>(exp(__y.real() * log(__x)),
 					   __y.imag() * log(__x))
 	                 : cest::pow(complex<_Tp>(__x), __y);
     }
-- 
2.43.0


From 47bb079d0f8b9665b82eac8fb5de4e7ff0a7b12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 27/43] fix: writing a pointer or a smart pointer to an output
 stream compiles

---
 include/cest/ostream.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index c99f091..45b3299 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -75,6 +75,12 @@ public:
     return *this;
   }
 
+  // for pointers, including those held by smart pointers
+  constexpr __ostream_type& operator<<(const void* value)                     {
+    impl::runtime_ostream(*this, value);
+    return *this;
+  }
+
   constexpr __ostream_type& flush();
 
   protected:
-- 
2.43.0


From 80cd86bcc66bc06362f2d02b07402128c933696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 28/43] fix: dec, hex and oct reach the standard stream

---
 include/cest/ostream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 45b3299..95608ea 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -55,6 +55,9 @@ public:
   constexpr __ostream_type&
   operator<<(ios_base&       (*__pf)(ios_base&))       {
     __pf(*this);
+    if      (__pf == &dec) impl::runtime_ostream(*this, std::dec);
+    else if (__pf == &hex) impl::runtime_ostream(*this, std::hex);
+    else if (__pf == &oct) impl::runtime_ostream(*this, std::oct);
     return *this;
   }
 
-- 
2.43.0


From 7615fe4a3cc24e8c7f3f4d547a55542e810b6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 29/43] fix: writing to a wide output stream compiles

---
 include/cest/runtime_ostream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/runtime_ostream.hpp b/include/cest/runtime_ostream.hpp
index 24ea8ea..0ccfbf6 100644
--- a/include/cest/runtime_ostream.hpp
+++ b/include/cest/runtime_ostream.hpp
@@ -11,6 +11,8 @@ namespace impl {
 template <class CharT, class Traits, class T>
 constexpr void runtime_ostream(basic_ostream<CharT,Traits>& os, T x)
 {
+  // only streams of the same type can be one of the standard streams
+  if constexpr (std::is_same_v<basic_ostream<CharT,Traits>,basic_ostream<char>>)
   if (!std::is_constant_evaluated())
   {
     if      (&cest::cout == &os) std::cout << x;
@@ -26,6 +28,7 @@ constexpr void runtime_ostream(
   std::basic_ostream<CharT,Traits>& (*fp)(std::basic_ostream<CharT,Traits>&)
 )
 {
+  if constexpr (std::is_same_v<basic_ostream<CharT,Traits>,basic_ostream<char>>)
   if (!std::is_constant_evaluated())
   {
     if      (&cest::cout == &os) std::cout << fp;
-- 
2.43.0


From f1f87592a5dbc5a19cfca5936225fea6ba362eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 30/43] fix: fprintf writes embedded NULs and returns on an
 encoding error

---
 include/cest/cstdio.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 7a8af72..426bffc 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -57,9 +57,10 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
   if (!std::is_constant_evaluated())
   {
     int nbytes = std::snprintf(nullptr, 0, format, std::forward<Ts>(xs)...);
+    if (nbytes < 0) return nbytes; // encoding error
     char *psz = new char[nbytes+1];
     std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
-    (*stream) << psz;
+    (*stream) << string(psz, nbytes);
     delete [] psz;
     return nbytes;
   }
-- 
2.43.0


From 63dd68bee6977bdba966e5a87d8476569b09f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 31/43] fix: complex functions can be evaluated at compile time

---
 include/cest/complex.hpp | 112 +++++++++++++++++++--------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index d512d06..df44f40 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -40,7 +40,7 @@ namespace cest
   ///  Return magnitude of @a z.
   template<typename _Tp> _Tp constexpr abs(const complex<_Tp>&);
   ///  Return phase angle of @a z.
-  template<typename _Tp> _Tp arg(const complex<_Tp>&);
+  template<typename _Tp> constexpr _Tp arg(const complex<_Tp>&);
   ///  Return @a z magnitude squared.
   template<typename _Tp> _Tp _GLIBCXX20_CONSTEXPR norm(const complex<_Tp>&);
 
@@ -48,38 +48,38 @@ namespace cest
   template<typename _Tp>
     _GLIBCXX20_CONSTEXPR complex<_Tp> conj(const complex<_Tp>&);
   ///  Return complex with magnitude @a rho and angle @a theta.
-  template<typename _Tp> complex<_Tp> polar(const _Tp&, const _Tp& = 0);
+  template<typename _Tp> constexpr complex<_Tp> polar(const _Tp&, const _Tp& = 0);
 
   // Transcendentals:
   /// Return complex cosine of @a z.
-  template<typename _Tp> complex<_Tp> cos(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> cos(const complex<_Tp>&);
   /// Return complex hyperbolic cosine of @a z.
-  template<typename _Tp> complex<_Tp> cosh(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> cosh(const complex<_Tp>&);
   /// Return complex base e exponential of @a z.
-  template<typename _Tp> complex<_Tp> exp(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> exp(const complex<_Tp>&);
   /// Return complex natural logarithm of @a z.
-  template<typename _Tp> complex<_Tp> log(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> log(const complex<_Tp>&);
   /// Return complex base 10 logarithm of @a z.
-  template<typename _Tp> complex<_Tp> log10(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> log10(const complex<_Tp>&);
   /// Return @a x to the @a y'th power.
-  template<typename _Tp> complex<_Tp> pow(const complex<_Tp>&, int);
+  template<typename _Tp> constexpr complex<_Tp> pow(const complex<_Tp>&, int);
   /// Return @a x to the @a y'th power.
-  template<typename _Tp> complex<_Tp> pow(const complex<_Tp>&, const _Tp&);
+  template<typename _Tp> constexpr complex<_Tp> pow(const complex<_Tp>&, const _Tp&);
   /// Return @a x to the @a y'th power.
-  template<typename _Tp> complex<_Tp> pow(const complex<_Tp>&,
-                                          const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> pow(const complex<_Tp>&,
+                                                    const complex<_Tp>&);
   /// Return @a x to the @a y'th power.
-  template<typename _Tp> complex<_Tp> pow(const _Tp&, const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> pow(const _Tp&, const complex<_Tp>&);
   /// Return complex sine of @a z.
-  template<typename _Tp> complex<_Tp> sin(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> sin(const complex<_Tp>&);
   /// Return complex hyperbolic sine of @a z.
-  template<typename _Tp> complex<_Tp> sinh(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> sinh(const complex<_Tp>&);
   /// Return complex square root of @a z.
-  template<typename _Tp> complex<_Tp> sqrt(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> sqrt(const complex<_Tp>&);
   /// Return complex tangent of @a z.
-  template<typename _Tp> complex<_Tp> tan(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> tan(const complex<_Tp>&);
   /// Return complex hyperbolic tangent of @a z.
-  template<typename _Tp> complex<_Tp> tanh(const complex<_Tp>&);
+  template<typename _Tp> constexpr complex<_Tp> tanh(const complex<_Tp>&);
 
 
   // 26.2.2  Primary template class complex
@@ -601,7 +601,7 @@ namespace cest
 
   // 26.2.7/4: arg(__z): Returns the phase angle of __z.
   template<typename _Tp>
-    inline _Tp
+    constexpr _Tp
     __complex_arg(const complex<_Tp>& __z)
     { return  atan2(__z.imag(), __z.real()); }
 
@@ -617,11 +617,11 @@ namespace cest
   { return __builtin_cargl(__z); }
 
   template<typename _Tp>
-    inline _Tp
+    constexpr _Tp
     arg(const complex<_Tp>& __z) { return __complex_arg(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline _Tp
+    constexpr _Tp
     arg(const complex<_Tp>& __z) { return __complex_arg(__z); }
 #endif
 
@@ -665,7 +665,7 @@ namespace cest
     }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     polar(const _Tp& __rho, const _Tp& __theta)
     {
       __glibcxx_assert( __rho >= 0 );
@@ -681,7 +681,7 @@ namespace cest
 
   // 26.2.8/1 cos(__z):  Returns the cosine of __z.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_cos(const complex<_Tp>& __z)
     {
       const _Tp __x = __z.real();
@@ -701,17 +701,17 @@ namespace cest
   { return __builtin_ccosl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     cos(const complex<_Tp>& __z) { return __complex_cos(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     cos(const complex<_Tp>& __z) { return __complex_cos(__z); }
 #endif
 
   // 26.2.8/2 cosh(__z): Returns the hyperbolic cosine of __z.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_cosh(const complex<_Tp>& __z)
     {
       const _Tp __x = __z.real();
@@ -731,17 +731,17 @@ namespace cest
   { return __builtin_ccoshl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     cosh(const complex<_Tp>& __z) { return __complex_cosh(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     cosh(const complex<_Tp>& __z) { return __complex_cosh(__z); }
 #endif
 
   // 26.2.8/3 exp(__z): Returns the complex base e exponential of x
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_exp(const complex<_Tp>& __z)
     { return cest::polar<_Tp>(exp(__z.real()), __z.imag()); }
 
@@ -757,18 +757,18 @@ namespace cest
   { return __builtin_cexpl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     exp(const complex<_Tp>& __z) { return __complex_exp(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     exp(const complex<_Tp>& __z) { return __complex_exp(__z); }
 #endif
 
   // 26.2.8/5 log(__z): Returns the natural complex logarithm of __z.
   //                    The branch cut is along the negative axis.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_log(const complex<_Tp>& __z)
     { return complex<_Tp>(log(cest::abs(__z)), cest::arg(__z)); }
 
@@ -784,22 +784,22 @@ namespace cest
   { return __builtin_clogl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     log(const complex<_Tp>& __z) { return __complex_log(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     log(const complex<_Tp>& __z) { return __complex_log(__z); }
 #endif
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     log10(const complex<_Tp>& __z)
     { return cest::log(__z) / log(_Tp(10.0)); }
 
   // 26.2.8/10 sin(__z): Returns the sine of __z.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_sin(const complex<_Tp>& __z)
     {
       const _Tp __x = __z.real();
@@ -819,17 +819,17 @@ namespace cest
   { return __builtin_csinl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sin(const complex<_Tp>& __z) { return __complex_sin(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sin(const complex<_Tp>& __z) { return __complex_sin(__z); }
 #endif
 
   // 26.2.8/11 sinh(__z): Returns the hyperbolic sine of __z.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_sinh(const complex<_Tp>& __z)
     {
       const _Tp __x = __z.real();
@@ -849,18 +849,18 @@ namespace cest
   { return __builtin_csinhl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sinh(const complex<_Tp>& __z) { return __complex_sinh(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sinh(const complex<_Tp>& __z) { return __complex_sinh(__z); }
 #endif
 
   // 26.2.8/13 sqrt(__z): Returns the complex square root of __z.
   //                     The branch cut is on the negative axis.
   template<typename _Tp>
-    complex<_Tp>
+    constexpr complex<_Tp>
     __complex_sqrt(const complex<_Tp>& __z)
     {
       _Tp __x = __z.real();
@@ -893,18 +893,18 @@ namespace cest
   { return __builtin_csqrtl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sqrt(const complex<_Tp>& __z) { return __complex_sqrt(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     sqrt(const complex<_Tp>& __z) { return __complex_sqrt(__z); }
 #endif
 
   // 26.2.8/14 tan(__z):  Return the complex tangent of __z.
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_tan(const complex<_Tp>& __z)
     { return cest::sin(__z) / cest::cos(__z); }
 
@@ -920,11 +920,11 @@ namespace cest
   { return __builtin_ctanl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     tan(const complex<_Tp>& __z) { return __complex_tan(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     tan(const complex<_Tp>& __z) { return __complex_tan(__z); }
 #endif
 
@@ -932,7 +932,7 @@ namespace cest
   // 26.2.8/15 tanh(__z):  Returns the hyperbolic tangent of __z.
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_tanh(const complex<_Tp>& __z)
     { return cest::sinh(__z) / cest::cosh(__z); }
 
@@ -948,11 +948,11 @@ namespace cest
   { return __builtin_ctanhl(__z); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     tanh(const complex<_Tp>& __z) { return __complex_tanh(__z.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     tanh(const complex<_Tp>& __z) { return __complex_tanh(__z); }
 #endif
 
@@ -961,7 +961,7 @@ namespace cest
   //                          raised to the __y-th power.  The branch
   //                          cut is on the negative axis.
   template<typename _Tp>
-    complex<_Tp>
+    constexpr complex<_Tp>
     __complex_pow_unsigned(complex<_Tp> __x, unsigned __n)
     {
       complex<_Tp> __y = __n % 2 ? __x : complex<_Tp>(1);
@@ -983,7 +983,7 @@ namespace cest
   //   http://gcc.gnu.org/ml/libstdc++/2013-01/msg00058.html
   // and also PR57974.
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     pow(const complex<_Tp>& __z, int __n)
     {
       return __n < 0
@@ -992,7 +992,7 @@ namespace cest
     }
 
   template<typename _Tp>
-    complex<_Tp>
+    constexpr complex<_Tp>
     pow(const complex<_Tp>& __x, const _Tp& __y)
     {
 #if ! _GLIBCXX_USE_C99_COMPLEX
@@ -1007,7 +1007,7 @@ namespace cest
     }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     __complex_pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
     { return __x == _Tp() ? _Tp() : cest::exp(__y * cest::log(__x)); }
 
@@ -1026,18 +1026,18 @@ namespace cest
   { return __builtin_cpowl(__x, __y); }
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
     { return __complex_pow(__x.__rep(), __y.__rep()); }
 #else
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
     { return __complex_pow(__x, __y); }
 #endif
 
   template<typename _Tp>
-    inline complex<_Tp>
+    constexpr complex<_Tp>
     pow(const _Tp& __x, const complex<_Tp>& __y)
     {
       return __x > _Tp() ? cest::polar<_Tp>(exp(__y.real() * log(__x)),
-- 
2.43.0


From 4c343a4521ae519df268d561f8342f3a4cf6b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:26 +0000
Subject: [PATCH 32/43] fix: constants of string and ios_base are defined

---
 include/cest/ios_base.hpp | 36 ++++++++++++++++++------------------
 include/cest/string.hpp   |  2 +-
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/cest/ios_base.hpp b/include/cest/ios_base.hpp
index e36f348..3b6d01a 100644
--- a/include/cest/ios_base.hpp
+++ b/include/cest/ios_base.hpp
@@ -144,24 +144,24 @@ class ios_base
 {
 public:
   typedef _Ios_Fmtflags fmtflags;
-  static const fmtflags boolalpha =   _S_boolalpha;
-  static const fmtflags dec =         _S_dec;
-  static const fmtflags fixed =       _S_fixed;
-  static const fmtflags hex =         _S_hex;
-  static const fmtflags internal =    _S_internal;
-  static const fmtflags left =        _S_left;
-  static const fmtflags oct =         _S_oct;
-  static const fmtflags right =       _S_right;
-  static const fmtflags scientific =  _S_scientific;
-  static const fmtflags showbase =    _S_showbase;
-  static const fmtflags showpoint =   _S_showpoint;
-  static const fmtflags showpos =     _S_showpos;
-  static const fmtflags skipws =      _S_skipws;
-  static const fmtflags unitbuf =     _S_unitbuf;
-  static const fmtflags uppercase =   _S_uppercase;
-  static const fmtflags adjustfield = _S_adjustfield;
-  static const fmtflags basefield =   _S_basefield;
-  static const fmtflags floatfield =  _S_floatfield;
+  static constexpr fmtflags boolalpha =   _S_boolalpha;
+  static constexpr fmtflags dec =         _S_dec;
+  static constexpr fmtflags fixed =       _S_fixed;
+  static constexpr fmtflags hex =         _S_hex;
+  static constexpr fmtflags internal =    _S_internal;
+  static constexpr fmtflags left =        _S_left;
+  static constexpr fmtflags oct =         _S_oct;
+  static constexpr fmtflags right =       _S_right;
+  static constexpr fmtflags scientific =  _S_scientific;
+  static constexpr fmtflags showbase =    _S_showbase;
+  static constexpr fmtflags showpoint =   _S_showpoint;
+  static constexpr fmtflags showpos =     _S_showpos;
+  static constexpr fmtflags skipws =      _S_skipws;
+  static constexpr fmtflags unitbuf =     _S_unitbuf;
+  static constexpr fmtflags uppercase =   _S_uppercase;
+  static constexpr fmtflags adjustfield = _S_adjustfield;
+  static constexpr fmtflags basefield =   _S_basefield;
+  static constexpr fmtflags floatfield =  _S_floatfield;
 
   typedef _Ios_Iostate iostate;
   static constexpr iostate badbit  = _S_badbit;
diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 6984c48..f6c7be2 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -33,7 +33,7 @@ public:
   using reverse_iterator    = std::reverse_iterator<iterator>;
   using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-  static const size_type npos = static_cast<size_type>(-1);
+  static constexpr size_type npos = static_cast<size_type>(-1);
 
   constexpr basic_string() noexcept(noexcept( Allocator() )) :
     basic_string( Allocator() ) {}
-- 
2.43.0


From 3188602df73b8965dffb7ab5f7c79af323f45319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:40 +0000
Subject: [PATCH 33/43] fix: istream.hpp can be used alone

---
 include/cest/istream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/istream.hpp b/include/cest/istream.hpp
index b89df35..cb482ad 100644
--- a/include/cest/istream.hpp
+++ b/include/cest/istream.hpp
@@ -2,6 +2,7 @@
 #define _CEST_ISTREAM_HPP_
 
 #include "ios.hpp" // cest::basic_ios
+#include "ostream.hpp" // cest::basic_ostream (a tied stream)
 #include "streambuf.hpp"
 #include <string>  // std::char_traits
 
-- 
2.43.0


From 607662f7215b7468e29a8d146627ae51399cc0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:05 +0000
Subject: [PATCH 34/43] fix: deque obtains its block table through the
 container's allocator

---
 include/cest/deque.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index b93cf2f..7f29052 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -368,7 +368,9 @@ private:
   size_type           m_front_chunk;
   size_type           m_back_chunk;
   size_type           m_size;
-  vector<value_type*> m_chunks;
+  // The block table's storage comes from the container's allocator too
+  vector<value_type*, typename std::allocator_traits<Allocator>::
+                        template rebind_alloc<value_type*>> m_chunks;
 };
 
 } // namespace cest
-- 
2.43.0


From a3b82529630d8571ce35e3fe70da12936675e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:45 +0000
Subject: [PATCH 35/43] fix: deque uses the allocator it is constructed with

---
 include/cest/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 7f29052..63596e5 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -150,7 +150,9 @@ public:
     value_type* const* m_ppchunk = nullptr; // address of the vector element
   };
 
-  constexpr deque()
+  constexpr deque() : deque(Allocator()) {}
+
+  explicit constexpr deque(const Allocator& alloc) : m_alloc(alloc)
   {
     value_type *p = m_alloc.allocate(CHUNK_SIZE);
     m_front = CHUNK_SIZE / 2;
@@ -167,7 +169,7 @@ public:
   }
 
   constexpr deque(std::initializer_list<T> init,
-                  const Allocator& alloc = Allocator()) : deque()
+                  const Allocator& alloc = Allocator()) : deque(alloc)
   {
     for (const auto &x : init) { push_back(x); }
   }
-- 
2.43.0


From 0d6c4edc119379b5c89f266d12022954e9939a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 36/43] fix: the block table of a deque uses the allocator
 given

---
 include/cest/deque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 63596e5..6d7d7b6 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -152,7 +152,8 @@ public:
 
   constexpr deque() : deque(Allocator()) {}
 
-  explicit constexpr deque(const Allocator& alloc) : m_alloc(alloc)
+  explicit constexpr deque(const Allocator& alloc)
+    : m_alloc(alloc), m_chunks(0, alloc)
   {
     value_type *p = m_alloc.allocate(CHUNK_SIZE);
     m_front = CHUNK_SIZE / 2;
-- 
2.43.0


From 0f79933727c2aeea9fab2aec7b506c708b6619be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:06 +0000
Subject: [PATCH 37/43] fix: ceil and floor of numbers next to an integer

---
 include/cest/cmath.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index a8ac844..a2705dc 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -119,7 +119,7 @@ namespace cest {
   }
 
   constexpr int ceil(double v) {
-    return ((double)(int)v != v && v > 0) ?  v + 1 : v;
+    return ((double)(int)v != v && v > 0) ? (int)v + 1 : (int)v;
   }
 
   constexpr double cos(double x) {
@@ -131,7 +131,7 @@ namespace cest {
   }
 
   constexpr int floor(double v) {
-    return ((double)(int)v != v && v < 0) ?  v - 1 : v;
+    return ((double)(int)v != v && v < 0) ? (int)v - 1 : (int)v;
   }
 
   constexpr double pow(double base, int exponent) {
-- 
2.43.0


From dce2a240dc3a2cb606b77c631ce7afe433dfcd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:07 +0000
Subject: [PATCH 38/43] fix: shared_ptr deletes the pointee as the type it was
 given as

---
 include/cest/shared_ptr.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 1d8d78b..234e105 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -65,6 +65,10 @@ protected:
   template <typename U>
   struct def_del : default_delete<U> {};
 
+  // the pointee is deleted as the type it was given as; unless an array
+  template <typename Y>
+  using del_for = def_del<std::conditional_t<std::is_array_v<Td>,Td,Y>>;
+
 public:
   using element_type = std::remove_extent_t<T>;
   using weak_type = std::weak_ptr<T>;
@@ -74,7 +78,7 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del<Td>>{ptr,def_del<Td>{}}} {}
+    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,del_for<Y>>{ptr,del_for<Y>{}}} {}
 
   template <class Y, class Deleter>
   constexpr shared_ptr_base(Y* ptr, Deleter del)
-- 
2.43.0


From 71045916c7a8a78ec749ab6a13ff617e8734688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:11 +0000
Subject: [PATCH 39/43] fix: forward_list moves the rvalues it is given into
 its nodes

---
 include/cest/forward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 3c5ec8a..1e98313 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -28,6 +28,8 @@ struct forward_list {
   struct node : node_base {
     constexpr node(const value_type &v, node_base* n = nullptr)
                                                   : node_base{n}, value{v} {}
+    constexpr node(value_type &&v, node_base* n = nullptr)
+                                       : node_base{n}, value{std::move(v)} {}
     value_type value;
   };
 
-- 
2.43.0


From 5cbcab7f458eb18184618a13c42cefcb3ee8211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:18 +0000
Subject: [PATCH 40/43] fix: pow of a complex zero and a real exponent is zero

---
 include/cest/complex.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index df44f40..f359474 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -995,10 +995,8 @@ namespace cest
     constexpr complex<_Tp>
     pow(const complex<_Tp>& __x, const _Tp& __y)
     {
-#if ! _GLIBCXX_USE_C99_COMPLEX
       if (__x == _Tp())
 	return _Tp();
-#endif
       if (__x.imag() == _Tp() && __x.real() > _Tp())
         return exp(__y * log(__x.real()));
 
-- 
2.43.0


From d54509335cbd11b426bff03fff20af2edd2e3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:44 +0000
Subject: [PATCH 41/43] fix: list moves the rvalues it is given into its nodes

---
 include/cest/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 043c1cc..c146283 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -52,6 +52,7 @@ struct list {
   struct node : node_base
   {
     constexpr node(const value_type &v) : value(v) {}
+    constexpr node(value_type &&v)      : value(std::move(v)) {}
     value_type value;
   };
 
-- 
2.43.0


From 1196d8290f7e253b7d1de6e9831c9d44032fa500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:44 +0000
Subject: [PATCH 42/43] fix: function accepts const callables, and moves from
 rvalue ones only

---
 include/cest/functional.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cest/functional.hpp b/include/cest/functional.hpp
index 4d7c0f7..e045479 100644
--- a/include/cest/functional.hpp
+++ b/include/cest/functional.hpp
@@ -22,7 +22,8 @@ template <typename F, typename R, typename... Args>
 class impl_f : public virt_impl_f<R , Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  template <typename G>
+  constexpr impl_f(G&& f) : f_(std::forward<G>(f)) {}
 
   constexpr virtual R operator()(Args... args) override {
     return f_(std::forward<Args>(args)...);
@@ -35,7 +36,8 @@ template <typename F, typename... Args>
 class impl_f<F, void, Args...> : public virt_impl_f<void, Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  template <typename G>
+  constexpr impl_f(G&& f) : f_(std::forward<G>(f)) {}
 
   constexpr virtual void operator()(Args... args) override {
     f_(std::forward<Args>(args)...);
@@ -61,7 +63,7 @@ public:
     requires (!std::is_same_v<std::decay_t<F>, function>)
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
-                         R, Args...>>(std::move(f))){}
+                         R, Args...>>(std::forward<F>(f))){}
 };
 
 template <typename... Args>
@@ -78,7 +80,7 @@ public:
     requires (!std::is_same_v<std::decay_t<F>, function>)
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
-                         void, Args...>>(std::move(f))){}
+                         void, Args...>>(std::forward<F>(f))){}
 };
 
 // Deduction guide borrowed from libcxx
-- 
2.43.0


From 788fcda4f2529e9ea3c2bd5a4927bcd63370058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:29 +0000
Subject: [PATCH 43/43] fix: const iterators can be default-constructed, as
 forward iterators must be

---
 include/cest/deque.hpp        | 1 +
 include/cest/forward_list.hpp | 1 +
 include/cest/list.hpp         | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 6d7d7b6..023ded5 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -97,6 +97,7 @@ public:
     using pointer           = const value_type*;
     using iterator_category = std::random_access_iterator_tag;
 
+    constexpr const_iter() = default;
     constexpr const_iter(const value_type* p, value_type* const* ppchunk)
       : m_p(p),      m_ppchunk(ppchunk)      {}
     constexpr const_iter(const iter&     it)
diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 1e98313..6b334fb 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -72,6 +72,7 @@ struct forward_list {
     using pointer           = const value_type*;
     using iterator_category = std::forward_iterator_tag;
 
+    constexpr const_iter() = default;
     constexpr const_iter(const node_base *n) : m_node(n)         {}
     constexpr const_iter(const iter&     it) : m_node(it.m_node) {}
 
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index c146283..b52aea4 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -103,6 +103,7 @@ struct list {
     using pointer           = const value_type*;
     using iterator_category = std::bidirectional_iterator_tag;
 
+    constexpr const_iter() = default;
     constexpr const_iter(const node_base *n) : m_node(n)         {}
     constexpr const_iter(const iter&     it) : m_node(it.m_node) {}
     
-- 
2.43.0

