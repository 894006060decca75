From 306143a72234175434d571d51151a2b8a41de518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 1/5] fix: modify with rollback keeps the element when rollback
 succeeds after a throw

The rethrow was issued inside the inner try block, so the handler meant for
exceptions thrown by the rollback itself erased the successfully restored
element, and erased it a second time when the rollback check had failed.
---
 include/boost/multi_index_container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/multi_index_container.hpp b/include/boost/multi_index_container.hpp
index 8ac43fc..6a1d248 100644
--- a/include/boost/multi_index_container.hpp
+++ b/include/boost/multi_index_container.hpp
@@ -1077,13 +1077,13 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
       BOOST_TRY{
         back_(const_cast<value_type&>(x->value()));
         if(!super::check_rollback_(x))this->erase_(x);
-        BOOST_RETHROW;
       }
       BOOST_CATCH(...){
         this->erase_(x);
         BOOST_RETHROW;
       }
       BOOST_CATCH_END
+      BOOST_RETHROW;
     }
     BOOST_CATCH_END
 
-- 
2.43.0


From e09a2697d35f2a2c7271d7e45fd8aee66cec7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:18 +0000
Subject: [PATCH 2/5] fix: hashed and random-access indices allocate with the
 new container's allocator

On allocator-extended copy and move construction the bucket and pointer
arrays were allocated with the allocator of the source container, although
they are later deallocated with the allocator of the new one.
---
 include/boost/multi_index/hashed_index.hpp        | 4 ++--
 include/boost/multi_index/random_access_index.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/multi_index/hashed_index.hpp b/include/boost/multi_index/hashed_index.hpp
index 5100d3c..72deff6 100644
--- a/include/boost/multi_index/hashed_index.hpp
+++ b/include/boost/multi_index/hashed_index.hpp
@@ -770,7 +770,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),x.buckets.size()),
+    buckets(this->get_allocator(),header()->impl(),x.buckets.size()),
     mlf(x.mlf),
     max_load(x.max_load)
 
@@ -791,7 +791,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),0),
+    buckets(this->get_allocator(),header()->impl(),0),
     mlf(1.0f)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 96b4565..a86fb6d 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -766,7 +766,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
 
   random_access_index(const random_access_index<SuperMeta,TagList>& x):
     super(x),
-    ptrs(x.get_allocator(),header()->impl(),x.size())
+    ptrs(this->get_allocator(),header()->impl(),x.size())
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
@@ -780,7 +780,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
   random_access_index(
     const random_access_index<SuperMeta,TagList>& x,do_not_copy_elements_tag):
     super(x,do_not_copy_elements_tag()),
-    ptrs(x.get_allocator(),header()->impl(),0)
+    ptrs(this->get_allocator(),header()->impl(),0)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
-- 
2.43.0


From 2de6f1f5c9a599fd996c26cd5e36e18657e59642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:35 +0000
Subject: [PATCH 3/5] fix: sequenced index splice no longer swallows exceptions

external_splice relinked the elements transferred so far and then fell
through the catch block: the exception was lost and the elements were
relinked a second time from a wrong starting point.
---
 include/boost/multi_index/sequenced_index.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 770a6ce..3ea6f5f 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -1110,6 +1110,7 @@ private:
       BOOST_CATCH(...){
         ++first_to_relink;
         relink(position.get_node(),first_to_relink.get_node(),header());
+        BOOST_RETHROW;
       }
       BOOST_CATCH_END
       ++first_to_relink;
-- 
2.43.0


From d18f0a00577a1713bdaae1533eadd2c1c5be7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:33 +0000
Subject: [PATCH 4/5] fix: sort of a sequenced index is stable

The elements carried over, which come later in the sequence, were used as
the left side when collated with the counters, so that they went before
earlier equivalent elements.
---
 include/boost/multi_index/detail/seq_index_ops.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/multi_index/detail/seq_index_ops.hpp b/include/boost/multi_index/detail/seq_index_ops.hpp
index b12cc32..ebb888d 100644
--- a/include/boost/multi_index/detail/seq_index_ops.hpp
+++ b/include/boost/multi_index/detail/seq_index_ops.hpp
@@ -160,7 +160,10 @@ void sequenced_index_sort(Node* header,Compare comp)
       impl_type::relink(carry.next(),header->next());
       std::size_t i=0;
       while(i<fill&&counter[i].next()!=static_cast<impl_pointer>(&counter[i])){
-        sequenced_index_collate<Node>(&carry,&counter[i++],comp);
+        sequenced_index_collate<Node>(&counter[i],&carry,comp);
+        impl_type::swap(
+          static_cast<impl_pointer>(&carry),
+          static_cast<impl_pointer>(&counter[i++]));
       }
       impl_type::swap(
         static_cast<impl_pointer>(&carry),
-- 
2.43.0


From 62497ca08c28fb8e374bcd0351e49ec24a28901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 5/5] fix: reserving the largest capacity in a random-access
 index throws

---
 include/boost/multi_index/detail/rnd_index_ptr_array.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/multi_index/detail/rnd_index_ptr_array.hpp b/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
index e758b62..e9a0c57 100644
--- a/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
+++ b/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
@@ -19,6 +19,9 @@
 #include <boost/multi_index/detail/allocator_traits.hpp>
 #include <boost/multi_index/detail/auto_space.hpp>
 #include <boost/multi_index/detail/rnd_index_node.hpp>
+#include <boost/throw_exception.hpp>
+#include <limits>
+#include <stdexcept>
 
 namespace boost{
 
@@ -130,6 +133,10 @@ private:
 
   void set_capacity(size_type c)
   {
+    if(c==(std::numeric_limits<size_type>::max)()){ /* c+1 would wrap around */
+      throw_exception(
+        std::length_error("random access index capacity too large"));
+    }
     auto_space<value_type,Allocator> spc1(spc.get_allocator(),c+1);
     node_impl_type::transfer(begin(),end()+1,spc1.data());
     spc.swap(spc1);
-- 
2.43.0

