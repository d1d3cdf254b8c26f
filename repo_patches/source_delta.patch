From a52dddbdb4fb74f9ba291cafe1f138b46c3cdc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 1/9] fix: make sequenced index sort stable as documented

---
 include/boost/multi_index/detail/seq_index_ops.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/multi_index/detail/seq_index_ops.hpp b/include/boost/multi_index/detail/seq_index_ops.hpp
index b12cc32..c3e3c3f 100644
--- a/include/boost/multi_index/detail/seq_index_ops.hpp
+++ b/include/boost/multi_index/detail/seq_index_ops.hpp
@@ -160,7 +160,13 @@ void sequenced_index_sort(Node* header,Compare comp)
       impl_type::relink(carry.next(),header->next());
       std::size_t i=0;
       while(i<fill&&counter[i].next()!=static_cast<impl_pointer>(&counter[i])){
-        sequenced_index_collate<Node>(&carry,&counter[i++],comp);
+        /* counter[i] holds elements preceding those in carry */
+
+        sequenced_index_collate<Node>(&counter[i],&carry,comp);
+        impl_type::swap(
+          static_cast<impl_pointer>(&carry),
+          static_cast<impl_pointer>(&counter[i]));
+        ++i;
       }
       impl_type::swap(
         static_cast<impl_pointer>(&carry),
-- 
2.43.0


From 228d957d7869806a6214e339cd953b19102916fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:51 +0000
Subject: [PATCH 2/9] fix: hashed and random access indices allocate from their
 own container's allocator when copied or moved

---
 include/boost/multi_index/hashed_index.hpp        | 4 ++--
 include/boost/multi_index/random_access_index.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/multi_index/hashed_index.hpp b/include/boost/multi_index/hashed_index.hpp
index 5100d3c..72deff6 100644
--- a/include/boost/multi_index/hashed_index.hpp
+++ b/include/boost/multi_index/hashed_index.hpp
@@ -770,7 +770,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),x.buckets.size()),
+    buckets(this->get_allocator(),header()->impl(),x.buckets.size()),
     mlf(x.mlf),
     max_load(x.max_load)
 
@@ -791,7 +791,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     key(x.key),
     hash_(x.hash_),
     eq_(x.eq_),
-    buckets(x.get_allocator(),header()->impl(),0),
+    buckets(this->get_allocator(),header()->impl(),0),
     mlf(1.0f)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index 96b4565..a86fb6d 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -766,7 +766,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
 
   random_access_index(const random_access_index<SuperMeta,TagList>& x):
     super(x),
-    ptrs(x.get_allocator(),header()->impl(),x.size())
+    ptrs(this->get_allocator(),header()->impl(),x.size())
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
@@ -780,7 +780,7 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
   random_access_index(
     const random_access_index<SuperMeta,TagList>& x,do_not_copy_elements_tag):
     super(x,do_not_copy_elements_tag()),
-    ptrs(x.get_allocator(),header()->impl(),0)
+    ptrs(this->get_allocator(),header()->impl(),0)
 
 #if defined(BOOST_MULTI_INDEX_ENABLE_SAFE_MODE)
     ,safe(*this)
-- 
2.43.0


From bbde8f2be003d73c201e6fc4f2dcd0bcb65406f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 3/9] fix: keep an element restored by the rollback when
 modify() throws

---
 include/boost/multi_index_container.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index_container.hpp b/include/boost/multi_index_container.hpp
index 8ac43fc..e9a63fc 100644
--- a/include/boost/multi_index_container.hpp
+++ b/include/boost/multi_index_container.hpp
@@ -1076,14 +1076,15 @@ BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
     BOOST_CATCH(...){
       BOOST_TRY{
         back_(const_cast<value_type&>(x->value()));
-        if(!super::check_rollback_(x))this->erase_(x);
-        BOOST_RETHROW;
+        b=super::check_rollback_(x);
       }
       BOOST_CATCH(...){
         this->erase_(x);
         BOOST_RETHROW;
       }
       BOOST_CATCH_END
+      if(!b)this->erase_(x);
+      BOOST_RETHROW;
     }
     BOOST_CATCH_END
 
-- 
2.43.0


From 2ab2b835a90f2c4ec3d8efe88c8f24388ed073cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:36 +0000
Subject: [PATCH 4/9] fix: propagate exceptions thrown while splicing into a
 sequenced index

---
 include/boost/multi_index/sequenced_index.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 770a6ce..3ea6f5f 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -1110,6 +1110,7 @@ private:
       BOOST_CATCH(...){
         ++first_to_relink;
         relink(position.get_node(),first_to_relink.get_node(),header());
+        BOOST_RETHROW;
       }
       BOOST_CATCH_END
       ++first_to_relink;
-- 
2.43.0


From 2583a642d2b8b760cf9a2dd147d0a23b1349bbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:33 +0000
Subject: [PATCH 5/9] fix: check the position of a range insertion in safe mode
 (sequenced and random access indices)

---
 include/boost/multi_index/random_access_index.hpp | 2 ++
 include/boost/multi_index/sequenced_index.hpp     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/multi_index/random_access_index.hpp b/include/boost/multi_index/random_access_index.hpp
index a86fb6d..684632e 100644
--- a/include/boost/multi_index/random_access_index.hpp
+++ b/include/boost/multi_index/random_access_index.hpp
@@ -1045,6 +1045,8 @@ private:
   void insert_iter(
     iterator position,InputIterator first,InputIterator last,mpl::true_)
   {
+    BOOST_MULTI_INDEX_CHECK_VALID_ITERATOR(position);
+    BOOST_MULTI_INDEX_CHECK_IS_OWNER(position,*this);
     BOOST_MULTI_INDEX_RND_INDEX_CHECK_INVARIANT;
     size_type s=0;
     BOOST_TRY{
diff --git a/include/boost/multi_index/sequenced_index.hpp b/include/boost/multi_index/sequenced_index.hpp
index 3ea6f5f..41bf2ae 100644
--- a/include/boost/multi_index/sequenced_index.hpp
+++ b/include/boost/multi_index/sequenced_index.hpp
@@ -973,6 +973,8 @@ private:
   void insert_iter(
     iterator position,InputIterator first,InputIterator last,mpl::true_)
   {
+    BOOST_MULTI_INDEX_CHECK_VALID_ITERATOR(position);
+    BOOST_MULTI_INDEX_CHECK_IS_OWNER(position,*this);
     BOOST_MULTI_INDEX_SEQ_INDEX_CHECK_INVARIANT;
     for(;first!=last;++first){
       std::pair<final_node_type*,bool> p=
-- 
2.43.0


From b2e57fe999c3d81dfbef4781d1333489465b7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 6/9] fix: do not dereference null pointers when merging empty
 random access indices

---
 include/boost/multi_index/detail/rnd_index_ops.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/multi_index/detail/rnd_index_ops.hpp b/include/boost/multi_index/detail/rnd_index_ops.hpp
index f5e76e4..c1e6221 100644
--- a/include/boost/multi_index/detail/rnd_index_ops.hpp
+++ b/include/boost/multi_index/detail/rnd_index_ops.hpp
@@ -89,6 +89,8 @@ void random_access_index_inplace_merge(
   typedef typename Node::impl_pointer     impl_pointer;
   typedef typename Node::impl_ptr_pointer impl_ptr_pointer;
 
+  if(ptrs.size()<=1)return; /* nothing to merge, spc.data() may be null */
+
   auto_space<impl_pointer,Allocator> spc(al,ptrs.size());
 
   impl_ptr_pointer first0=ptrs.begin(),
-- 
2.43.0


From ae260eafd321d9b613c2f00f3d98e687e69a18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 7/9] fix: random_access_index::unique(pred) passed the
 arguments to pred in the wrong order

The documentation says binary_pred(*i,*(i-1)), as std::list and
sequenced_index do.
---
 include/boost/multi_index/detail/rnd_index_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/multi_index/detail/rnd_index_ops.hpp b/include/boost/multi_index/detail/rnd_index_ops.hpp
index c1e6221..1ae8d98 100644
--- a/include/boost/multi_index/detail/rnd_index_ops.hpp
+++ b/include/boost/multi_index/detail/rnd_index_ops.hpp
@@ -64,8 +64,8 @@ Node* random_access_index_unique(
   if(first!=last){
     for(;++first!=last;){
       if(!binary_pred(
-           const_cast<const value_type&>(Node::from_impl(*res)->value()),
-           const_cast<const value_type&>(Node::from_impl(*first)->value()))){
+           const_cast<const value_type&>(Node::from_impl(*first)->value()),
+           const_cast<const value_type&>(Node::from_impl(*res)->value()))){
         ++res;
         if(first!=res){
           std::swap(*first,*res);
-- 
2.43.0


From 43f92f198eb3bc5c8c68966fcf3fb297c20384e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:15 +0000
Subject: [PATCH 8/9] fix: make hashed index reserve() fail, rather than do
 nothing, when the number of buckets needed does not fit size_type

---
 include/boost/multi_index/hashed_index.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/multi_index/hashed_index.hpp b/include/boost/multi_index/hashed_index.hpp
index 72deff6..ca9b189 100644
--- a/include/boost/multi_index/hashed_index.hpp
+++ b/include/boost/multi_index/hashed_index.hpp
@@ -744,7 +744,10 @@ public:
 
   void reserve(size_type n)
   {
-    rehash(static_cast<size_type>(std::ceil(static_cast<float>(n)/mlf)));
+    size_type bc =(std::numeric_limits<size_type>::max)();
+    float     fbc=std::ceil(static_cast<float>(n)/mlf);
+    if(bc>fbc)bc=static_cast<size_type>(fbc);
+    rehash(bc);
   }
 
 BOOST_MULTI_INDEX_PROTECTED_IF_MEMBER_TEMPLATE_FRIENDS:
-- 
2.43.0


From 03ef03fe6902821789047afa41cc84d4f46f97f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:15 +0000
Subject: [PATCH 9/9] fix: do not wrap around when
 random_access_index::reserve() is asked for the maximum of size_type

---
 include/boost/multi_index/detail/rnd_index_ptr_array.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/multi_index/detail/rnd_index_ptr_array.hpp b/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
index e758b62..abd1b4a 100644
--- a/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
+++ b/include/boost/multi_index/detail/rnd_index_ptr_array.hpp
@@ -130,7 +130,10 @@ private:
 
   void set_capacity(size_type c)
   {
-    auto_space<value_type,Allocator> spc1(spc.get_allocator(),c+1);
+    /* if c+1 wraps around, request c, which can't be allocated anyway */
+
+    auto_space<value_type,Allocator> spc1(
+      spc.get_allocator(),static_cast<size_type>(c+1)?c+1:c);
     node_impl_type::transfer(begin(),end()+1,spc1.data());
     spc.swap(spc1);
     capacity_=c;
-- 
2.43.0

