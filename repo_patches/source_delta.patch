From f713a6210deecb9dbcfcc05514d33926889c22a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 01/50] fix: int_vector_mapper move operations hand over
 mapping, file descriptor, file size and data offset

---
 include/sdsl/int_vector_mapper.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 296cfd6..2d86b1c 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -100,6 +100,10 @@ class int_vector_mapper
             m_wrapper.m_data = ivm.m_wrapper.m_data;
             m_wrapper.m_size = ivm.m_wrapper.m_size;
             m_wrapper.width(ivm.m_wrapper.width());
+            m_mapped_data = ivm.m_mapped_data;
+            m_file_size_bytes = ivm.m_file_size_bytes;
+            m_data_offset = ivm.m_data_offset;
+            m_fd = ivm.m_fd;
             m_file_name = ivm.m_file_name;
             m_delete_on_close = ivm.m_delete_on_close;
             ivm.m_wrapper.m_data = nullptr;
@@ -109,15 +113,16 @@ class int_vector_mapper
         }
         int_vector_mapper& operator=(int_vector_mapper&& ivm)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            if (this != &ivm) {
+                // the old mapping of this object is released by the destructor of ivm
+                m_wrapper.swap(ivm.m_wrapper);
+                std::swap(m_mapped_data, ivm.m_mapped_data);
+                std::swap(m_file_size_bytes, ivm.m_file_size_bytes);
+                std::swap(m_data_offset, ivm.m_data_offset);
+                std::swap(m_fd, ivm.m_fd);
+                std::swap(m_file_name, ivm.m_file_name);
+                std::swap(m_delete_on_close, ivm.m_delete_on_close);
+            }
             return (*this);
         }
         int_vector_mapper(const std::string& key,const cache_config& config)
-- 
2.43.0


From dc35644fa40a8994505a02ab9e75843f9aa5fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 02/50] fix: vlc_vector::swap swaps the sample density

---
 include/sdsl/vlc_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/vlc_vector.hpp b/include/sdsl/vlc_vector.hpp
index ce0f938..5847430 100644
--- a/include/sdsl/vlc_vector.hpp
+++ b/include/sdsl/vlc_vector.hpp
@@ -181,6 +181,7 @@ void vlc_vector<t_coder, t_dens,t_width>::swap(vlc_vector<t_coder, t_dens,t_widt
         m_z.swap(v.m_z);                    // swap compressed bit streams
         m_sample_pointer.swap(v.m_sample_pointer);
         std::swap(m_size, v.m_size);// swap the number of elements
+        std::swap(m_sample_dens, v.m_sample_dens);// swap the sample density
     }
 }
 
-- 
2.43.0


From 197ec29f8e0b8e71f7ecf522653654d2218fc611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 03/50] fix: louds_tree::swap and louds_tree::serialize compile
 and account for all written bytes

---
 include/sdsl/louds_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 6d6d6e9..943f2b4 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -179,16 +179,16 @@ class louds_tree
 
         void swap(louds_tree& tree) {
             m_bv.swap(tree.m_bv);
-            util::swap_support(m_bv_select1, tree.m_select1, &m_bv, &(tree.m_bv));
-            util::swap_support(m_bv_select0, tree.m_select0, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select1, tree.m_bv_select1, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select0, tree.m_bv_select0, &m_bv, &(tree.m_bv));
         }
 
         size_type serialize(std::ostream& out, structure_tree_node* v=nullptr, std::string name="")const {
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
-            m_bv.serialize(out, child, "bitvector");
-            m_bv_select1(out, child, "select1");
-            m_bv_select0(out, child, "select0");
+            written_bytes += m_bv.serialize(out, child, "bitvector");
+            written_bytes += m_bv_select1.serialize(out, child, "select1");
+            written_bytes += m_bv_select0.serialize(out, child, "select0");
             structure_tree::add_size(child, written_bytes);
             return written_bytes;
         }
-- 
2.43.0


From 908c633451e95c841c8ff6c80d3bedf8f62fa82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 04/50] fix: k2_treap and k2_tree can be copied

---
 include/sdsl/k2_treap.hpp | 2 +-
 include/sdsl/k2_tree.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 111cefc..b22a4ab 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -131,7 +131,7 @@ class k2_treap
         }
 
         //! Assignment operator
-        k2_treap& operator=(k2_treap& tr)
+        k2_treap& operator=(const k2_treap& tr)
         {
             if (this != &tr) {
                 m_t = tr.m_t;
diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index f8b8f6e..371990f 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -381,7 +381,7 @@ class k2_tree
         }
 
         //! Assignment operator
-        k2_tree& operator=(k2_tree& tr)
+        k2_tree& operator=(const k2_tree& tr)
         {
             if (this != &tr) {
                 k_t = tr.k_t;
-- 
2.43.0


From df744518aa2958e1661f5647a2f255390d05a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 05/50] fix: store_to_file and store_to_checked_file report a
 failed open also when not verbose

---
 lib/io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/io.cpp b/lib/io.cpp
index 695f780..bdb0d87 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -13,8 +13,8 @@ bool store_to_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     uint64_t n = strlen((const char*)v);
     out.write(v, n);
@@ -28,8 +28,8 @@ bool store_to_file(const std::string& v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const std::string& v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     out.write(v.data(),v.size());
     out.close();
@@ -44,8 +44,8 @@ bool store_to_checked_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_checked_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     add_hash(v, out);
     out.close();
-- 
2.43.0


From f7ca50c65477be6203f4218f9d79dfcf7986c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 06/50] fix: write_member<std::string> adds the size to its own
 node of the structure tree

---
 lib/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io.cpp b/lib/io.cpp
index bdb0d87..93522ed 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -61,7 +61,7 @@ size_t write_member<std::string>(const std::string& t, std::ostream& out, struct
     written_bytes += write_member(t.size(), out, child, "length");
     out.write(t.c_str(), t.size());
     written_bytes += t.size();
-    structure_tree::add_size(v, written_bytes);
+    structure_tree::add_size(child, written_bytes);
     return written_bytes;
 }
 
-- 
2.43.0


From f3b3d07c5a33a34f0eb022c80d1dc794ad94bf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 07/50] fix: int_vector_mapper releases the initial memory of
 its wrapper

---
 include/sdsl/int_vector_mapper.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 2d86b1c..d70d400 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -97,6 +97,7 @@ class int_vector_mapper
         }
         int_vector_mapper(int_vector_mapper&& ivm)
         {
+            memory_manager::clear(m_wrapper); // release the initial memory of the wrapper
             m_wrapper.m_data = ivm.m_wrapper.m_data;
             m_wrapper.m_size = ivm.m_wrapper.m_size;
             m_wrapper.width(ivm.m_wrapper.width());
@@ -186,6 +187,7 @@ class int_vector_mapper
                 throw std::runtime_error(mmap_error);
             }
 
+            memory_manager::clear(m_wrapper); // release the initial memory of the wrapper
             m_wrapper.m_size = size_in_bits;
             m_wrapper.m_data = (uint64_t*)(m_mapped_data + m_data_offset);
 
-- 
2.43.0


From 2784195e39eb93baae94cfc6d94d7fdbd5c919f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 08/50] fix: int_vector_mapper does not leak its file
 descriptor or unmap twice when mapping fails

---
 include/sdsl/int_vector_mapper.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index d70d400..2c82077 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -184,6 +184,7 @@ class int_vector_mapper
                 std::string mmap_error
                     = std::string("int_vector_mapper: mmap error. ")
                       + std::string(util::str_from_errno());
+                memory_manager::close_file_for_mmap(m_fd);
                 throw std::runtime_error(mmap_error);
             }
 
@@ -215,6 +216,8 @@ class int_vector_mapper
                         std::cerr << "int_vector_mapper: error unmapping file mapping'"
                                   << m_file_name << "': " << ret << std::endl;
                     }
+                    m_mapped_data = nullptr; // do not unmap twice if an error occurs below
+                    m_wrapper.m_data = nullptr;
                 }
                 int tret = memory_manager::truncate_file_mmap(m_fd, new_size_in_bytes + m_data_offset);
                 if (tret == -1) {
-- 
2.43.0


From 9ceeb8cd8d4b27e2444f4bc6203499a2c4b7c0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 09/50] fix: int_vector_buffer survives move assignment from
 itself

---
 include/sdsl/int_vector_buffer.hpp | 48 ++++++++++++++++--------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index 6017015..f9819e8 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -208,29 +208,31 @@ class int_vector_buffer
         //! Move assignment operator.
         int_vector_buffer<t_width>& operator=(int_vector_buffer&& ivb)
         {
-            close();
-            ivb.m_ifile.close();
-            ivb.m_ofile.close();
-            m_filename = ivb.m_filename;
-            m_ifile.open(m_filename, std::ios::in|std::ios::binary);
-            m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
-            assert(m_ifile.good());
-            assert(m_ofile.good());
-            // assign the values of ivb to this
-            m_buffer = (int_vector<t_width>&&)ivb.m_buffer;
-            m_need_to_write = ivb.m_need_to_write;
-            m_offset = ivb.m_offset;
-            m_buffersize = ivb.m_buffersize;
-            m_size = ivb.m_size;
-            m_begin = ivb.m_begin;
-            // set ivb to default-constructor state
-            ivb.m_filename = "";
-            ivb.m_buffer = int_vector<t_width>();
-            ivb.m_need_to_write = false;
-            ivb.m_offset = 0;
-            ivb.m_buffersize = 8;
-            ivb.m_size = 0;
-            ivb.m_begin = 0;
+            if (this != &ivb) {
+                close();
+                ivb.m_ifile.close();
+                ivb.m_ofile.close();
+                m_filename = ivb.m_filename;
+                m_ifile.open(m_filename, std::ios::in|std::ios::binary);
+                m_ofile.open(m_filename, std::ios::in|std::ios::out|std::ios::binary);
+                assert(m_ifile.good());
+                assert(m_ofile.good());
+                // assign the values of ivb to this
+                m_buffer = (int_vector<t_width>&&)ivb.m_buffer;
+                m_need_to_write = ivb.m_need_to_write;
+                m_offset = ivb.m_offset;
+                m_buffersize = ivb.m_buffersize;
+                m_size = ivb.m_size;
+                m_begin = ivb.m_begin;
+                // set ivb to default-constructor state
+                ivb.m_filename = "";
+                ivb.m_buffer = int_vector<t_width>();
+                ivb.m_need_to_write = false;
+                ivb.m_offset = 0;
+                ivb.m_buffersize = 8;
+                ivb.m_size = 0;
+                ivb.m_begin = 0;
+            }
             return *this;
         }
 
-- 
2.43.0


From 31b19eb90dec66ee3711c4fb4c29f27bbcf6bcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 10/50] fix: int_alphabet move constructor initialises its
 reference members

---
 include/sdsl/csa_alphabet_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_alphabet_strategy.hpp b/include/sdsl/csa_alphabet_strategy.hpp
index 7b49954..e19da04 100644
--- a/include/sdsl/csa_alphabet_strategy.hpp
+++ b/include/sdsl/csa_alphabet_strategy.hpp
@@ -541,7 +541,7 @@ class int_alphabet
         }
 
         //! Copy constructor
-        int_alphabet(int_alphabet&& strat)
+        int_alphabet(int_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
-- 
2.43.0


From 5bbe8661d1d8b834dabd1db4debd971d2ade027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 11/50] fix: moved csa_wt and csa_sada bind their inverse
 suffix array samples to their own suffix array samples

---
 include/sdsl/csa_sada.hpp | 1 +
 include/sdsl/csa_wt.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index 7ccf724..d576922 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -263,6 +263,7 @@ class csa_sada
                 m_psi        = std::move(csa.m_psi);
                 m_sa_sample  = std::move(csa.m_sa_sample);
                 m_isa_sample = std::move(csa.m_isa_sample);
+                m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
                 m_psi_buf    = std::move(csa.m_psi_buf);
             }
diff --git a/include/sdsl/csa_wt.hpp b/include/sdsl/csa_wt.hpp
index dd49365..2b0534f 100644
--- a/include/sdsl/csa_wt.hpp
+++ b/include/sdsl/csa_wt.hpp
@@ -364,6 +364,7 @@ auto csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat
         m_wavelet_tree = std::move(csa.m_wavelet_tree);
         m_sa_sample    = std::move(csa.m_sa_sample);
         m_isa_sample   = std::move(csa.m_isa_sample);
+        m_isa_sample.set_vector(&m_sa_sample);
         m_alphabet     = std::move(csa.m_alphabet);
     }
     return *this;
-- 
2.43.0


From bb40b5aa6fe9f4d2b432c322bfb33a9244d4d1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 12/50] fix: copied wt_gmr binds its inverse permutation
 support to its own permutation

---
 include/sdsl/wt_gmr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index d4aabcc..a4d96f1 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -773,6 +773,7 @@ class wt_gmr
             m_bv_chunks         = wt.m_bv_chunks;
             m_perm              = wt.m_perm;
             m_ips               = wt.m_ips;
+            m_ips.set_vector(&m_perm);
             m_bv_blocks_select1 = wt.m_bv_blocks_select1;
             m_bv_blocks_select1.set_vector(&m_bv_blocks);
             m_bv_chunks_select1 = wt.m_bv_chunks_select1;
-- 
2.43.0


From 697126855abef24bacae2c2932f4d859bc3f22f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 13/50] fix: moved structure_tree_node exposes its own children

---
 include/sdsl/structure_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/structure_tree.hpp b/include/sdsl/structure_tree.hpp
index e9a94f5..e157084 100644
--- a/include/sdsl/structure_tree.hpp
+++ b/include/sdsl/structure_tree.hpp
@@ -29,6 +29,8 @@ class structure_tree_node
         std::string         type;
     public:
         structure_tree_node(const std::string& n, const std::string& t) : name(n) , type(t) {}
+        structure_tree_node(structure_tree_node&& v) :
+            m_children(std::move(v.m_children)), size(v.size), name(std::move(v.name)), type(std::move(v.type)) {}
         structure_tree_node* add_child(const std::string& n, const std::string& t) {
             auto hash = n+t;
             auto child_itr = m_children.find(hash);
-- 
2.43.0


From 5bfef5aa739d6401da296ef0f7f79c57d687b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 14/50] fix: csa.bwt.select compiles for wavelet tree based
 suffix arrays

---
 include/sdsl/suffix_array_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 97c6bf5..8c20766 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -456,7 +456,7 @@ class bwt_of_csa_wt
          */
         size_type select(size_type i, const char_type c)const
         {
-            return m_csa.select(i, c);
+            return m_csa.select_bwt(i, c);
         }
 
 
-- 
2.43.0


From 813857903b420106a870bf7616827c72e35839a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 15/50] fix: vbyte io wrappers of int_vector compile and round
 trip

---
 include/sdsl/int_vector_io_wrappers.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/int_vector_io_wrappers.hpp b/include/sdsl/int_vector_io_wrappers.hpp
index 7638a91..d1ceda9 100644
--- a/include/sdsl/int_vector_io_wrappers.hpp
+++ b/include/sdsl/int_vector_io_wrappers.hpp
@@ -41,7 +41,7 @@ class int_vector_serialize_vbyte_wrapper
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
             // (1) write size and int_width
-            written_bytes += _sdsl_serialize_size_and_int_width(out, fixedIntWidth, m_vec.width(), m_vec.bit_size());
+            written_bytes += int_vector_type::write_header(m_vec.bit_size(), m_vec.width(), out);
             // (2) write entries in vbyte coding
             for (size_type i=0; i < m_vec.size(); ++i) {
                 value_type ww = m_vec[i];
@@ -78,9 +78,9 @@ class int_vector_load_vbyte_wrapper
 
         void load(std::istream& in) {
             size_type size;
-            typename int_vector_type::int_width_type int_width;
+            typename int_vector_type::int_width_type int_width = fixedIntWidth;
             // (1) read size and int_width
-            int_vector_trait<fixedIntWidth>::read_header(size, int_width, in);
+            int_vector_type::read_header(size, int_width, in);
             // (2) resize the vector
             m_vec.width(int_width);
             m_vec.bit_resize(size);
-- 
2.43.0


From 3fa371800010fedf588f2f8f36e3253b972dac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 16/50] fix: lcp array of cst_fully can be iterated

---
 include/sdsl/cst_fully.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index ef73457..eea1e57 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -26,6 +26,7 @@ class lcp_fully
     public:
         typedef typename t_cst::size_type               size_type;
         typedef size_type                               value_type;
+        typedef ptrdiff_t                               difference_type;
         typedef random_access_const_iterator<lcp_fully> const_iterator;
         typedef const_iterator                          iterator;
 
-- 
2.43.0


From 483281944136531c3c2f43d2f083cad731c403c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 17/50] fix: copies of the depth-first cst iterator own their
 stack cache

---
 include/sdsl/cst_iterators.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/cst_iterators.hpp b/include/sdsl/cst_iterators.hpp
index e531a44..d69eb26 100644
--- a/include/sdsl/cst_iterators.hpp
+++ b/include/sdsl/cst_iterators.hpp
@@ -21,6 +21,8 @@
 #ifndef INCLUDED_SDSL_CST_ITERATORS
 #define INCLUDED_SDSL_CST_ITERATORS
 
+#include <algorithm>
+
 namespace sdsl
 {
 
@@ -77,12 +79,12 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         }
 
         //! Default constructor
-        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_cache(nullptr)
+        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_cache(nullptr), m_stack_size(0)
         {}
     public:
 
         //! Constructor
-        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_cache(nullptr) {
+        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_cache(nullptr), m_stack_size(0) {
             m_cst = cst;
             m_v = node;
             if (m_cst == nullptr) {
@@ -95,8 +97,26 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         }
 
         //! Copy Constructor
-//	cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator &it):m_cst(it.cst),m_v(it.m_v),m_valid(m_valid), m_stack_cache(nullptr),m_stack_size(0){
-//	}
+        cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator& it):m_cst(it.m_cst),m_v(it.m_v),m_visited(it.m_visited),m_valid(it.m_valid), m_stack_cache(nullptr), m_stack_size(it.m_stack_size) {
+            if (it.m_stack_cache != nullptr) {
+                m_stack_cache = new node_type[cache_size];
+                std::copy(it.m_stack_cache, it.m_stack_cache+std::min(it.m_stack_size, cache_size), m_stack_cache);
+            }
+        }
+
+        //! Assignment operator
+        cst_dfs_const_forward_iterator& operator=(const cst_dfs_const_forward_iterator& it) {
+            if (this != &it) {
+                cst_dfs_const_forward_iterator tmp(it);
+                m_cst     = tmp.m_cst;
+                m_v       = tmp.m_v;
+                m_visited = tmp.m_visited;
+                m_valid   = tmp.m_valid;
+                std::swap(m_stack_cache, tmp.m_stack_cache);
+                m_stack_size = tmp.m_stack_size;
+            }
+            return *this;
+        }
 
         ~cst_dfs_const_forward_iterator() {
             if (m_stack_cache != nullptr) {
-- 
2.43.0


From 29000c84e1947ff48262a247752fa535db6508e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 18/50] fix: fuzzy isa sampling support reports its component
 below its own node

---
 include/sdsl/csa_sampling_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index 8209fcc..a9e7139 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -915,7 +915,7 @@ class _fuzzy_isa_sampling_support
         {
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
-            written_bytes += m_select_marked_sa.serialize(out, v, "select_marked_sa");
+            written_bytes += m_select_marked_sa.serialize(out, child, "select_marked_sa");
             structure_tree::add_size(child, written_bytes);
             return written_bytes;
         }
-- 
2.43.0


From 96072f24194ad07bc0d393b5795ab9b00c5f257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 19/50] fix: comma coder with the maximal digit width of 32
 bits compiles

---
 include/sdsl/coder_comma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/coder_comma.hpp b/include/sdsl/coder_comma.hpp
index d2c1a7c..994a888 100644
--- a/include/sdsl/coder_comma.hpp
+++ b/include/sdsl/coder_comma.hpp
@@ -66,7 +66,7 @@ class comma
         }
 
         //base in which numbers are coded
-        static const uint32_t base = (1 << t_width) - 1;
+        static const uint32_t base = (1ULL << t_width) - 1;
 
         //table needed for computation of encoding lengths.
         //table contains entries of the kind (index, base^index)
-- 
2.43.0


From 7e437a86ff70b0f20dce2e4a68e6bd481d3c4ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 20/50] fix: succinct_byte_alphabet can be moved

---
 include/sdsl/csa_alphabet_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_alphabet_strategy.hpp b/include/sdsl/csa_alphabet_strategy.hpp
index e19da04..30b595e 100644
--- a/include/sdsl/csa_alphabet_strategy.hpp
+++ b/include/sdsl/csa_alphabet_strategy.hpp
@@ -315,7 +315,7 @@ class succinct_byte_alphabet
         }
 
         //! Move constructor
-        succinct_byte_alphabet(succinct_byte_alphabet&& strat)
+        succinct_byte_alphabet(succinct_byte_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
-- 
2.43.0


From 336763040afb8b9b9f9384d2f0596498397629ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 21/50] fix: empty() of psi and lf of csa_bitcompressed does
 not recurse endlessly

---
 include/sdsl/suffix_array_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 8c20766..c44765c 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -209,7 +209,7 @@ class traverse_csa_saisa
         //! Returns if the \f$\Psi\f$ function is empty.
         size_type empty()const
         {
-            return m_csa,empty();
+            return m_csa.empty();
         }
 
         //! Returns a const_iterator to the first element.
-- 
2.43.0


From 6332c3f0033ccfa3609ff3dca6e99be29fef23a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 22/50] fix: extract of a suffix tree node into an iterator
 returns the length

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index d4f23f1..5c4bca8 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -181,7 +181,7 @@ typename t_cst::size_type extract(
     // first get the suffix array entry of the leftmost leaf in the subtree rooted at v
     typename t_cst::size_type begin = cst.csa[cst.lb(v)];
     // then call the extract method on the compressed suffix array
-    extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
+    return extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
 }
 
 //! Calculate the concatenation of edge labels from the root to the node v of of c CST.
-- 
2.43.0


From 0e915d779d50d2fbcc5a7138fa35c682e88a83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 23/50] fix: extract of the root of a suffix tree yields the
 empty string instead of throwing

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index 5c4bca8..d72df33 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -203,7 +203,7 @@ extract(
 {
     typedef typename t_cst::csa_type::string_type t_rac;
     if (v==cst.root()) {
-        return t_rac(0);
+        return t_rac();
     }
     // first get the suffix array entry of the leftmost leaf in the subtree rooted at v
     typename t_cst::size_type begin = cst.csa[cst.lb(v)];
-- 
2.43.0


From ce4d7543a46103fdc34368c2721eb226e339002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 24/50] fix: hyb_vector and rrr_vector<15> declare
 const_iterator, so wavelet tree nodes over them can be iterated

---
 include/sdsl/hyb_vector.hpp    | 1 +
 include/sdsl/rrr_vector_15.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/sdsl/hyb_vector.hpp b/include/sdsl/hyb_vector.hpp
index e678efe..e09aad6 100644
--- a/include/sdsl/hyb_vector.hpp
+++ b/include/sdsl/hyb_vector.hpp
@@ -64,6 +64,7 @@ class hyb_vector
         typedef bit_vector::value_type value_type;
         typedef bit_vector::difference_type difference_type;
         typedef random_access_const_iterator<hyb_vector> iterator;
+        typedef iterator                                 const_iterator;
         typedef rank_support_hyb<1, k_sblock_rate> rank_1_type;
         typedef rank_support_hyb<0, k_sblock_rate> rank_0_type;
         typedef select_support_hyb<1, k_sblock_rate> select_1_type;
diff --git a/include/sdsl/rrr_vector_15.hpp b/include/sdsl/rrr_vector_15.hpp
index fa9e3f9..fdc5c50 100644
--- a/include/sdsl/rrr_vector_15.hpp
+++ b/include/sdsl/rrr_vector_15.hpp
@@ -134,6 +134,7 @@ class rrr_vector<15, t_rac, t_k>
         typedef bit_vector::difference_type              difference_type;
         typedef t_rac                                    rac_type;
         typedef random_access_const_iterator<rrr_vector> iterator;
+        typedef iterator                                 const_iterator;
         typedef bv_tag                                   index_category;
 
         friend class rank_support_rrr<0, 15, t_rac, t_k>;
-- 
2.43.0


From 0d2683e1da129cb83e8ca6e8538527f78b7c6cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 25/50] fix: inv_id can be called on a constant suffix tree

---
 include/sdsl/cst_sada.hpp | 2 +-
 include/sdsl/cst_sct3.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/cst_sada.hpp b/include/sdsl/cst_sada.hpp
index 49185da..6cdbbcb 100644
--- a/include/sdsl/cst_sada.hpp
+++ b/include/sdsl/cst_sada.hpp
@@ -842,7 +842,7 @@ class cst_sada
          *        \f$ \Order{1} \f$ for leaves and \f$ \log n \f$ for inner nodes
          * \sa id(node_type v)
          */
-        size_type inv_id(size_type id)
+        size_type inv_id(size_type id)const
         {
             if (id < size()) {  // the corresponding node is a leaf
                 return select_leaf(id+1);
diff --git a/include/sdsl/cst_sct3.hpp b/include/sdsl/cst_sct3.hpp
index b8ed964..f77620f 100644
--- a/include/sdsl/cst_sct3.hpp
+++ b/include/sdsl/cst_sct3.hpp
@@ -1035,7 +1035,7 @@ class cst_sct3
          *   \f$ \Order{1} \f$ for leaves and \f$ \Order{\log size()} \f$ for inner nodes
          * \sa id(node_type v)
          */
-        node_type inv_id(size_type id)
+        node_type inv_id(size_type id)const
         {
             if (id < size()) {  // the corresponding node is a leaf
                 return select_leaf(id+1);
-- 
2.43.0


From dc936eeafd1ee07d47509cb89f13e48bfa4fb016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 26/50] fix: csa_sada::rank_bwt decodes into a local buffer, so
 that concurrent const queries do not race

---
 include/sdsl/csa_sada.hpp | 54 +++++++++++++++------------------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index d576922..887655c 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -117,8 +117,6 @@ class csa_sada
         isa_sample_type m_isa_sample; // inverse suffix array samples
         alphabet_type   m_alphabet;   // alphabet component
 
-        mutable std::vector<uint64_t> m_psi_buf; // buffer for decoded psi values
-
         void copy(const csa_sada& csa)
         {
             m_psi        = csa.m_psi;
@@ -128,13 +126,6 @@ class csa_sada
             m_alphabet   = csa.m_alphabet;
         };
 
-        void create_buffer()
-        {
-            if (enc_vector_type::sample_dens < linear_decode_limit) {
-                m_psi_buf = std::vector<uint64_t>(enc_vector_type::sample_dens+1);
-            }
-        }
-
     public:
         const typename alphabet_type::char2comp_type& char2comp  = m_alphabet.char2comp;
         const typename alphabet_type::comp2char_type& comp2char  = m_alphabet.comp2char;
@@ -152,17 +143,13 @@ class csa_sada
 
 
         //! Default Constructor
-        csa_sada()
-        {
-            create_buffer();
-        }
+        csa_sada() { }
         //! Default Destructor
         ~csa_sada() { }
 
         //! Copy constructor
         csa_sada(const csa_sada& csa)
         {
-            create_buffer();
             copy(csa);
         }
 
@@ -265,7 +252,6 @@ class csa_sada
                 m_isa_sample = std::move(csa.m_isa_sample);
                 m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
-                m_psi_buf    = std::move(csa.m_psi_buf);
             }
             return *this;
         }
@@ -324,24 +310,26 @@ class csa_sada
 // TODO: don't use get_inter_sampled_values if t_dens is really
 //       large
                 lower_b = lower_sb*sd;
-                if (0 == m_psi_buf.size()) {
-                    upper_b = std::min(upper_sb*sd, C[cc+1]);
-                    goto finish;
+                if (enc_vector_type::sample_dens < linear_decode_limit) {
+                    // buffer for the decoded psi values; local, since const
+                    // methods may be called concurrently
+                    std::vector<uint64_t> psi_buf(enc_vector_type::sample_dens+1);
+                    uint64_t* p = psi_buf.data();
+                    // extract the psi values between two samples
+                    m_psi.get_inter_sampled_values(lower_sb, p);
+                    p = psi_buf.data();
+                    uint64_t smpl = m_psi.sample(lower_sb);
+                    // handle border cases
+                    if (lower_b + m_psi.get_sample_dens() >= C[cc+1])
+                        psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
+                    else
+                        psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
+                    // search the result linear
+                    while ((*p++)+smpl < i);
+
+                    return p-1-psi_buf.data() + lower_b - C[cc];
                 }
-                uint64_t* p = m_psi_buf.data();
-                // extract the psi values between two samples
-                m_psi.get_inter_sampled_values(lower_sb, p);
-                p = m_psi_buf.data();
-                uint64_t smpl = m_psi.sample(lower_sb);
-                // handle border cases
-                if (lower_b + m_psi.get_sample_dens() >= C[cc+1])
-                    m_psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
-                else
-                    m_psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
-                // search the result linear
-                while ((*p++)+smpl < i);
-
-                return p-1-m_psi_buf.data() + lower_b - C[cc];
+                upper_b = std::min(upper_sb*sd, C[cc+1]);
             } else { // lower_b == (m_C[cc]+sd-1)/sd and lower_sb < upper_sb
                 if (m_psi.sample(lower_sb) >= i) {
                     lower_b = C[cc];
@@ -351,7 +339,6 @@ class csa_sada
                     upper_b = std::min(upper_sb*sd, C[cc+1]);
                 }
             }
-finish:
             // binary search the interval [C[cc]..C[cc+1]-1] for the result
 //            size_type lower_b = m_C[cc], upper_b = m_C[cc+1]; // lower_b inclusive, upper_b exclusive
             while (lower_b+1 < upper_b) {
@@ -395,7 +382,6 @@ finish:
 template<class t_enc_vec, uint32_t t_dens, uint32_t t_inv_dens, class t_sa_sample_strat, class t_isa, class t_alphabet_strat>
 csa_sada<t_enc_vec, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::csa_sada(cache_config& config)
 {
-    create_buffer();
     if (!cache_file_exists(key_trait<alphabet_type::int_width>::KEY_BWT, config)) {
         return;
     }
-- 
2.43.0


From e13a5423352deea089c1fddd35af10eb6d6336a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 27/50] fix: util::id() is unique also if several threads call
 it

---
 include/sdsl/util.hpp | 2 +-
 lib/util.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index d33b6b0..8ce7881 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -237,7 +237,7 @@ char* str_from_errno();
 class _id_helper
 {
     private:
-        static uint64_t id;
+        static std::atomic<uint64_t> id;
     public:
         static uint64_t getId()
         {
diff --git a/lib/util.cpp b/lib/util.cpp
index 4847a65..21d0f42 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -35,7 +35,7 @@ namespace sdsl
 namespace util
 {
 
-uint64_t _id_helper::id = 0;
+std::atomic<uint64_t> _id_helper::id(0);
 
 std::string basename(std::string file)
 {
-- 
2.43.0


From 15c7165e4f09c6cc56d5992b48ac29ae4b09ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 28/50] fix: default constructed structures have no
 indeterminate members

---
 include/sdsl/bit_vector_il.hpp     |  2 +-
 include/sdsl/cst_fully.hpp         |  6 +++---
 include/sdsl/cst_sct3.hpp          |  2 +-
 include/sdsl/dac_vector.hpp        |  4 ++--
 include/sdsl/iterators.hpp         |  2 +-
 include/sdsl/k2_treap_helper.hpp   |  6 +++---
 include/sdsl/k2_tree.hpp           |  4 ++--
 include/sdsl/lcp_support_sada.hpp  |  2 +-
 include/sdsl/lcp_support_tree.hpp  |  2 +-
 include/sdsl/lcp_support_tree2.hpp |  2 +-
 include/sdsl/nn_dict_dynamic.hpp   |  4 ++--
 include/sdsl/raster_img.hpp        |  8 ++++----
 include/sdsl/wt_gmr.hpp            | 12 ++++++------
 13 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/sdsl/bit_vector_il.hpp b/include/sdsl/bit_vector_il.hpp
index dbb73a4..9d15587 100644
--- a/include/sdsl/bit_vector_il.hpp
+++ b/include/sdsl/bit_vector_il.hpp
@@ -359,7 +359,7 @@ class select_support_il
         enum { bit_pat_len = (uint8_t)1 };
     private:
         const bit_vector_type* m_v;
-        size_type m_superblocks;
+        size_type m_superblocks = 0;
         size_type m_block_shift;
         size_type m_block_size_U64;
 
diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index eea1e57..14aa4bf 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -37,7 +37,7 @@ class lcp_fully
                sa_order = 0
              };
     private:
-        const t_cst* m_cst;
+        const t_cst* m_cst = nullptr;
     public:
         lcp_fully() = default;
         lcp_fully(const t_cst* cst) : m_cst(cst) {};
@@ -145,8 +145,8 @@ class cst_fully
         typedef cst_tag                                   index_category;
 
     private:
-        size_type        m_delta;
-        size_type        m_nodes;
+        size_type        m_delta = 0;
+        size_type        m_nodes = 0;
         csa_type         m_csa;
         bit_vector       m_s;
         s_support_type   m_s_support;
diff --git a/include/sdsl/cst_sct3.hpp b/include/sdsl/cst_sct3.hpp
index f77620f..4aef26e 100644
--- a/include/sdsl/cst_sct3.hpp
+++ b/include/sdsl/cst_sct3.hpp
@@ -131,7 +131,7 @@ class cst_sct3
         bv_type         m_first_child;
         rank_type       m_first_child_rank;
         sel_type        m_first_child_select;
-        size_type       m_nodes;
+        size_type       m_nodes = 0;
 
         void copy(const cst_sct3& cst)
         {
diff --git a/include/sdsl/dac_vector.hpp b/include/sdsl/dac_vector.hpp
index 1079a8c..7b0795d 100644
--- a/include/sdsl/dac_vector.hpp
+++ b/include/sdsl/dac_vector.hpp
@@ -61,7 +61,7 @@ class dac_vector_dp
         typedef int_vector<>::size_type                  size_type;
         typedef ptrdiff_t                                difference_type;
     private:
-        size_t m_size;
+        size_t m_size = 0;
         bit_vector m_overflow_tmp;
         overflow_bv m_overflow;
         overflow_bv_rank1 m_overflow_rank;
@@ -354,7 +354,7 @@ class dac_vector
         bit_vector        m_overflow;       // mark non-end bytes
         rank_support_type m_overflow_rank;  // rank for m_overflow
         int_vector<64>    m_level_pointer_and_rank = int_vector<64>(4,0);
-        uint8_t           m_max_level;      // maximum level < (log n)/b+1
+        uint8_t           m_max_level = 0;      // maximum level < (log n)/b+1
 
         void copy(const dac_vector& v)
         {
diff --git a/include/sdsl/iterators.hpp b/include/sdsl/iterators.hpp
index 86d2fe4..36a24f1 100644
--- a/include/sdsl/iterators.hpp
+++ b/include/sdsl/iterators.hpp
@@ -178,7 +178,7 @@ struct random_access_container {
     typedef random_access_const_iterator<random_access_container> iterator_type;
 
     t_F f;
-    size_type m_size;
+    size_type m_size = 0;
 
     random_access_container() {};
     random_access_container(t_F ff, size_type size) : f(ff), m_size(size) { }
diff --git a/include/sdsl/k2_treap_helper.hpp b/include/sdsl/k2_treap_helper.hpp
index 40ca5f3..21143ed 100644
--- a/include/sdsl/k2_treap_helper.hpp
+++ b/include/sdsl/k2_treap_helper.hpp
@@ -151,10 +151,10 @@ typedef t_p                    point_type;
 typedef t_p                    range_type;
 
 struct node_type {
-    uint8_t  t;   // level; size of node 1<<t
+    uint8_t  t = 0;   // level; size of node 1<<t
     t_p      p;   // lower left corner
-    uint64_t idx; // index in bp
-    uint64_t max_v; // maximal value
+    uint64_t idx = 0; // index in bp
+    uint64_t max_v = 0; // maximal value
     t_p      max_p; // maximal point
 
     node_type() = default;
diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index 371990f..a5a7412 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -63,8 +63,8 @@ class k2_tree
 
         t_rank      k_t_rank;
 
-        uint8_t     k_k;
-        uint16_t    k_height;
+        uint8_t     k_k = 0;
+        uint16_t    k_height = 0;
 
     protected:
 
diff --git a/include/sdsl/lcp_support_sada.hpp b/include/sdsl/lcp_support_sada.hpp
index 99958b5..4f28b67 100644
--- a/include/sdsl/lcp_support_sada.hpp
+++ b/include/sdsl/lcp_support_sada.hpp
@@ -85,7 +85,7 @@ class _lcp_support_sada
         };
 
     private:
-        const csa_type* m_csa;
+        const csa_type* m_csa = nullptr;
         bit_vector_type m_data;
         select_type     m_select_support;
 
diff --git a/include/sdsl/lcp_support_tree.hpp b/include/sdsl/lcp_support_tree.hpp
index e291eda..a26916d 100644
--- a/include/sdsl/lcp_support_tree.hpp
+++ b/include/sdsl/lcp_support_tree.hpp
@@ -49,7 +49,7 @@ class _lcp_support_tree
 
     private:
 
-        const t_cst* m_cst;
+        const t_cst* m_cst = nullptr;
         t_lcp        m_lcp;
 
     public:
diff --git a/include/sdsl/lcp_support_tree2.hpp b/include/sdsl/lcp_support_tree2.hpp
index 83a6aa3..1f0e5b7 100644
--- a/include/sdsl/lcp_support_tree2.hpp
+++ b/include/sdsl/lcp_support_tree2.hpp
@@ -60,7 +60,7 @@ class _lcp_support_tree2
         };
 
     private:
-        const cst_type*    m_cst;
+        const cst_type*    m_cst = nullptr;
         small_lcp_type  m_small_lcp; // vector for lcp values < 254
         int_vector<> m_big_lcp;      // vector for lcp values >= 254
 
diff --git a/include/sdsl/nn_dict_dynamic.hpp b/include/sdsl/nn_dict_dynamic.hpp
index b3474e3..ff5660a 100644
--- a/include/sdsl/nn_dict_dynamic.hpp
+++ b/include/sdsl/nn_dict_dynamic.hpp
@@ -48,8 +48,8 @@ class nn_dict_dynamic
         friend class reference;
         friend void util::set_zero_bits(nn_dict_dynamic& nn);
     private:
-        uint64_t m_depth;				// Depth of the tree (1 level corresonds to 0, 2 levels corresponds to 1,...)
-        uint64_t m_v_begin_leaves;		// Virtual begin of leaves
+        uint64_t m_depth = 0;				// Depth of the tree (1 level corresonds to 0, 2 levels corresponds to 1,...)
+        uint64_t m_v_begin_leaves = 0;		// Virtual begin of leaves
         size_type m_size;
         int_vector<64> m_offset;	 	// Number of nodes to skip on each level
         int_vector<64> m_tree; 			// Tree
diff --git a/include/sdsl/raster_img.hpp b/include/sdsl/raster_img.hpp
index 1a12b05..714a9f8 100644
--- a/include/sdsl/raster_img.hpp
+++ b/include/sdsl/raster_img.hpp
@@ -9,10 +9,10 @@ namespace sdsl
 struct raster_img {
     typedef uint64_t size_type;
 
-    uint64_t     max_x; // max x value
-    uint64_t     max_y; // max y value
-    uint64_t     max_z; // max z value in the compacted range
-    uint32_t     offset;
+    uint64_t     max_x = 0; // max x value
+    uint64_t     max_y = 0; // max y value
+    uint64_t     max_z = 0; // max z value in the compacted range
+    uint32_t     offset = 0;
     bit_vector   value_map;
     int_vector<> data;
 
diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index a4d96f1..65e4a6d 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -63,7 +63,7 @@ class inv_multi_perm_support
     private:
 
         const iv_type*  m_perm = nullptr;// pointer to supported permutation
-        uint64_t        m_chunksize;     // size of one permutation
+        uint64_t        m_chunksize = 0;     // size of one permutation
         int_vector<>    m_back_pointer;  // back pointers
         bit_vector_type m_marked;        // back pointer marking
         rank_type       m_marked_rank;   // rank support for back pointer marking
@@ -321,9 +321,9 @@ class wt_gmr_rs
         t_rac m_e;
         t_select m_bv_blocks_select1;
         t_select_zero m_bv_blocks_select0;
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_block_size = 0; // size of the blocks
-        uint64_t m_blocks; // blocks per character
+        uint64_t m_blocks = 0; // blocks per character
         uint64_t m_sigma = 0;
 
     public:
@@ -661,10 +661,10 @@ class wt_gmr
         t_select m_bv_blocks_select1, m_bv_chunks_select1;
         t_select_zero m_bv_blocks_select0, m_bv_chunks_select0;
 
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_max_symbol = 0; // maximum character + 1
-        uint64_t m_chunks; // number of chunks
-        uint64_t m_chunksize;
+        uint64_t m_chunks = 0; // number of chunks
+        uint64_t m_chunksize = 0;
         uint64_t m_sigma = 0;
 
     public:
-- 
2.43.0


From 9854a80928f20958cc80506f92243deaed29edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 29/50] fix: memory_monitor synchronises all accesses to its
 state and survives events that end after stop

---
 include/sdsl/memory_management.hpp | 27 ++++++++++++++++++++-------
 lib/memory_management.cpp          | 14 ++++++++++----
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 75f83d2..1cb0518 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -8,6 +8,7 @@
 #include "uintx_t.hpp"
 #include "util.hpp"
 
+#include <atomic>
 #include <map>
 #include <iostream>
 #include <cstdlib>
@@ -82,6 +83,9 @@ class memory_monitor
                 if (add) {
                     auto& m = the_monitor();
                     std::lock_guard<util::spin_lock> lock(m.spinlock);
+                    if (m.event_stack.empty()) { // the monitor was stopped during the event
+                        return;
+                    }
                     auto& cur = m.event_stack.top();
                     auto cur_time = timer::now();
                     cur.allocations.emplace_back(cur_time, m.current_usage);
@@ -100,12 +104,12 @@ class memory_monitor
         };
         std::chrono::milliseconds log_granularity = std::chrono::milliseconds(20ULL);
         int64_t current_usage = 0;
-        bool track_usage = false;
+        std::atomic<bool> track_usage{false};
         std::vector<mm_event> completed_events;
         std::stack<mm_event> event_stack;
         timer::time_point start_log;
         timer::time_point last_event;
-        util::spin_lock spinlock;
+        mutable util::spin_lock spinlock;
     private:
         // disable construction of the object
         memory_monitor() {};
@@ -127,14 +131,16 @@ class memory_monitor
         static void granularity(std::chrono::milliseconds ms)
         {
             auto& m = the_monitor();
+            std::lock_guard<util::spin_lock> lock(m.spinlock);
             m.log_granularity = ms;
         }
         static int64_t peak()
         {
             auto& m = the_monitor();
+            std::lock_guard<util::spin_lock> lock(m.spinlock);
             int64_t max = 0;
-            for (auto events : m.completed_events) {
-                for (auto alloc : events.allocations) {
+            for (const auto& events : m.completed_events) {
+                for (const auto& alloc : events.allocations) {
                     if (max < alloc.usage) {
                         max = alloc.usage;
                     }
@@ -146,6 +152,7 @@ class memory_monitor
         static void start()
         {
             auto& m = the_monitor();
+            std::lock_guard<util::spin_lock> lock(m.spinlock);
             m.track_usage = true;
             // clear if there is something there
             if (m.completed_events.size()) {
@@ -162,6 +169,7 @@ class memory_monitor
         static void stop()
         {
             auto& m = the_monitor();
+            std::lock_guard<util::spin_lock> lock(m.spinlock);
             while (!m.event_stack.empty()) {
                 m.completed_events.emplace_back(std::move(m.event_stack.top()));
                 m.event_stack.pop();
@@ -173,6 +181,9 @@ class memory_monitor
             auto& m = the_monitor();
             if (m.track_usage) {
                 std::lock_guard<util::spin_lock> lock(m.spinlock);
+                if (m.event_stack.empty()) { // stopped in the meantime
+                    return;
+                }
                 auto cur = timer::now();
                 if (m.last_event + m.log_granularity < cur) {
                     m.event_stack.top().allocations.emplace_back(cur, m.current_usage);
@@ -191,10 +202,12 @@ class memory_monitor
         static mm_event_proxy event(const std::string& name)
         {
             auto& m = the_monitor();
-            if (m.track_usage) {
-                return mm_event_proxy(name, m.current_usage, true);
+            int64_t usage = 0;
+            {
+                std::lock_guard<util::spin_lock> lock(m.spinlock);
+                usage = m.current_usage;
             }
-            return mm_event_proxy(name, m.current_usage, false);
+            return mm_event_proxy(name, usage, m.track_usage);
         }
         template<format_type F>
         static void write_memory_log(std::ostream& out)
diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 6c8401b..4fb46e6 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -7,12 +7,12 @@ using namespace std::chrono;
 namespace sdsl
 {
 
-void output_event_json(std::ostream& out,const memory_monitor::mm_event& ev,const memory_monitor& m)
+void output_event_json(std::ostream& out,const memory_monitor::mm_event& ev,memory_monitor::timer::time_point start_log)
 {
     out << "\t\t" << "\"name\" : " << "\"" << ev.name << "\",\n";
     out << "\t\t" << "\"usage\" : [" << "\n";
     for (size_t j=0; j<ev.allocations.size(); j++)  {
-        out << "\t\t\t[" << duration_cast<milliseconds>(ev.allocations[j].timestamp-m.start_log).count()
+        out << "\t\t\t[" << duration_cast<milliseconds>(ev.allocations[j].timestamp-start_log).count()
             << "," << ev.allocations[j].usage << "]";
         if (j+1<ev.allocations.size()) {
             out << ",\n";
@@ -26,14 +26,20 @@ void output_event_json(std::ostream& out,const memory_monitor::mm_event& ev,cons
 template<>
 void write_mem_log<JSON_FORMAT>(std::ostream& out,const memory_monitor& m)
 {
-    auto events = m.completed_events;
+    std::vector<memory_monitor::mm_event> events;
+    memory_monitor::timer::time_point start_log;
+    {
+        std::lock_guard<util::spin_lock> lock(m.spinlock);
+        events = m.completed_events;
+        start_log = m.start_log;
+    }
     std::sort(events.begin(),events.end());
 
     // output
     out << "[\n";
     for (size_t i=0; i<events.size(); i++) {
         out << "\t{\n";
-        output_event_json(out,events[i],m);
+        output_event_json(out,events[i],start_log);
         if (i<events.size()-1) {
             out << "\t},\n";
         } else {
-- 
2.43.0


From bb1edac656f4a4987ef1803950e1668c072ece77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 30/50] fix: hugepage_allocator::mm_realloc does not read
 behind the old block

---
 lib/memory_management.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 4fb46e6..1a931a1 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -580,7 +580,7 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
     if (need_malloc) {
         //std::cout << "need_alloc in REALLOC!" << std::endl;
         void* newptr = mm_alloc(size);
-        memcpy(newptr,ptr,size);
+        memcpy(newptr,ptr,blockdatasize); // the old block is smaller than size
         mm_free(ptr);
         ptr = newptr;
     }
-- 
2.43.0


From 452fcbf2a58454fb4f2fb2c59b43c4fbeeb87ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 31/50] fix: hugepage_allocator synchronises concurrent
 allocations

---
 include/sdsl/memory_management.hpp | 3 +++
 lib/memory_management.cpp          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 1cb0518..260ed6c 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -238,6 +238,7 @@ class hugepage_allocator
         uint8_t* m_top = nullptr;
         size_t m_total_size = 0;
         std::multimap<size_t, mm_block_t*> m_free_large;
+        std::recursive_mutex m_lock;
     private:
         size_t determine_available_hugepage_memory();
         void coalesce_block(mm_block_t* block);
@@ -253,6 +254,7 @@ class hugepage_allocator
         void init(SDSL_UNUSED size_t size_in_bytes = 0)
         {
 #ifdef MAP_HUGETLB
+            std::lock_guard<std::recursive_mutex> lock(m_lock);
             if (size_in_bytes == 0) {
                 size_in_bytes = determine_available_hugepage_memory();
             }
@@ -283,6 +285,7 @@ class hugepage_allocator
             if (ptr == nullptr) {
                 return true;
             }
+            std::lock_guard<std::recursive_mutex> lock(m_lock);
             if (ptr >= m_base && ptr < m_top) {
                 return true;
             }
diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 1a931a1..9977bc4 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -455,6 +455,7 @@ hugepage_allocator::find_free_block(size_t size_in_bytes)
 void*
 hugepage_allocator::mm_alloc(size_t size_in_bytes)
 {
+    std::lock_guard<std::recursive_mutex> lock(m_lock);
     //std::cout << "ALLOC(" << size_in_bytes << ")" << std::endl;
     mm_block_t* bptr = nullptr;
     if ((bptr=find_free_block(size_in_bytes + MM_BLOCK_OVERHEAD)) != nullptr) {
@@ -490,6 +491,7 @@ hugepage_allocator::mm_alloc(size_t size_in_bytes)
 void
 hugepage_allocator::mm_free(void* ptr)
 {
+    std::lock_guard<std::recursive_mutex> lock(m_lock);
     //print_heap();
     //std::cout << "FREE(" << ptr << ")" << std::endl;
     if (ptr) {
@@ -504,6 +506,7 @@ hugepage_allocator::mm_free(void* ptr)
 void*
 hugepage_allocator::mm_realloc(void* ptr, size_t size)
 {
+    std::lock_guard<std::recursive_mutex> lock(m_lock);
     //print_heap();
     //std::cout << "REALLOC(" << ptr << "," << size << ")" << std::endl;
     /* handle special cases first */
-- 
2.43.0


From 4290d5b0b78d0569ed138c3f6009076496af3867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:59 +0000
Subject: [PATCH 32/50] fix: renaming a RAM file to itself keeps its content,
 renaming a missing RAM file fails

---
 lib/ram_fs.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/ram_fs.cpp b/lib/ram_fs.cpp
index 532f808..973a2e5 100644
--- a/lib/ram_fs.cpp
+++ b/lib/ram_fs.cpp
@@ -80,8 +80,14 @@ int
 ram_fs::rename(const std::string old_filename, const std::string new_filename)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
-    m_map[new_filename] = std::move(m_map[old_filename]);
-    remove(old_filename);
+    auto it = m_map.find(old_filename);
+    if (it == m_map.end()) {
+        return -1;
+    }
+    if (old_filename != new_filename) {
+        m_map[new_filename] = std::move(it->second);
+        m_map.erase(it);
+    }
     return 0;
 }
 
-- 
2.43.0


From ff23c1729d374a347db800294c7582a1d20ba891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 33/50] fix: renaming a disk file to the name of a RAM file
 fails instead of creating a disk file with that name

---
 lib/ram_fs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/ram_fs.cpp b/lib/ram_fs.cpp
index 973a2e5..290924c 100644
--- a/lib/ram_fs.cpp
+++ b/lib/ram_fs.cpp
@@ -136,6 +136,9 @@ int rename(const std::string& old_filename, const std::string& new_filename)
         }
         return ram_fs::rename(old_filename, new_filename);
     } else {
+        if (is_ram_file(new_filename)) {   // error, if the old file is not also a RAM-file
+            return -1;
+        }
         return std::rename(old_filename.c_str(), new_filename.c_str());
     }
 }
-- 
2.43.0


From d150dde27a36779bf9aa7721452eb605b94e26e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 34/50] fix: write_structure to a file name respects RAM files

---
 include/sdsl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 53a618e..5ebc596 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -375,7 +375,7 @@ void write_structure(const X& x, std::ostream& out)
 template<format_type F, typename X>
 void write_structure(const X& x, std::string file)
 {
-    std::ofstream out(file);
+    osfstream out(file);
     write_structure<F>(x, out);
 }
 
-- 
2.43.0


From 089c67fc95911c4cd4db968b1d08ca3214712713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 35/50] fix: int_vector_mapper rejects RAM files instead of
 touching a disk file of that name

---
 include/sdsl/int_vector_mapper.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 2c82077..a876aa8 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -137,8 +137,12 @@ class int_vector_mapper
         {
             size_type size_in_bits = 0;
             uint8_t int_width = t_width;
+            if (is_ram_file(m_file_name)) {
+                throw std::runtime_error(
+                    "int_vector_mapper: RAM-files can not be mapped.");
+            }
             {
-                std::ifstream f(filename,std::ifstream::binary);
+                std::ifstream f(m_file_name,std::ifstream::binary);
                 if (!f.is_open()) {
                     throw std::runtime_error(
                         "int_vector_mapper: file does not exist.");
@@ -352,6 +356,9 @@ class temp_file_buffer
     private:
         static std::string tmp_file(const std::string& dir)
         {
+            if (is_ram_file(dir)) {
+                throw std::runtime_error("could not create temporary file.");
+            }
             char tmp_file_name[1024] = {0};
 #ifdef MSVC_COMPILER
             auto ret = GetTempFileName(dir.c_str(),"tmp_mapper_file_", 0 ,tmp_file_name);
-- 
2.43.0


From b3eef1f1c161d69f2137554e92d54e761b4f01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 36/50] fix: buffered_char_queue uses a unique file on disk and
 removes it

---
 lib/construct_lcp_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/construct_lcp_helper.cpp b/lib/construct_lcp_helper.cpp
index 0c83878..70e54b1 100644
--- a/lib/construct_lcp_helper.cpp
+++ b/lib/construct_lcp_helper.cpp
@@ -49,7 +49,7 @@ buffered_char_queue::buffered_char_queue():m_widx(0), m_ridx(0), m_sync(true), m
 void buffered_char_queue::init(const std::string& dir, char c)
 {
     m_c = c;
-    m_file_name = dir+"buffered_char_queue_"+util::to_string(util::pid());
+    m_file_name = disk_file_name(dir)+"buffered_char_queue_"+util::to_string(util::pid())+"_"+util::to_string(util::id());
 //		m_stream.rdbuf()->pubsetbuf(0, 0);
 }
 
-- 
2.43.0


From 91bfdeb9acbfbcccf8849accdfe4be93085efb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 37/50] fix: util::file_size of a missing file is 0 instead of
 indeterminate

---
 lib/util.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/util.cpp b/lib/util.cpp
index 21d0f42..08a91ae 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -171,7 +171,9 @@ size_t file_size(const std::string& file)
         return ram_fs::file_size(file);
     } else {
         struct stat fs;
-        stat(file.c_str(), &fs);
+        if (stat(file.c_str(), &fs) != 0) {
+            return 0;
+        }
         return fs.st_size;
     }
 }
-- 
2.43.0


From a8fe49c277e9eb10287838711b7a3d0f3087a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:58 +0000
Subject: [PATCH 38/50] fix: storing functions report writes that failed (full
 disk) instead of success

---
 include/sdsl/io.hpp | 23 ++++++++++++++++++++++-
 lib/io.cpp          |  7 +++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 5ebc596..79194c3 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -272,7 +272,8 @@ bool store_to_plain_array(t_int_vec& v, const std::string& file)
             int_type x = v[i];
             out.write((char*)&x, sizeof(int_type));
         }
-        return true;
+        out.close();
+        return !out.fail();
     } else {
         return false;
     }
@@ -664,6 +665,12 @@ bool store_to_file(const T& t, const std::string& file)
     }
     serialize(t,out);
     out.close();
+    if (!out) {
+        if (util::verbose) {
+            std::cerr<<"ERROR: store_to_file could not write all data to: `"<<file<<"`"<<std::endl;
+        }
+        return false;
+    }
     if (util::verbose) {
         std::cerr<<"INFO: store_to_file: `"<<file<<"`"<<std::endl;
     }
@@ -683,6 +690,12 @@ bool store_to_checked_file(const T& t, const std::string& file)
     }
     add_hash(t, out);
     out.close();
+    if (!out) {
+        if (util::verbose) {
+            std::cerr<<"ERROR: store_to_checked_file not successful for: `"<<checkfile<<"`"<<std::endl;
+        }
+        return false;
+    }
     return store_to_file(t, file);
 }
 
@@ -704,6 +717,10 @@ bool store_to_file(const int_vector<t_width>& v, const std::string& file, bool w
     }
     v.serialize(out, nullptr, "", write_fixed_as_variable);
     out.close();
+    if (!out) {
+        std::cerr<<"ERROR: util::store_to_file:: Could not write all data to file `"<<file<<"`"<<std::endl;
+        return false;
+    }
     return true;
 }
 
@@ -722,6 +739,10 @@ bool store_to_checked_file(const int_vector<t_width>& v, const std::string& file
     }
     add_hash(v, out);
     out.close();
+    if (!out) {
+        std::cerr<<"ERROR: util::store_to_checked_file: Could not write check file `"<<checkfile<<"`"<<std::endl;
+        return false;
+    }
     return store_to_file(v, file, write_fixed_as_variable);
 }
 
diff --git a/lib/io.cpp b/lib/io.cpp
index 93522ed..143f930 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -19,7 +19,7 @@ bool store_to_file(const char* v, const std::string& file)
     uint64_t n = strlen((const char*)v);
     out.write(v, n);
     out.close();
-    return true;
+    return !out.fail();
 }
 
 bool store_to_file(const std::string& v, const std::string& file)
@@ -33,7 +33,7 @@ bool store_to_file(const std::string& v, const std::string& file)
     }
     out.write(v.data(),v.size());
     out.close();
-    return true;
+    return !out.fail();
 }
 
 
@@ -49,6 +49,9 @@ bool store_to_checked_file(const char* v, const std::string& file)
     }
     add_hash(v, out);
     out.close();
+    if (!out) {
+        return false;
+    }
     return store_to_file(v, file);
 }
 
-- 
2.43.0


From 3aaf4153dc61596ac2dac38c9cd26bfaaab3fa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 39/50] fix: loading functions report missing, truncated and
 unreadable files instead of success

---
 include/sdsl/io.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 79194c3..d48f1a9 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -199,7 +199,8 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
         off_t file_size = util::file_size(file);
         if (file_size == 0) {
             v.resize(0);
-            return true;
+            isfstream in(file, std::ios::in | std::ios::binary);
+            return in.is_open();
         }
         if (file_size % num_bytes != 0) {
             throw std::logic_error("file size "+util::to_string(file_size)+" of \""+ file
@@ -212,6 +213,9 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
             v.resize(file_size / num_bytes);
             if (8 == t_int_vec::fixed_int_width and 1 == num_bytes) {  // if int_vector<8> is created from byte alphabet file
                 in.read((char*)v.data(), file_size);
+                if (!in) {
+                    return false;
+                }
             } else {
                 size_t idx=0;
                 const size_t block_size = conf::SDSL_BLOCK_SIZE*num_bytes;
@@ -235,7 +239,10 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
                         }
                         ++begin;
                     }
-                } while (idx < v.size());
+                } while (idx < v.size() and in.good());
+                if (idx < v.size()) {
+                    return false;
+                }
                 in.close();
             }
             return true;
@@ -758,6 +765,12 @@ bool load_from_file(T& v, const std::string& file)
     }
     load(v, in);
     in.close();
+    if (!in) {
+        if (util::verbose) {
+            std::cerr << "Could not load all data from file `" << file << "`" << std::endl;
+        }
+        return false;
+    }
     if (util::verbose) {
         std::cerr << "Load file `" << file << "`" << std::endl;
     }
-- 
2.43.0


From 1a9b321d3947eaaca8331ef223d5ac081323f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 40/50] fix: isfstream reports failed seeks like osfstream

---
 lib/sfstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/sfstream.cpp b/lib/sfstream.cpp
index 848e5d8..a4ce77e 100644
--- a/lib/sfstream.cpp
+++ b/lib/sfstream.cpp
@@ -216,6 +216,7 @@ isfstream::seekg(pos_type pos)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
@@ -242,6 +243,7 @@ isfstream::seekg(off_type off, std::ios_base::seekdir way)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
@@ -267,6 +269,7 @@ isfstream::tellg()
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
-- 
2.43.0


From 90dbc3e6c5caea9dc06326401ec094ad2a36e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 41/50] fix: seekp relative to the current position of a RAM
 file uses the put position

---
 lib/ram_filebuf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index eacb8a0..1fcd2a0 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -107,7 +107,9 @@ ram_filebuf::pubseekoff(off_type off, std::ios_base::seekdir way,
             return pos_type(-1);
         }
     } else if (std::ios_base::cur == way) {
-        if (seekpos(gptr()-eback()+off, which) == pos_type(-1)) {
+        // the get pointer is not moved by write operations
+        off_type cur = (which & std::ios_base::in) ? gptr()-eback() : pptr()-pbase();
+        if (seekpos(cur+off, which) == pos_type(-1)) {
             return pos_type(-1);
         }
     } else if (std::ios_base::end == way) {
-- 
2.43.0


From 438388e0a2164fc5b08ca9543d1693df84116ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 42/50] fix: seeking in and writing to a closed RAM file fails
 instead of crashing or losing data silently

---
 lib/ram_filebuf.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index 1fcd2a0..bd64dd8 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -80,6 +80,9 @@ ram_filebuf::close()
 ram_filebuf::pos_type
 ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
 {
+    if (!this->is_open()) {
+        return pos_type(off_type(-1));
+    }
     if (sp >= (pos_type)0 and sp <= (pos_type)m_ram_file->size()) {
         setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
@@ -140,7 +143,9 @@ ram_filebuf::sync()
 ram_filebuf::int_type
 ram_filebuf::overflow(int_type c)
 {
-    if (m_ram_file) {
+    if (!m_ram_file) {
+        return traits_type::eof();
+    } else {
         m_ram_file->push_back(c);
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         std::ptrdiff_t add = epptr()-pbase();
-- 
2.43.0


From ffeba8772d0d4343044d7f5b49b668dc8d876a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 43/50] fix: osfstream::tellp is implemented

---
 lib/sfstream.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/lib/sfstream.cpp b/lib/sfstream.cpp
index a4ce77e..6c2c267 100644
--- a/lib/sfstream.cpp
+++ b/lib/sfstream.cpp
@@ -71,6 +71,31 @@ osfstream::close()
     if (fail) this->setstate(std::ios::failbit);
 }
 
+std::streampos
+osfstream::tellp()
+{
+    ios_base::iostate err = std::ios_base::iostate(ios_base::goodbit);
+    pos_type p = pos_type(off_type(-1));
+    try {
+        if (!this->fail()) {
+            if (is_ram_file(m_file)) {
+                p = ((ram_filebuf*)m_streambuf)->pubseekoff(0, std::ios_base::cur, std::ios_base::out);
+            } else {
+                p = ((std::filebuf*)m_streambuf)->pubseekoff(0, std::ios_base::cur, std::ios_base::out);
+            }
+            if (p == pos_type(off_type(-1))) {
+                err |= ios_base::failbit;
+                this->setstate(err);
+            }
+        }
+    } catch (...) {
+        if (err) {
+            this->setstate(err);
+        }
+    }
+    return p;
+}
+
 osfstream::~osfstream()
 {
     delete m_streambuf; // streambuf closes the file on destruction
-- 
2.43.0


From cb36d22d2648057d4ff89dfe4290378bffe772b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:42 +0000
Subject: [PATCH 44/50] fix: load_from_checked_file compared an uninitialised
 hash when the check file was truncated

---
 include/sdsl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index d48f1a9..039b14c 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -789,7 +789,7 @@ bool load_from_checked_file(T& v, const std::string& file)
     }
     uint64_t hash_value;
     read_member(hash_value, in);
-    if (hash_value != util::hashvalue_of_classname(v)) {
+    if (!in or hash_value != util::hashvalue_of_classname(v)) {
         if (util::verbose) {
             std::cerr << "File `" << file << "` is not an instance of the class `" << sdsl::util::demangle2(typeid(T).name()) << "`" << std::endl;
         }
-- 
2.43.0


From 407e3f4cfbebc37071e05239c3bcf86cf65a9247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:53 +0000
Subject: [PATCH 45/50] fix: seeking a RAM file to a negative position fails

---
 lib/ram_filebuf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index bd64dd8..018dcab 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -80,7 +80,7 @@ ram_filebuf::close()
 ram_filebuf::pos_type
 ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
 {
-    if (!this->is_open()) {
+    if (!this->is_open() or sp < (pos_type)0) {
         return pos_type(off_type(-1));
     }
     if (sp >= (pos_type)0 and sp <= (pos_type)m_ram_file->size()) {
-- 
2.43.0


From a065a73fb63d3661ab572d0dd4ec0bf4763107fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:53 +0000
Subject: [PATCH 46/50] fix: sfstream shows in its state that a seek operation
 threw an exception

---
 lib/sfstream.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/lib/sfstream.cpp b/lib/sfstream.cpp
index 6c2c267..af5a8a7 100644
--- a/lib/sfstream.cpp
+++ b/lib/sfstream.cpp
@@ -89,9 +89,7 @@ osfstream::tellp()
             }
         }
     } catch (...) {
-        if (err) {
-            this->setstate(err);
-        }
+        this->setstate(std::ios_base::badbit);
     }
     return p;
 }
@@ -124,9 +122,7 @@ osfstream::seekp(pos_type pos)
             }
         }
     } catch (...) {
-        if (err) {
-            this->setstate(err);
-        }
+        this->setstate(std::ios_base::badbit);
     }
     return *this;
 }
@@ -151,9 +147,7 @@ osfstream::seekp(off_type off, std::ios_base::seekdir way)
             }
         }
     } catch (...) {
-        if (err) {
-            this->setstate(err);
-        }
+        this->setstate(std::ios_base::badbit);
     }
     return *this;
 }
@@ -245,9 +239,7 @@ isfstream::seekg(pos_type pos)
             }
         }
     } catch (...) {
-        if (err) {
-            this->setstate(err);
-        }
+        this->setstate(std::ios_base::badbit);
     }
     return *this;
 }
@@ -272,9 +264,7 @@ isfstream::seekg(off_type off, std::ios_base::seekdir way)
             }
         }
     } catch (...) {
-        if (err) {
-            this->setstate(err);
-        }
+        this->setstate(std::ios_base::badbit);
     }
     return *this;
 }
@@ -298,9 +288,7 @@ isfstream::tellg()
             }
         }
     } catch (...) {
-        if (err) {
-            this->setstate(err);
-        }
+        this->setstate(std::ios_base::badbit);
     }
     return p;
 }
-- 
2.43.0


From d254d5ff4a892555025fee65d850643eaeb7ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 47/50] fix: allocate the padding word when a vector grows to a
 multiple of 64 bits

---
 include/sdsl/memory_management.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 260ed6c..7898b5d 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -361,7 +361,9 @@ class memory_manager
         {
             uint64_t old_size_in_bytes = ((v.m_size + 63) >> 6) << 3;
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
-            bool do_realloc = old_size_in_bytes != new_size_in_bytes;
+            // the allocation has to grow if only the padding (see below) is missing
+            bool do_realloc = old_size_in_bytes != new_size_in_bytes
+                              or ((v.m_size + 64) >> 6) != ((size + 64) >> 6);
             v.m_size = size;
             if (do_realloc || v.m_data == nullptr) {
                 // Note that we allocate 8 additional bytes if m_size % 64 == 0.
@@ -384,7 +386,7 @@ class memory_manager
                 }
 
                 // update stats
-                if (do_realloc) {
+                if (old_size_in_bytes != new_size_in_bytes) {
                     memory_monitor::record((int64_t)new_size_in_bytes - (int64_t)old_size_in_bytes);
                 }
             }
-- 
2.43.0


From e53008319eb5bc6e49213b23b291dbc47d026176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 48/50] fix: a copied louds_node refers to its own members

---
 include/sdsl/louds_tree.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 943f2b4..69d520e 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -30,6 +30,16 @@ class louds_node
 
         louds_node(size_type f_nr=0, size_type f_pos=0):m_nr(f_nr), m_pos(f_pos),nr(m_nr),pos(m_pos) {}
 
+        //! Copy constructor (nr and pos have to refer to the members of the copy)
+        louds_node(const louds_node& v):m_nr(v.m_nr), m_pos(v.m_pos),nr(m_nr),pos(m_pos) {}
+
+        //! Assignment operator
+        louds_node& operator=(const louds_node& v) {
+            m_nr  = v.m_nr;
+            m_pos = v.m_pos;
+            return *this;
+        }
+
         bool operator==(const louds_node& v)const {
             return m_nr == v.m_nr and m_pos ==v.m_pos;
         }
-- 
2.43.0


From 6158b836f988d539e9fbf257cc566f876af0e2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 49/50] fix: samples of _bwt_sampling are stored undivided

---
 include/sdsl/csa_sampling_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index a9e7139..3d0e0af 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -550,7 +550,7 @@ class _bwt_sampling : public int_vector<t_width>
         //! Return the suffix array value for the sampled index i
         inline value_type operator[](size_type i) const
         {
-            return base_type::operator[](m_rank_marked(i)) * sample_dens;
+            return base_type::operator[](m_rank_marked(i));
         }
 
         //! Assignment operation
-- 
2.43.0


From 25a83d165c341789316efda730e4ddb6acd43d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 50/50] fix: util::rnd_positions shifted in 32 bits

---
 include/sdsl/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index 8ce7881..a7ced2d 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -347,8 +347,8 @@ class spin_lock
 template<class t_int_vec>
 t_int_vec rnd_positions(uint8_t log_s, uint64_t& mask, uint64_t mod=0, uint64_t seed=17)
 {
-    mask = (1<<log_s)-1;
-    t_int_vec rands(1<<log_s ,0);
+    mask = (1ULL<<log_s)-1;
+    t_int_vec rands(1ULL<<log_s ,0);
     set_random_bits(rands, seed);
     if (mod > 0) {
         util::mod(rands, mod);
-- 
2.43.0

