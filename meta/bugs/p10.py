H = '''#include <sdsl/suffix_trees.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/construct_lcp_helper.hpp>
#include <string>
#include <dirent.h>
#include <iostream>
using namespace sdsl; using namespace std;
static int files(const string& d){ int n=0; DIR* p=opendir(d.c_str()); while (dirent* e=readdir(p)) if (e->d_name[0]!='.') { cerr << e->d_name << endl; ++n; } closedir(p); return n; }
'''
BUGS = [
dict(id='b10-ap-class', property='P10', needs='the wavelet tree wt_ap of an empty sequence',
 breaks='the file with the character classes stays behind',
 edits={'include/sdsl/wt_ap.hpp': [("""            sdsl::remove(temp_file_class);
            {
                auto event = memory_monitor::event("offset WTs");
                m_offset""", """            if (m_singleton_class_cnt < m_class_cnt) {
                auto event = memory_monitor::event("offset WTs");
                sdsl::remove(temp_file_class);
                m_offset""")]},
 demo=H+'''int main(int, char** a){ string d=string(a[1])+"/t"; system(("mkdir "+d).c_str()); int_vector<> v;
 string f=d+"/in"; store_to_file(v,f); { wt_ap<> w; construct(w,f,0); if (w.size()!=0) return 2; } int n=files(d); return n==1 ? 0 : 1; }'''),
dict(id='b10-sa-right', property='P10', flags='-DNDEBUG', needs='the semi-external suffix sorter and a text that needs a recursion',
 breaks='the file of the right scan of the recursion stays behind',
 edits={'include/sdsl/construct_sa_se.hpp': [("""    right.close(true);
""", """    right.close(recursion==0);
""")]},
 demo=H+'''int main(int, char** a){ string d=string(a[1])+"/t"; system(("mkdir "+d).c_str()); string s; for (int i=0;i<3000;++i) s += (i*i%7<3) ? "ab" : "aab";
 string f=string(a[1])+"/in"; { ofstream o(f); o << s; } construct_config::byte_algo_sa = SE_SAIS; cache_config c(true, d, "x"); csa_bitcompressed<> csa; construct(csa,f,c,1);
 if (csa.size()!=s.size()+1) return 2; return files(d) ? 1 : 0; }'''),
dict(id='b10-cst-map', property='P10', needs='a compressed suffix tree over csa_sada, built with delete_files',
 breaks='the files that were registered while the CSA of the tree was built are forgotten',
 edits={'include/sdsl/construct.hpp': [("""            auto event = memory_monitor::event("store CSA");
            config.file_map = csa_config.file_map;
""", """            auto event = memory_monitor::event("store CSA");
""")]},
 demo=H+'''int main(int, char** a){ string d=string(a[1])+"/t"; system(("mkdir "+d).c_str()); string f=string(a[1])+"/in"; { ofstream o(f); o << "abracadabra, simsalabim, abracadabra"; }
 cache_config c(true, d, "x"); cst_sct3<csa_sada<>> t; construct(t,f,c,1); if (t.size()<10) return 2; return files(d) ? 1 : 0; }'''),
dict(id='b10-queue', property='P10', needs='a disk queue that has written blocks and has been read until they were consumed',
 breaks='the file of the queue stays behind',
 edits={'lib/construct_lcp_helper.cpp': [("""    m_stream.close();
    sdsl::remove(m_file_name);
""", """    m_stream.close();
    if (m_disk_buffered_blocks > 0) {
        sdsl::remove(m_file_name);
    }
""")]},
 demo=H+'''int main(int, char** a){ string d=string(a[1])+"/t"; system(("mkdir "+d).c_str()); { buffered_char_queue q; q.init(d+"/", 'x'); const int n=5<<20; for (int i=0;i<n;++i) q.push_back(i%251); for (int i=0;i<n;++i) if (q.pop_front()!=i%251) return 2; }
 return files(d) ? 1 : 0; }'''),
dict(id='b10-rlmn-early', property='P10', needs='the run-length wavelet tree of an empty sequence or one that consists of a single run',
 breaks='the file with the run heads stays behind',
 edits={'include/sdsl/wt_rlmn.hpp': [("""                sdsl::remove(temp_file);
""", """                if (m_wt.sigma > 1) sdsl::remove(temp_file);
""")]},
 demo=H+'''int main(int, char** a){ string d=string(a[1])+"/t"; system(("mkdir "+d).c_str()); int_vector<8> v(100,'a'); string f=d+"/in"; store_to_file(v,f);
 { wt_rlmn<> w; construct(w,f,0); if (w.size()!=100) return 2; } return files(d)==1 ? 0 : 1; }'''),
]
