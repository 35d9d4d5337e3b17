H = '#include <sdsl/suffix_arrays.hpp>\n#include <thread>\n#include <atomic>\n#include <vector>\nusing namespace sdsl; using namespace std;\n'
T = '-fsanitize=thread'
BUGS = [
dict(id='b09-size-unlocked', property='P09', flags=T, needs='one thread asks the size of a RAM file while another creates RAM files',
 breaks='ram_fs::file_size looks into the map of files without its lock',
 edits={'lib/ram_fs.cpp': [("""    std::lock_guard<std::recursive_mutex> lock(m_rlock);
    if (exists(name)) {
        return m_map[name].size();
    } else {
        return 0;
    }""", """    auto it = m_map.find(name);
    return it != m_map.end() ? it->second.size() : 0;""")]},
 demo=H+'''int main(){ string s("abc"); store_to_file(s, "@a"); size_t r=0;
 atomic<int> left(2); atomic<size_t> bad(0); vector<thread> t;
 for(int k=0;k<2;++k) t.emplace_back([&,k]{ for(int i=0;i<10000;++i) ram_fs::store("@b"+to_string(99999-2*i-k), ram_fs::content_type()); --left; });
 for(int k=0;k<4;++k) t.emplace_back([&]{ while(left) if (ram_fs::file_size("@a")!=3) ++bad; }); for(auto& x:t) x.join(); r=bad; return r?1:0; }'''),
dict(id='b09-record-late-lock', property='P09', flags=T, needs='two threads that allocate memory while the memory monitor runs',
 breaks='the memory monitor reads the time of its last record before it takes the lock',
 edits={'include/sdsl/memory_management.hpp': [("""                std::lock_guard<util::spin_lock> lock(m.spinlock);
                if (m.event_stack.empty()) { // stopped in the meantime
                    return;
                }
                auto cur = timer::now();
                if (m.last_event + m.log_granularity < cur) {""", """                auto cur = timer::now();
                const bool next_granule = m.last_event + m.log_granularity < cur;
                std::lock_guard<util::spin_lock> lock(m.spinlock);
                if (m.event_stack.empty()) { // stopped in the meantime
                    return;
                }
                if (next_granule) {""")]},
 demo=H+'''int main(){ memory_monitor::granularity(chrono::milliseconds(0)); memory_monitor::start(); vector<thread> t;
 for(int k=0;k<4;++k) t.emplace_back([]{ for(int i=0;i<500;++i) int_vector<> v(1000+i, 1); }); for(auto& x:t) x.join(); memory_monitor::stop(); return 0; }'''),
dict(id='b09-spin-relaxed', property='P09', flags=T, needs='two threads that use the memory monitor on a machine (or compiler) that reorders',
 breaks='taking the spin lock no longer orders the protected data',
 edits={'include/sdsl/util.hpp': [("m_slock.test_and_set(std::memory_order_acquire)", "m_slock.test_and_set(std::memory_order_relaxed)")]},
 demo=H+'''int main(){ util::spin_lock l; vector<int> v; vector<thread> t;
 for(int k=0;k<4;++k) t.emplace_back([&]{ for(int i=0;i<500;++i){ lock_guard<util::spin_lock> g(l); v.push_back(i);} }); for(auto& x:t) x.join(); return v.size()!=2000; }'''),
]
