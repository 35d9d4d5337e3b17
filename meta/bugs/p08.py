H = '#include <sdsl/suffix_arrays.hpp>\n#include <fstream>\n#include <cstdio>\n#include <unistd.h>\nusing namespace sdsl; using namespace std;\nbool disk(const string& n){ return access(n.c_str(), F_OK)==0; }\n'
BUGS = [
dict(id='b08-remove-missing', property='P08', needs='sdsl::remove of a RAM file that does not exist while a disk file of that name does',
 breaks='removing a missing RAM file deletes a file on disk',
 edits={'lib/ram_fs.cpp': [("""int remove(const std::string& file)
{
    if (is_ram_file(file)) {""", """int remove(const std::string& file)
{
    if (ram_fs::exists(file)) {""")]},
 demo=H+'''int main(){ { ofstream o("@x"); o << "disk"; } if(!disk("@x")) return 4; sdsl::remove("@x"); return disk("@x") ? 0 : 1; }'''),
dict(id='b08-size-stat', property='P08', needs='file_size of an empty RAM file while a disk file of that name exists',
 breaks='the size of an empty RAM file is taken from the disk',
 edits={'lib/util.cpp': [("    if (is_ram_file(file)) {\n        return ram_fs::file_size(file);\n    } else {", "    size_t ram_size = is_ram_file(file) ? ram_fs::file_size(file) : 0;\n    if (ram_size > 0) {\n        return ram_size;\n    } else {")]},
 demo=H+'''int main(){ { ofstream o("@x"); o << "disk"; } string s; store_to_file(s, "@x"); return util::file_size("@x")==0 ? 0 : 1; }'''),
dict(id='b08-checked-raw', property='P08', needs='store_to_checked_file of a structure into a RAM file',
 breaks='the check file of a RAM file is written to the disk',
 edits={'include/sdsl/io.hpp': [("""    std::string checkfile = file+"_check";
    osfstream out(checkfile, std::ios::binary | std::ios::trunc | std::ios::out);
    if (!out) {
        if (util::verbose) {
            std::cerr<<"ERROR: store_to_checked_file not""", """    std::string checkfile = file+"_check";
    std::ofstream out(checkfile, std::ios::binary | std::ios::trunc | std::ios::out);
    if (!out) {
        if (util::verbose) {
            std::cerr<<"ERROR: store_to_checked_file not""")]},
 demo=H+'''int main(){ bit_vector b(10,1); store_to_checked_file(b, "@y"); return disk("@y_check") || !ram_fs::exists("@y_check"); }'''),
dict(id='b08-cache-probe', property='P08', needs='a cache in RAM and a disk directory whose name starts with @',
 breaks='whether a cached file exists is asked from the disk for a cache in RAM',
 edits={'lib/io.cpp': [("""bool cache_file_exists(const std::string& key, const cache_config& config)
{
    std::string file_name = cache_file_name(key, config);
    isfstream in(file_name);""", """bool cache_file_exists(const std::string& key, const cache_config& config)
{
    std::string file_name = cache_file_name(key, config);
    std::ifstream in(file_name);"""), ('#include <vector>', '#include <vector>\n#include <fstream>')]},
 demo=H+'''int main(){ cache_config c(false, "@", "id"); int_vector<> v(3,1); store_to_cache(v, "k", c); return cache_file_exists("k", c) ? 0 : 1; }'''),
]
