// Definitions needed only in proof mode.
#include <iostream>
#include <fstream>
#include <string>
#ifdef VF_JSON_PATHS
#include <nlohmann/json.hpp>
vfj::Store* vf_printed[4];
unsigned vf_nprinted = 0;
bool vf_json_may_throw = false;
#endif
namespace std {
ostream cout, cerr, clog;
istream cin;
bool vstl_file_exists = false;
string* vstl_file_content = nullptr;
}
