#ifndef TABLE_PBF
#define TABLE_PBF
#include <string>
// Assumed contract of the generated string table message: add_s appends a string (told to the specification).
namespace OSMPBF { struct StringTable { void add_s(const std::string& s) { vfw::put(s); } void add_s(const char* s) { vfw::put(std::string(s)); } }; }
#endif
