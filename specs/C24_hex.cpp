// LIMIT: 300
// FLAGS: -DVF_OSTREAM_HOOK
#include <vf.hpp>
#include <sstream>
#include <osmium/geometry.hpp>
namespace G = Osmium::Geometry;
// the bytes of a value as pairs of hex digits, upper case, the byte that comes first in memory first
static u64 g_value, g_size, g_digits;
static char digit(u64 i) { u64 b = g_value >> (8 * (i >> 1)); u64 d = ((i & 1) ? b : b >> 4) & 15; return (char)(d < 10 ? '0' + d : 'A' + (d - 10)); }
#ifdef VF_ENGINE
void vf_on_bytes(const char*, long) { vf_unsupported("bytes"); }
void vf_on_text(unsigned long) { vf_unsupported("text"); }
void vf_on_double(double, int, bool) { vf_unsupported("a number"); }
void vf_on_char(char c) { vf_ensure("there are two digits for each byte", g_digits < 2 * g_size); vf_ensure("each digit is that of its half byte", c == digit(g_digits)); ++g_digits; }
struct Out : public std::ostream {};
static void done(Out&) { vf_ensure("every byte is written", g_digits == 2 * g_size); }
#else
typedef std::ostringstream Out;
static void done(Out& o) { std::string s; for (u64 i = 0; i < 2 * g_size; ++i) s += digit(i); vf_ensure("each digit is that of its half byte", o.str() == s); }
#endif
template <class T> static void hex(T v, u64 bits) { g_value = bits; g_size = sizeof(T); g_digits = 0; Out o; G::write_hex<T>(o, v); done(o); vf_cover("written"); }
HARNESS(byte) { uint8_t v = (uint8_t)vf_in_u32("v"); hex<uint8_t>(v, v); }
HARNESS(word) { uint32_t v = vf_in_u32("v"); hex<uint32_t>(v, v); }
HARNESS(real) { u64 b = vf_in_u64("v"); hex<double>(vf_bits2d(b), b); }
