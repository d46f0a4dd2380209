"""planted changes: environment, printing arithmetic, exact widths"""
o={}
exec(open('/verif/tools/bugs3.py').read(), o)
G,P,H,X,M32=o["G"],o["P"],o["H"],o["X"],o["M32"]
BUGS=[
dict(id="c14-locale-point", property="C14", needs="a locale whose decimal point is not a dot", breaks="the text depends on the locale",
 edits=[(P,"				buffer[1] = '.';\n","				buffer[1] = *std::localeconv()->decimal_point;\n"),(P,'#include "../fp_to_chars.h"\n','#include "../fp_to_chars.h"\n#include <clocale>\n')],
 head='#include <clocale>\n#include <locale.h>\nstatic lconv mine; extern "C" lconv* localeconv() { mine.decimal_point = (char*)","; return &mine; }   // what a locale with a decimal comma answers\n', demo='EXPECT(text(1.5) == "1.5E0"); EXPECT(text(2.25f) == "2.25E0");'),
dict(id="c14-errno-range", property="C14", needs="errno looked at after printing a subnormal double", breaks="a call leaves ERANGE behind",
 edits=[(P,"""		char* double_to_chars(unsigned_fp_t<double> v, char* buffer) {
""","""		char* double_to_chars(unsigned_fp_t<double> v, char* buffer) {
			if (v.exponent < -323) {
				// As strtod() reports it
				errno = ERANGE;
			}
"""),(P,'#include "../fp_to_chars.h"\n','#include "../fp_to_chars.h"\n#include <cerrno>\n')],
 head='#include <cerrno>\n', demo='errno = 0; text(1.5); text(5e-324); text(db(3)); text(db(1000)); EXPECT(errno == 0);'),
dict(id="c08-float-division", property="C08", needs="a 17-digit significand next to a multiple of 10^8", breaks="the upper digits are one too large",
 edits=[(P,"					const uint64_t q = output / 100000000;","					const uint64_t q = (uint64_t)((double)output * 1e-8);")],
 head='', demo='for (std::uint64_t i = 10000000; i < 12000000 && !fails; ++i) { char b[40]; std::uint64_t s = i * 10000000000ull / 100 * 100 - 1; jkj::unsigned_fp_t<double> v; v.significand = i * 1000000000ull - 1; v.exponent = 0; char* e = jkj::fp_to_chars_detail::double_to_chars(v, b); std::string d = std::to_string((unsigned long long)v.significand); EXPECT(std::string(b, e) == d.substr(0, 1) + "." + d.substr(1) + "E" + std::to_string(d.size() - 1)); }'),
dict(id="c18-last-entry", property="C18", needs="the largest power of ten, used by the smallest subnormals only", breaks="the last constant is one too large in the last place",
 edits=[(G,"				{ 0xc5a05277621be293, 0xc7098b7305241885 }","				{ 0xc5a05277621be293, 0xc7098b7305241886 }")],
 head='', demo='auto c = jkj::grisu_exact_detail::get_cache<double>(jkj::grisu_exact_detail::common_info<double>::max_k); EXPECT(c.high() == 0xc5a05277621be293ull); EXPECT(c.low() == 0xc7098b7305241885ull);'),
]
