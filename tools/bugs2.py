G="grisu_exact.h"; P="fp_to_chars/fp_to_chars.cpp"; H="fp_to_chars.h"
def X(x,m,c,want,f="db"): return 'EXPECT((conv<rm::%s, cr::%s>(%s(%s)) == "%s"));' % (m,c,f,x,want)
M32="-O1 -m32 -msse2 -mfpmath=sse"
old={}
exec(open('/verif/tools/bugs1.py').read(), old); old={b["id"]:b for b in old["BUGS"]}
for k in ("c01-min-normal-end","c07-static-subnormal","c05-overflow-end","c16-assert-range","c17-log10-constant"): old.pop(k)
old["c03-six-steps"]["demo"]=X("0x1200000000000000ull","nearest_to_even","tie_to_up","55329046628180653e-238")+X("0x1200000000000000ull","nearest_to_even","tie_to_even","55329046628180653e-238")
old["c02-wide-remainder"]["demo"]=X("0x704aa5ea887b18ull","nearest_to_even","tie_to_even","1450000012884902e-321")
b=old["c08-ten-digits"]; b.update(needs="a ten-digit significand one or two above 10^9", breaks="counted as nine digits: digits misplaced", edits=[(P,"if (v >= 1000000000L) { return 10; }","if (v > 1000000001L) { return 10; }")], demo='EXPECT(text(1.000000001) == "1.000000001E0"); EXPECT(text(1000000001e-30) == "1.000000001E-21");')
old["c14-thread-cache"]["demo"]='auto a = conv<rm::nearest_to_even, cr::tie_to_even>(1.7); conv<rm::nearest_to_even, cr::tie_to_even>(1.0); EXPECT((conv<rm::nearest_to_even, cr::tie_to_even>(1.7) == a)); double v[] = { 0x1.7p61, 0x1p61, 0x1.7p61 }; for (int k = -400; k < 400; ++k) { double p = std::ldexp(1.0, k), q = std::nextafter(p, 0.0); auto first = conv<rm::nearest_to_even, cr::tie_to_even>(p); conv<rm::nearest_to_even, cr::tie_to_even>(q); conv<rm::nearest_to_even, cr::tie_to_even>(p * 1.3); EXPECT((conv<rm::nearest_to_even, cr::tie_to_even>(p) == first)); for (int i = 1; i < 400; ++i) { double x = p * (1 + i / 512.0); conv<rm::nearest_to_even, cr::tie_to_even>(q); auto f = conv<rm::nearest_to_even, cr::tie_to_even>(x); conv<rm::nearest_to_even, cr::tie_to_even>(q); conv<rm::nearest_to_even, cr::tie_to_even>(p); EXPECT((conv<rm::nearest_to_even, cr::tie_to_even>(x) == f)); } }'
old["c14-thread-cache"]["head"]="#include <cmath>\n"; old["c14-thread-cache"]["flags"]="-O1 -DNDEBUG"
old["c15-static-scratch"].update(head="#include <thread>\n#include <atomic>\n", flags="-O2", demo='''	std::atomic<long> wrong{0}; std::thread t[2];
	for (int i = 0; i < 2; ++i) t[i] = std::thread([&, i] { const char* want = i ? "1.7976931348623157E308" : "5E-324"; double x = i ? 1.7976931348623157e308 : 5e-324;
		for (int k = 0; k < 3000000; ++k) { char b[40]; char* e = jkj::fp_to_chars_n(x, b); if (std::string(b, e) != want) ++wrong; } });
	for (auto& q : t) q.join();
	EXPECT(wrong == 0);''')
old["c13-generic-carry"].update(flags=M32, demo=X("0x430000000000000ull","toward_zero","tie_to_even","16418147205193505e-304"))
old["c04-odd-at-unit"]["demo"]=X("0x3b900000","nearest_toward_plus_infinity","tie_to_odd","43945313e-10","fl")
old["c22-text-policy"]["demo"]='char b[40]; EXPECT(std::string(b, jkj::fp_to_chars(fl(0x3b900000), b, rm::nearest_to_even{}, cr::tie_to_odd{})) == std::string(b, jkj::fp_to_chars_n(fl(0x3b900000), b, rm::nearest_to_even{}, cr::tie_to_odd{}))); char c[40]; EXPECT(std::string(c, jkj::fp_to_chars(fl(0x3b900000), c, rm::nearest_to_even{}, cr::tie_to_odd{})) == "4.3945313E-3"); EXPECT(std::string(c, jkj::fp_to_chars(fl(0x3b900000), c, rm::nearest_to_even{}, cr::tie_to_even{})) == "4.3945312E-3");'
old["c20-five-last-multiple"]["demo"]='EXPECT(jkj::grisu_exact_detail::divisible_by_power_of_5<std::uint32_t>(4294967275u, 2)); EXPECT(!jkj::grisu_exact_detail::divisible_by_power_of_5<std::uint32_t>(4294967280u, 2));'
old["c18-table-digit"]["demo"]='auto c = jkj::grisu_exact_detail::get_cache<double>(-184); EXPECT(c.high() == 0xd98ddaee19068c76ull); EXPECT(c.low() == 0x3badd624dd9b0958ull);'
old["c01-edge-end"]["demo"]=X("0x3730000000000000ull","nearest_to_even","tie_to_up","7174648137343064e-58")
BUGS=list(old.values())+[
dict(id="c05-overflow-end", property="C05", needs="a double with an all-ones significand under toward_zero in a few binades", breaks="the overflowed right end point is one unit too small",
 edits=[(G,"zi = cache.high() >> minus_beta;","zi = compute_mul(fr - 1, cache, minus_beta);")], demo=""),
dict(id="c07-plus-inf-static", property="C07", needs="a negative input on an exact boundary under nearest_toward_plus_infinity_static_boundary", breaks="boundary chosen as for positive inputs",
 edits=[(G,"""		struct nearest_toward_plus_infinity_static_boundary {
			template <bool return_sign, class Float, class CorrectRoundingSearch>
			fp_t<Float, return_sign> delegate(bit_representation_t<Float> br,
				CorrectRoundingSearch&& crs) const
			{
				if (br.is_negative()) {""","""		struct nearest_toward_plus_infinity_static_boundary {
			template <bool return_sign, class Float, class CorrectRoundingSearch>
			fp_t<Float, return_sign> delegate(bit_representation_t<Float> br,
				CorrectRoundingSearch&& crs) const
			{
				if (return_sign && br.is_negative()) {""")], demo=""),
dict(id="c17-log10-far", property="C17", needs="an exponent beyond those conversions use but inside the documented range", breaks="floor(log10(2^e)) off by one", edits=[(G,"log10_2_up_to_20 = 0x4d104;","log10_2_up_to_20 = 0x4d103;")],
 demo="EXPECT(jkj::grisu_exact_detail::floor_log10_pow2(1166) == 351); EXPECT(jkj::grisu_exact_detail::floor_log10_pow2(1649) == 496);"),
dict(id="c17-log5-constant", property="C17", needs="a large exponent in the documented range of the compile-time helper", breaks="floor(log5(2^e)) off by one", edits=[(G,"log5_2_up_to_32 = 0x6e40d1a4;","log5_2_up_to_32 = 0x6e40d1a0;")],demo=""),
dict(id="c16-table-size", property="C16", needs="a double near 2^70 whose right end point is a short integer, exclusive end point", breaks="table of powers of five one entry short: assertion failure / read past the table",
 edits=[(G,"std::is_same_v<UInt, std::uint32_t> ? 12 : 24>();","std::is_same_v<UInt, std::uint32_t> ? 11 : 23>();")], demo=""),
dict(id="c16-misaligned", property="C16", needs="a string whose digits end at an odd address", breaks="two digits are stored through a misaligned pointer (undefined behaviour)",
 edits=[(P,"""				memcpy(buffer + olength - i - 1, radix_100_table + c, 2);
				i += 2;""","""				*reinterpret_cast<uint16_t*>(buffer + olength - i - 1) = uint16_t((unsigned char)radix_100_table[c]
					| ((unsigned char)radix_100_table[c + 1] << 8));
				i += 2;""")], flags="-O1 -fsanitize=undefined -fno-sanitize-recover=all", demo='char b[80]; for (int i = 0; i < 8; ++i) { char* e = jkj::fp_to_chars_n(123.0, b + i); EXPECT(std::string(b + i, e) == "1.23E2"); e = jkj::fp_to_chars_n(1234.5, b + i); EXPECT(std::string(b + i, e) == "1.2345E3"); }'),
dict(id="c16-shift64", property="C16", needs="the portable build, a float or double near 2^-70: the power of two reaches the width of the type", breaks="shift by the full width (undefined behaviour; wrong answer on x86)",
 edits=[(G,"			if (exp >= int(sizeof(UInt) * 8)) {\n","			if (exp > int(sizeof(UInt) * 8)) {\n")], flags=M32, demo=""),
dict(id="c09-magnitude-only", property="C09", needs="a negative number on an exact boundary printed with a sign-dependent nearest mode", breaks="the magnitude is converted as if positive: the text reads back as a neighbour",
 edits=[(H,"""					return fp_to_chars_detail::double_to_chars(grisu_exact<false>(x,""","""					return fp_to_chars_detail::double_to_chars(grisu_exact<false>(br.is_negative() ? -x : x,""")], demo=""),
dict(id="c11-extra-byte", property="C11", needs="a caller that keeps data right behind the text", breaks="one byte behind a one-digit exponent is overwritten",
 edits=[(P,"""				else if (exp >= 10) {
					memcpy(buffer, radix_100_table + 2 * exp, 2);
					buffer += 2;
				}
				else {
					*buffer = (char)('0' + exp);
					++buffer;
				}
			}
			else {
				if""","""				else if (exp >= 10) {
					memcpy(buffer, radix_100_table + 2 * exp, 2);
					buffer += 2;
				}
				else {
					memcpy(buffer, radix_100_table + 2 * exp + 1, 2);
					++buffer;
				}
			}
			else {
				if""")], demo='char b[32]; std::memset(b, 7, sizeof b); char* e = jkj::fp_to_chars_n(1.5, b); EXPECT(std::string(b, e) == "1.5E0"); EXPECT(*e == 7);'),
dict(id="c22-default-policy", property="C22", needs="a tie, printed with a terminator and no policy given", breaks="the default policy of the terminating form differs",
 edits=[(H,"""		class CorrectRoundingSearch = grisu_exact_correct_rounding::tie_to_even
	>
	char* fp_to_chars(Float""","""		class CorrectRoundingSearch = grisu_exact_correct_rounding::tie_to_up
	>
	char* fp_to_chars(Float""")], demo='char b[40]; EXPECT(std::string(b, jkj::fp_to_chars(fl(0x3b900000), b)) == "4.3945312E-3");'),
dict(id="c01-smallest-kappa-end", property="C01", needs="do_not_care or a directed mode, an excluded right end point that is an exact short decimal at the smallest position", breaks="the excluded end point is returned",
 edits=[(G,"""					else
					{
						goto boundary_adjustment_label;
					}
""","""					else
					{
						goto correct_rounding_search_label;
					}
""")], demo=""),
dict(id="c14-daz-zero", property="C14", needs="a subnormal printed while denormals-are-zero is set", breaks="prints 0E0",
 edits=[(H,"			if (br.is_nonzero()) {","			if (x != 0) {")], head="#include <immintrin.h>\n", demo='EXPECT(text(5e-324) == "5E-324"); _mm_setcsr(_mm_getcsr() | 0x40); char b[40]; char* e = jkj::fp_to_chars_n(db(1), b); _mm_setcsr(_mm_getcsr() & ~0x40u); EXPECT(std::string(b, e) == "5E-324");'),
dict(id="c15-lazy-table", property="C15", needs="two threads whose first conversions overlap", breaks="a table filled on first use behind a plain flag",
 edits=[(P,"""			auto output = v.significand;
			auto const olength""","""			static char exponent_digits[200];
			static bool filled = false;
			if (!filled) {
				filled = true;
				for (int j = 0; j < 200; ++j)
					exponent_digits[j] = radix_100_table[j];
			}
			auto output = v.significand;
			auto const olength"""),(P,"""					memcpy(buffer, radix_100_table + 2 * exp, 2);
					buffer += 2;
				}
				else {
					*buffer = (char)('0' + exp);
					++buffer;
				}
			}
			else {""","""					memcpy(buffer, exponent_digits + 2 * exp, 2);
					buffer += 2;
				}
				else {
					*buffer = (char)('0' + exp);
					++buffer;
				}
			}
			else {""")], sh='''#!/bin/bash
# run in /repo after the build: 0 on a correct tree, nonzero with the planted change
D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O1 -g -fsanitize=thread -I. "$D/demo.cpp" fp_to_chars/fp_to_chars.cpp -o "$T/demo" -pthread || exit 2
for i in $(seq 40); do TSAN_OPTIONS="halt_on_error=1 exitcode=66" timeout 60 setarch -R "$T/demo" || exit 1; done
''', head="#include <thread>\n#include <atomic>\n", demo='''	std::atomic<int> go{0}, wrong{0}; std::thread t[2];
	for (int i = 0; i < 2; ++i) t[i] = std::thread([&] { go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < 2) {} char b[40]; char* e = jkj::fp_to_chars_n(1.5e27, b); if (std::string(b, e) != "1.5E27") wrong.fetch_add(1, std::memory_order_relaxed); });
	for (auto& q : t) q.join();
	EXPECT(wrong == 0);'''),
dict(id="c05-away-edge", property="C05", needs="a power of two under away_from_zero near the lower end of the cache scaling", breaks="interval of a power of two taken as wide as its neighbours' when the scaled end point is compared exactly",
 edits=[(G,"""					fl = (fc == sign_bit_mask && exponent != min_exponent) ?
						sign_bit_mask - boundary_bit :
						fc - normal_interval_length;""","""					fl = fc - normal_interval_length;""")], demo=""),
dict(id="c04-down-half", property="C04", needs="tie_to_down with the input half a unit off", breaks="an input half way between scaled integers is taken for a tie",
 edits=[(G,"if (!is_product_integer<integer_check_case_id::other>(significand, exponent, minus_k)) {\n										--steps;","if (!is_product_integer<integer_check_case_id::two_times_fc>(significand, exponent, minus_k)) {\n										--steps;")], demo=""),
dict(id="c21-negative-infinity", property="C21", needs="negative infinity with the default handler", breaks="negative infinity passes the default handler",
 edits=[(G,"				assert(br.is_finite());","				assert(br.is_finite() || (br.is_infinity() && br.is_negative()));")], head="#include <csignal>\n#include <sys/wait.h>\n#include <unistd.h>\n",
 demo='for (std::uint64_t u : { 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0xfff8000000000001ull }) { pid_t p = fork(); if (p == 0) { freopen("/dev/null", "w", stderr); jkj::grisu_exact_case_handlers::assert_finite h; h(jkj::get_bit_representation(db(u))); _exit(0); } int st; waitpid(p, &st, 0); EXPECT(WIFSIGNALED(st)); }'),
dict(id="c23-open-kappa", property="C23", needs="a power of two under tie_to_even whose doubled step count is compared strictly", breaks="the closest candidate is skipped when it lies exactly on the comparison bound",
 edits=[(G,"if (displacement <= epsiloni) {","if (displacement < epsiloni) {")], demo=""),
dict(id="c24-decrement-zero", property="C24", needs="an exact integer right end point with a one-digit significand, end point excluded", breaks="significand becomes zero or loses its leading digit",
 edits=[(G,"""							if (divisor < deltai) {
								break;
							}
							else if (divisor == deltai) {""","""							if (divisor < deltai || ret_value.significand == 1) {
								break;
							}
							else if (divisor == deltai) {""")], demo=""),
dict(id="c19-delta-edge", property="C19", needs="a float power of two whose interval width is an exact integer after rounding the halves separately", breaks="width of a power of two's interval too small by one",
 edits=[(G,"r = (r >> 1) + (r >> 2);","r = ((r >> 2) << 1) + (r >> 2);")], demo=""),
dict(id="c02-lambda-one", property="C02", needs="a result that can be shortened by exactly one digit after larger steps, left end point included and exact", breaks="the last step of the search ignores an included left end point",
 edits=[(G,"""						switch (zf_vs_deltaf) {
						case zf_vs_deltaf_t::not_compared_yet:
							if (!is_zf_smaller_than_deltaf<tag>(fc,
								minus_beta, cache, interval_type, exponent, minus_k))
							{""","""						switch (zf_vs_deltaf) {
						case zf_vs_deltaf_t::not_compared_yet:
							if (lambda == 1 ? !(compute_mul(fc - boundary_bit, cache, minus_beta) & 1) : !is_zf_smaller_than_deltaf<tag>(fc,
								minus_beta, cache, interval_type, exponent, minus_k))
							{""")], demo=""),
dict(id="c20-bound-m1", property="C20", needs="an end point test at the largest exponent for which the power of five matters", breaks="the range of the integrality test ends one binary exponent early",
 edits=[(G,"exponent <= integer_check_exponent_upper_bound_for_p_p2)","exponent < integer_check_exponent_upper_bound_for_p_p2)")], demo=""),
dict(id="c03-mode-cross", property="C03", needs="nearest_to_odd on an even significand power of two", breaks="odd rule decided on the promoted significand",
 edits=[(G,"return{ br.f % 2 != 0 };","return{ br.f % 2 != 0 || br.extract_significand_bits() == 0 };")], demo=""),
]
