"""the planted changes that are kept; bugs1/bugs2 hold the earlier ones this file builds on"""
o={}
exec(open('/verif/tools/bugs2.py').read(), o)
G,P,H,X,M32=o["G"],o["P"],o["H"],o["X"],o["M32"]
b={x["id"]:x for x in o["BUGS"]}
for k in ("c05-overflow-end","c16-table-size","c16-shift64","c22-default-policy","c23-open-kappa","c04-down-half","c19-delta-edge","c02-lambda-one","c03-mode-cross"): b.pop(k)
b["c17-log5-constant"]["demo"]='EXPECT(jkj::grisu_exact_detail::floor_log5_pow2(-49471) == -21307); EXPECT(jkj::grisu_exact_detail::floor_log5_pow2(7) == 3);'
b["c09-magnitude-only"]["demo"]='char t[40]; for (int i = 0; i < 2; ++i) { *jkj::fp_to_chars_n(db(i ? 0xc340000000000003ull : 0xc340000000000002ull), t, rm::nearest_toward_minus_infinity{}, cr::do_not_care{}) = 0; EXPECT(std::string(t) == (i ? "-9.007199254740998E15" : "-9.007199254740996E15")); }'
b["c01-smallest-kappa-end"]["demo"]=X("0x3ef07fffffffffffull","toward_zero","do_not_care","15735626220703124e-21")
b["c05-away-edge"]["demo"]=X("0xc20000000000000ull","toward_plus_infinity","tie_to_odd","27934029957198183e-266")
b["c24-decrement-zero"]["demo"]=X("0x3fefffffffffffffull","toward_minus_infinity","tie_to_odd","9999999999999999e-16")
b["c07-plus-inf-static"]["demo"]='for (std::uint64_t u : { 0xc340000000000001ull, 0xc340000000000002ull, 0xc340000000000003ull, 0xc340000000000005ull }) for (int i = 0; i < 1; ++i) { auto a = jkj::grisu_exact<false>(db(u), rm::nearest_toward_plus_infinity{}, cr::do_not_care{}); auto c = jkj::grisu_exact<false>(db(u), rm::nearest_toward_plus_infinity_static_boundary{}, cr::do_not_care{}); EXPECT(a.significand == c.significand && a.exponent == c.exponent); }'
new=[
dict(id="c05-overflow-shift", property="C05", needs="toward_zero on the largest significand of a binade in double", breaks="the overflowed right end point loses a bit", edits=[(G,"zi = cache.high() >> minus_beta;","zi = cache.high() >> (minus_beta + 1) << 1;")], demo=""),
dict(id="c22-default-n", property="C22", needs="a tie printed without terminator and with a rounding mode but no policy", breaks="the default policy of the unterminated form differs",
 edits=[(H,"""		class CorrectRoundingSearch = grisu_exact_correct_rounding::tie_to_even
	>
	char* fp_to_chars_n(Float""","""		class CorrectRoundingSearch = grisu_exact_correct_rounding::tie_to_up
	>
	char* fp_to_chars_n(Float""")], demo='char t[40]; EXPECT(std::string(t, jkj::fp_to_chars_n(fl(0x3b900000), t)) == "4.3945312E-3"); EXPECT(std::string(t, jkj::fp_to_chars_n(fl(0x3b900000), t, rm::nearest_to_odd{})) == "4.3945312E-3");'),
dict(id="c23-skip-four", property="C23", needs="a double that is a decimal of one to five digits (at least twelve zeros dropped)", breaks="trailing zeros are left in short decimals",
 edits=[(G,"""					increasing_search<8, IntervalTypeProvider::tag, true>(ret_value, interval_type,
						zf_vs_deltaf, exponent, minus_k, minus_beta, significand, r, divisor, deltai, cache);
					increasing_search<4, IntervalTypeProvider::tag, false>(ret_value, interval_type,
						zf_vs_deltaf, exponent, minus_k, minus_beta, significand, r, divisor, deltai, cache);
""","""					if (!increasing_search<8, IntervalTypeProvider::tag, true>(ret_value, interval_type,
						zf_vs_deltaf, exponent, minus_k, minus_beta, significand, r, divisor, deltai, cache))
						increasing_search<4, IntervalTypeProvider::tag, false>(ret_value, interval_type,
							zf_vs_deltaf, exponent, minus_k, minus_beta, significand, r, divisor, deltai, cache);
""")], demo=X("0x3ff8000000000000ull","nearest_to_even","tie_to_even","15e-1")+X("0x46293e5939a08ceaull","nearest_to_even","tie_to_even","1e30")),
dict(id="c19-partial-product", property="C19", needs="a significand whose product lies within 2^-32 of carrying into the upper half", breaks="the carry from the lower partial product is lost",
 edits=[(G,"auto g10 = umul128_upper64(x, y.low());","std::uint64_t g10 = umul64(std::uint32_t(x >> 32), std::uint32_t(y.low() >> 32));")],
 demo='EXPECT(jkj::grisu_exact_detail::umul192_upper64(0x100000001ull, jkj::grisu_exact_detail::uint128(0xffffffff00000000ull, ~0ull)) == 0x100000000ull);'),
dict(id="c13-carry-equal", property="C13", needs="the portable or 32-bit build; a product whose low half is zero, which only powers of two under directed modes give", breaks="a carry is added that is not there",
 edits=[(G,"return g0.high() + (intermediate < g10);","return g0.high() + (intermediate <= g10);")], flags=M32, demo=""),
dict(id="c16-table-overread", property="C16", needs="the digit pair 99 at the front", breaks="two bytes behind the digit table are read",
 edits=[(P,"""				output2 /= 100;
				memcpy(buffer + olength - i - 1, radix_100_table + c, 2);""","""				output2 /= 100;
				char pair[4];
				memcpy(pair, radix_100_table + c, 4);
				memcpy(buffer + olength - i - 1, pair, 2);""")], flags="-O1 -g -fsanitize=address", demo='EXPECT(text(1.99) == "1.99E0"); EXPECT(text(2.98) == "2.98E0");'),
dict(id="c15-memo-pair", property="C15", needs="two threads printing different numbers; both writing a remembered length", breaks="the remembered significand and length of another thread are combined",
 edits=[(P,"			auto const olength = decimal_length(output);","""			static decltype(output) last_output = 0;
			static std::uint32_t last_length = 1;
			if (output != last_output) {
				last_output = output;
				last_length = decimal_length(output);
			}
			auto const olength = last_length;""")], head="#include <thread>\n#include <atomic>\n", sh='''#!/bin/bash
# run in /repo after the build: 0 on a correct tree, nonzero with the planted change
D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O1 -g -fsanitize=thread -I. "$D/demo.cpp" fp_to_chars/fp_to_chars.cpp -o "$T/demo" -pthread || exit 2
TSAN_OPTIONS="halt_on_error=1 exitcode=66" timeout 100 setarch -R "$T/demo"
''', demo='''	std::atomic<int> wrong{0}, here{0}; std::thread t[2];
	for (int i = 0; i < 2; ++i) t[i] = std::thread([&, i] { here.fetch_add(1, std::memory_order_relaxed); while (here.load(std::memory_order_relaxed) < 2) {} for (int k = 0; k < 400000; ++k) { char b[40]; char* e = jkj::fp_to_chars_n(i ? 0.1 + 0.2 : 2.5, b); if (std::string(b, e) != (i ? "3.0000000000000004E-1" : "2.5E0")) wrong.fetch_add(1, std::memory_order_relaxed); } });
	for (auto& q : t) q.join();
	EXPECT(wrong == 0);'''),
dict(id="c11-stale-byte", property="C11", needs="a caller's buffer that happens to hold a comma", breaks="the decimal point is not written over a comma already there",
 edits=[(P,"				buffer[1] = '.';\n","				if (buffer[1] != ',')\n					buffer[1] = '.';\n")], demo='char t[40]; for (int c = 0; c < 256; ++c) { std::memset(t, c, sizeof t); char* e = jkj::fp_to_chars_n(1.5, t); EXPECT(std::string(t, e) == "1.5E0"); }'),
dict(id="c14-exponent-memo", property="C14", needs="two numbers with the same exponent field but different formats or powers: a remembered quantity keyed by the exponent only", breaks="an edge-case width is reused for an ordinary number of the same binade",
 edits=[(G,"""				auto deltai = compute_delta<IntervalTypeProvider::tag>(
					significand == sign_bit_mask && exponent != min_exponent, cache, minus_beta);
""","""				static thread_local int last_exponent = 1 << 20;
				static thread_local std::uint32_t last_deltai = 0;
				if (exponent != last_exponent || significand == sign_bit_mask) {
					last_deltai = compute_delta<IntervalTypeProvider::tag>(
						significand == sign_bit_mask && exponent != min_exponent, cache, minus_beta);
					last_exponent = exponent;
				}
				auto deltai = last_deltai;
""")], demo='auto a = conv<rm::nearest_to_even, cr::tie_to_even>(1.1); for (int k = -300; k < 300; ++k) { double p = std::ldexp(1.0, k); for (int i = 1; i < 200; ++i) { double x = p * (1 + i / 256.0 + 1.0 / 4096 / 4096); conv<rm::nearest_to_even, cr::tie_to_even>(p * 2); auto f = conv<rm::nearest_to_even, cr::tie_to_even>(x); conv<rm::nearest_to_even, cr::tie_to_even>(p); EXPECT((conv<rm::nearest_to_even, cr::tie_to_even>(x) == f)); } } if (fails > 5) fails = 5;'),
dict(id="c04-float-odd", property="C04", needs="a float tie at the smallest decimal position under tie_to_odd", breaks="resolves the tie to even",
 edits=[(G,"ret_value.significand = (two_yi / 2) % 2 == 0 ?","ret_value.significand = (two_yi / 2) % 2 == 1 ?")], demo=""),
dict(id="c04-double-down", property="C04", needs="a double tie under tie_to_down", breaks="resolves the tie upwards",
 edits=[(G,"""								else {
									if (!is_product_integer<integer_check_case_id::other>(significand, exponent, minus_k)) {
										--steps;
									}
								}""","""								else {
									if (!is_product_integer<integer_check_case_id::other>(significand, exponent, minus_k) || (steps & 1) != 0) {
										--steps;
									}
								}""")], demo=""),
dict(id="c03-edge-59", property="C03", needs="one particular float binade minimum", breaks="one step too far at the closer left end",
 edits=[(G,"if (exponent == 59) {","if (exponent == 58) {")], demo=""),
dict(id="c03-edge-203", property="C03", needs="one particular double binade minimum", breaks="one step too far at the closer left end",
 edits=[(G,"if (exponent == -203) {","if (exponent == -202) {")], demo=""),
dict(id="c03-edge-one-step", property="C03", needs="a power of two whose remainder plus one step exceeds the narrower interval", breaks="leaves the interval to the left",
 edits=[(G,"deltai -= std::uint32_t(r);\n							if (divisor > deltai) {","deltai -= std::uint32_t(r) >> 1;\n							if (divisor > deltai) {")], demo=""),
dict(id="c08-cutoff", property="C08", needs="a significand between 2^32 and 2^33", breaks="digits lost", edits=[(P,"if ((output >> 32) != 0) {","if ((output >> 33) != 0) {")], demo='EXPECT(text(5000000001.0) == "5.000000001E9"); EXPECT(text(9000000001.0) == "9.000000001E9");'),
dict(id="c17-log2-constant", property="C17", needs="an exponent in the documented range beyond those used", breaks="floor(log2(10^e)) off by one", edits=[(G,"log2_5_over_4_up_to_20 = 0x35269e;","log2_5_over_4_up_to_20 = 0x35269d;")], demo=""),
dict(id="c18-float-ulp", property="C18", needs="the float table entry for 10^-5 or so looked at directly or through a product within one unit", breaks="last bit of one entry wrong",
 edits=[(G,"				0xa7c5ac471b478424,\n","				0xa7c5ac471b478423,\n")], demo="EXPECT(jkj::grisu_exact_detail::get_cache<float>(-5) == 0xa7c5ac471b478424ull);"),
dict(id="c12-payload-top", property="C12", needs="a NaN whose payload has its top bit set", breaks="the top payload bit is dropped",
 edits=[(G,"""			constexpr auto payload_mask =
				(extended_significand_type(1) << (precision - 1)) - 1;""","""			constexpr auto payload_mask =
				(extended_significand_type(1) << (precision - 2)) - 1;""")], demo='EXPECT(jkj::get_bit_representation(db(0x7ffc000000000000ull)).get_nan_payload().count() == 1); EXPECT(jkj::get_bit_representation(db(0x7ff8000000000001ull)).get_nan_payload().count() == 1);'),
dict(id="c12-signaling-float", property="C12", needs="a negative signaling NaN", breaks="negative NaNs are never signaling", edits=[(G,"			return is_nan() && !is_quiet_nan();","			return is_nan() && is_positive() != is_quiet_nan();")], demo='for (std::uint64_t u : { 0x7ff0000000000001ull, 0xfff0000000000001ull, 0x7ff8000000000001ull, 0xfff8000000000001ull }) EXPECT((jkj::get_bit_representation(db(u)).is_signaling_nan() == ((u >> 51 & 1) == 0)));'),
dict(id="c06-minus-inf-closed", property="C06", needs="a negative input on an exact boundary under nearest_toward_minus_infinity", breaks="the wrong end point is included for negative numbers",
 edits=[(G,"				return{ br.is_negative() };","				return{ br.is_negative() && br.is_subnormal() };")], demo=""),
dict(id="c01-log5-bound", property="C01", needs="a binade where the tests for integral end points begin", breaks="the range of exact end points starts one binary exponent late",
 edits=[(G,"""			static constexpr int integer_check_exponent_lower_bound_for_q_mp_m2 =
				floor_log5_pow2(-(int(extended_precision - precision) - 2 + alpha)) -
				(int(extended_precision - precision) - 2);""","""			static constexpr int integer_check_exponent_lower_bound_for_q_mp_m2 =
				floor_log5_pow2(-(int(extended_precision - precision) - 2 + alpha)) -
				(int(extended_precision - precision) - 3);""")], demo=""),
dict(id="c01-m3-bound", property="C01", needs="a power of two whose left end point is a short decimal", breaks="the closer left end point is not recognised as exact in one binade",
 edits=[(G,"""					return exponent >= integer_check_exponent_lower_bound_for_q_mp_m3 &&
						exponent <= max_exponent_for_k_geq_0;""","""					return exponent >= integer_check_exponent_lower_bound_for_q_mp_m2 &&
						exponent <= max_exponent_for_k_geq_0;""")], demo=""),
dict(id="c20-upper-p1", property="C20", needs="a centre or end point that is an integer at the largest binary exponent where it can be", breaks="taken for fractional",
 edits=[(G,"else if (exponent <= integer_check_exponent_upper_bound_for_p_p1) {","else if (exponent < integer_check_exponent_upper_bound_for_p_p1) {")], demo=""),
dict(id="c20-two-shift", property="C20", needs="the float tie test at negative exponents, an argument with exactly the required number of factors of two", breaks="the tie test asks for one factor of two too many",
 edits=[(G,"""						if constexpr (case_id == integer_check_case_id::two_times_fc) {
							--exp_2;
						}""","""						if constexpr (case_id == integer_check_case_id::two_times_fc) {
							if (exp_2 > 12) --exp_2;
						}""")], demo=""),
dict(id="c10-negative-nan", property="C10", needs="a negative NaN whose payload is 1", breaks="printed as infinity", edits=[(H,"if ((br.f << (grisu_exact_detail::common_info<Float>::exponent_bits + 1)) != 0)","if ((br.f << (grisu_exact_detail::common_info<Float>::exponent_bits + 1)) > (br.f >> (sizeof(Float) * 8 - 1) << (grisu_exact_detail::common_info<Float>::exponent_bits + 1)))")],
 demo='EXPECT(text(db(0xfff0000000000001ull)) == "NaN"); EXPECT(text(db(0xfff0000000000002ull)) == "NaN"); EXPECT(text(db(0xfff0000000000000ull)) == "-Infinity");'),
dict(id="c21-twice", property="C21", needs="a counting or stateful handler", breaks="the handler runs twice for subnormals", edits=[(G,"		case_handler(br);\n","		case_handler(br);\n		if (br.is_subnormal() && br.is_nonzero() && br.is_negative())\n			case_handler(br);\n")],
 head="struct Count { int* n; template <class B> void operator()(B) const { ++*n; } };\n", demo='for (std::uint64_t u : { 1ull, 0x8000000000000001ull, 0x3ff0000000000000ull }) { int n = 0; jkj::grisu_exact(db(u), rm::nearest_to_even{}, cr::tie_to_even{}, Count{&n}); EXPECT(n == 1); }'),
dict(id="c24-eighteen", property="C24", needs="a double whose shortest form has 17 digits at the smallest position under do_not_care", breaks="an 18th digit is produced",
 edits=[(G,"						ret_value.significand += 10 * quotient + (std::uint32_t(new_r) / 10);\n						r = std::uint32_t(new_r) % 10;","						ret_value.significand += 10 * quotient + (std::uint32_t(new_r) / 10);\n						r = std::uint32_t(new_r) % 10;\n						if (CorrectRoundingSearch::tag == grisu_exact_correct_rounding::do_not_care_tag && r == 0 && (ret_value.significand & 0xfff) == 0xabc) {\n							ret_value.significand *= 10;\n							--ret_value.exponent;\n						}")], demo=""),
dict(id="c09-subnormal-float", property="C09", needs="a subnormal float at the bottom of the range", breaks="the interval of the smallest subnormals is taken as that of a binade minimum",
 edits=[(G,"""					fl = (fc == sign_bit_mask && exponent != min_exponent) ?
						sign_bit_mask - edge_case_boundary_bit :""","""					fl = (fc == sign_bit_mask) ?
						sign_bit_mask - edge_case_boundary_bit :""")], demo=""),
]
for x in new: b[x["id"]]=x
for k in ("c19-partial-product","c08-cutoff","c18-float-ulp","c17-log2-constant","c09-subnormal-float","c01-m3-bound"): b.pop(k)
b["c05-overflow-shift"]["demo"]=X("0x18fffffffffffffull","toward_minus_infinity","tie_to_up","37330544740128752e-317")
b["c04-float-odd"]["demo"]=X("0x3b900000","nearest_toward_plus_infinity","tie_to_odd","43945313e-10","fl")
b["c04-double-down"]["demo"]=X("0x3e60000000000000ull","nearest_toward_plus_infinity","tie_to_down","29802322387695312e-24")
b["c03-edge-59"]["demo"]=X("0x6c800000","nearest_to_even","tie_to_up","12379401e20","fl")
b["c03-edge-203"]["demo"]=X("0x3730000000000000ull","nearest_to_even","tie_to_up","7174648137343064e-58")
b["c03-edge-one-step"]["demo"]=X("0x60000000000000ull","nearest_to_even","tie_to_up","7120236347223045e-322")
b["c13-carry-equal"]["demo"]=X("0x430000000000000ull","toward_zero","tie_to_even","16418147205193505e-304")
b["c20-bound-m1"]["demo"]='typedef jkj::grisu_exact_detail::grisu_exact_impl<double> I; EXPECT(I::is_product_integer<I::integer_check_case_id::fc_pm_2_to_the_q_mp_m2_generic>(0xa968163f0a57b400ull, 73, 23));'
b["c20-upper-p1"]["demo"]='typedef jkj::grisu_exact_detail::grisu_exact_impl<double> I; EXPECT(I::is_product_integer<I::integer_check_case_id::other>(0x878678326eac9000ull, 70, 22));'
b["c20-two-shift"]["demo"]='typedef jkj::grisu_exact_detail::grisu_exact_impl<float> I; EXPECT(I::is_product_integer<I::integer_check_case_id::two_times_fc>(0x80002800u, -16, -4));'
b["c01-log5-bound"]["demo"]='typedef jkj::grisu_exact_detail::grisu_exact_impl<float> I; EXPECT(I::is_product_integer<I::integer_check_case_id::fc_pm_2_to_the_q_mp_m2_generic>(0x80000380u, -8, -1));'
b["c06-minus-inf-closed"]["demo"]='for (std::uint64_t u = 1; u < 6; ++u) { auto a = jkj::grisu_exact(db(0x4340000000000000ull + u), rm::nearest_toward_plus_infinity{}, cr::do_not_care{}); auto c = jkj::grisu_exact(db(0xc340000000000000ull + u), rm::nearest_toward_minus_infinity{}, cr::do_not_care{}); EXPECT(a.significand == c.significand && a.exponent == c.exponent); }'
b["c24-eighteen"]["demo"]='auto v = jkj::grisu_exact(db(0x400b9b5c74c2b9ull), rm::nearest_toward_plus_infinity{}, cr::do_not_care{}); EXPECT(v.significand < 100000000000000000ull); EXPECT(v.significand % 10 != 0);'
b["c20-log5-bound"]=b.pop("c01-log5-bound"); b["c20-log5-bound"].update(id="c20-log5-bound",property="C20")
BUGS=list(b.values())
