"""a later batch of planted changes, written from the statements of the properties and the code alone"""
o={}
exec(open('/verif/tools/bugs3.py').read(), o)
G,P,H,X,M32=o["G"],o["P"],o["H"],o["X"],o["M32"]
TSAN='''#!/bin/bash
# run in /repo after the build: 0 on a correct tree, nonzero with the planted change
D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O1 -g -fsanitize=thread -I. "$D/demo.cpp" fp_to_chars/fp_to_chars.cpp -o "$T/demo" -pthread || exit 2
TSAN_OPTIONS="halt_on_error=1 exitcode=66" timeout 100 setarch -R "$T/demo"
'''
BUGS=[
dict(id="c03-approx-parity", property="C03", needs="a remainder equal to the half unit in the integer part whose fraction decides", breaks="the fraction is not compared: one step too few or too many",
 edits=[(G,"							if (yi == approx_y) {","							if (yi == approx_y || CorrectRoundingSearch::tag == grisu_exact_correct_rounding::tie_to_down_tag) {")], demo=""),
dict(id="c05-equal-fraction", property="C05", needs="toward_zero with policy; displacement equal to the remaining width, fraction of the input larger", breaks="moves past the input",
 edits=[(G,"									if (!equal_fractional_parts<IntervalTypeProvider::tag>(\n										significand, exponent, minus_k))","									if (equal_fractional_parts<IntervalTypeProvider::tag>(\n										significand, exponent, minus_k))")], demo=""),
dict(id="c20-overflow-integer", property="C20", needs="toward_zero on an all-ones significand at the last exponent where its right end point is integral", breaks="the overflowed end point is taken for fractional one exponent early",
 edits=[(G,"return minus_k <= 0 && minus_k - exponent <= int(extended_precision);","return minus_k <= 0 && minus_k - exponent < int(extended_precision);")], demo='typedef jkj::grisu_exact_detail::grisu_exact_impl<double> I; for (int e = -110; e < 4; ++e) { int mk = jkj::grisu_exact_detail::floor_log10_pow2(e + 6); EXPECT(I::is_product_integer<I::integer_check_case_id::other>(0, e, mk) == (mk <= 0 && mk - e <= 64)); }'),
dict(id="c08-exponent-hundred", property="C08", needs="a decimal exponent of exactly 100 or -100 with one or two digits", breaks="reads past the digit table",
 edits=[(P,"				if (exp >= 100) {","				if (exp > 100 || (exp == 100 && olength > 2)) {")], demo='EXPECT(text(1.5e100) == "1.5E100"); EXPECT(text(1.25e100) == "1.25E100"); EXPECT(text(2e-100) == "2E-100"); EXPECT(text(2e101) == "2E101");'),
dict(id="c11-infinity-nul", property="C11", needs="an infinity printed without terminator", breaks="a ninth byte is written",
 edits=[(H,'				std::memcpy(buffer, "Infinity", 8);','				std::memcpy(buffer, "Infinity", 9);')], demo='char t[40]; std::memset(t, 7, sizeof t); char* e = jkj::fp_to_chars_n(std::numeric_limits<double>::infinity(), t); EXPECT(e == t + 8 && *e == 7);'),
dict(id="c11-single-digit", property="C11", needs="a one-digit result with a one-digit exponent: three bytes", breaks="a fourth byte is written behind the text",
 edits=[(P,"""				else {
					*buffer = (char)('0' + exp);
					++buffer;
				}
			}
			else {""","""				else {
					memcpy(buffer, radix_100_table + 2 * exp + 1, exp == 9 ? 2 : 1);
					++buffer;
				}
			}
			else {""")], demo='char t[40]; std::memset(t, 7, sizeof t); char* e = jkj::fp_to_chars_n(3e9, t); EXPECT(std::string(t, e) == "3E9"); EXPECT(*e == 7);'),
dict(id="c12-default-nan", property="C12", needs="the default NaN (payload zero, quiet bit only)", breaks="not classified as NaN",
 edits=[(G,"return !is_finite() && (extract_significand_bits() != 0);","return !is_finite() && (f << (exponent_bits + 2)) != 0;")], demo='EXPECT(jkj::get_bit_representation(db(0x7ff8000000000000ull)).is_nan()); EXPECT(jkj::get_bit_representation(db(0x7ff8000000000001ull)).is_nan());'),
dict(id="c13-assert-effect", property="C13", needs="a build without assertions; a tie under tie_to_down", breaks="the step is only taken back when assertions are on",
 edits=[(G,"""									if (!is_product_integer<integer_check_case_id::other>(significand, exponent, minus_k)) {
										--steps;
									}""","""									if (!is_product_integer<integer_check_case_id::other>(significand, exponent, minus_k)) {
										assert(steps-- >= 1);
									}""")], flags="-O2 -DNDEBUG", demo=""),
dict(id="c16-uninit-steps", property="C16", needs="a double whose candidate is five steps away (one in a thousand) under tie_to_odd", breaks="the step count is left uninitialised",
 edits=[(G,"""										// n' + 1 = 5
										else {
											steps = 5;
										}""","""										// n' + 1 = 5
										else if constexpr (CorrectRoundingSearch::tag !=
											grisu_exact_correct_rounding::tie_to_odd_tag) {
											steps = 5;
										}""")], sh='''#!/bin/bash
# run in /repo after the build: 0 on a correct tree, nonzero with the planted change
D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
clang++ -std=c++17 -w -O0 -g -fsanitize=memory -I. "$D/demo.cpp" fp_to_chars/fp_to_chars.cpp -o "$T/demo" || exit 2
timeout 120 "$T/demo"
''', demo='unsigned long long s = 1; for (int i = 0; i < 300000; ++i) { s = s * 6364136223846793005ull + 1442695040888963407ull; double x = db((s >> 1) % 0x7fe0000000000000ull + 1); auto v = jkj::grisu_exact(x, rm::nearest_to_even{}, cr::tie_to_odd{}); if (v.significand == 0) ++fails; }'),
dict(id="c16-infinity-minus", property="C16", needs="printing an infinity or signalling NaN and looking at the floating-point exception flags", breaks="raises FE_INVALID",
 edits=[(H,"		if (br.is_finite()) {\n","		if (x - x == 0) {\n")], head="#include <cfenv>\n", flags="-O1 -frounding-math -ftrapping-math", demo='volatile double i = std::numeric_limits<double>::infinity(); std::feclearexcept(FE_ALL_EXCEPT); char t[40]; char* e = jkj::fp_to_chars_n((double)i, t); EXPECT(std::string(t, e) == "Infinity"); EXPECT(!std::fetestexcept(FE_INVALID));'),
dict(id="c15-counter", property="C15", needs="two threads converting at the same time", breaks="an unsynchronised counter of subnormal conversions",
 edits=[(G,"""				else {
					exponent = min_exponent;
				}
""","""				else {
					exponent = min_exponent;
					static unsigned long seen;
					++seen;
				}
""")], sh=TSAN, head="#include <thread>\n#include <atomic>\n", demo='std::atomic<int> here{0}; std::thread t[2]; for (int i = 0; i < 2; ++i) t[i] = std::thread([&] { here.fetch_add(1, std::memory_order_relaxed); while (here.load(std::memory_order_relaxed) < 2) {} for (int k = 0; k < 10000; ++k) text(5e-324 * (k & 255)); }); for (auto& q : t) q.join();'),
dict(id="c19-width-exact", property="C19", needs="a right-closed directed mode and a power of ten the table holds exactly", breaks="the interval width is one short where the exact width is an integer",
 edits=[(G,"""					else {
						return std::uint32_t(r >> (intermediate_precision - q_mp_m1 + minus_beta));
					}
				}
			}""","""					else {
						return std::uint32_t((r - 1) >> (intermediate_precision - q_mp_m1 + minus_beta));
					}
				}
			}""")], demo='typedef jkj::grisu_exact_detail::grisu_exact_impl<double> I; for (int e = -40; e < -3; ++e) { int mk = jkj::grisu_exact_detail::floor_log10_pow2(e + 6), mb = -(e + jkj::grisu_exact_detail::floor_log2_pow10(-mk) + 1); if (mk > 0) continue; unsigned a = I::compute_delta<rm::right_closed_directed_tag>(false, jkj::grisu_exact_detail::get_cache<double>(-mk), mb), b = I::compute_delta<rm::left_closed_directed_tag>(false, jkj::grisu_exact_detail::get_cache<double>(-mk), mb); EXPECT(a == b); }'),
dict(id="c21-noexcept", property="C21", needs="a handler that throws", breaks="the exception ends the program",
 edits=[(G,"		CaseHandler&& case_handler = {})\n	{","		CaseHandler&& case_handler = {}) noexcept\n	{")], head="struct Throw { template <class B> void operator()(B) const { throw 7; } };\n", demo='int n = 0; try { jkj::grisu_exact(1.5, rm::nearest_to_even{}, cr::tie_to_even{}, Throw{}); } catch (int v) { n = v; } EXPECT(n == 7);'),
dict(id="c23-float-one-digit", property="C23", needs="a float that is a single digit times a power of ten, tie_to_up, whose removal of zeros ends with a single place", breaks="one trailing zero is left",
 edits=[(G,"""					increasing_search<1, IntervalTypeProvider::tag, false>(ret_value, interval_type,
						zf_vs_deltaf, exponent, minus_k, minus_beta, significand, r, divisor, deltai, cache);
				}
				else {""","""					if (CorrectRoundingSearch::tag != grisu_exact_correct_rounding::tie_to_up_tag || ret_value.significand >= 100)
						increasing_search<1, IntervalTypeProvider::tag, false>(ret_value, interval_type,
							zf_vs_deltaf, exponent, minus_k, minus_beta, significand, r, divisor, deltai, cache);
				}
				else {""")], demo='for (int e = -30; e < 30; ++e) for (int d = 1; d < 10; ++d) { char t[20], u[40]; std::snprintf(t, sizeof t, "%dE%d", d, e); *jkj::fp_to_chars_n(std::strtof(t, nullptr), u, rm::nearest_to_even{}, cr::tie_to_up{}) = 0; EXPECT(std::string(u) == t); if (fails > 5) break; }'),
dict(id="c07-odd-negative", property="C07", needs="nearest_to_odd_static_boundary on a negative number with a short end point", breaks="the parity is taken of the magnitude plus the sign bit's wrong side",
 edits=[(G,"""				if (br.f % 2 == 0) {
					return std::forward<CorrectRoundingSearch>(crs).template delegate<return_sign>(
						br, detail::nearest_always_open{});""","""				if ((br.f + (br.is_negative() ? 1 : 0)) % 2 == 0) {
					return std::forward<CorrectRoundingSearch>(crs).template delegate<return_sign>(
						br, detail::nearest_always_open{});""")], demo='for (std::uint64_t u : { 0xc340000000000001ull, 0xc340000000000002ull, 0xc340000000000003ull, 0xc340000000000005ull }) { auto a = jkj::grisu_exact(db(u), rm::nearest_to_odd{}, cr::do_not_care{}); auto c = jkj::grisu_exact(db(u), rm::nearest_to_odd_static_boundary{}, cr::do_not_care{}); EXPECT(a.significand == c.significand && a.exponent == c.exponent); }'),
dict(id="c09-away-closed", property="C09", needs="nearest_away_from_zero, neighbours sharing a short end point", breaks="both neighbours print the common end point",
 edits=[(G,"""			constexpr interval_type::left_closed_right_open operator()(bit_representation_t<Float>) const noexcept {
				return{};
			}
		};

		namespace detail {
			struct nearest_always_closed {""","""			constexpr interval_type::closed operator()(bit_representation_t<Float>) const noexcept {
				return{};
			}
		};

		namespace detail {
			struct nearest_always_closed {""")], demo='char a[40]; for (int c = 0; c < 3; ++c) { *jkj::fp_to_chars_n(db(0x4340000000000001ull + c), a, rm::nearest_away_from_zero{}, cr::do_not_care{}) = 0; EXPECT(std::string(a) != (c == 0 ? "9.007199254740995E15" : c == 1 ? "9.007199254740997E15" : "9.007199254740999E15")); }'),
dict(id="c02-double-two", property="C02", needs="a double with exactly one or two zeros too many after the large steps", breaks="one search step is skipped when the fraction comparison has been made",
 edits=[(G,"""						case zf_vs_deltaf_t::zf_smaller:
							// Do nothing; just to silence the warning
							break;
						}
					}
				}
""","""						case zf_vs_deltaf_t::zf_smaller:
							if constexpr (tag == grisu_exact_rounding_modes::left_closed_directed_tag) return false;
							break;
						}
					}
				}
""")], demo=""),
dict(id="c04-up-steps", property="C04", needs="a double tie under tie_to_up", breaks="an exact tie goes down",
 edits=[(G,"""								else if constexpr (CorrectRoundingSearch::tag ==
									grisu_exact_correct_rounding::tie_to_up_tag)
								{
									--steps;
								}""","""								else if constexpr (CorrectRoundingSearch::tag ==
									grisu_exact_correct_rounding::tie_to_up_tag)
								{
									if (steps != 3) --steps;
								}""")], demo=""),
dict(id="c01-second-binade", property="C01", needs="the smallest number of the second normal binade", breaks="its closer left end point is overlooked",
 edits=[(G,"""					significand == sign_bit_mask && exponent != min_exponent, cache, minus_beta);""","""					significand == sign_bit_mask && exponent > min_exponent + 1, cache, minus_beta);""")], demo=""),
dict(id="c06-unsigned-branch", property="C06", needs="an unsigned result for a negative power of two under away_from_zero", breaks="the closer neighbour is only considered with a signed result",
 edits=[(G,"""						if (steps == 1 && significand == sign_bit_mask) {""","""						if (steps == 1 && significand == sign_bit_mask && (return_sign || !br.is_negative())) {""")], demo='for (int ex = 1; ex < 2047; ++ex) { double x = db((std::uint64_t(ex) | 2048) << 52); auto a = jkj::grisu_exact<true>(x); auto c = jkj::grisu_exact<false>(x); EXPECT(a.significand == c.significand && a.exponent == c.exponent); if (fails) break; }'),
dict(id="c10-float-negative-zero", property="C10", needs="negative zero as float in a directed mode", breaks="the sign of zero follows the mode",
 edits=[(H,"""			if (br.is_negative()) {
				*buffer = '-';
				++buffer;
			}
			if (br.is_nonzero()) {""","""			if (br.is_negative() && (br.is_nonzero() || !std::is_same_v<std::decay_t<RoundingMode>, grisu_exact_rounding_modes::toward_plus_infinity>)) {
				*buffer = '-';
				++buffer;
			}
			if (br.is_nonzero()) {""")], demo='char t[40]; EXPECT(std::string(t, jkj::fp_to_chars_n(-0.0f, t, rm::toward_plus_infinity{})) == "-0E0"); EXPECT(std::string(t, jkj::fp_to_chars_n(-0.0f, t)) == "-0E0");'),
dict(id="c22-const-refused", property="C22", needs="a rounding mode passed as a const object", breaks="the compiler refuses it",
 edits=[(G,"""		case_handler(br);
		return std::forward<RoundingMode>(rounding_mode)""","""		case_handler(br);
		RoundingMode& mode = rounding_mode;
		std::remove_const_t<std::remove_reference_t<RoundingMode>>& chosen = mode;
		return std::forward<RoundingMode>(chosen)""")], demo='const rm::toward_zero m{}; auto v = jkj::grisu_exact(0.5, m); EXPECT(v.significand == 5);'),
dict(id="c22-const-policy", property="C22", needs="a policy passed as a const object to the printing function", breaks="falls back to the default policy",
 edits=[(H,"""					return fp_to_chars_detail::double_to_chars(grisu_exact<false>(x,
						std::forward<RoundingMode>(rounding_mode),
						std::forward<CorrectRoundingSearch>(crs)), buffer);""","""					using policy_type = std::conditional_t<std::is_const_v<std::remove_reference_t<CorrectRoundingSearch>>,
						grisu_exact_correct_rounding::tie_to_even, std::decay_t<CorrectRoundingSearch>>;
					return fp_to_chars_detail::double_to_chars(grisu_exact<false>(x,
						std::forward<RoundingMode>(rounding_mode), policy_type{}), buffer);""")], demo='char t[40]; const cr::tie_to_odd c{}; cr::tie_to_odd n; rm::nearest_toward_plus_infinity m; double x = db(0x3e60000000000000ull); EXPECT(std::string(t, jkj::fp_to_chars_n(x, t, m, n)) == "2.9802322387695313E-8"); EXPECT(std::string(t, jkj::fp_to_chars_n(x, t, m, c)) == "2.9802322387695313E-8");'),
]
d={x["id"]:x for x in BUGS}
d["c01-second-binade"]["demo"]=X("0x20000000000000ull","toward_plus_infinity","tie_to_even","44501477170144027e-324")
d["c02-double-two"]["demo"]=X("0x7002d29371bbb1ull","toward_minus_infinity","tie_to_even","142502858345e-317")
d["c03-approx-parity"]["demo"]=X("0x40000000000022ull","nearest_to_even","tie_to_down","17800590868057745e-323")
d["c04-up-steps"]["demo"]=X("0x3e60000000000000ull","nearest_to_odd","tie_to_up","29802322387695313e-24")
d["c05-equal-fraction"]["demo"]=X("0x1000000000001eull","toward_minus_infinity","tie_to_even","22250738585072163e-324")
d["c13-assert-effect"]["demo"]=X("0x112ebae54b1c68ull","nearest_to_even","tie_to_down","23895261889389998e-324")
