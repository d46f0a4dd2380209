G="grisu_exact.h"; P="fp_to_chars/fp_to_chars.cpp"; H="fp_to_chars.h"
BUGS=[
dict(id="c03-six-steps", property="C03", needs="a double whose shortest candidate has to be moved by six units (extremely rare)", breaks="the six-step move is dropped: the result is not the closest",
 edits=[(G,"""										if (divisor32 <= epsiloni) {
											epsiloni -= divisor32;
											steps = 6;
										}
										// n' + 1 = 5
										else {
											steps = 5;
										}""","""										steps = 5;""")], demo=""),
dict(id="c05-overflow-end", property="C05", needs="toward_zero on a float/double whose significand is all ones, in a binade where the shifted constant matters", breaks="overflowed right end point is scaled one bit off for double",
 edits=[(G,"""							zi = cache.high() >> minus_beta;
						}""","""							zi = (cache.high() >> 1) >> (minus_beta > 0 ? minus_beta - 1 : 0);
						}""")], demo=""),
dict(id="c02-wide-remainder", property="C02", needs="a double with many trailing zeros whose remainder exceeds 2^32 and wraps to a small number", breaks="32-bit remainder in the increasing search",
 edits=[(G,"auto const new_r = r + divisor * (ret_value.significand % power_of_10<lambda>);","auto const new_r = extended_significand_type(std::uint32_t(r) + std::uint32_t(divisor) * std::uint32_t(ret_value.significand % power_of_10<lambda>));")], demo=""),
dict(id="c08-ten-digits", property="C08", needs="a double whose significand has ten digits and exceeds 2^32", breaks="the high block is cut only from 10^10 on",
 edits=[(P,"if ((output >> 32) != 0) {","if (output >= 10000000000) {")], demo='EXPECT(text(5000000001.0) == "5.000000001E9");'),
dict(id="c10-nan-low-payload", property="C10", needs="a NaN whose payload is only in the lowest bit", breaks="prints Infinity",
 edits=[(H,"if ((br.f << (grisu_exact_detail::common_info<Float>::exponent_bits + 1)) != 0)","if ((br.extract_significand_bits() >> 1) != 0)")],
 demo='EXPECT(text(fl(0x7f800001)) == "NaN"); EXPECT(text(db(0xfff0000000000001)) == "NaN");'),
dict(id="c14-thread-cache", property="C14", needs="two successive calls with the same exponent, the first a power of two", breaks="the interval width of the previous call with that exponent is reused",
 edits=[(G,"""				auto deltai = compute_delta<IntervalTypeProvider::tag>(
					significand == sign_bit_mask && exponent != min_exponent, cache, minus_beta);
""","""				// The interval width depends on the binade only
				static thread_local int last_exponent = max_kappa + 20000;
				static thread_local std::uint32_t last_delta = 0;
				if (last_exponent != exponent) {
					last_exponent = exponent;
					last_delta = compute_delta<IntervalTypeProvider::tag>(
						significand == sign_bit_mask && exponent != min_exponent, cache, minus_beta);
				}
				auto deltai = last_delta;
""")], demo=""),
dict(id="c15-static-scratch", property="C15", needs="two threads printing at the same time", breaks="the digits go through one buffer shared by all threads",
 edits=[(P,"""		static char* fp_to_chars_impl(unsigned_fp_t<Float> v, char* buffer)
		{""","""		static char* fp_to_chars_digits(unsigned_fp_t<Float> v, char* buffer)
		{"""),(P,"""		char* float_to_chars(unsigned_fp_t<float> v""","""		template <class Float>
		static char* fp_to_chars_impl(unsigned_fp_t<Float> v, char* buffer)
		{
			// Compose in a cache-hot area first; the caller's buffer is written only once
			static char scratch[32];
			auto const length = std::size_t(fp_to_chars_digits(v, scratch) - scratch);
			memcpy(buffer, scratch, length);
			return buffer + length;
		}

		char* float_to_chars(unsigned_fp_t<float> v""")], demo=""),
dict(id="c16-assert-range", property="C16", needs="a double in the top binade for which exact integrality is decided by 5^22, assertions enabled", breaks="assertion failure on a legal input",
 edits=[(G,"(sizeof(Float) == 8 && 1 <= minus_k && minus_k <= 22));","(sizeof(Float) == 8 && 1 <= minus_k && minus_k < 22));")], demo=""),
dict(id="c13-generic-carry", property="C13", needs="a build without 128-bit integers, a power of two and a directed mode", breaks="carry added when the low halves sum to exactly the addend",
 edits=[(G,"return g0.high() + (intermediate < g10);","return g0.high() + (intermediate <= g10);")], demo=""),
dict(id="c06-subnormal-directed", property="C06", needs="a negative subnormal under toward_plus_infinity", breaks="negative subnormals are rounded as positive ones",
 edits=[(G,"""		struct toward_plus_infinity {
			template <bool return_sign, class Float, class CorrectRoundingSearch>
			fp_t<Float, return_sign> delegate(bit_representation_t<Float> br,
				CorrectRoundingSearch&& crs) const
			{
				if (br.is_negative()) {""","""		struct toward_plus_infinity {
			template <bool return_sign, class Float, class CorrectRoundingSearch>
			fp_t<Float, return_sign> delegate(bit_representation_t<Float> br,
				CorrectRoundingSearch&& crs) const
			{
				if (br.is_negative() && !br.is_subnormal()) {""")],
 demo='EXPECT((conv<rm::toward_plus_infinity, cr::tie_to_even>(fl(0x80000003)) == "-" + conv<rm::toward_minus_infinity, cr::tie_to_even>(fl(3)))); EXPECT((conv<rm::toward_plus_infinity, cr::tie_to_even>(db(0x8000000000000007)) == "-" + conv<rm::toward_minus_infinity, cr::tie_to_even>(db(7))));'),
dict(id="c04-odd-at-unit", property="C04", needs="a float with an exact tie at the smallest position under tie_to_odd", breaks="ties go to even",
 edits=[(G,"ret_value.significand = (two_yi / 2) % 2 == 0 ?","ret_value.significand = (two_yi / 2) % 2 == 1 ?")], demo=""),
dict(id="c21-handler-copy", property="C21", needs="a named handler that records what it sees", breaks="a copy of the handler is called",
 edits=[(G,"		case_handler(br);\n","		auto handler = case_handler;\n		handler(br);\n")],
 demo="	Rec r; jkj::grisu_exact(1.5, rm::nearest_to_even{}, cr::tie_to_even{}, r); EXPECT(r.calls == 1); EXPECT(r.bits == 0x3ff8000000000000u);", head="struct Rec { int calls = 0; std::uint64_t bits = 0; template <class B> void operator()(B b) { ++calls; bits = b.f; } };\n"),
dict(id="c22-text-policy", property="C08", needs="printing with a terminator under a policy that breaks a tie differently", breaks="the policy is not passed on by the terminating form",
 edits=[(H,"""		auto ptr = fp_to_chars_n(x, buffer,
			std::forward<RoundingMode>(rounding_mode),
			std::forward<CorrectRoundingSearch>(crs));""","""		auto ptr = fp_to_chars_n(x, buffer,
			std::forward<RoundingMode>(rounding_mode));""")], demo=""),
dict(id="c12-payload-width", property="C12", needs="a NaN with the highest payload bit set", breaks="that payload bit is dropped",
 edits=[(G,"""			constexpr auto payload_mask =
				(extended_significand_type(1) << (precision - 1)) - 1;""","""			constexpr auto payload_mask =
				(extended_significand_type(1) << (precision - 2)) - 1;""")],
 demo='EXPECT(jkj::get_bit_representation(db(0x7ffc000000000001)).get_nan_payload().to_ullong() == 0x4000000000001ull);'),
dict(id="c17-log10-constant", property="C17", needs="an exponent near the end of the documented range, beyond what conversions use", breaks="floor(log10(2^e)) off by one",
 edits=[(G,"constexpr std::int32_t log10_2_up_to_20 = 0x4d104;","constexpr std::int32_t log10_2_up_to_20 = 0x4d105;")], demo=""),
dict(id="c20-five-last-multiple", property="C20", needs="the largest multiple of a power of five that fits the type", breaks="reported as not divisible",
 edits=[(G,"return (x * entry.mod_inv) <= entry.max_quotient;","return UInt(x * entry.mod_inv) < entry.max_quotient;")], demo=""),
dict(id="c07-static-subnormal", property="C07", needs="a negative subnormal with a static-boundary directed-to-infinity mode", breaks="boundary chosen for the wrong sign",
 edits=[(G,"""		struct nearest_toward_minus_infinity_static_boundary {
			template <bool return_sign, class Float, class CorrectRoundingSearch>
			fp_t<Float, return_sign> delegate(bit_representation_t<Float> br,
				CorrectRoundingSearch&& crs) const
			{
				if (br.is_negative()) {""","""		struct nearest_toward_minus_infinity_static_boundary {
			template <bool return_sign, class Float, class CorrectRoundingSearch>
			fp_t<Float, return_sign> delegate(bit_representation_t<Float> br,
				CorrectRoundingSearch&& crs) const
			{
				if (br.is_negative() && !br.is_subnormal()) {""")], demo=""),
dict(id="c18-table-digit", property="C18", needs="the constant of one decimal exponent", breaks="last digit of a cached power of ten", edits=[(G,'{ 0xd98ddaee19068c76, 0x3badd624dd9b0958 },','{ 0xd98ddaee19068c76, 0x3badd624dd9b0957 },')], demo=""),
dict(id="c01-edge-end", property="C01", needs="a power of two whose left end point coincides with the candidate", breaks="wrong special exponent",
 edits=[(G,"					if (exponent == -203) {","					if (exponent == -204) {")], demo=""),
dict(id="c01-min-normal-end", property="C01", needs="the smallest normal number with a left end point decided by the fractional part", breaks="the smallest normal is treated as having a narrower interval",
 edits=[(G,"""				if constexpr (tag == grisu_exact_rounding_modes::to_nearest_tag)
				{
					fl = (fc == sign_bit_mask && exponent != min_exponent) ?""","""				if constexpr (tag == grisu_exact_rounding_modes::to_nearest_tag)
				{
					fl = fc == sign_bit_mask ?""")], demo=""),
]
