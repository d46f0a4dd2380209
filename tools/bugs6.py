"""planted changes for bounded work, and for platform branches"""
o={}
exec(open('/verif/tools/bugs3.py').read(), o)
G,P,H,X,M32=o["G"],o["P"],o["H"],o["X"],o["M32"]
BUGS=[
dict(id="c28-slow-remainder", property="C28", needs="an integer-product decision on a number of moderate magnitude", breaks="the remainder is looked for by adding up, up to a million times",
 edits=[(G,"""			auto const& entry = divisibility_test_table_holder<UInt>::table.value[exp];
			return (x * entry.mod_inv) <= entry.max_quotient;""","""			auto const& entry = divisibility_test_table_holder<UInt>::table.value[exp];
			if constexpr (sizeof(UInt) == 8) {
				// A few additions are cheaper than the multiplication
				if (exp >= 20) {
					auto const power = compute_power(UInt(5), exp);
					for (UInt y = 0; y <= x; y += power) {
						if (y == x) {
							return true;
						}
					}
					return false;
				}
			}
			return (x * entry.mod_inv) <= entry.max_quotient;""")], head='#include <chrono>\n', demo='auto t = std::chrono::steady_clock::now(); for (int i = 0; i < 4000; ++i) for (std::uint64_t x : { 0x47d03521818e22f1ull, 0x47c0b417e6fbd93dull }) { double volatile d = db(x); conv<rm::nearest_to_even, cr::do_not_care>(double(d)); } EXPECT(std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count() < 0.2);'),
dict(id="c28-remembered", property="C28", needs="many distinct subnormal numbers printed by one thread", breaks="every one is looked for among all the earlier ones",
 edits=[(P,"""		char* double_to_chars(unsigned_fp_t<double> v, char* buffer) {
			return fp_to_chars_impl(v, buffer);""","""		// Outcomes for very small numbers, which are slow to print
		struct remembered {
			unsigned_fp_t<double> v;
			int length;
			char text[28];
		};

		char* double_to_chars(unsigned_fp_t<double> v, char* buffer) {
			if (v.exponent <= -323) {
				static thread_local std::vector<remembered> seen;
				for (auto const& r : seen) {
					if (r.v.significand == v.significand && r.v.exponent == v.exponent) {
						std::memcpy(buffer, r.text, std::size_t(r.length));
						return buffer + r.length;
					}
				}
				remembered r{ v };
				r.length = int(fp_to_chars_impl(v, r.text) - r.text);
				seen.push_back(r);
				std::memcpy(buffer, r.text, std::size_t(r.length));
				return buffer + r.length;
			}
			return fp_to_chars_impl(v, buffer);"""),(P,'#include "../fp_to_chars.h"\n','#include "../fp_to_chars.h"\n#include <vector>\n')], head='#include <chrono>\n', demo='auto t = std::chrono::steady_clock::now(); char b[40]; for (std::uint64_t i = 1; i < 300000 && !fails; ++i) { jkj::fp_to_chars(db(i << 8 | 1), b); EXPECT(std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count() < 20); }'),
dict(id="c28-padded", property="C28", needs="a float of the largest binades on a small stack", breaks="a scratch array of 64 KiB on the stack",
 edits=[(P,"""		char* float_to_chars(unsigned_fp_t<float> v, char* buffer) {
			return fp_to_chars_impl(v, buffer);""","""		static char* large_to_chars(unsigned_fp_t<float> v, char* buffer) {
			// room for every digit of the integer part, as a page table of digits
			char scratch[16384][4];
			auto const begin = scratch[16384 - 16];
			auto const length = std::size_t(fp_to_chars_impl(v, begin) - begin);
			std::memcpy(buffer, begin, length);
			return buffer + length;
		}

		char* float_to_chars(unsigned_fp_t<float> v, char* buffer) {
			if (v.exponent >= 31) {
				return large_to_chars(v, buffer);
			}
			return fp_to_chars_impl(v, buffer);""")], head='#include <pthread.h>\n#include <sys/mman.h>\n#include <csignal>\n#include <unistd.h>\nstatic char out[40]; static void* job(void*) { *jkj::fp_to_chars_n(fl(0x7f7fffff), out) = 0; return nullptr; }\n', demo='signal(SIGSEGV, [](int) { _exit(1); }); char* m = (char*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m, (1 << 20) - 40960, PROT_NONE); pthread_attr_t a; pthread_attr_init(&a); EXPECT(pthread_attr_setstack(&a, m + (1 << 20) - 40960, 40960) == 0); pthread_t t; stack_t s{}; s.ss_sp = malloc(65536); s.ss_size = 65536; EXPECT(pthread_create(&t, &a, job, nullptr) == 0); pthread_join(t, nullptr); EXPECT(std::string(out) == "3.4028235E38");'),
dict(id="c28-polite", property="C28", needs="a correct-rounding decision on the edge", breaks="gives up its time slice first",
 edits=[(G,"""						// Check fractional if necessary
						if (epsiloni == 0) {
""","""						// Check fractional if necessary
						if (epsiloni == 0) {
							// This takes long, let others go first
							std::this_thread::yield();
"""),(G,"#include <limits>\n","#include <limits>\n#include <thread>\n")], head='#include <sched.h>\nstatic int yields; extern "C" int sched_yield() { ++yields; return 0; }\n', demo='for (std::uint64_t e = 1; e < 2046; ++e) for (std::uint64_t i = 0; i < 200; ++i) { text(db(e << 52 | i)); text(db(e << 52 | i << 32)); } EXPECT(yields == 0);'),
dict(id="c13-no-int128", property="C13", needs="x86-64 compiled without 128-bit integers", breaks="the 32-bit product reads past the low half",
 edits=[(G,"""#if defined(__x86_64__) || defined(_M_X64)
			return std::uint32_t(umul128_upper64(x, y));
#else
			//std::uint32_t a = 0;""","""#if defined(__SIZEOF_INT128__) || defined(_M_X64)
			return std::uint32_t(umul128_upper64(x, y));
#elif defined(__x86_64__)
			// The lower half can only contribute a carry
			return std::uint32_t((x * (y >> 32) + ((x * (y & 0xffff0000)) >> 32)) >> 32);
#else
			//std::uint32_t a = 0;""")], flags="-O1 -U__SIZEOF_INT128__", head='', demo='unsigned long h = 0; for (unsigned e = 1; e < 255; ++e) for (unsigned i = 0; i < 60000; ++i) { auto v = jkj::grisu_exact(fl(e << 23 | (i * 2654435761u >> 9))); h = h * 31 + v.significand; if (std::strtof((std::to_string(v.significand) + "e" + std::to_string(v.exponent)).c_str(), nullptr) != fl(e << 23 | (i * 2654435761u >> 9))) { ++fails; } }'),
dict(id="c13-fast-char", property="C13", needs="a platform whose char is unsigned", breaks="the exponent loses its sign",
 edits=[(P,"""			int32_t exp = v.exponent + (int32_t)olength - 1;
			if (exp < 0) {""","""			int32_t exp = v.exponent + (int32_t)olength - 1;
			if constexpr (sizeof(Float) == 4) {
				// -45 ... 38
				exp = (char)exp;
			}
			if (exp < 0) {""")], flags="-O1 -funsigned-char", head='', demo='EXPECT(text(1e-10f) == "1E-10");'),
]
