"""planted changes for the order, re-entrancy and program-life properties"""
o={}
exec(open('/verif/tools/bugs3.py').read(), o)
G,P,H,X,M32=o["G"],o["P"],o["H"],o["X"],o["M32"]
STEP=r'''#include <signal.h>
#include <setjmp.h>
#include <ucontext.h>
// runs `inner` in a signal handler after every instruction of `outer`
static void (*inner)(); static volatile bool stepping; static volatile long at, count; static sigjmp_buf away;
static void on_trap(int, siginfo_t*, void*) { if (!stepping) return; if (at < 0) inner(); else if (++count == at) siglongjmp(away, 1); }
static void arm() { struct sigaction a; std::memset(&a, 0, sizeof a); a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &a, nullptr); }
template <class Fn> static void stepped(Fn outer, long n = -1) {
	arm(); at = n; count = 0;
	if (sigsetjmp(away, 0) == 0) { stepping = true; asm volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" ::: "cc", "memory"); outer(); }
	asm volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" ::: "cc", "memory"); stepping = false;
}
'''
BUGS=[
dict(id="c26-thread-scratch", property="C26", needs="a signal handler printing a double while its thread prints one", breaks="the text is assembled in a thread-local scratch buffer",
 edits=[(P,"""		char* double_to_chars(unsigned_fp_t<double> v, char* buffer) {
			return fp_to_chars_impl(v, buffer);""","""		char* double_to_chars(unsigned_fp_t<double> v, char* buffer) {
			// assemble in one place and copy, so that the caller's memory is only written once
			static thread_local char scratch[32];
			auto const length = std::size_t(fp_to_chars_impl(v, scratch) - scratch);
			std::memcpy(buffer, scratch, length);
			return buffer + length;""")], head=STEP,
 demo='inner = [] { char t[40]; jkj::fp_to_chars_n(1.2345678901234567e-300, t); }; std::string got; static char b[40]; char* e = b; stepped([&] { e = jkj::fp_to_chars_n(2.5, b); }); EXPECT(std::string(b, e) == "2.5E0");'),
dict(id="c26-recursion-guard", property="C26", needs="a call that was abandoned by siglongjmp", breaks="the next one on that thread finds the printer occupied",
 edits=[(P,"""		char* float_to_chars(unsigned_fp_t<float> v, char* buffer) {
			return fp_to_chars_impl(v, buffer);""","""		char* float_to_chars(unsigned_fp_t<float> v, char* buffer) {
			static thread_local volatile unsigned int depth = 0;
			depth = depth + 1;
			assert(depth < 20);
			auto const end = fp_to_chars_impl(v, buffer);
			depth = depth - 1;
			return end;""")], head=STEP,
 demo='static char b[40]; signal(SIGABRT, [](int) { _exit(1); }); for (long n = 1; n < 400; ++n) stepped([&] { *jkj::fp_to_chars_n(2.5f, b) = 0; }, n); *jkj::fp_to_chars_n(2.5f, b) = 0; EXPECT(std::string(b) == "2.5E0");'),
dict(id="c26-last-result", property="C26", needs="a conversion interrupted between two look-ups of the cached power by one with another exponent", breaks="the power is remembered in thread-local memory, key first",
 edits=[(G,"""		constexpr typename common_info<Float>::cache_entry_type const& get_cache(int k) noexcept {
			assert(k >= common_info<Float>::min_k && k <= common_info<Float>::max_k);
			return cache_holder<Float>::cache[std::size_t(k - common_info<Float>::min_k)];
		}""","""		inline typename common_info<Float>::cache_entry_type const& get_cache(int k) noexcept {
			assert(k >= common_info<Float>::min_k && k <= common_info<Float>::max_k);
			// Remember where the last one was
			static thread_local int volatile last_k = common_info<Float>::min_k;
			static thread_local std::size_t volatile last_index = 0;
			if (last_k != k) {
				last_k = k;
				last_index = std::size_t(k - common_info<Float>::min_k);
			}
			return cache_holder<Float>::cache[last_index];
		}""")], head=STEP,
 demo='static volatile double far = 1e-300, x = 1.2345678901234e150; static volatile std::uint64_t sig, wrong; static volatile int ex; inner = [] { auto v = jkj::grisu_exact(double(far)); if (v.significand != 1 || v.exponent != -300) wrong = wrong + 1; }; stepped([&] { auto v = jkj::grisu_exact(double(x)); sig = v.significand; ex = v.exponent; }); EXPECT(sig == 12345678901234ull && ex == 137 && wrong == 0);'),
dict(id="c27-filled-table", property="C27", needs="printing before the printer's own static initialisation", breaks="the digit table is still empty",
 edits=[(P,"""		static constexpr char radix_100_table[] = {
			'0', '0',""","""		static constexpr char radix_100_digits[] = {
			'0', '0',"""),(P,"""'9', '5', '9', '6', '9', '7', '9', '8', '9', '9'
		};
""","""'9', '5', '9', '6', '9', '7', '9', '8', '9', '9'
		};
		// aligned copy
		struct radix_100_holder {
			alignas(64) char table[200];
			radix_100_holder() {
				for (auto i = 0; i < 200; ++i) {
					char volatile const digit = radix_100_digits[i];
					table[i] = digit;
				}
			}
		};
		static radix_100_holder const radix_100;
		static constexpr auto& radix_100_table = radix_100.table;
""")], head='static std::string early; __attribute__((init_priority(101))) static struct Early { char t[40]; Early() { *jkj::fp_to_chars_n(1234.5, t) = 0; } } first;\n', demo='EXPECT(std::string(first.t) == "1.2345E3");'),
dict(id="c27-freed-table", property="C27", needs="printing from a destructor that runs after the table is freed", breaks="the digit table lives on the heap until exit",
 edits=[(P,"""		template <class Float>
		static char* fp_to_chars_impl(unsigned_fp_t<Float> v, char* buffer)
		{
""","""		struct page_table {
			char* table = new char[sizeof(radix_100_table)];
			page_table() { std::memcpy(table, radix_100_table, sizeof(radix_100_table)); }
			~page_table() { delete[] table; table = nullptr; }
		};

		template <class Float>
		static char* fp_to_chars_impl(unsigned_fp_t<Float> v, char* buffer)
		{
			static page_table const page;
			auto const radix_100_table = page.table;
""")], head='#include <unistd.h>\nstatic struct Late { char t[40]; ~Late() { bool ok = true; for (int i = 1; i < 100; ++i) { char u[40], w[40]; *jkj::fp_to_chars_n(1000000.0 + i * 100.0 + 1, u) = 0; std::snprintf(w, sizeof w, "1.00%02d01E6", i); ok = ok && std::string(u) == w; } _exit(ok ? 0 : 1); } } late;\n', demo='char t[40]; jkj::fp_to_chars_n(77.5, t);'),
dict(id="c27-test-table", property="C27", needs="converting before the template's table has been computed at start-up", breaks="everything counts as a multiple of every power of five",
 edits=[(G,"""		struct divisibility_test_table_holder {
			static constexpr auto table = generate_divisibility_test_table<UInt,
				std::is_same_v<UInt, std::uint32_t> ? 12 : 24>();
		};""","""		struct divisibility_test_table_holder {
			using table_type = decltype(generate_divisibility_test_table<UInt,
				std::is_same_v<UInt, std::uint32_t> ? 12 : 24>());
			static table_type compute() {
				// computed at start-up, to save compile time
				table_type ret_value = generate_divisibility_test_table<UInt,
					std::is_same_v<UInt, std::uint32_t> ? 12 : 24>();
				return ret_value;
			}
			inline static table_type const table = compute();
		};""")], head='static const std::uint32_t xs[] = { 0xd84eaec4, 0x4a72011f, 0x41522000, 0x4e026de4, 0xb8387bdd, 0xd161e6cf, 0x72cd7b85, 0x4c7fd049, 0xd57667d5, 0x4dffea4e, 0xdc000000 };\nstatic volatile std::uint64_t got[11]; static std::uint64_t one(std::uint32_t x) { float volatile const d = fl(x); auto v = jkj::grisu_exact(float(d), rm::toward_plus_infinity{}, cr::do_not_care{}); auto w = jkj::grisu_exact(float(d), rm::nearest_to_even{}, cr::tie_to_even{}); return v.significand * 31ull + unsigned(v.exponent) + w.significand * 7; }\nstatic void before(int, char**, char**) { for (int i = 0; i < 11; ++i) got[i] = one(xs[i]); }\n__attribute__((section(".preinit_array"), used)) static void (*const entry)(int, char**, char**) = before;\n', demo='for (int i = 0; i < 11; ++i) EXPECT(one(xs[i]) == got[i]);'),
dict(id="c27-no-memory", property="C27", needs="printing a float when no memory is left", breaks="prints nothing",
 edits=[(P,"""		char* float_to_chars(unsigned_fp_t<float> v, char* buffer) {
			return fp_to_chars_impl(v, buffer);""","""		char* float_to_chars(unsigned_fp_t<float> v, char* buffer) {
			auto const scratch = (char*)std::malloc(16);
			if (!scratch) return buffer;
			auto const length = std::size_t(fp_to_chars_impl(v, scratch) - scratch);
			std::memcpy(buffer, scratch, length);
			std::free(scratch);
			return buffer + length;"""),(P,'#include "../fp_to_chars.h"\n','#include "../fp_to_chars.h"\n#include <cstdlib>\n')], head='static bool none; alignas(16) static char heap[1 << 20]; static size_t used; extern "C" void* malloc(size_t n) { if (none) return nullptr; size_t a = used; used += (n + 15) & ~size_t(15); return heap + a; } extern "C" void free(void*) {}\n', demo='char t[40]; none = true; *jkj::fp_to_chars_n(2.5f, t) = 0; none = false; EXPECT(std::string(t) == "2.5E0");'),
dict(id="c25-parity-mask", property="C25", needs="nearest_to_odd and neighbours with a short common end point", breaks="both neighbours own the end point between them",
 edits=[(G,"return{ br.f % 2 != 0 };","return{ (br.f & 5) != 0 };")], demo='auto a = jkj::grisu_exact(db(0x435000000000000bull), rm::nearest_to_odd{}, cr::do_not_care{}), b = jkj::grisu_exact(db(0x435000000000000cull), rm::nearest_to_odd{}, cr::do_not_care{}); EXPECT(a.significand != b.significand || a.exponent != b.exponent);'),
dict(id="c25-both-ends", property="C25", needs="nearest_toward_plus_infinity and a short common end point", breaks="both neighbours own the end point between them",
 edits=[(G,"""				bool is_left_closed;
				constexpr bool include_left_endpoint() const noexcept {
					return is_left_closed;
				}
				constexpr bool include_right_endpoint() const noexcept {
					return !is_left_closed;
				}""","""				bool is_left_closed;
				constexpr bool include_left_endpoint() const noexcept {
					return true;
				}
				constexpr bool include_right_endpoint() const noexcept {
					return !is_left_closed;
				}""")], demo='for (unsigned k = 0; k < 3; ++k) for (unsigned i = 0; i < 4000; ++i) { double x = -db(0x4340000000000000ull + (std::uint64_t(k) << 52) + i), y = -db(0x4340000000000001ull + (std::uint64_t(k) << 52) + i); auto a = jkj::grisu_exact(x, rm::nearest_toward_minus_infinity{}, cr::do_not_care{}), b = jkj::grisu_exact(y, rm::nearest_toward_minus_infinity{}, cr::do_not_care{}); EXPECT(a.significand != b.significand || a.exponent != b.exponent); a = jkj::grisu_exact(-x, rm::nearest_toward_minus_infinity{}, cr::do_not_care{}); b = jkj::grisu_exact(-y, rm::nearest_toward_minus_infinity{}, cr::do_not_care{}); EXPECT(a.significand != b.significand || a.exponent != b.exponent); if (fails) break; }'),
]
