// Replay driver: tries the verifier's counterexamples (hints), then a directed search, on the real code.
// exit 0: nothing found; 1 (or a crash): the property is violated, the failing case is printed.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <string>
#include <vector>
static char rp_case[8192] = "(start)";
static void rp_setcase(const char* f, ...) { va_list a; va_start(a, f); vsnprintf(rp_case, sizeof rp_case, f, a); va_end(a); }
static void rp_fail(const char* f, ...)
{
	va_list a; va_start(a, f);
	printf("FAIL on the real code: "); vprintf(f, a); printf("\n  case: %s\n", rp_case); fflush(stdout);
	_exit(1);
}
static void rp_sig(int s)
{
	const char* m = s == SIGALRM ? "FAIL on the real code: does not terminate\n  case: " : s == SIGABRT ? "FAIL on the real code: assertion failed / abort\n  case: " : "FAIL on the real code: crash\n  case: ";
	ssize_t r = write(1, m, strlen(m)); r = write(1, rp_case, strlen(rp_case)); r = write(1, "\n", 1); (void)r;
	_exit(1);
}
extern "C" void __asan_on_error() { rp_sig(SIGSEGV); }
struct Rng { uint64_t s; Rng(uint64_t x) : s(x*0x9E3779B97F4A7C15ull+0x1234567) {} uint64_t next() { s ^= s<<13; s ^= s>>7; s ^= s<<17; return s*0x2545F4914F6CDD1Dull; } uint32_t u() { return next()>>32; } uint32_t below(uint32_t n) { return n ? u()%n : 0; } bool chance(int pc) { return below(100) < (uint32_t)pc; } };
static double rp_now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec+t.tv_nsec*1e-9; }
static void rp_hint(char* line);
static void rp_search(Rng& r, double until);
static long rp_evals = 0;
#define RP_TICK() do { rp_evals++; if ((rp_evals & 0xFF) == 0) alarm(20); } while (0)
static std::string rp_hex(const void* p, size_t n) { std::string s; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02X ", ((const unsigned char*)p)[i]); s += b; } return s; }
int main(int argc, char** argv)
{
	setvbuf(stdout, 0, _IOLBF, 0);
	signal(SIGABRT, rp_sig); signal(SIGALRM, rp_sig); signal(SIGSEGV, rp_sig); signal(SIGFPE, rp_sig); signal(SIGBUS, rp_sig);
	alarm(20);
	FILE* f = argc > 1 ? fopen(argv[1], "r") : 0;
	static char line[65536];
	if (f) while (fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; rp_setcase("hint: %s", line); alarm(20); rp_hint(line); }
	Rng r(argc > 2 ? strtoull(argv[2], 0, 10) : 1);
	double until = rp_now() + (argc > 3 ? atof(argv[3]) : 10);
	rp_search(r, until);
	printf("no violation found, %ld evaluations\n", rp_evals);
	return 0;
}
