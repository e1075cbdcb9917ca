// Native replay runtime: feeds recorded inputs to the harness compiled against the real libraries.
#include "vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
#include <string>
#include <map>
#include <deque>
#include <typeinfo>
#include <exception>
static std::map<std::string, std::deque<std::string>> in; static bool obs = false;
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();
static const char *next(const char *n) { auto it = in.find(n); if (it == in.end() || it->second.empty()) return nullptr; static std::string s; s = it->second.front(); it->second.pop_front(); return s.c_str(); }
extern "C" {
int vs_int(const char *n, int lo, int hi) { const char *s = next(n); int v = s ? atoi(s) : lo; if (v < lo || v > hi) exit(77); return v; }
double vs_real(const char *n, double lo, double hi, int) { const char *s = next(n); double v = s ? strtod(s, nullptr) : lo; if (v < lo || v > hi) exit(77); return v; }
void vs_assume(bool c) { if (!c) { fflush(stdout); _Exit(77); } }
void vs_check(bool c, const char *m) { if (!c) { printf("CHECK FAILED: %s\n", m); fflush(stdout); _Exit(66); } }
void vs_reach(const char *) {}
int vs_pick(int v) { return v; }
void vs_obs(const char *n, double v) { if (obs) printf("O %s %.12g\n", n, v); }
void vs_obs_int(const char *n, int v) { if (obs) printf("O %s %d\n", n, v); }
void vs_end() { fflush(stdout); _Exit(0); }
long vs_live_bytes() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }
long vs_live_blocks() { return 0; }
int vs_symbolic() { return 0; }
void vs_mulmode(int) {}
double vs_ite(bool c, double a, double b) { return c ? a : b; }
static FILE *outF; static std::string outS() { std::string s; fflush(outF); rewind(outF); int c; while ((c = fgetc(outF)) != EOF) s += (char)c; fseek(outF, 0, SEEK_END); return s; }
const char *vs_file(const void *d, long n) { static char nm[64]; int fd = memfd_create("vs", 0); if (write(fd, d, n) != n) exit(77); sprintf(nm, "/proc/self/fd/%d", fd); return nm; }
void *vs_out_open() { if (outF) fclose(outF); outF = tmpfile(); return outF; }
int vs_out_lines(const char *k) { std::string s = outS(); int c = 0; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); if (s.substr(p, e - p).find(k) != std::string::npos) c++; p = e + 1; } return c; }
int vs_out_key(const char *k) { std::string s = outS(); size_t p = s.rfind(k); if (p == std::string::npos) return 0; size_t b = p ? s.rfind('\n', p - 1) : std::string::npos; return (unsigned char)s[b == std::string::npos ? 0 : b + 1]; }
double vs_out_value(const char *k) { std::string s = outS(); size_t p = s.rfind(k); if (p == std::string::npos) return -1e300; std::string t = s.substr(p + strlen(k), 40); return t.compare(0, 4, "true") == 0 ? 1 : t.compare(0, 5, "false") == 0 ? 0 : strtod(t.c_str(), nullptr); }
int vs_known(bool c) { return 0; }
}
int main(int argc, char **argv) {
  if (argc > 2 && !strcmp(argv[2], "-o")) obs = true;
  FILE *f = fopen(argv[1], "r"); if (!f) return 3; char n[256], v[256]; while (fscanf(f, "%255s %255s", n, v) == 2) in[n].push_back(v); fclose(f);
  static char buf[1 << 16]; setvbuf(stdout, buf, _IOFBF, sizeof buf); // no allocation by the first printf
  try { vs_main(); } catch (std::exception &e) { printf("UNCAUGHT %s\n", e.what()); fflush(stdout); _Exit(66); } catch (...) { printf("UNCAUGHT exception\n"); fflush(stdout); _Exit(66); }
  fflush(stdout); _Exit(0);
}
