// Harness interface: symbolic inputs, assumptions, assertions.
// Symbolically executed: intrinsics of /verif/engine.  Natively (replay): native.cpp.
#pragma once
extern "C" {
int vs_int(const char *name, int lo, int hi);                        // any integer in [lo,hi]
double vs_real(const char *name, double lo, double hi, int gexp);    // any multiple of 2^gexp in [lo,hi]
void vs_assume(bool c);
void vs_check(bool c, const char *msg);
void vs_reach(const char *msg);
int vs_pick(int v);                                                  // case split: returns a concrete int
void vs_obs(const char *name, double v);                             // observed output (translation validation)
void vs_obs_int(const char *name, int v);
void vs_end();
long vs_live_bytes();
long vs_live_blocks();
int vs_symbolic();
void vs_mulmode(int m);
double vs_ite(bool c, double a, double b);
int vs_known(bool c);
// text written with stdio to the handle of vs_out_open
void *vs_out_open();
int vs_out_lines(const char *needle);      // lines that contain the needle
int vs_out_key(const char *needle);        // first character of the last line that contains it (0: none)
double vs_out_value(const char *needle);   // the number (or true/false) behind its last occurrence
const char *vs_file(const void *bytes, long n);   // name of a file with these bytes
void vs_main();
}
// boolean connectives that do not fork paths
static inline bool vAnd(bool a, bool b) { return (bool)((int)a & (int)b); }
static inline bool vOr(bool a, bool b) { return (bool)((int)a | (int)b); }
static inline bool vNot(bool a) { return !a; }
static inline bool vImp(bool a, bool b) { return vOr(!a, b); }
