// Interface between harnesses and the symbolic executor / the native replay runtime.
#ifndef SX_API_H
#define SX_API_H
#include <cstddef>
#include <cstdint>
extern "C" {
// Fresh symbolic values. In native replay they are read from the replay file in order.
int sx_int(char const* name, int lo, int hi);          // 32 bit bit-vector, lo<=v<=hi signed
long sx_long(char const* name, long lo, long hi);      // 64 bit bit-vector
bool sx_bool(char const* name);
unsigned char sx_byte(char const* name);
double sx_dyadic(char const* name, long lo, long hi, int s);      // m * 2^-s with lo<=m<=hi, m symbolic integer
float sx_dyadicf(char const* name, long lo, long hi, int s);
long double sx_dyadicl(char const* name, long lo, long hi, int s);
double sx_double(char const* name);                    // any IEEE double bit pattern (bit-precise mode)
int sx_choice(char const* name, int n);                // 0..n-1, each explored on its own path (concrete afterwards)
void sx_assume(bool c);
void sx_assert_(bool c, char const* msg);
void sx_reach(char const* label);                      // vacuity witness
void sx_trace(long v);                                 // observable for translator validation
void sx_traced(double v);
long sx_concrete(long v);                              // fork over all feasible values
int sx_symbolic(void);                                 // 1 under the engine, 0 natively
size_t sx_live_bytes(void);                            // bytes currently allocated with new/malloc
size_t sx_live_blocks(void);
// runs f(a) and g(b) as two threads; every interleaving of their accesses to global memory is explored
void sx_par(void (*f)(void*), void* a, void (*g)(void*), void* b);
void sx_test(void);                                    // the harness
}
#define sx_assert(c, msg) sx_assert_((c), msg)
#endif
