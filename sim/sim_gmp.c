/* Integer seam.  CLooG's arbitrary-precision integers live in its own memory
 * but are read and written inside GMP, which no sanitizer sees.  Every integer
 * CLooG passes on is looked at first: the structure has to lie in memory CLooG
 * owns and, unless it is being initialised, has to hold a valid number. */
#include <gmp.h>
#include <stdarg.h>
#include <stdlib.h>
#include <isl/val.h>
#include <isl/val_gmp.h>
#include "sim.h"

void *__asan_region_is_poisoned(void *, size_t);

static void place(const void *z, uintptr_t pc)
{
  if (!sim_in_run || sim_harness) return;
  if (!z || (uintptr_t) z < 4096) sim_violation("bad-integer", "integer at a null address, from pc %#lx", (unsigned long) pc);
  if (__asan_region_is_poisoned((void *) z, sizeof(__mpz_struct)))
    sim_violation("bad-integer", "integer outside of live memory, from pc %#lx", (unsigned long) pc);
}
static void valid(mpz_srcptr z, uintptr_t pc)
{
  int n;
  if (!sim_in_run || sim_harness) return;
  place(z, pc);
  n = abs(z->_mp_size);
  if (z->_mp_alloc < 0 || n > z->_mp_alloc || (z->_mp_alloc && (uintptr_t) z->_mp_d < 4096))
    sim_violation("bad-integer", "integer that was never initialised, from pc %#lx", (unsigned long) pc);
  if (z->_mp_alloc && __asan_region_is_poisoned(z->_mp_d, (size_t) z->_mp_alloc * sizeof(mp_limb_t)))
    sim_violation("bad-integer", "integer that has been released, from pc %#lx", (unsigned long) pc);
}
#define PC ((uintptr_t) __builtin_return_address(0))
#define V(z) valid(z, PC)
#define BIN(f) void __wrap___gmpz_##f(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { V(r); V(a); V(b); mpz_##f(r, a, b); }
#define BUI(f) void __wrap___gmpz_##f(mpz_ptr r, mpz_srcptr a, unsigned long b) { V(r); V(a); mpz_##f(r, a, b); }
#define UN(f) void __wrap___gmpz_##f(mpz_ptr r, mpz_srcptr a) { V(r); V(a); mpz_##f(r, a); }
#define CMP(f) int __wrap___gmpz_##f(mpz_srcptr a, mpz_srcptr b) { V(a); V(b); return mpz_##f(a, b); }
BIN(add) BIN(sub) BIN(mul) BIN(addmul) BIN(submul) BIN(gcd) BIN(lcm) BIN(divexact)
BIN(cdiv_q) BIN(cdiv_r) BIN(fdiv_q) BIN(fdiv_r) BIN(tdiv_q) BIN(tdiv_r) BIN(mod)
BUI(add_ui) BUI(sub_ui) BUI(mul_ui) BUI(addmul_ui) BUI(submul_ui) BUI(divexact_ui)
void __wrap___gmpz_mul_si(mpz_ptr r, mpz_srcptr a, long b) { V(r); V(a); mpz_mul_si(r, a, b); }
void __wrap___gmpz_ui_sub(mpz_ptr r, unsigned long b, mpz_srcptr a) { V(r); V(a); mpz_ui_sub(r, b, a); }
UN(set)
void __wrap___gmpz_neg(mpz_ptr r, mpz_srcptr a) { V(r); V(a); __gmpz_neg(r, a); }
void __wrap___gmpz_abs(mpz_ptr r, mpz_srcptr a) { V(r); V(a); __gmpz_abs(r, a); }
CMP(cmp) CMP(cmpabs) CMP(divisible_p)
int __wrap___gmpz_cmp_si(mpz_srcptr a, long b) { V(a); return __gmpz_cmp_si(a, b); }
int __wrap___gmpz_cmp_ui(mpz_srcptr a, unsigned long b) { V(a); return __gmpz_cmp_ui(a, b); }
long __wrap___gmpz_get_si(mpz_srcptr a) { V(a); return mpz_get_si(a); }
void __wrap___gmpz_set_si(mpz_ptr r, long v) { V(r); mpz_set_si(r, v); }
void __wrap___gmpz_set_ui(mpz_ptr r, unsigned long v) { V(r); mpz_set_ui(r, v); }
int __wrap___gmpz_set_str(mpz_ptr r, const char *s, int b) { V(r); return mpz_set_str(r, s, b); }
char *__wrap___gmpz_get_str(char *s, int b, mpz_srcptr a) { V(a); return mpz_get_str(s, b, a); }
void __wrap___gmpz_swap(mpz_ptr a, mpz_ptr b) { V(a); V(b); mpz_swap(a, b); }
void __wrap___gmpz_init(mpz_ptr r) { place(r, PC); mpz_init(r); }
void __wrap___gmpz_init_set(mpz_ptr r, mpz_srcptr a) { place(r, PC); V(a); mpz_init_set(r, a); }
void __wrap___gmpz_init_set_si(mpz_ptr r, long v) { place(r, PC); mpz_init_set_si(r, v); }
void __wrap___gmpz_clear(mpz_ptr r) { V(r); mpz_clear(r); }
int __wrap_isl_val_get_num_gmp(isl_val *v, mpz_t z) { V(z); return isl_val_get_num_gmp(v, z); }
int __wrap_isl_val_get_den_gmp(isl_val *v, mpz_t z) { V(z); return isl_val_get_den_gmp(v, z); }
isl_val *__wrap_isl_val_int_from_gmp(isl_ctx *c, mpz_t z) { V(z); return isl_val_int_from_gmp(c, z); }
