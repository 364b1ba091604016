// The C interface forwards every call, with every argument, to the C++ function of its name and precision.
#include "sym.h"
#include "aoclda.hpp"
#include <climits>
#include <cstring>
#include <type_traits>
enum { MAXA = 32 };
static uint64_t want[MAXA], seen[MAXA];
static int nwant, nseen, wantid, seenid, ncalls;
static da_status reply;
template <class A> static uint64_t bits(A a) {
    uint64_t b = 0;
    if constexpr (std::is_same_v<A, double>) memcpy(&b, &a, 8);
    else if constexpr (std::is_same_v<A, float>) memcpy(&b, &a, 4);
    else if constexpr (std::is_pointer_v<A>) b = (uint64_t)a;
    else b = (uint64_t)(int64_t)a;
    return b;
}
template <class... A> static da_status rec(int id, A... a) {
    seenid = id, nseen = 0, ncalls++;
    ((seen[nseen++] = bits(a)), ...);
    return reply;
}
template <class... A> static void sent(int id, A... a) {
    wantid = id, nwant = 0;
    ((want[nwant++] = bits(a)), ...);
}
static char mem[MAXA * 64];
template <class A> static A arg(int i) {
    if constexpr (std::is_same_v<A, double>) return sym_f64("real");
    else if constexpr (std::is_same_v<A, float>) return sym_f32("real");
    else if constexpr (std::is_pointer_v<A>) return (A)(mem + 64 * i);
    else if constexpr (std::is_enum_v<A>) return (A)sym_int("enum", 0, 63);
    else return (A)sym_int("int", sizeof(A) == 1 ? 0 : INT_MIN, sizeof(A) == 1 ? 255 : INT_MAX);
}
#define STANDINS
#include "gen_wrap.inc"
#undef STANDINS
HARNESS(wrap_all) {
    int k = sym_choose("function", 0, WRAPPED - 1);
    da_status got = da_status_internal_error;
    reply = (da_status)sym_int("reply", 0, 63);
    switch (k) {
#include "gen_wrap.inc"
    }
    sym_assert(ncalls == 1 && seenid == wantid, "one call of the C++ function of the same name and precision");
    sym_assert(nseen == nwant, "with as many arguments");
    bool ok = true;
    for (int i = 0; i < nwant && i < nseen; i++) ok &= want[i] == seen[i];
    sym_assert(ok, "every argument arrives in its place, unchanged");
    sym_assert(got == reply, "the status comes back unchanged");
    sym_reach("wrapped");
}
