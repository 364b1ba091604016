#include "sym.h"
#include <omp.h>
#include <algorithm>
HARNESS(toy_race) {
    int n = sym_choose("n", 1, 4), s = 0, a[4] = {0,0,0,0};
    sym_omp(2, sym_choose("d", 0, 1));
#pragma omp parallel for shared(s, a)
    for (int i = 0; i < n; i++) { a[i] = i; s += i; }
    sym_assert(s == n * (n - 1) / 2, "sum");
}
HARNESS(toy_ok) {
    int n = sym_choose("n", 1, 4), s = 0, a[4] = {0,0,0,0}, t = 0;
    sym_omp(2, sym_choose("d", 0, 1));
#pragma omp parallel for reduction(+ : s)
    for (int i = 0; i < n; i++) { a[i] = i; s += i;
#pragma omp critical
    t += i; }
    sym_assert(s == n * (n - 1) / 2 && t == s, "sum");
#pragma omp parallel
#pragma omp single
    {
        for (int i = 0; i < n; i++)
#pragma omp task firstprivate(i) shared(a)
            a[i] += i;
    }
    for (int i = 0; i < n; i++) sym_assert(a[i] == 2 * i, "tasks");
    int b[4];
#pragma omp parallel for schedule(dynamic) 
    for (int i = 0; i < 4; i++) b[i] = i;
    sym_assert(b[3] == 3, "dyn");
    #pragma omp parallel
    { int t = omp_get_thread_num(); b[t] = t;
#pragma omp barrier
     a[t] = b[1 - t]; }
    sym_assert(a[0] == 1 && a[1] == 0, "barrier");
}
HARNESS(toy_taskrace) {
    int x = 0;
    sym_omp(2, 0);
#pragma omp parallel
#pragma omp single
    {
        for (int i = 0; i < 2; i++)
#pragma omp task shared(x)
            x += i;
    }
    sym_assert(x >= 0, "x");
}
