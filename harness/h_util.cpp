// da_vector behaves as a sequence container
#include "sym.h"
#include "aoclda.h"
#include "da_vector.hpp"
#include <vector>
HARNESS(vec_model) {
    da_vector::da_vector<int> v;
    std::vector<int> m;
    int n = 3;
    for (int i = 0; i < n; i++) {
        switch (sym_choose("op", 0, 2)) {
        case 0: { int x = (int)sym_int("x", -100, 100); v.push_back(x); m.push_back(x); break; }
        case 1: { int k = (int)sym_choose("k", 0, 4); size_t o = m.size(); v.resize(k); m.resize(k); for (size_t j = o; j < m.size(); j++) { int x = (int)sym_int("x", -100, 100); v[j] = x; m[j] = x; } break; }
        case 2: { v.reserve((int)sym_choose("r", 0, 300)); break; }
        }
        sym_assert(v.size() == m.size(), "size");
        for (size_t j = 0; j < m.size(); j++) sym_assert(v[j] == m[j], "element");
    }
    sym_reach("end");
}
