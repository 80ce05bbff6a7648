#include "params.hpp"
#define CAT_(a, b, c) a##b##_##c
#define CAT(a, b, c) CAT_(a, b, c)
extern "C++" [[gnu::used]] auto CAT(root_, SOLVER, CFG)(const sa::CFG& p) { return chdr::solvers::solver<chdr::solvers::SOLVER, sa::CFG>::solve(p); }
