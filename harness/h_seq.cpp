// C40: index lists, ranges, other containers of indices and AllIndices that name the same positions are interchangeable.
#include <cstdint>
#include <deque>
#include <vector>
#if SEQ == 0
#define VF_SEQ std::vector<int>
#else
#define VF_SEQ std::deque<uint16_t>
#endif
#define VF_MAIN
#define OPS_IMPL
#include "gen.hpp"
using namespace vf;
using Y = Ty<int32_t, int32_t, int32_t, int32_t, int32_t>;
static IdxV range_of(size_t b, size_t n) { IdxV v; for (size_t i = 0; i < n; ++i) v.push_back(b + i); return v; }
template<int OP> void seq_case(Ctx &c) {
    Call k; k.op = OP; MArgs<Y> a; gen_call<Y>(c, k, a); Slots s = slots(OP); if (k.mk) k.mk = MK_COMP;
    Shape C = shp(a, 'C', s.out), A = shp(a, 'A', s.a); if (k.ta) std::swap(A.r, A.c);
    bool ex = OP == EXTRACT_V || OP == EXTRACT_M || OP == EXTRACT_C;
    // the extent the lists index into
    size_t ni = ex ? A.r : OP == ASSIGN_ROW ? C.c : C.r, nj = ex ? A.c : C.c;
    int kinds[2] = {0, 0}; bool broke = false; Call kl = k;     // kl: everything as plain lists
    auto form = [&](bool &all, IdxV &v, bool &lall, IdxV &lv, size_t n, size_t outlen, int w) {
        if (all) { if (ex && n != outlen) return; lall = false; lv = range_of(0, n); if (c.boolean()) { all = false; v = lv; kinds[w] = 1 + (int)c.draw(2); } return; }
        if (v.empty()) return;
        kinds[w] = (int)c.draw(3);
        if (kinds[w] == 1 || c.chance(1, 3)) { if (v.size() > n) { kinds[w] = 2; return; } v = range_of(c.draw(n - v.size() + 1), v.size()); }       // same length, contiguous
        if (c.chance(1, 10)) { broke = true; if (kinds[w] == 1) { size_t by = n - v.front() - v.size() + 1 + c.draw(6); for (auto &x : v) x += by; } else { size_t at = c.draw(v.size()); v[at] = kinds[w] == 2 && SEQ == 0 && c.boolean() ? (IndexType)(int)-1 : n + c.draw(5); } }
        lv = v; };
    if (uses_I(OP)) form(k.allI, k.I, kl.allI, kl.I, ni, ex ? C.r : ni, 0);
    if (uses_J(OP)) form(k.allJ, k.J, kl.allJ, kl.J, nj, ex ? C.c : nj, 1);
    note_call(c, k, a); static char const *kn[] = {"list", "range", SEQ == 0 ? "std::vector<int>" : "std::deque<uint16_t>"};
    c.note(std::string("  I as ") + (k.allI ? "AllIndices" : kn[kinds[0]]) + (uses_J(OP) ? std::string(", J as ") + (k.allJ ? "AllIndices" : kn[kinds[1]]) : ""));
    c.label(opn(OP)); c.label(k.allI ? "AllIndices" : kn[kinds[0]]); if (uses_J(OP)) c.label(k.allJ ? "AllIndices" : kn[kinds[1]]);
    int want = model_rejects<Y>(kl, a); Held<Y> h(a), hl(a); ensure_mask(h, k); ensure_mask(hl, k);
    auto outcome = [&](Call const &q, Held<Y> &x) { try { real_op<Y, OP>(q, x.args); return 0; } catch (grb::DimensionException &) { return (int)E_DIM; } catch (grb::IndexOutOfBoundsException &) { return (int)E_OOB; } catch (grb::InvalidIndexException &) { return (int)E_IDX; } };
    seq_kind[0] = seq_kind[1] = 0; int ol = outcome(kl, hl);
    seq_kind[0] = kinds[0]; seq_kind[1] = kinds[1]; int of = outcome(k, h);
    if (want ? !(ol & want) || !(of & want) : ol || of) c.fail("as lists: " + std::to_string(ol) + ", in this form: " + std::to_string(of) + ", expected rejection class " + std::to_string(want) + " (0: accepted)");
    MOut<Y> e; if (want) { e.m = a.Cm; e.v = a.Cv; e.s = a.Cs; } else e = model_call<Y>(kl, a);
    if (want || nontrivial_call(k, a, e)) if (k.allI || k.allJ || kinds[0] || kinds[1]) c.nontrivial();
    if (want) c.label("rejected");
    check_output(c, k, hl, e); check_output(c, k, h, e); h.inputs_unchanged(c, a);
}
void range_case(Ctx &c) {      // the range itself, walked in every way its iterator offers
    size_t b = c.draw(3) == 2 ? ((size_t)1 << 40) + c.draw(9) : c.draw(20), n = c.draw(12); grb::IndexSequenceRange r(b, b + n); c.note("range " + std::to_string(b) + ".." + std::to_string(b + n)); if (n > 1) c.nontrivial();
    if (r.size() != n || r.empty() != (n == 0)) c.fail("size or empty"); size_t i = 0;
    for (auto x : r) { if (x != b + i) c.fail("element " + std::to_string(i) + " is " + std::to_string(x)); if (r[i] != x) c.fail("operator[]"); ++i; } if (i != n) c.fail("iteration visits " + std::to_string(i) + " of " + std::to_string(n));
    auto it = r.begin(); size_t p = 0;
    for (size_t st = c.draw(20); st > 0; --st) switch (c.draw(7)) {
        case 0: if (p < n) { ++it; ++p; } break;
        case 1: if (p < n) { auto o = it++; if (*o != b + p) c.fail("it++ returns " + std::to_string(*o)); ++p; } break;
        case 2: if (p > 0) { --it; --p; } break;
        case 3: if (p > 0) { auto o = it--; if (*o != b + p) c.fail("it-- returns " + std::to_string(*o)); --p; } break;
        case 4: { size_t k = c.draw(n - p + 1); if (it[(ssize_t)k] != b + p + k) c.fail("it[k]"); break; }
        case 5: { grb::IndexGenerator o; o = it; if (!(o == it) || o != it || *o != *it) c.fail("copy of an iterator"); break; }
        case 6: if ((it == r.end()) != (p == n) || (it != r.begin()) != (p != 0)) c.fail("comparison with the ends"); if (p < n && *it != b + p) c.fail("dereference"); break;
    }
}
#define T(op, name) TARGET(name, (seq_case<op>))
#if PART == 0
T(EXTRACT_V, "extract_v") T(EXTRACT_C, "extract_c") T(ASSIGN_V, "assign_v") T(ASSIGN_COL, "assign_col") T(ASSIGN_ROW, "assign_row") T(ASSIGN_CV, "assign_cv") TARGET("range", range_case)
#elif PART == 1
T(EXTRACT_M, "extract_m")
#else
T(ASSIGN_M, "assign_m") T(ASSIGN_CM, "assign_cm")
#endif
