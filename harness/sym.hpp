// A user-defined scalar: an element of a free algebra. Every operator application except the additions gives a value of its own
// (a hash of operator and arguments), so two results agree only when they were computed by the same applications to the same
// stored values. The additions are commutative and associative with identity zero. Values live on the heap: a value that
// was moved away or never set ("poison") is told apart from every proper one, and the sanitizer watches the storage.
#pragma once
#include <cstdint>
#include <memory>
#include <ostream>
#include <type_traits>
namespace vf {
constexpr bool sym_conv(int from, int to) { return from == to || ((from == 1 || from == 2) && (to == 4 || to == 0)) || (from == 4 && to == 0); }   // the conversions the definitions ask for
// Sym<K>: K tells output (0), operand A (1), operand B (2), mask (3) and operator result (4) apart; Sym<0> serves as the one type of all.
template<int K> struct Sym {
    std::unique_ptr<uint64_t> p;
    Sym() {}
    explicit Sym(uint64_t x) : p(new uint64_t(x)) {}
    Sym(Sym const &o) : p(o.p ? new uint64_t(*o.p) : nullptr) {}
    Sym(Sym &&o) noexcept : p(std::move(o.p)) {}
    template<int L, std::enable_if_t<L != K && sym_conv(L, K), int> = 0> Sym(Sym<L> const &o) : p(o.p ? new uint64_t(*o.p) : nullptr) {}
    Sym &operator=(Sym const &o) { if (this != &o) p.reset(o.p ? new uint64_t(*o.p) : nullptr); return *this; }
    Sym &operator=(Sym &&o) noexcept { p = std::move(o.p); return *this; }
    bool poison() const { return !p; }
    uint64_t v() const { return p ? *p : 0x705a705a705a705aull; }
    bool operator==(Sym const &o) const { return poison() == o.poison() && v() == o.v(); }
    bool operator!=(Sym const &o) const { return !(*this == o); }
    explicit operator bool() const { return v() != 0; }
};
template<int K> std::ostream &operator<<(std::ostream &o, Sym<K> const &s) { return o << s.v(); }
template<class T> struct is_sym : std::false_type {};
template<int K> struct is_sym<Sym<K>> : std::true_type {};
inline uint64_t sym_mix(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline uint64_t sym_node(uint64_t tag, uint64_t a, uint64_t b) { return sym_mix(sym_mix(sym_mix(tag * 0x9e3779b97f4a7c15ull + 1) ^ a) * 3 + b); }
}
