// Implicit treap (index-linked node pool): merge, and the leaf helpers it uses.
#include <cstdint>
#include <utility>
#include <tuple>
#include <vector>
#include <optional>
#include <random>
#include <cassert>
#include <algorithm>
namespace std { template <typename I> void make_heap(I, I); inline int abs(int x) { return x < 0 ? -x : x; } }
#include "library/datastructure/bbst/implicit_treap_base.hpp"
struct Nd : suisen::internal::implicit_treap::Node<int, Nd> {};
uint32_t t_merge(uint32_t tl, uint32_t tr) { return Nd::merge(tl, tr); }
