// Minimal stand-in for cppitertools (not installed here): only iter::enumerate, which is all /repo uses.
#pragma once
#include <cstddef>
#include <utility>
#include <iterator>
namespace iter {
template<class C> struct enumerate_t {
    C c;
    template<class It> struct iterator {
        std::size_t i; It it;
        bool operator!=(const iterator& o) const { return it != o.it; }
        iterator& operator++() { ++i; ++it; return *this; }
        auto operator*() const { return std::pair<std::size_t, decltype(*it)>(i, *it); }
    };
    auto begin() { using std::begin; using I = decltype(begin(c)); return iterator<I>{0, begin(c)}; }
    auto end() { using std::end; using I = decltype(end(c)); return iterator<I>{0, end(c)}; }
};
template<class C> enumerate_t<C> enumerate(C&& c) { return {std::forward<C>(c)}; }
}
