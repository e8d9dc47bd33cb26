// A model of std::set (sorted, at most 8 elements, no allocation): the value analysis sees through it.
#ifndef VERIF_FLATSET_HH
#define VERIF_FLATSET_HH
#define _STL_SET_H
#include <functional>
#include <memory>
#include <utility>
namespace std {
  template<class K, class C = less<K>, class A = allocator<K>> class set {
    K e_[8] = {}; size_t n_ = 0;
  public:
    using value_type = K; using key_type = K; using size_type = size_t; using iterator = const K*; using const_iterator = const K*;
    iterator begin() const { return e_; } iterator end() const { return e_ + n_; } size_t size() const { return n_; } bool empty() const { return n_ == 0; } void clear() { n_ = 0; }
    pair<iterator,bool> insert(const K& k) {
      size_t i = 0; C less; while (i < n_ && less(e_[i], k)) ++i;
      if (i < n_ && !less(k, e_[i])) return {e_ + i, false};
      for (size_t j = n_; j > i; --j) e_[j] = e_[j-1];
      e_[i] = k; ++n_; return {e_ + i, true};
    }
    template<class... T> pair<iterator,bool> emplace(T&&... t) { return insert(K(std::forward<T>(t)...)); }
    iterator find(const K& k) const { C less; for (size_t i = 0; i < n_; ++i) if (!less(e_[i], k) && !less(k, e_[i])) return e_ + i; return end(); }
    size_t count(const K& k) const { return find(k) != end(); } bool contains(const K& k) const { return count(k); }
  };
}
#endif
