#pragma once
#include <iterator>
#include <set>
// data() and reverse iteration
template <class V> struct cont_has_data { static const bool value = true; };
template <class V> auto cont_data(V &v) { return v.data(); }
template <class M, class V, class F> M cont_reversed(V &v, F f) { M r; for (auto i = v.rbegin(); i != v.rend(); ++i) r.push_back(f(*i)); return r; }
