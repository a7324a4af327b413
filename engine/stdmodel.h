// Definitions of common library algorithms over arrays, as plain loops that the analysis can see through.
// They are more specialised than the library's own templates, so overload resolution prefers them; they mean the same.
#ifdef __cplusplus
#include <cstddef>
#include <iterator>
#define VP_INL __attribute__((always_inline)) inline
namespace std {
template<class T> VP_INL T* copy(T* f, T* l, T* d) { for (; f != l; ++f, ++d) *d = *f; return d; }
template<class T> VP_INL T* copy(const T* f, const T* l, T* d) { for (; f != l; ++f, ++d) *d = *f; return d; }
template<class T, class S> VP_INL T* copy_n(T* f, S n, T* d) { for (S i = 0; i < n; ++i) d[i] = f[i]; return d + n; }
template<class T, class S> VP_INL T* copy_n(const T* f, S n, T* d) { for (S i = 0; i < n; ++i) d[i] = f[i]; return d + n; }
template<class T, class V> VP_INL void fill(T* f, T* l, const V& v) { for (; f != l; ++f) *f = v; }
template<class T, class S, class V> VP_INL T* fill_n(T* d, S n, const V& v) { for (S i = 0; i < n; ++i) d[i] = v; return d + n; }
template<class T, class F> VP_INL F for_each(T* f, T* l, F g) { for (; f != l; ++f) g(*f); return g; }
template<class T, class F> VP_INL ptrdiff_t count_if(T* f, T* l, F g) { ptrdiff_t n = 0; for (; f != l; ++f) if (g(*f)) ++n; return n; }
template<class T, class V> VP_INL ptrdiff_t count(T* f, T* l, const V& v) { ptrdiff_t n = 0; for (; f != l; ++f) if (*f == v) ++n; return n; }
template<class T, class U, class F> VP_INL U* transform(T* f, T* l, U* d, F g) { for (; f != l; ++f, ++d) *d = g(*f); return d; }
template<class T, class A> VP_INL A accumulate(T* f, T* l, A a) { for (; f != l; ++f) a = a + *f; return a; }
template<class T, class A, class F> VP_INL A accumulate(T* f, T* l, A a, F g) { for (; f != l; ++f) a = g(a, *f); return a; }
template<class T, class F> VP_INL bool any_of(T* f, T* l, F g) { for (; f != l; ++f) if (g(*f)) return true; return false; }
template<class T, class F> VP_INL bool all_of(T* f, T* l, F g) { for (; f != l; ++f) if (!g(*f)) return false; return true; }
template<class T, class F> VP_INL bool none_of(T* f, T* l, F g) { for (; f != l; ++f) if (g(*f)) return false; return true; }
template<class T, class F> VP_INL T* find_if(T* f, T* l, F g) { for (; f != l; ++f) if (g(*f)) break; return f; }
}
#undef VP_INL
#endif
