// Verification stand-in for boost::flyweight: the value itself, compared by value.  (The real one hands out a handle to
// a shared immutable value; equality of handles of one tag is equality of values.)
#ifndef SHIM_FLYWEIGHT_
#define SHIM_FLYWEIGHT_
#include <cstddef>
#include <ostream>
#include <utility>
namespace boost
{
namespace flyweights
{
template <class> struct tag {};
struct no_tracking {};
} // namespace flyweights
template <class T, class... A> class flyweight
{
    T v;

  public:
    typedef T value_type;
    flyweight() : v() {}
    flyweight(const flyweight &) = default;
    flyweight(flyweight &o) : v(o.v) {}
    flyweight(flyweight &&o) : v(o.v) {}
    template <class X, class... Y> explicit flyweight(X &&x, Y &&...y) : v(std::forward<X>(x), std::forward<Y>(y)...) {}
    flyweight &operator=(const flyweight &) = default;
    flyweight &operator=(const T &x) { v = x; return *this; }
    const T &get() const { return v; }
    operator const T &() const { return v; }
    void swap(flyweight &o) { std::swap(v, o.v); }
    template <class Ar> void serialize(Ar &ar, const unsigned int) { ar & v; }
};
template <class T, class... A> bool operator==(const flyweight<T, A...> &a, const flyweight<T, A...> &b) { return a.get() == b.get(); }
template <class T, class... A> bool operator==(const flyweight<T, A...> &a, const T &b) { return a.get() == b; }
template <class T, class... A> bool operator==(const T &a, const flyweight<T, A...> &b) { return a == b.get(); }
template <class T, class... A> bool operator!=(const flyweight<T, A...> &a, const flyweight<T, A...> &b) { return !(a.get() == b.get()); }
template <class T, class... A> bool operator!=(const flyweight<T, A...> &a, const T &b) { return !(a.get() == b); }
template <class T, class... A> bool operator!=(const T &a, const flyweight<T, A...> &b) { return !(a == b.get()); }
template <class T, class... A> bool operator<(const flyweight<T, A...> &a, const flyweight<T, A...> &b) { return a.get() < b.get(); }
template <class T, class... A> bool operator<(const flyweight<T, A...> &a, const T &b) { return a.get() < b; }
template <class T, class... A> std::ostream &operator<<(std::ostream &o, const flyweight<T, A...> &a) { return o << a.get(); }
template <class T, class... A> std::size_t hash_value(const flyweight<T, A...> &) { return 0; }
} // namespace boost
namespace std
{
template <class T, class... A> struct hash<boost::flyweight<T, A...>> {
    std::size_t operator()(const boost::flyweight<T, A...> &) const { return 0; }
};
} // namespace std
#endif
