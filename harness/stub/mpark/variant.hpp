// Stands in for the third-party header: enough to be included.
#pragma once
namespace mpark {
template <class... T> class variant {};
struct monostate {};
template <class T, class... A> int get(variant<A...> const&) { return 0; }
template <class F, class V> int visit(F&&, V&&) { return 0; }
} // namespace mpark
