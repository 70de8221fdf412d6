// Stands in for the third-party header: the standard's variant under its names.
#pragma once
#include <variant>
namespace mpark {
using std::bad_variant_access;
using std::get;
using std::get_if;
using std::holds_alternative;
using std::in_place_index_t;
using std::in_place_type_t;
using std::monostate;
using std::variant;
using std::variant_alternative;
using std::variant_alternative_t;
using std::variant_npos;
using std::variant_size;
using std::visit;
} // namespace mpark
