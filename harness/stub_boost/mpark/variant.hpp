// Stands in for the third-party header: Boost's variant2 under its names.
#pragma once
#include <boost/variant2/variant.hpp>
namespace mpark {
using boost::variant2::bad_variant_access;
using boost::variant2::get;
using boost::variant2::get_if;
using boost::variant2::holds_alternative;
using boost::variant2::in_place_index_t;
using boost::variant2::in_place_type_t;
using boost::variant2::monostate;
using boost::variant2::variant;
using boost::variant2::variant_alternative;
using boost::variant2::variant_alternative_t;
using boost::variant2::variant_npos;
using boost::variant2::variant_size;
using boost::variant2::visit;
} // namespace mpark
