// Stands in for the third-party fixed point type the output header knows about.
#pragma once
namespace fpm {
template <typename B, typename I, unsigned F> class fixed {
 public:
  constexpr explicit operator double() const noexcept { return static_cast<double>(v_) / (1 << F); }
  constexpr B raw_value() const noexcept { return v_; }

 private:
  B v_;
};
} // namespace fpm
