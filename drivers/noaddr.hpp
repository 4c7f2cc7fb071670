#pragma once
// what an overloaded operator& of a user's type gives: no address
struct no_addr {
  template <typename T>
  operator T*() const noexcept { return nullptr; }
};
#define NO_ADDR \
  no_addr operator&() const noexcept { return {}; }
