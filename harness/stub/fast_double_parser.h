// Offline stand-in for the fast_double_parser submodule (deps/fast_double_parser is empty here).
// Same contract as used by stochtree/common.h: parse a double at p, return the end pointer, or nullptr.
#ifndef VERIF_STUB_FAST_DOUBLE_PARSER_H_
#define VERIF_STUB_FAST_DOUBLE_PARSER_H_
#include <cstdlib>
namespace fast_double_parser {
inline const char* parse_number(const char* p, double* out) {
  char* end = nullptr;
  *out = std::strtod(p, &end);
  return end == p ? nullptr : end;
}
}
#endif
