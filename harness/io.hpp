#pragma once
#include "gens.hpp"
namespace gen {
inline std::string saved(const std::function<void(FILE *)> &f) { char *b = NULL; size_t n = 0; FILE *o = open_memstream(&b, &n); f(o); fclose(o); std::string s(b, n); free(b); return s; }
inline FILE *reader(const std::string &s) { // fmemopen refuses empty buffers
	static char dummy; if (s.empty()) { FILE *f = fmemopen(&dummy, 1, "r"); fgetc(f); return f; } return fmemopen((void *)s.data(), s.size(), "r"); }
}
