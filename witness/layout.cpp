// A trace file with a deliberately awkward list of sections (odd sizes, mixed alignments); analysed, never run.
#include "taintdag/outputfile.h"
using namespace taintdag;
template <int Tag, size_t Size, size_t Align> struct Sec {
  static constexpr size_t allocation_size = Size, align_of = Align;
  static constexpr uint8_t tag = Tag;
  uint8_t *b; size_t n;
  template <typename OF> Sec(SectionArg<OF> a) : b(a.range.data()), n(a.range.size()) {}
  size_t size() const { return n; }
};
using A = Sec<21, 3, 1>;
using B = Sec<22, 40, 8>;
using C = Sec<23, 5, 2>;
using D = Sec<24, 12, 4>;
using E = Sec<25, 16, 16>;
using F = Sec<26, 1, 1>;
using OF = OutputFile<A, B, C, D, E, F>;
extern "C" {
void w_odd(OF *o, std::filesystem::path const &f) { new (o) OF{f}; }
void w_odd_end(OF *o) { o->~OF(); }
#define X(T) void *w_odd_##T(OF *o) { return &o->section<T>(); }
X(A) X(B) X(C) X(D) X(E) X(F)
}
