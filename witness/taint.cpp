// Typed entry points over the taint encoding and the union computation; analysed, never run.
#include "taintdag/encoding.h"
#include "taintdag/union.h"
using namespace taintdag;
typedef unsigned _BitInt(31) u31;
typedef unsigned _BitInt(54) u54;
struct Out { int kind; uint64_t a, b; bool cf; };
static inline void put(Out *o, Taint const &t) {
  if (auto s = std::get_if<SourceTaint>(&t)) { o->kind = 1; o->a = s->index; o->b = (uint64_t)s->offset; o->cf = s->affects_control_flow; }
  else if (auto r = std::get_if<RangeTaint>(&t)) { o->kind = 2; o->a = r->first; o->b = r->last; o->cf = r->affects_control_flow; }
  else { auto &u = std::get<UnionTaint>(t); o->kind = 3; o->a = u.lower; o->b = u.higher; o->cf = u.affects_control_flow; }
}
extern "C" {
// ---- encodings of each kind
uint64_t w_enc_source(uint8_t idx, u54 off, bool cf) { return encode(Taint{SourceTaint{idx, (source_offset_t)off, cf}}); }
uint64_t w_enc_range(u31 first, u31 last, bool cf) { if (!(first < last)) __builtin_unreachable(); return encode(Taint{RangeTaint{(label_t)first, (label_t)last, cf}}); }
uint64_t w_enc_ordered(u31 lower, u31 higher, bool cf) { if (!(lower < higher)) __builtin_unreachable(); return encode(Taint{UnionTaint{(label_t)lower, (label_t)higher, cf}}); }
uint64_t w_enc_union(u31 a, u31 b, bool cf) { if (a == b) __builtin_unreachable(); return encode(Taint{UnionTaint{(label_t)a, (label_t)b, cf}}); }
// ---- round trips
void w_rt_source(Out *o, uint8_t idx, u54 off, bool cf) { put(o, decode(encode(Taint{SourceTaint{idx, (source_offset_t)off, cf}}))); }
void w_rt_range(Out *o, u31 first, u31 last, bool cf) { if (!(first < last)) __builtin_unreachable(); put(o, decode(encode(Taint{RangeTaint{(label_t)first, (label_t)last, cf}}))); }
void w_rt_union(Out *o, u31 lower, u31 higher, bool cf) { if (!(lower < higher)) __builtin_unreachable(); put(o, decode(encode(Taint{UnionTaint{(label_t)lower, (label_t)higher, cf}}))); }
void w_rt_union_swapped(Out *o, u31 lower, u31 higher, bool cf) { if (!(lower < higher)) __builtin_unreachable(); put(o, decode(encode(Taint{UnionTaint{(label_t)higher, (label_t)lower, cf}}))); }
// ---- queries on stored values
bool w_is_source(uint64_t e) { return is_source_taint(e); }
bool w_check_cf(uint64_t e) { return check_affects_control_flow(e); }
uint64_t w_add_cf(uint64_t e) { return add_affects_control_flow(e); }
// ---- unions of every pair of operand kinds
static inline void res(Out *o, union_::ReturnValue const &v) {
  if (auto l = std::get_if<label_t>(&v)) { o->kind = 0; o->a = *l; o->b = 0; o->cf = false; } else put(o, std::get<Taint>(v));
}
#define S(n) Taint{SourceTaint{n##i, (source_offset_t)n##o, n##c}}
#define R(n) Taint{RangeTaint{n##f, n##l, n##c}}
#define U(n) Taint{UnionTaint{n##f, n##l, n##c}}
#define PS(n) label_t n, uint8_t n##i, uint64_t n##o, bool n##c
#define PR(n) label_t n, label_t n##f, label_t n##l, bool n##c
#define PU(n) label_t n, label_t n##f, label_t n##l, bool n##c
#define W(A, B) void w_union_##A##B(Out *o, P##A(x), P##B(y)) { res(o, union_::compute(x, A(x), y, B(y))); }
W(S, S) W(S, R) W(S, U) W(R, S) W(R, R) W(R, U) W(U, S) W(U, R) W(U, U)
}
extern "C" {
// ---- queries and marking on each stored kind
#define ENC_S encode(Taint{SourceTaint{idx, (source_offset_t)off, cf}})
#define ENC_R encode(Taint{RangeTaint{(label_t)f, (label_t)l, cf}})
#define ENC_U encode(Taint{UnionTaint{(label_t)f, (label_t)l, cf}})
#define AR if (!(f < l)) __builtin_unreachable();
bool w_q_src_S(uint8_t idx, u54 off, bool cf) { return is_source_taint(ENC_S); }
bool w_q_src_R(u31 f, u31 l, bool cf) { AR return is_source_taint(ENC_R); }
bool w_q_src_U(u31 f, u31 l, bool cf) { AR return is_source_taint(ENC_U); }
bool w_q_cf_S(uint8_t idx, u54 off, bool cf) { return check_affects_control_flow(ENC_S); }
bool w_q_cf_R(u31 f, u31 l, bool cf) { AR return check_affects_control_flow(ENC_R); }
bool w_q_cf_U(u31 f, u31 l, bool cf) { AR return check_affects_control_flow(ENC_U); }
void w_mark_S(Out *o, uint8_t idx, u54 off, bool cf) { put(o, decode(add_affects_control_flow(ENC_S))); }
void w_mark_R(Out *o, u31 f, u31 l, bool cf) { AR put(o, decode(add_affects_control_flow(ENC_R))); }
void w_mark_U(Out *o, u31 f, u31 l, bool cf) { AR put(o, decode(add_affects_control_flow(ENC_U))); }
}
