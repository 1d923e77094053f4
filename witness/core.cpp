// Typed entry points over the trace file, its sections and the tracing object; analysed, never run.
#include "taintdag/polytracker.h"
#include "taintdag/labeldeq.h"
using namespace taintdag;
#ifndef W_OF
#define W_OF output_file_
#endif
#ifndef W_READ
#define W_READ stream_read_offsets_
#endif
#ifndef W_WRITE
#define W_WRITE stream_write_offsets_
#endif
using OF = decltype(PolyTracker::W_OF);
// the bitmap section of the trace file, whatever it is called
template <typename> struct is_bitmap : std::false_type {};
template <uint8_t Tag, auto N, typename B> struct is_bitmap<BitmapSectionBase<Tag, N, B>> : std::true_type {};
template <typename... S> struct first_bitmap;
template <typename F, typename... R> struct first_bitmap<F, R...> : std::conditional_t<is_bitmap<F>::value, std::type_identity<F>, first_bitmap<R...>> {};
template <typename> struct bitmap_of;
template <typename... S> struct bitmap_of<OutputFile<S...>> : first_bitmap<S...> {};
using SourceIndexBits = bitmap_of<OF>::type;
#define SECTIONS(X) X(Sources) X(Labels) X(StringTable) X(TaintSink) X(SourceIndexBits) X(Functions) X(Events) X(ControlFlowLog)
extern "C" {
// ---- where each section lives inside the tracing object, and what it reports as used
#define X(T) void *w_at_##T(PolyTracker *p) { return &p->W_OF.section<T>(); } size_t w_size_##T(T *s) { return s->size(); } \
  extern const size_t w_alloc_##T = T::allocation_size, w_align_##T = T::align_of, w_tag_##T = T::tag;
SECTIONS(X)
#undef X
void *w_at_read_offsets(PolyTracker *p) { return &p->W_READ; }
void *w_at_write_offsets(PolyTracker *p) { return &p->W_WRITE; }
extern const size_t w_sizeof_offsets = sizeof(PolyTracker::W_READ);
// ---- reservations
struct SB : SectionBase { using SectionBase::write; using SectionBase::offset; using SectionBase::SectionBase; };
void w_holding(uint8_t *p, size_t n);
void w_refused();
void w_write(SB *s, size_t n) { if (auto c = s->write(n)) w_holding(c->mem.data(), c->mem.size()); else w_refused(); }
size_t w_size(SB *s) { return s->size(); }
}
extern "C" {
// ---- how a source taint looks in memory when it is handed to encode()
void w_src_taint(Taint *t, uint8_t idx, uint64_t off, bool cf) { new (t) Taint{SourceTaint{idx, (source_offset_t)off, cf}}; }
// ---- lookups and strings
uint64_t w_mapping_idx(Sources *s, int fd) { if (auto i = s->mapping_idx(fd)) return 0x100 | *i; return 0; }
uint64_t w_add_string(StringTable *s, char const *p, size_t n) { if (auto o = s->add_string({p, n})) return (1ull << 32) | *o; return 0; }
}
extern "C" {
void w_sizeof(size_t n);
void w_sink_entry(SinkLogEntry *e, uint64_t off, label_t lbl, uint8_t sink) { e->offset = off; e->label = lbl; e->sink = sink; w_sizeof(sizeof *e); }
void w_source_entry(SourceEntry *e, uint32_t name, int fd, uint64_t size) { e->string_offset = name; e->fd = fd; e->size = size; w_sizeof(sizeof *e); }
}
extern "C" {
void w_section(SB *s, uint8_t *b, size_t n) { new (s) SB{SectionBase::span_t{b, n}}; }
size_t w_offset(SB *s, uint8_t const *p) { return s->offset(p); }
}
extern "C" {
// ---- how an event looks in memory
void w_event_entry(Event *e, Functions::index_t i) { new (e) Event{Event::kind_t::entry, i}; w_sizeof(sizeof *e); }
void w_event_exit(Event *e, Functions::index_t i) { new (e) Event{Event::kind_t::exit, i}; w_sizeof(sizeof *e); }
void w_function(Function *f, StringTable::offset_t o) { new (f) Function{o}; w_sizeof(sizeof *f); }
}
extern "C" {
// ---- reading strings back
void w_string(char const *p, size_t n);
void w_from_offset(StringTable const *s, StringTable::offset_t o) { auto v = s->from_offset(o); w_string(v.data(), v.size()); }
void w_iter_get(StringTable::iterator *i) { auto v = **i; w_string(v.data(), v.size()); }
void w_iter_next(StringTable::iterator *i) { ++*i; }
void w_iter_post(StringTable::iterator *i) { (*i)++; }
void w_iter_at(uint8_t *p);
void w_table_begin(StringTable const *s) { auto i = s->begin(); w_iter_at((uint8_t *)*reinterpret_cast<void **>(&i)); }
void w_table_end(StringTable const *s) { auto i = s->end(); w_iter_at((uint8_t *)*reinterpret_cast<void **>(&i)); }
}
extern "C" {
// ---- positions
void w_pos_known(uint64_t v);
void w_pos_unknown();
void w_pos(util::Offset o) { if (o.valid()) w_pos_known(*o.value()); else w_pos_unknown(); }
void w_pos_off_t(off_t v) { w_pos(util::Offset::from_off_t(v)); }
void w_pos_fd(int fd) { w_pos(util::Offset::from_fd(fd)); }
void w_pos_file(FILE *f) { w_pos(util::Offset::from_file(f)); }
void w_pos_none() { w_pos(util::Offset{}); }
extern const uint64_t w_max_source_offset = max_source_offset;
}
extern "C" {
// ---- what the record fields are
#define SG(N, T, F) extern const size_t w_signed_##N = std::is_signed_v<decltype(T::F)>;
SG(src_name, SourceEntry, string_offset) SG(src_fd, SourceEntry, fd) SG(src_size, SourceEntry, size)
SG(snk_off, SinkLogEntry, offset) SG(snk_lbl, SinkLogEntry, label) SG(snk_idx, SinkLogEntry, sink) SG(ev_fn, Event, function)
extern const uint64_t w_invalid_size = SourceEntry::InvalidSize, w_invalid_fd = (uint32_t)SourceEntry::InvalidFD;
}
template <Section... S> constexpr size_t count_sections(OutputFile<S...> *) { return sizeof...(S); }
extern "C" { extern const size_t w_section_count = count_sections((OF *)nullptr); }
extern "C" {
// ---- the input-label bitmap
bool w_bit_is_set(SourceIndexBits *s, size_t n) { return s->is_set(n); }
}
extern "C" {
bool w_bit_set(SourceIndexBits *s, size_t n) { return s->set(n); }
void w_bit_range(SourceIndexBits *s, size_t b, size_t n) { s->set_range(b, n); }
}
extern "C" {
// ---- how taints and union results look in memory
void w_tnt_union(Taint *t, label_t a, label_t b) { new (t) Taint{UnionTaint{a, b}}; }
void w_tnt_range(Taint *t, label_t a, label_t b) { new (t) Taint{RangeTaint{a, b}}; }
void w_tnt_source(Taint *t, uint8_t i, uint64_t o) { new (t) Taint{SourceTaint{i, (source_offset_t)o}}; }
using UnionResult = decltype(union_::compute(label_t{}, std::declval<Taint>(), label_t{}, std::declval<Taint>()));
void w_res_label(UnionResult *r, label_t l) { new (r) UnionResult{l}; }
void w_res_taint(UnionResult *r, label_t a, label_t b) { new (r) UnionResult{Taint{RangeTaint{a, b}}}; }
}
extern "C" {
// ---- the queue used while marking
using MarkQueue = utils::LabelDeq<32>;
void w_q_new(MarkQueue *q) { new (q) MarkQueue; }
void w_q_push(MarkQueue *q, label_t l) { q->push_back(l); }
label_t w_q_pop(MarkQueue *q) { return q->pop_front(); }
bool w_q_empty(MarkQueue const *q) { return q->empty(); }
void w_q_del(MarkQueue *q) { q->~MarkQueue(); }
extern const size_t w_sizeof_q = sizeof(MarkQueue);
}
extern "C" {
// ---- how many entries a section can hold, and how many its numbers can tell apart
#define CAP(N, T, E, I) extern const uint64_t w_cap_##N = T::allocation_size / sizeof(E), w_ids_##N = (uint64_t)(I) + 1;
CAP(Sources, Sources, SourceEntry, std::numeric_limits<decltype(std::declval<Sources &>().add_source(""))::value_type>::max())
CAP(Functions, Functions, Function, std::numeric_limits<decltype(std::declval<Functions &>().add_mapping(""))::value_type>::max())
CAP(Labels, Labels, storage_t, max_label)
CAP(StringTable, StringTable, char, std::numeric_limits<StringTable::offset_t>::max())
}
