// Drives the cluster width accumulator: start, one code point, measured width.
#include <libunicode/width.h>
#include <new>
using acc = unicode::grapheme_cluster_width_accumulator;
extern "C" {
unsigned long probe_acc_size() { return sizeof(acc); }
void probe_acc_init(void* p) { new (p) acc {}; }
void probe_acc_reset(acc* p) { p->reset(); }
void probe_acc_push(char32_t c, acc* p) { p->push(c); }
unsigned probe_acc_width(acc const* p) { return p->width(); }
unsigned probe_cluster_width(char32_t const* s, unsigned long n) { return unicode::grapheme_cluster_width(std::u32string_view(s, n)); }
}
