// Entry points over the public segmentation API; the sink_* functions are observation points (never defined).
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/word_segmenter.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/run_segmenter.h>
using namespace unicode;
extern "C" {
void probe_g_init(char32_t c, grapheme_segmenter_state* s) { grapheme_process_init(c, *s); }
bool probe_g_step(char32_t c, grapheme_segmenter_state* s) { return grapheme_process_breakable(c, *s); }
unsigned long probe_g_size() { return sizeof(grapheme_segmenter_state); }
}

extern "C" {
void sink_cluster(char32_t const* data, unsigned long n);
void sink_more(int more);
void sink_end();
}

static inline __attribute__((always_inline)) void sizes(grapheme_segmenter const&) {}
static inline __attribute__((always_inline)) void sizes(word_segmenter const& seg)
{
    if (seg.size() != (*seg).size()) sink_more(5);
    if (seg.empty() != ((*seg).size() == 0)) sink_more(6);
}

// the walk every user of a segmenter performs
template <typename Seg>
static inline __attribute__((always_inline)) void walk(Seg seg)
{
    auto c = *seg;
    sink_cluster(c.data(), c.size());
    sizes(seg);
    while (seg.codepointsAvailable())
    {
        if (!static_cast<bool>(seg)) sink_more(0);
        Seg& r = ++seg;
        if (&r != &seg) sink_more(1);
        c = *seg;
        sink_cluster(c.data(), c.size());
        sizes(seg);
    }
    if (static_cast<bool>(seg)) sink_more(2);
    sink_end();
    // advancing at the end stays there
    ++seg;
    if (seg.codepointsAvailable()) sink_more(3);
    if (!(*seg).empty()) sink_more(4);
}

extern "C" {
void probe_walk_g2(char32_t const* b, char32_t const* e) { walk(grapheme_segmenter(b, e)); }
void probe_walk_g1(char32_t const* b, char32_t const* e) { walk(grapheme_segmenter(std::u32string_view(b, static_cast<std::size_t>(e - b)))); }
void probe_walk_g0(char32_t const*, char32_t const*) { walk(grapheme_segmenter()); }
void probe_walk_w2(char32_t const* b, char32_t const* e) { walk(word_segmenter(b, e)); }
void probe_walk_w1(char32_t const* b, char32_t const* e) { walk(word_segmenter(std::u32string_view(b, static_cast<std::size_t>(e - b)))); }
void probe_walk_w0(char32_t const*, char32_t const*) { walk(word_segmenter()); }
// UTF-8 form
void sink_value(std::u32string const* v);
ConvertResult probe_r_success(char32_t c) { return Success { c }; }
ConvertResult probe_r_incomplete() { return Incomplete {}; }
ConvertResult probe_r_invalid() { return Invalid {}; }
unsigned long probe_u8_state_size() { return sizeof(utf8_decoder_state); }
}
static inline __attribute__((always_inline)) void finish(utf8_grapheme_segmenter const& text, utf8_grapheme_segmenter::iterator& i)
{
    sink_end();
    // advancing at the end stays there
    utf8_grapheme_segmenter::iterator& r = ++i;
    if (&r != &i) sink_more(10);
    if (i != text.end()) sink_more(11);
    if (!(*i).empty()) sink_more(12);
}
extern "C" {
void probe_walk_u8(char const* b, unsigned long n)
{
    auto const text = utf8_grapheme_segmenter(std::string_view(b, n));
    auto i = text.begin();
    for (; i != text.end(); ++i)
    {
        if (i == text.end()) sink_more(13);
        if (&*i != &i.value()) sink_more(14);
        sink_value(&*i);
    }
    finish(text, i);
}
void probe_walk_u8c(char const* b, unsigned long n)
{
    auto const text = utf8_grapheme_segmenter(std::string_view(b, n));
    auto i = text.begin();
    while (i != text.end())
    {
        sink_value(&*i);
        auto j = i;
        ++j;
        i = j;
    }
    finish(text, i);
}
void probe_walk_u8p(char const* b, unsigned long n)
{
    auto const text = utf8_grapheme_segmenter(std::string_view(b, n));
    auto i = text.begin();
    while (i != text.end())
    {
        auto const j = i++;
        sink_value(&*j);
    }
    finish(text, i);
}
}

extern "C" {
void probe_w_init(char32_t c, word_segmenter_state* s) { word_process_init(c, *s); }
bool probe_w_step(char32_t c, char32_t const* rest, unsigned long n, word_segmenter_state* s) { return word_process_breakable(c, rest, n, *s); }
unsigned long probe_w_size() { return sizeof(word_segmenter_state); }
}

// runs of the same presentation style
#include <cstddef>
extern "C" {
void sink_run(unsigned long begin, unsigned long end, unsigned long size, bool emoji, bool isEmoji, bool isText, char32_t const* data, unsigned long length);
unsigned long probe_esc_offset() { return offsetof(codepoint_properties, emoji_segmentation_category); }
}
static inline __attribute__((always_inline)) void runs(emoji_segmenter s, PresentationStyle style)
{
    std::size_t size = ~0ul;
    while (s.consume(out(size), out(style)))
    {
        auto const text = s.substr();
        sink_run(s.currentCursorBegin(), s.currentCursorEnd(), size, style == PresentationStyle::Emoji, s.isEmoji(), s.isText(), text.data(), text.size());
    }
    sink_end();
    if (s.consume(out(size), out(style))) sink_more(0);
}
extern "C" {
void probe_runs_2(char32_t const* b, unsigned long n, PresentationStyle style) { runs(emoji_segmenter(b, n), style); }
void probe_runs_1(char32_t const* b, unsigned long n, PresentationStyle style) { runs(emoji_segmenter(std::u32string_view(b, n)), style); }
void probe_runs_0(char32_t const*, unsigned long, PresentationStyle style) { runs(emoji_segmenter(), style); }
}

// runs of one script
#include <optional>
#include <span>
extern "C" {
void sink_script_run(unsigned long size, Script script);
void probe_scx_put(std::optional<std::span<Script const>>* o, Script const* p, unsigned long n) { *o = std::span<Script const>(p, n); }
void probe_scx_none(std::optional<std::span<Script const>>* o) { *o = std::nullopt; }
void probe_ss_init(script_segmenter* s, char32_t const* b, unsigned long n) { new (s) script_segmenter(b, n); }
}
static inline __attribute__((always_inline)) void scripts(script_segmenter s, Script script)
{
    std::size_t size = ~0ul;
    auto const none = script;
    while (s.consume(out(size), out(script)))
    {
        sink_script_run(size, script);
        size = ~0ul;
        script = none;
    }
    sink_end();
    if (s.consume(out(size), out(script))) sink_more(0);
}
extern "C" {
void probe_scripts_2(char32_t const* b, unsigned long n, Script v) { scripts(script_segmenter(b, n), v); }
void probe_scripts_1(char32_t const* b, unsigned long n, Script v) { scripts(script_segmenter(std::u32string_view(b, n)), v); }
void probe_scripts_0(char32_t const*, unsigned long, Script v) { scripts(script_segmenter(), v); }
void probe_scripts_opt(char32_t const* b, unsigned long n, Script)
{
    auto s = script_segmenter(b, n);
    while (auto const r = s.consume()) sink_script_run(r->size, r->script);
    sink_end();
    if (s.consume()) sink_more(0);
}
}

// runs of all properties together
extern "C" void sink_range(unsigned long start, unsigned long end, Script script, PresentationStyle style);
static inline __attribute__((always_inline)) void ranges(run_segmenter s)
{
    auto r = run_segmenter::range {};
    while (s.consume(out(r)))
    {
        sink_range(r.start, r.end, std::get<0>(r.properties), std::get<1>(r.properties));
        r = run_segmenter::range { ~0ul, ~0ul, {} };
    }
    sink_end();
    if (!s.finished()) sink_more(1);
    if (s.consume(out(r))) sink_more(0);
}
extern "C" {
void probe_ranges_2(char32_t const* b, unsigned long n) { ranges(run_segmenter(b, n)); }
void probe_ranges_1(char32_t const* b, unsigned long n) { ranges(run_segmenter(std::u32string_view(b, n))); }
}
