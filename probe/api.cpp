// Instantiates the inline and template part of the public API, so that it is analysed too.
#include <libunicode/capi.h>
#include <libunicode/case_mapping.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>
using namespace unicode;
extern "C" {
bool probe_api_run(run_segmenter& r, run_segmenter::range& x) { return r.consume(out(x)); }
void probe_api_word(word_segmenter& w) { ++w; (void) *w; (void) w.codepointsAvailable(); (void) w.size(); (void) w.empty(); }
void probe_api_grapheme(grapheme_segmenter& w) { ++w; (void) *w; (void) w.codepointsAvailable(); }
void probe_api_grapheme8(utf8_grapheme_segmenter& s) { for (auto const& c: s) (void) c; }
bool probe_api_script(script_segmenter& s, size_t& n, Script& sc) { return s.consume(out(n), out(sc)); }
std::u32string_view probe_api_emoji(emoji_segmenter const& s) { return *s; }
bool probe_api_emoji_style(emoji_segmenter const& s) { return s.isText() || s.isEmoji(); }
scan_result probe_api_scan(scan_state& st, std::string_view t, size_t n) { return scan_text(st, t, n); }
}
template std::u32string unicode::convert_to<char32_t, char>(std::string_view);
template std::u16string unicode::convert_to<char16_t, char>(std::string_view);
template std::string unicode::convert_to<char, char32_t>(std::u32string_view);
template std::u16string unicode::convert_to<char16_t, char32_t>(std::u32string_view);
template std::u32string unicode::convert_to<char32_t, char16_t>(std::u16string_view);
template std::string unicode::convert_to<char, char16_t>(std::u16string_view);
template std::wstring unicode::convert_to<wchar_t, char>(std::string_view);
template std::wstring unicode::convert_to<wchar_t, char32_t>(std::u32string_view);
template std::string unicode::convert_to<char, wchar_t>(std::wstring_view);
template std::u32string unicode::convert_to<char32_t, wchar_t>(std::wstring_view);
template std::string unicode::convert_to<char, char>(std::string_view);
template std::u32string unicode::convert_to<char32_t, char32_t>(std::u32string_view);
template std::u32string unicode::from_utf8<char32_t>(std::string_view);
