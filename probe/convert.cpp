// Entry points over the bulk conversions between encodings.
#include <libunicode/convert.h>
using namespace unicode;
template <typename T, typename S> using conv = std::basic_string<T> (*)(std::basic_string_view<S>);
#define CONV(name, T, S) std::basic_string<T> probe_conv_##name(std::basic_string_view<S> in) { return convert_to<T>(in); }
#define COPY(name, T, S) void probe_copy_##name(std::basic_string_view<S> in, std::basic_string<T>& out) { convert_to<T>(in, std::back_inserter(out)); }
#define CHAR(name, T, S) std::basic_string<T> probe_char_##name(S in) { return convert_to<T>(in); }
extern "C" {
CONV(8_8, char, char) CONV(8_16, char16_t, char) CONV(8_32, char32_t, char) CONV(8_w, wchar_t, char)
CONV(16_8, char, char16_t) CONV(16_16, char16_t, char16_t) CONV(16_32, char32_t, char16_t) CONV(16_w, wchar_t, char16_t)
CONV(32_8, char, char32_t) CONV(32_16, char16_t, char32_t) CONV(32_32, char32_t, char32_t) CONV(32_w, wchar_t, char32_t)
CONV(w_8, char, wchar_t) CONV(w_16, char16_t, wchar_t) CONV(w_32, char32_t, wchar_t) CONV(w_w, wchar_t, wchar_t)
COPY(8_8, char, char) COPY(8_16, char16_t, char) COPY(8_32, char32_t, char) COPY(8_w, wchar_t, char)
CHAR(32_8, char, char32_t) CHAR(16_8, char, char16_t) CHAR(8_32, char32_t, char) CHAR(32_16, char16_t, char32_t)
std::optional<char32_t> probe_some(char32_t v) { return v; }
bool probe_has(std::optional<char32_t> o, char32_t* v) { if (!o) return false; *v = *o; return true; }
std::optional<char32_t> probe_none() { return std::nullopt; }
}
