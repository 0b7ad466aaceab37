// Entry points over the public UTF-8 / UTF-16 encoding and decoding API.
#include <libunicode/convert.h>
#include <libunicode/utf8.h>
using namespace unicode;
extern "C" {
// encoders: number of units written, units in out
unsigned probe_to_utf8(char32_t c, char32_t* out) { uint8_t b[4]; unsigned const n = to_utf8(c, b); for (unsigned i = 0; i < n; ++i) out[i] = b[i]; return n; }
unsigned probe_enc8(char32_t c, char32_t* out) { char b[4]; unsigned const n = unsigned(encoder<char> {}(c, b) - b); for (unsigned i = 0; i < n; ++i) out[i] = uint8_t(b[i]); return n; }
unsigned probe_enc16(char32_t c, char32_t* out) { char16_t b[2]; unsigned const n = unsigned(encoder<char16_t> {}(c, b) - b); for (unsigned i = 0; i < n; ++i) out[i] = b[i]; return n; }
unsigned probe_enc32(char32_t c, char32_t* out) { return unsigned(encoder<char32_t> {}(c, out) - out); }
unsigned probe_encw(char32_t c, char32_t* out) { wchar_t b[2]; unsigned const n = unsigned(encoder<wchar_t> {}(c, b) - b); for (unsigned i = 0; i < n; ++i) out[i] = char32_t(b[i]); return n; }
// pull decoders: 1 and the value, or 0; *used = units consumed
unsigned probe_dec8(char const* p, char32_t* v, unsigned long* used) { auto i = p; auto const r = decoder<char> {}(i); *used = (unsigned long)(i - p); if (!r.has_value()) return 0; *v = *r; return 1; }
unsigned probe_dec16(char16_t const* p, char32_t* v, unsigned long* used) { auto i = p; auto const r = decoder<char16_t> {}(i); *used = (unsigned long)(i - p); if (!r.has_value()) return 0; *v = *r; return 1; }
unsigned probe_dec32(char32_t const* p, char32_t* v, unsigned long* used) { auto i = p; auto const r = decoder<char32_t> {}(i); *used = (unsigned long)(i - p); if (!r.has_value()) return 0; *v = *r; return 1; }
unsigned probe_decw(wchar_t const* p, char32_t* v, unsigned long* used) { auto i = p; auto const r = decoder<wchar_t> {}(i); *used = (unsigned long)(i - p); if (!r.has_value()) return 0; *v = *r; return 1; }
// push decoders: 0 incomplete or nothing, 1 value, 2 invalid
unsigned probe_push8(uint8_t b, char32_t* v, decoder<char>* d) { auto const r = (*d)(b); if (!r.has_value()) return 0; *v = *r; return 1; }
void probe_push8_init(decoder<char>* d) { *d = {}; }
unsigned long probe_push8_size() { return sizeof(decoder<char>); }
unsigned probe_from8(uint8_t b, char32_t* v, utf8_decoder_state* s)
{
    auto const r = from_utf8(*s, b);
    if (std::holds_alternative<Incomplete>(r)) return 0;
    if (std::holds_alternative<Invalid>(r)) return 2;
    *v = std::get<Success>(r).value;
    return 1;
}
void probe_from8_init(utf8_decoder_state* s) { *s = {}; }
unsigned long probe_from8_size() { return sizeof(utf8_decoder_state); }
unsigned probe_from8i(uint8_t b, char32_t* v, utf8_decoder_state* s) { auto const r = from_utf8i(*s, b); if (r == unsigned(-1)) return 0; if (r == unsigned(-2)) return 2; *v = r; return 1; }
unsigned probe_from8p(char const* p, char32_t* v, unsigned long* used)
{
    size_t n = 0;
    auto const r = from_utf8(p, &n);
    *used = n;
    if (!std::holds_alternative<Success>(r)) return 0;
    *v = std::get<Success>(r).value;
    return 1;
}
}
