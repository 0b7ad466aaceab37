// Entry points over the inline wrappers of the public normalization API.
#include <libunicode/normalization.h>
using namespace unicode;
#define W(n) \
    extern "C" std::u32string probe_to##n##32(char32_t const* p, unsigned long k) { return to_##n(std::u32string_view(p, k)); } \
    extern "C" std::string probe_to##n##8(char const* p, unsigned long k) { return to_##n(std::string_view(p, k)); } \
    extern "C" bool probe_is##n##32(char32_t const* p, unsigned long k) { return is_##n(std::u32string_view(p, k)); } \
    extern "C" bool probe_is##n##8(char const* p, unsigned long k) { return is_##n(std::string_view(p, k)); }
W(nfc) W(nfd) W(nfkc) W(nfkd)

// streaming
#include <new>
extern "C" unsigned long probe_norm_size() { return sizeof(normalizer); }
extern "C" void probe_norm_init(void* p, unsigned char f) { new (p) normalizer(static_cast<Normalization_Form>(f)); }
extern "C" unsigned long probe_u8norm_size() { return sizeof(utf8_normalizer); }
extern "C" void probe_u8norm_init(void* p, unsigned char f) { new (p) utf8_normalizer(static_cast<Normalization_Form>(f)); }
extern "C" unsigned long probe_u8state_size() { return sizeof(utf8_decoder_state); }
extern "C" ConvertResult probe_success(char32_t c) { return Success { c }; }
extern "C" ConvertResult probe_incomplete() { return Incomplete {}; }
extern "C" ConvertResult probe_invalid() { return Invalid {}; }
