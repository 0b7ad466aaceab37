// Building blocks for the analysis of the C API.
#include <optional>
extern "C" std::optional<char32_t> probe_opt_some(char32_t c) { return c; }
extern "C" std::optional<char32_t> probe_opt_none() { return std::nullopt; }
