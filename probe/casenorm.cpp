// Entry points over the public case mapping and normalization API.
#include <libunicode/case_mapping.h>
#include <libunicode/normalization.h>
using namespace unicode;
Decomposition_Type e_dt; NFC_Quick_Check e_nfcqc; NFKC_Quick_Check e_nfkcqc; Normalization_Form e_nf; Quick_Check_Result e_qcr;
#define PF(n, x) extern "C" unsigned probe_##n(char32_t c) { return static_cast<unsigned>(x); }
PF(s_upper, simple_uppercase(c))
PF(s_lower, simple_lowercase(c))
PF(s_title, simple_titlecase(c))
PF(s_fold, simple_casefold(c))
#define PM(n, f) extern "C" unsigned probe_##n(char32_t c, char32_t* out) { auto r = f(c); out[0] = r.codepoints[0]; out[1] = r.codepoints[1]; out[2] = r.codepoints[2]; return r.is_identity() ? 0 : unsigned(r.view().size()); }
PM(f_upper, full_uppercase)
PM(f_lower, full_lowercase)
PM(f_title, full_titlecase)
PM(f_fold, full_casefold)
PF(cw_upper, changes_when_uppercased(c))
PF(cw_lower, changes_when_lowercased(c))
PF(cw_title, changes_when_titlecased(c))
PF(cw_fold, changes_when_casefolded(c))
PF(is_cased, is_cased(c))
PF(is_case_ignorable, is_case_ignorable(c))
PF(ccc, canonical_combining_class(c))
PF(dt, decomposition_type(c))
PF(excl, is_composition_exclusion(c))
PF(fullexcl, is_full_composition_exclusion(c))
PF(nfc_qc, nfc_quick_check(c))
PF(nfd_qc, nfd_quick_check(c))
PF(nfkc_qc, nfkc_quick_check(c))
PF(nfkd_qc, nfkd_quick_check(c))
PF(h_syl, is_hangul_syllable(c))
PF(h_l, is_hangul_l_jamo(c))
PF(h_v, is_hangul_v_jamo(c))
PF(h_t, is_hangul_t_jamo(c))
extern "C" unsigned probe_h_dec(char32_t c, char32_t* out) { return unsigned(hangul_decompose(c, out)); }
extern "C" unsigned probe_h_comp(char32_t l, char32_t v, char32_t t) { return hangul_compose(l, v, t); }
#define PV(n, f) extern "C" unsigned probe_##n(char32_t c, char32_t* out) { auto v = f(c); unsigned n = 0; for (auto x: v) out[n++] = x; return n; }
PV(cd, canonical_decomposition)
PV(kd, compatibility_decomposition)
