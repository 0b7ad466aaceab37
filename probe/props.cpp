// Thin entry points over the public per-code-point API, so that the analysis does not depend on where the
// library keeps the data or how a query is spelled inside.
#include <libunicode/codepoint_properties.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_enums.h>
#include <libunicode/width.h>
using namespace unicode;
// keep the enumerations in the debug information
Script e_Script; Grapheme_Cluster_Break e_gcb; East_Asian_Width e_eaw2; General_Category e_gc; EmojiSegmentationCategory e_esc;
Age e_age; Indic_Conjunct_Break e_incb; Word_Break e_wb; Block e_block; Plane e_plane; Core_Property e_core; EastAsianWidth e_eaw;
#define PF(n, x) extern "C" unsigned probe_##n(char32_t c) { return static_cast<unsigned>(x); }
PF(p_width, codepoint_properties::get(c).char_width)
PF(p_script, codepoint_properties::get(c).script)
PF(p_gcb, codepoint_properties::get(c).grapheme_cluster_break)
PF(p_eaw, codepoint_properties::get(c).east_asian_width)
PF(p_gc, codepoint_properties::get(c).general_category)
PF(p_esc, codepoint_properties::get(c).emoji_segmentation_category)
PF(p_age, codepoint_properties::get(c).age)
PF(p_incb, codepoint_properties::get(c).indic_conjunct_break)
PF(p_wb, codepoint_properties::get(c).word_break)
PF(p_is_emoji, codepoint_properties::get(c).is_emoji())
PF(p_is_emoji_presentation, codepoint_properties::get(c).is_emoji_presentation())
PF(p_is_emoji_component, codepoint_properties::get(c).is_emoji_component())
PF(p_is_emoji_modifier, codepoint_properties::get(c).is_emoji_modifier())
PF(p_is_emoji_modifier_base, codepoint_properties::get(c).is_emoji_modifier_base())
PF(p_is_extended_pictographic, codepoint_properties::get(c).is_extended_pictographic())
PF(p_is_core_grapheme_extend, codepoint_properties::get(c).is_core_grapheme_extend())
PF(p_is_virama, codepoint_properties::get(c).is_virama())
PF(p_is_emoji_variation_base, codepoint_properties::get(c).is_emoji_variation_base())
PF(u_plane, plane(c))
PF(u_gc, general_category::get(c))
PF(u_script, script(c))
PF(u_block, block(c))
PF(u_gcb, grapheme_cluster_break(c))
PF(u_eaw, east_asian_width(c))
PF(u_is_emoji, is_emoji(c))
PF(u_is_emoji_component, is_emoji_component(c))
PF(u_is_emoji_modifier, is_emoji_modifier(c))
PF(u_is_emoji_modifier_base, is_emoji_modifier_base(c))
PF(u_is_emoji_presentation, is_emoji_presentation(c))
PF(u_is_extended_pictographic, is_extended_pictographic(c))
PF(u_is_mirrored, is_mirrored(c))
PF(u_mirror_glyph, bidi_mirroring_glyph(c))
PF(width, width(c))
#define PC(n) PF(core_##n, contains(Core_Property::n, c))
PC(Alphabetic) PC(Case_Ignorable) PC(Cased) PC(Changes_When_Casefolded) PC(Changes_When_Casemapped) PC(Changes_When_Lowercased)
PC(Changes_When_Titlecased) PC(Changes_When_Uppercased) PC(Default_Ignorable_Code_Point) PC(Grapheme_Base) PC(Grapheme_Extend)
PC(Grapheme_Link) PC(ID_Continue) PC(ID_Start) PC(Lowercase) PC(Math) PC(Uppercase) PC(XID_Continue) PC(XID_Start)
#define PG(n) PF(gc_##n, contains(General_Category::n, c))
PG(Close_Punctuation) PG(Connector_Punctuation) PG(Control) PG(Currency_Symbol) PG(Dash_Punctuation) PG(Decimal_Number)
PG(Enclosing_Mark) PG(Final_Punctuation) PG(Format) PG(Initial_Punctuation) PG(Letter_Number) PG(Line_Separator)
PG(Lowercase_Letter) PG(Math_Symbol) PG(Modifier_Letter) PG(Modifier_Symbol) PG(Nonspacing_Mark) PG(Open_Punctuation)
PG(Other_Letter) PG(Other_Number) PG(Other_Punctuation) PG(Other_Symbol) PG(Paragraph_Separator) PG(Private_Use)
PG(Space_Separator) PG(Spacing_Mark) PG(Surrogate) PG(Titlecase_Letter) PG(Unassigned) PG(Uppercase_Letter)
// offset of the name entry within the value stage
extern "C" std::string_view const* probe_name_entry(char32_t c) { return &codepoint_properties::configured_names.get(c); }
extern "C" bool probe_scx_has(char32_t c) { return script_extensions(c).has_value(); }
extern "C" Script const* probe_scx_data(char32_t c) { auto s = script_extensions(c); return s ? s->data() : nullptr; }
extern "C" size_t probe_scx_size(char32_t c) { auto s = script_extensions(c); return s ? s->size() : 0; }
