// Makes the textual form of every public enumeration part of the analysed program.
#include <libunicode/emoji_segmenter.h>
#include <libunicode/ucd_fmt.h>
#include <libunicode/ucd_ostream.h>
#include <format>
#include <ostream>
using namespace unicode;
#define OS(T) extern "C" std::ostream& probe_os_##T(std::ostream& os, T v) { return os << v; }
#define FMT(T) extern "C" void probe_fmt_##T(std::formatter<T> const& f, T v, std::format_context& c) { (void) f.format(v, c); }
#define BOTH(T) OS(T) FMT(T)
BOTH(Plane) BOTH(Age) BOTH(Bidi_Class) BOTH(Bidi_Paired_Bracket_Type) BOTH(Canonical_Combining_Class) BOTH(Decomposition_Type)
BOTH(East_Asian_Width) BOTH(Grapheme_Cluster_Break) BOTH(Hangul_Syllable_Type) BOTH(Indic_Conjunct_Break)
BOTH(Indic_Positional_Category) BOTH(Indic_Syllabic_Category) BOTH(Jamo_Short_Name) BOTH(Joining_Group) BOTH(Joining_Type)
BOTH(Line_Break) BOTH(NFC_Quick_Check) BOTH(NFKC_Quick_Check) BOTH(Numeric_Type) BOTH(Sentence_Break)
BOTH(Vertical_Orientation) BOTH(Word_Break) BOTH(Core_Property) BOTH(General_Category) BOTH(Script) BOTH(Block) BOTH(EastAsianWidth)
OS(PresentationStyle) OS(EmojiSegmentationCategory)
