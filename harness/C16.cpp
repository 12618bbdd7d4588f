// what an octet is in UTF-8, and how many octets a value takes
#include "text.hpp"
#include <u5e/utf8_util.hpp>
using namespace u5e;
extern "C" void harness() {
  if (sym_choice("what", 2)) { uint32_t v = sym_u("value", 32); sym_assume(v <= 0x7fffffff); sym_observe("size", utf8_util::encoded_size((int)v)); sym_assert(utf8_util::encoded_size((int)v) == ref_len(v), "number of octets of a value"); sym_reach("length"); return; }
  oct o = (oct)sym_u("octet", 8); char c = (char)o; bool plain = utf8_util::is_7bit_character(c), cont = utf8_util::is_codepoint_continuation(c), start = utf8_util::is_codepoint_start(c);
  sym_assert(plain == (o < 0x80), "octet that stands for itself"); sym_assert(cont == (o >= 0x80 && o < 0xc0), "continuation octet"); sym_assert(start == (o >= 0xc0), "lead octet");
  if (o < 0xfe) { int n = o < 0xc0 ? 1 : o < 0xe0 ? 2 : o < 0xf0 ? 3 : o < 0xf8 ? 4 : o < 0xfc ? 5 : 6; sym_assert(utf8_util::codepoint_size(c) == n, "number of octets of a sequence"); }
  sym_reach(plain ? "plain" : cont ? "continuation" : "start");
}
