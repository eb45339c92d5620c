// models of kanjiFormat and of one kanaConvert line, and their inputs
#pragma once
#include "h.h"
#include <kt_kana/Converter.h>
#include <optional>
namespace kt = kanji_tools;
static Str repeat_tok(const Strs& v, uint32_t n) { Str s; while (n--) s += pick(v); return s; }
static const Strs Kanji{"日", "本", "漢", "字", "読", "𠮟", "㵎", "渚", "⺀", "𪜀"}, Kana{"あ", "ん", "っ", "ア", "ー", "ヴ", "ㇱ"},
    Other{"a", "Z", "。", "、", "「", "」", "１", " ", "　", "（", "）", "々", "Ā", "ｱ", "〇", "😀", "é", "\t", "︎", "゙"};
inline Str format_line0() {
  switch (draw(8)) {
  case 0: return repeat_tok(Kana, range(1, 6)) + pick(Kanji);
  case 1: return repeat_tok(Kana, range(1, 4));
  case 2: return "";
  case 3: return repeat_tok(Kanji, range(1, 4));
  case 4: return repeat_tok(Other, range(1, 6));
  case 5: { Str s; for (uint32_t n = range(1, 12); n--;) s += draw(3) == 0 ? pick(Kanji) : draw(2) ? pick(Kana) : pick(Other); return s; }
  case 6: return pick(Kanji) + repeat_tok(Kana, range(1, 3));
  default: return repeat_tok(draw(2) ? Kana : Other, range(20, 200)) + (draw(2) ? pick(Kanji) : Str{});
  }
}
inline Str format_line() { // some plain lines end as they do on other systems, or hold a NUL; however such a line is looked at, it is neither kana nor ends with Kanji
  if (draw(16) == 15) {
    Str s = repeat_tok(Strs{"a", "Z", "。", "「", " ", "　", "é", "😀"}, range(1, 6));
    if (draw(3) == 0) s.insert(draw(2) ? 0 : s.size(), 1, '\0');
    else s += draw(4) ? "\r" : "\r\r";
    return s;
  }
  return format_line0();
}
inline Str format_model(const Str& text) {
  Strs lines;
  for (size_t i = 0; i < text.size();) {
    const auto e = std::min(text.find('\n', i), text.size());
    lines.push_back(text.substr(i, e - i));
    i = e + 1;
  }
  Str out, prev;
  bool held = false;
  for (auto& l : lines) {
    const auto c = cps(l);
    const bool kana = !c.empty() && std::all_of(c.begin(), c.end(), isKanaCp), kanji = !c.empty() && isKanjiRangeCp(c.back());
    if (held && kana) { out += prev + "（" + l + "）"; held = false; }
    else {
      if (held) out += prev + "\n";
      held = kanji;
      if (!held) out += l + "\n";
    }
    prev = l;
  }
  if (held) out += prev + "\n";
  return out;
}
static const Strs ConvTok{"a", "ka", "shi", "tsu", "kya", "n", "n'", "nn", "tta", "o", "ō", "rā", " ", "-", "'", ".", "!", "1", "A", "KA", "x", "q", "v",
    "あ", "か", "きゃ", "っ", "ん", "づ", "ー", "ゝ", "ア", "カ", "キャ", "ッ", "ン", "ヅ", "ヽ", "・", "漢", "字", "。", "　", "々", "😀", "é", "\t", "\r"};
struct Opt { std::optional<kt::CharType> src; kt::CharType tgt{kt::CharType::Hiragana}; int flags{}; };
inline bool typeArg(Opt& o, const Str& a) {
  if (a.size() != 2 || a[0] != '-') return false;
  switch (a[1]) {
  case 'h': o.tgt = kt::CharType::Hiragana; break;
  case 'k': o.tgt = kt::CharType::Katakana; break;
  case 'r': o.tgt = kt::CharType::Romaji; break;
  case 'H': o.src = kt::CharType::Hiragana; break;
  case 'K': o.src = kt::CharType::Katakana; break;
  case 'R': o.src = kt::CharType::Romaji; break;
  default: return false;
  }
  return true;
}
inline int flagBit(char c) { return c == 'h' ? 1 : c == 'k' ? 2 : c == 'n' ? 4 : c == 'r' ? 8 : 0; }
inline Str tname(kt::CharType t) { return t == kt::CharType::Hiragana ? "Hiragana" : t == kt::CharType::Katakana ? "Katakana" : "Romaji"; }
inline Str fname(int f) {
  Str s;
  const char* n[]{"Hepburn", "Kunrei", "NoProlongMark", "RemoveSpaces"};
  for (int i = 0; i < 4; ++i) if (f >> i & 1) { if (!s.empty()) s += '|'; s += n[i]; }
  return s.empty() ? "None" : s;
}
// a fresh converter for every line: the reference has no memory between lines
inline Str conv(const Opt& o, const Str& l) {
  kt::Converter c{o.tgt, (kt::ConvertFlags)o.flags};
  return o.src ? c.convert(*o.src, l) : c.convert(l);
}
