// C06, C07: prompts and the terminal they borrow.
#include "prompt.h"
#include <iostream>
#include <kt_kana/Choice.h>
#include <kt_utils/Exception.h>
#include <map>
#include <optional>
#include <sstream>
#include <termios.h>
namespace kt = kanji_tools;

// ---- one prompt, and what it must do ------------------------------------------------
static char call(const kt::Choice& c, const Ask& a) {
  const kt::Choice::Choices m(a.choices.begin(), a.choices.end());
  const kt::Choice::OptChar d = a.def ? kt::Choice::OptChar(*a.def) : kt::Choice::OptChar{};
  if (a.range) switch (a.form) {
    case 1: if (a.useQuit) return c.get(*a.range, a.msg, m, d); break;
    case 2: if (a.useQuit && !d) return c.get(*a.range, a.msg, m); break;
    case 3: if (a.useQuit && m.empty()) return d ? c.get(*a.range, a.msg, d) : c.get(*a.range, a.msg); break;
    }
  else switch (a.form) {
    case 1: if (a.useQuit) return c.get(a.msg, m, d); break;
    case 2: if (!d) return c.get(a.msg, a.useQuit, m); break;
    case 3: if (a.useQuit && !d) return c.get(a.msg, m); break;
    }
  return a.range ? c.get(*a.range, a.msg, a.useQuit, m, d) : c.get(a.msg, a.useQuit, m, d);
}
static Ask drawAsk(bool odd) {
  static const Strs Msg{"Pick", "", "  Select correct reading", "Mode", "(x)"};
  static const Strs Texts{"", "", "next", "review", "N5", "準２級", "a-b"};
  Ask a;
  a.msg = pick(Msg);
  const uint32_t kind = draw(4);
  if (kind == 0 || kind == 3) {
    const char lo = (char)(draw(2) ? '1' : draw(2) ? 'a' : 'A');
    a.range = {lo, (char)(lo + draw(9))};
    if (draw(20) == 19) a.range = {'0', 'z'};
    if (odd && draw(6) == 5) a.range = draw(2) ? std::pair<char, char>{'5', '3'} : std::pair<char, char>{'\x1f', 'a'};
    if (odd && draw(12) == 11) a.range = {'x', '~'};
  }
  if (kind) for (uint32_t n = range(1, 6); n--;) { const char c = (char)(odd && draw(12) == 11 ? (draw(2) ? 0x7f : 7) : draw(3) == 0 ? "-.,*'/"[draw(6)] : ' ' + (char)draw(95)); if (!odd && a.range && c >= a.range->first && c <= a.range->second) continue; a.choices[c] = pick(Texts); }
  a.useQuit = draw(4) != 3;
  a.form = (int)draw(4);
  if (draw(2)) {
    std::map<char, Str> all;
    Quit none;
    Ask b = a;
    if (offered(b, none, all).empty() && !all.empty()) { auto i = all.begin(); std::advance(i, draw((uint32_t)all.size())); a.def = i->first; }
    if (odd && draw(6) == 5) a.def = (char)('0' + draw(70));
  }
  return a;
}
static char drawKey(const std::map<char, Str>& all, bool good) {
  if (good && !all.empty()) { auto i = all.begin(); std::advance(i, draw((uint32_t)all.size())); return i->first; }
  switch (draw(8)) {
  case 0: case 1: return '\n';
  case 2: return (char)(1 + draw(255));
  case 3: return '\x1b';
  case 4: return "\xe3\x81\x82"[draw(3)];
  case 5: return ' ';
  case 6: return '\4';
  default: return (char)('!' + draw(94));
  }
}

static void run_C06() {
  enable_threads(false);
  set_step_limit(60'000'000);
  const bool tty = draw(3) != 2;
  const uint32_t np = range(1, 7);
  Quit q;
  std::vector<Ask> asks;
  std::vector<int> quitOps; // before each prompt: 0 none, 1 set, 2 clear
  const bool odd = draw(4) == 3;
  for (uint32_t i = 0; i < np; ++i) { asks.push_back(drawAsk(odd)); quitOps.push_back(draw(4) == 3 ? (int)range(1, 2) : i ? 0 : (int)draw(2)); }
  // the keys typed: for each prompt some junk and then (usually) a good key
  Str keys;
  std::vector<Quit> qs;
  for (uint32_t i = 0; i < np; ++i) {
    if (quitOps[i] == 1) q = {draw(3) ? '/' : (char)('!' + draw(94)), draw(3) ? Str("quit") : draw(2) ? Str("") : Str("終了")};
    if (quitOps[i] == 2) q.c = {};
    qs.push_back(q);
    std::map<char, Str> all;
    if (!offered(asks[i], q, all).empty()) continue;
    auto put = [&](bool good) {
      if (tty) keys += drawKey(all, good);
      else if (good) keys += draw(6) == 5 && asks[i].def ? Str("\n") : Str(1, drawKey(all, true)) + "\n";
      else { switch (draw(4)) { case 0: keys += "\n"; break; case 1: keys += Str(1, drawKey(all, true)) + drawKey(all, true) + "\n"; break; case 2: keys += "あ\n"; break; default: { char c = drawKey(all, false); keys += Str(1, c == '\n' ? 'x' : c) + "\n"; } } }
    };
    for (uint32_t n = draw(3) == 2 ? range(1, 5) : 0; n--;) { put(false); fired(F_TTY_JUNK); }
    put(true);
    if (draw(5) == 4) put(draw(2)); // typed ahead into the next prompt
  }
  if (draw(5) == 4) { keys.resize(draw((uint32_t)keys.size() + 1)); fired(F_STDIN_EOF); }
  if (!tty && draw(8) == 7 && !keys.empty() && keys.back() == '\n') keys.pop_back();
  // what must happen
  struct Done { char c; bool threw; };
  std::vector<Done> want;
  Str text;
  Strs prompts, promptOf(np);
  size_t at = 0;
  bool ended = false;
  for (uint32_t i = 0; i < np; ++i) {
    std::map<char, Str> all;
    if (!offered(asks[i], qs[i], all).empty()) { want.push_back({0, true}); probe("prompt refused"); continue; }
    const Str p = promptText(asks[i], all);
    prompts.push_back(p);
    promptOf[i] = p;
    for (;;) {
      text += p;
      if (tty) {
        if (at >= keys.size()) { ended = true; break; }
        const char c = keys[at++];
        text += '\n';
        if (c == '\n' && asks[i].def) { want.push_back({*asks[i].def, false}); probe("default taken"); break; }
        if (c != '\n' && all.count(c)) { want.push_back({c, false}); if (qs[i].c == c) probe("quit chosen"); break; }
      } else {
        if (at >= keys.size()) { ended = true; break; }
        size_t e = keys.find('\n', at);
        const Str l = keys.substr(at, e == Str::npos ? Str::npos : e - at);
        at = e == Str::npos ? keys.size() : e + 1;
        if (l.empty() && asks[i].def) { want.push_back({*asks[i].def, false}); probe("default taken"); break; }
        if (l.size() == 1 && all.count(l[0])) { want.push_back({l[0], false}); break; }
      }
      probe("prompt repeated");
    }
    if (ended) { want.push_back({0, true}); break; } // later prompts end the same way
  }
  // the world
  set_stdin(tty ? IN_TTY : IN_PIPE);
  set_stdout(draw(2) ? OUT_TTY : OUT_FILE);
  tty_init(tty_default());
  const bool intr = draw(3) == 2;
  if (intr) set_rate(tty ? F_TTY_EINTR : F_EINTR_READ, tty ? 12000 : 0);
  if (draw(3) == 2) set_rate(F_TCSET_EINTR, 12000);
  set_rate(F_STDIN_CHUNK, draw(2) ? 40000 : 0);
  auto pos = std::make_shared<size_t>(0);
  const uint32_t ahead = draw(3);
  std::vector<Done> got;
  static Str unseen;
  unseen.clear();
  set_user([=, &got](Str& k) {
    // whoever is asked for a key must have seen the prompt it answers
    if (const size_t i = got.size(); unseen.empty() && i < promptOf.size() && !promptOf[i].empty()) {
      const Str& o = screen().out;
      if (!o.ends_with(promptOf[i])) unseen = promptOf[i];
    }
    if (*pos >= keys.size()) return false;
    const size_t n = ahead == 0 ? 1 : std::min<size_t>(keys.size() - *pos, ahead == 1 ? range(1, 3) : keys.size());
    if (n > 1) fired(F_TTY_TYPEAHEAD);
    k = keys.substr(*pos, n);
    *pos += n;
    return true;
  });
  Strs why;
  std::vector<Done>* gp = &got;
  distinct("session", hash_str(keys, hash_str(text)));
  const auto r = run_lib([&] {
    kt::Choice c{std::cout, tty ? nullptr : &std::cin};
    for (uint32_t i = 0; i < want.size(); ++i) {
      if (qs[i].c) c.setQuit(*qs[i].c, qs[i].text); else c.clearQuit();
      try { gp->push_back({call(c, asks[i]), false}); } catch (const kt::DomainError& e) { gp->push_back({0, true}); why.push_back(e.what()); }
      if (c.quit() != (qs[i].c ? kt::Choice::OptChar(*qs[i].c) : kt::Choice::OptChar{})) gp->push_back({'?', true});
    }
    std::cout.flush();
  });
  if (r.threw) violation("escaped-exception", "a prompt threw %s", r.what.c_str());
  for (size_t i = 0; i < want.size(); ++i) {
    if (i >= got.size() || got[i].threw != want[i].threw || got[i].c != want[i].c) {
      const auto show = [](const Done& d) { return d.threw ? Str("an error") : "'" + Str(1, d.c) + "'"; };
      violation("wrong-choice", "prompt %zu '%s' should end with %s, but gave %s; keys %s", i + 1, i < prompts.size() ? prompts[i].c_str() : "", show(want[i]).c_str(), i < got.size() ? show(got[i]).c_str() : "nothing", clip(keys).c_str());
    }
  }
  if (!unseen.empty()) violation("prompt-not-shown", "input is awaited before the prompt '%s' is on the screen", unseen.c_str());
  Str out = screen().out, w = text;
  if (intr || ended) // an interruption may show the prompt again
    for (auto& p : prompts) for (auto* s : {&out, &w}) { const Str d = p + "\n" + p; for (size_t k; (k = s->find(d)) != Str::npos;) s->erase(k, p.size() + 1); }
  if (ended) { while (!out.empty() && out.back() == '\n') out.pop_back(); while (!w.empty() && w.back() == '\n') w.pop_back(); }
  if (out != w) violation("wrong-prompt", "prompts shown differ: %s", diff(w, out).c_str());
  if (ended) probe("input ended inside a prompt");
  probe(tty ? "terminal keys" : "stream lines");
}

// ---- C07 ---------------------------------------------------------------------------------
static bool same(const TtyState& a, const TtyState& b) { return a.iflag == b.iflag && a.oflag == b.oflag && a.cflag == b.cflag && a.lflag == b.lflag && !memcmp(a.cc, b.cc, NCCS); }
static Str show(const TtyState& t) { Str s = "iflag " + std::to_string(t.iflag) + " oflag " + std::to_string(t.oflag) + " cflag " + std::to_string(t.cflag) + " lflag " + std::to_string(t.lflag) + " cc"; for (int i = 0; i < NCCS; ++i) s += " " + std::to_string(t.cc[i]); return s; }
static TtyState drawTty() {
  TtyState t = tty_default();
  if (draw(2)) {
    if (draw(3) == 2) t.lflag &= ~(unsigned)ECHO;
    if (draw(3) == 2) t.lflag &= ~(unsigned)ICANON;
    if (draw(3) == 2) t.lflag &= ~(unsigned)ISIG;
    if (draw(3) == 2) t.lflag |= NOFLSH | TOSTOP;
    if (draw(3) == 2) t.iflag &= ~(unsigned)ICRNL;
    if (draw(3) == 2) t.oflag &= ~(unsigned)OPOST;
    if (draw(3) == 2) t.cflag |= PARENB;
    if (draw(3) == 2) t.cc[VMIN] = (unsigned char)draw(8);
    if (draw(3) == 2) t.cc[VTIME] = (unsigned char)draw(20);
    if (draw(3) == 2) t.cc[VERASE] = 8;
    probe("unusual terminal settings");
  }
  return t;
}
static void run_C07() {
  enable_threads(false);
  set_step_limit(60'000'000);
  const bool app = draw(3) == 2;
  TtyState orig = drawTty();
  if (app) orig.lflag |= ICANON; // kanaConvert reads lines
  tty_init(orig);
  set_stdin(IN_TTY);
  set_stdout(draw(2) ? OUT_TTY : OUT_FILE);
  if (draw(2)) set_rate(F_TTY_EINTR, draw(2) ? 3000 : 20000);
  if (draw(2)) set_rate(F_TCSET_EINTR, draw(2) ? 3000 : 30000);
  const bool getfail = draw(3) == 2;
  if (getfail) set_rate(F_TCGET_FAIL, draw(2) ? 6000 : 40000);
  if (draw(4) == 3) set_nth(F_TTY_HANGUP, range(1, 30));
  static bool inPrompt;
  static std::string bad;
  inPrompt = false;
  bad.clear();
  static uint32_t left;
  left = range(1, 60);
  const auto check = [=] {
    const TtyState t = tty_now();
    if (getfail && any_fired({F_TCGET_FAIL})) return; // that prompt had to do without
    if (inPrompt) {
      if (t.lflag & ICANON) bad = "a prompt waits for a whole line";
      else if (t.lflag & ECHO) bad = "a prompt echoes the key";
      else if (t.cc[VMIN] != 1 || t.cc[VTIME] != 0) bad = "a prompt does not wait for exactly one key";
    } else if (!same(t, orig)) bad = "a line is read with changed settings: " + show(t) + " instead of " + show(orig);
  };
  if (!app) {
    set_user([=](Str& k) {
      if (bad.empty()) check();
      if (!left) return false;
      --left;
      const bool canon = tty_now().lflag & ICANON;
      const uint32_t n = draw(4) == 3 ? range(2, 4) : 1;
      for (uint32_t i = 0; i < n; ++i) k += draw(3) ? "abcq"[draw(4)] : draw(2) ? '\n' : (char)(1 + draw(200));
      if (canon) k += '\n';
      return true;
    });
    const uint32_t np = range(1, 10);
    std::vector<int> plan;
    for (uint32_t i = 0; i < np; ++i) plan.push_back((int)draw(4));
    Str wrong;
    const bool lines = (orig.lflag & ICANON) != 0;
    const auto r = run_lib([&] {
      kt::Choice c{std::cout, 'q'};
      std::string l;
      for (int p : plan) {
        if (p == 3 && lines) { if (!std::getline(std::cin, l)) std::cin.clear(); }
        else {
          inPrompt = true;
          try { if (p == 0) (void)c.get({'a', 'c'}, "x"); else if (p == 1) (void)c.get("x", {{'a', "b"}, {'c', ""}}, 'a'); else (void)c.get("y", p != 2, {{'b', ""}}); } catch (const kt::DomainError&) {}
          inPrompt = false;
        }
        InRt g;
        if (wrong.empty() && !tty_hung() && !same(tty_now(), orig)) wrong = "after a prompt the terminal has " + show(tty_now()) + " instead of " + show(orig);
      }
    });
    if (r.threw) violation("escaped-exception", "a prompt threw %s", r.what.c_str());
    if (!wrong.empty()) violation("not-restored", "%s", wrong.c_str());
    probe("prompts and lines mixed");
  } else { // a whole program: kanaConvert with its flag prompt
    set_user([=](Str& k) {
      const bool raw = !(tty_now().lflag & ICANON);
      inPrompt = raw;
      if (bad.empty()) check();
      inPrompt = false;
      if (!left) return false;
      --left;
      if (raw) { k = draw(3) ? "hknrx\n"[draw(6)] : (char)(1 + draw(200)); if (draw(4) == 3) k += "ka\nf\n"; return true; }
      static const Strs L{"f", "f", "ka", "c", "-h", "", "h", "f\nk\nf"};
      k = pick(L) + "\n";
      return true;
    });
    const auto r = run_program({"kanaConvert", "-i"}, run_convert_main);
    if (r.threw) violation("escaped-exception", "kanaConvert threw %s", r.what.c_str());
    probe("whole program");
  }
  distinct("terminal history", hash_bytes(&orig, sizeof orig, hash_str(screen().out)) ^ tty_stats().sets << 20 ^ tty_stats().reads << 40);
  if (!bad.empty()) violation("wrong-mode", "%s", bad.c_str());
  if (tty_hung()) { probe("terminal hung up"); return; }
  if (!same(tty_now(), orig)) violation("not-restored", "at the end the terminal has %s instead of %s", show(tty_now()).c_str(), show(orig).c_str());
  if (tty_stats().raw_reads > 0) probe("restored after raw reads");
  if (fired_count(F_TCSET_EINTR)) probe("restoring was interrupted");
  if (getfail && fired_count(F_TCGET_FAIL)) probe("settings could not be read");
}
PROPS({"C06", nullptr, run_C06}, {"C07", nullptr, run_C07})
