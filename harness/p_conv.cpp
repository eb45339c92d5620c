// C14 kanaConvert as a stream / interactive program, C15 kanjiFormat
#include "textmodel.h"

// ---- C15 -----------------------------------------------------------------------
static void run_C15() {
  enable_threads(false);
  set_step_limit(80'000'000);
  Str text;
  const uint32_t nl = draw(8) == 7 ? range(200, 900) : range(0, 24);
  for (uint32_t i = 0; i < nl; ++i) text += format_line() + "\n";
  if (draw(600) == 599) { // one very long line: matching it may not need stack for every character
    Str l;
    const Str unit = draw(3) ? pick(Kana) : pick(Kana) + pick(Kana);
    for (uint32_t n = range(60'000, 90'000); n--;) l += unit;
    const uint32_t k = draw(4);
    if (k == 1) l += pick(Kanji);
    if (k == 2) l += pick(Other);
    text += pick(Kanji) + "\n" + l + "\n" + pick(Kanji) + "\n";
    probe("very long line");
  }
  if (draw(3) == 2 && !text.empty()) text.pop_back();
  Str path = "/sim/work/in.txt";
  auto* f = put_file(path, text);
  set_cwd("/sim/work");
  const uint32_t mode = draw(10);
  Str arg = draw(2) ? "in.txt" : path;
  bool badpath = false;
  if (draw(10) == 9) { put_link("/sim/work/ln", "in.txt"); arg = "ln"; probe("through symlink"); }
  if (mode >= 4) { set_rate(F_SHORT_READ, draw(2) ? 3000 : 30000); set_rate(F_EINTR_READ, draw(3) == 2 ? 6000 : 0); }
  if (mode == 7) set_nth(F_EIO_READ, range(1, 1 + (uint32_t)text.size() / 2000));
  if (mode == 8) {
    switch (draw(4)) {
    case 0: f->bad_off = (int64_t)draw((uint32_t)text.size() + 1); break;
    case 1: f->unreadable = true; break;
    case 2: set_nth(F_OPEN_FAIL, 1); break;
    case 3: set_nth(F_STAT_FAIL, 1); break;
    }
  }
  if (mode == 6) { f->readonly = true; fired(F_READONLY_FILE); }
  if (mode == 9) {
    badpath = true;
    switch (draw(4)) {
    case 0: arg = "missing.txt"; break;
    case 1: mkdirs("/sim/work/dir"); arg = "dir"; break;
    case 2: put_link("/sim/work/dang", "nowhere"); arg = "dang"; break;
    case 3: arg = ""; break;
    }
    fired(F_MISSING_FILE);
  }
  if (draw(2)) set_rate(F_STDOUT_SHORT, 20000);
  std::vector<Str> argv{"kanjiFormat", arg};
  if (badpath && arg.empty()) { argv.pop_back(); }
  const auto r = run_program(argv, run_format_main);
  const Str want = format_model(text), &got = screen().out;
  const bool err = any_fired({F_EINTR_READ, F_EIO_READ, F_BAD_SECTOR, F_UNREADABLE_FILE, F_OPEN_FAIL, F_STAT_FAIL}); // an interrupted read may be reported as one that failed
  if (r.threw) violation("escaped-exception", "kanjiFormat let an exception escape: %s", r.what.c_str());
  if (disk_modified()) violation("input-modified", "kanjiFormat wrote to its input");
  distinct("input", hash_str(text));
  if (badpath) {
    if (r.status == 0) violation("silent-failure", "kanjiFormat exits 0 for an unusable file argument '%s'", arg.c_str());
    if (!got.empty()) violation("output", "kanjiFormat printed text for an unusable file argument");
    if (screen().err.empty()) violation("no-message", "kanjiFormat failed without a message");
    return;
  }
  if (!err || r.status == 0) {
    if (r.status != 0) violation("spurious-failure", "kanjiFormat exits %d without any error: %s", r.status, screen().err.c_str());
    if (got != want)
      violation(err ? "silent-partial" : "output", "kanjiFormat exits 0 %sbut its output differs: %s; input %s",
          err ? "after a read error " : "", diff(want, got).c_str(), clip(text).c_str());
    if (want.find("（") != Str::npos) probe("joined furigana line");
    if (err) probe("error tolerated with full output");
  } else {
    if (screen().err.empty()) violation("no-message", "kanjiFormat failed without a message");
    if (want.compare(0, got.size(), got) != 0)
      violation("garbled-partial", "output printed before the failure is not a prefix of the correct output: %s", diff(want, got).c_str());
    probe("read error reported");
  }
}

// ---- C14 -----------------------------------------------------------------------
static Str options_text(const Opt& o) {
  return ">>> current options: source=" + (o.src ? tname(*o.src) : Str{"any"}) + ", target=" + tname(o.tgt) + ", flags=" + fname(o.flags) +
         "\n>>> enter string (c=clear flags, f=set flag, q=quit, h=help, -k|-h|-r|-K|-H|-R):\n";
}
static const char* HelpText = "  -h: set conversion output to Hiragana\n  -k: set conversion output to Katakana\n  -r: set conversion output to Rōmaji\n"
                              "  -H: restrict conversion input to Hiragana\n  -K: restrict conversion input to Katakana\n  -R: restrict conversion input to Rōmaji\n";
static const char* FlagPrompt = ">>> enter flag option (h=Hepburn, k=Kunrei, n=NoProlongMark, r=RemoveSpaces): ";

static Str conv_line(bool interactive) {
  if (interactive) switch (draw(12)) {
    case 0: return "c";
    case 1: case 2: return "f";
    case 3: return "h";
    case 4: case 5: { static const Strs a{"-k", "-h", "-r", "-K", "-H", "-R", "-x", "-", "-kk"}; return pick(a); }
    case 6: return "";
    }
  return repeat_tok(ConvTok, draw(30) == 29 ? range(100, 500) : range(0, 9));
}
// the whole command line: options anywhere, strings to convert, refusals
static bool g_read;
static void conv_args() {
  Opt o;
  Strs argv{"kanaConvert"}, strings;
  bool inter = false, nonl = false, chart = false, rest = false;
  const uint32_t n = draw(10) == 9 ? range(8, 40) : range(1, 7);
  for (uint32_t i = 0; i < n; ++i) switch (draw(12)) {
    default: argv.push_back(repeat_tok(ConvTok, draw(30) == 29 ? range(50, 200) : range(0, 6))); break;
    case 6: case 7: { static const Strs a{"-k", "-h", "-r", "-K", "-H", "-R"}; argv.push_back(pick(a)); break; }
    case 8: { static const Strs a{"h", "k", "n", "r"}; argv.push_back("-f"); argv.push_back(pick(a)); break; }
    case 9: { static const Strs a{"-n", "-n", "-n", "-p", "-m", "-i"}; argv.push_back(pick(a)); break; }
    case 10: { static const Strs a{"--", "--", "--", "-?"}; argv.push_back(pick(a)); break; }
    case 11: { static const Strs a{"-x", "-", "-kk", "-f", "-fh", "-hk", "--help", "-あ", "-F"}; if (draw(3) == 2) argv.push_back(pick(a)); break; }
  }
  // what the command line means
  Str refused, want;
  bool usage = false;
  for (size_t i = 1; i < argv.size() && refused.empty() && !usage; ++i) {
    const Str& a = argv[i];
    if (rest) { strings.push_back(a); continue; }
    if (a == "--") rest = true;
    else if (a == "-?") usage = true;
    else if (a == "-f") {
      if (++i >= argv.size()) refused = "-f without value";
      else if (argv[i].size() != 1 || !flagBit(argv[i][0])) refused = "-f value";
      else o.flags |= flagBit(argv[i][0]);
    } else if (a == "-i" || a == "-n" || a == "-p" || a == "-m") {
      if (inter || nonl || chart) refused = "two modes";
      (a == "-i" ? inter : a == "-n" ? nonl : chart) = true;
    } else if (a[0] == '-') { if (!typeArg(o, a)) refused = "unknown option"; }
    else strings.push_back(a);
  }
  if (refused.empty() && !usage && !strings.empty() && (inter || chart)) refused = "strings and another mode";
  if (refused.empty() && !usage && strings.empty() && !inter && !chart) refused = "nothing to convert";
  int status = !refused.empty();
  if (refused.empty() && !usage && !strings.empty()) {
    for (size_t i = 0; i < strings.size(); ++i) {
      if (i && (o.tgt == kt::CharType::Romaji || !(o.flags & flagBit('r')))) want += o.tgt == kt::CharType::Romaji ? " " : "　";
      try { want += conv(o, strings[i]); } catch (const std::exception&) { status = 1; break; }
    }
    if (!nonl && !status) want += '\n';
    if (strings.size() > 1) probe("several strings");
  }
  set_stdin(IN_TTY);
  tty_init(tty_default());
  g_read = false;
  set_user([](Str&) { g_read = true; return false; });
  set_stdout(draw(2) ? OUT_TTY : OUT_FILE);
  if (draw(2)) set_rate(F_STDOUT_SHORT, 10000);
  Str all;
  for (auto& a : argv) all += a + "\n";
  distinct("session", hash_str(all, hash_str(want)));
  const auto r = run_program(argv, run_convert_main);
  const Str& got = screen().out;
  if (r.threw) violation("escaped-exception", "kanaConvert let an exception escape: %s", r.what.c_str());
  if (r.status != status) violation("status", "kanaConvert exits %d, expected %d (%s): %s; arguments %s", r.status, status, refused.c_str(), screen().err.c_str(), clip(all).c_str());
  if (status && screen().err.empty()) violation("no-message", "kanaConvert fails without a message");
  if (!status && !screen().err.empty()) violation("message", "kanaConvert succeeds with an error message: %s", screen().err.c_str());
  if (g_read && !(inter && refused.empty() && !usage)) violation("reads-input", "kanaConvert waits for input although it was given all it needs; arguments %s", clip(all).c_str());
  if (!refused.empty()) { if (!got.empty()) violation("output", "kanaConvert prints something before it refuses (%s)", refused.c_str()); probe("command line refused"); return; }
  if (usage) { if (got.compare(0, 18, "usage: kanaConvert") || got.find(HelpText + Str("\n")) != Str::npos) violation("output", "-? doesn't show the usage"); probe("usage shown"); return; }
  if (inter) { if (got != options_text(o)) violation("output", "kanaConvert -i differs: %s", diff(options_text(o), got).c_str()); return; }
  if (chart) { if (got.size() < 5000 || got.back() != '\n') violation("output", "the Kana chart is not complete (%zu bytes)", got.size()); probe("chart shown"); return; }
  if (got != want) violation("output", "kanaConvert's output for strings differs: %s; arguments %s", diff(want, got).c_str(), clip(all).c_str());
  probe("strings converted");
}
static std::map<size_t, size_t> asked; // input sent -> screen size when more was awaited
static void run_C14() {
  enable_threads(false);
  set_step_limit(120'000'000);
  if (draw(5) == 4) return conv_args();
  Opt o;
  std::vector<Str> argv{"kanaConvert"};
  for (uint32_t n = draw(4); n--;)
    if (draw(2)) { static const Strs a{"-k", "-h", "-r", "-K", "-H", "-R"}; argv.push_back(pick(a)); typeArg(o, argv.back()); }
    else { static const Strs a{"h", "k", "n", "r"}; argv.push_back("-f"); argv.push_back(pick(a)); o.flags |= flagBit(argv.back()[0]); }
  const bool inter = draw(2), nonl = !inter && draw(4) == 3;
  if (inter) argv.push_back("-i");
  if (nonl) argv.push_back("-n");
  // the bytes the user or the other end of the pipe will send
  Strs send; // pieces: in interactive mode a key after an 'f' line may be a piece
  bool quit = false;
  const uint32_t nl = draw(6) == 5 ? range(20, 80) : range(0, 10);
  for (uint32_t i = 0; i < nl && !quit; ++i) {
    const Str l = conv_line(inter);
    send.push_back(l + "\n");
    if (inter && l == "f") {
      for (uint32_t j = draw(4) == 3 ? range(1, 3) : 0; j--;) { static const Strs junk{"x", "\n", "H", "\x1b", "あ", "q", " ", "\x04", "0"}; send.push_back(pick(junk)); fired(F_TTY_JUNK); }
      static const Strs ok{"h", "k", "n", "r"};
      send.push_back(pick(ok));
    }
    quit = l == "q";
  }
  uint32_t ending = draw(4); // 0 quit line, 1 end of input, 2 last line without newline then end, 3 hang-up somewhere
  if (ending == 0 && !quit) send.push_back("q\n");
  if (ending == 2 && !inter) send.push_back(repeat_tok(ConvTok, range(1, 5)));
  Str all;
  for (auto& s : send) all += s;
  set_stdout(draw(2) ? OUT_TTY : OUT_FILE);
  if (draw(2)) set_rate(F_STDOUT_SHORT, 10000);
  bool eof_fault = false;
  auto sent = std::make_shared<size_t>(0);
  if (inter) {
    set_stdin(IN_TTY);
    tty_init(tty_default());
    if (draw(3) == 2) set_rate(F_TTY_EINTR, 8000);
    const uint32_t ahead = draw(3);
    const int64_t hang = ending == 3 ? (int64_t)draw((uint32_t)send.size() + 1) : -1;
    const uint32_t bye = draw(2); // ^D or hang-up
    auto pos = std::make_shared<size_t>(0);
    asked.clear();
    set_user([=](Str& k) {
      size_t sent = 0;
      for (size_t j = 0; j < *pos && j < send.size(); ++j) sent += send[j].size();
      asked.emplace(sent, screen().out.size());
      if (hang >= 0 && (int64_t)*pos >= hang) return false;
      if (*pos >= send.size()) { if (bye && tty_now().lflag & 2) { k = "\4"; return true; } return false; }
      k = send[(*pos)++];
      for (uint32_t n = ahead ? draw(ahead == 1 ? 2 : 6) : 0; n && *pos < send.size() && (hang < 0 || (int64_t)*pos < hang); --n) { k += send[(*pos)++]; fired(F_TTY_TYPEAHEAD); }
      return true;
    });
    if (hang >= 0) { all.clear(); for (size_t i = 0; i < (size_t)hang; ++i) all += send[i]; eof_fault = true; }
  } else {
    set_stdin(IN_PIPE);
    Str data = all;
    if (ending == 3 && !data.empty()) { data.resize(draw((uint32_t)data.size())); fired(F_STDIN_EOF); eof_fault = true; }
    all = data;
    set_rate(F_STDIN_CHUNK, draw(2) ? 40000 : 0);
    if (draw(6) == 5) set_nth(F_EIO_READ, range(1, 6));
    if (draw(2)) { set_stdin_data(data); *sent = data.size(); }
    else {
      auto pos = sent;
      set_user([=](Str& k) {
        if (*pos >= data.size()) return false;
        const size_t n = std::min<size_t>(data.size() - *pos, range(1, 40));
        k = data.substr(*pos, n);
        *pos += n;
        return true;
      });
    }
  }
  // expected transcript
  Str want;
  int status = 0;
  bool cutInPrompt = false;
  if (inter) want += options_text(o);
  std::map<size_t, size_t> due; // by input consumed: how much must be on the screen before more is awaited
  for (size_t i = 0; i < all.size();) {
    due[i] = want.size();
    size_t e = all.find('\n', i);
    if (e == Str::npos) { if (inter) break; e = all.size(); } // an unfinished typed line is lost with the terminal
    Str l = all.substr(i, e - i);
    i = std::min(all.size(), e + 1);
    if (l == "q") break;
    if (inter) {
      if (l.empty()) continue;
      bool cmd = true;
      if (l == "c") o.flags = 0;
      else if (l == "f") {
        for (;;) {
          want += FlagPrompt;
          due[i] = want.size();
          if (i >= all.size()) { cutInPrompt = true; break; }
          const char c = all[i++];
          want += '\n';
          if (flagBit(c)) { o.flags |= flagBit(c); break; }
        }
        if (cutInPrompt) break;
        probe("flag set through menu");
      } else if (l == "h") want += HelpText;
      else if (l[0] == '-') { if (!typeArg(o, l)) want += "  illegal option: " + l + "\n"; }
      else cmd = false;
      if (cmd) { want += options_text(o); continue; }
    }
    try { want += conv(o, l); }
    catch (const std::exception&) { status = 1; break; }
    if (!nonl) want += '\n';
  }
  distinct("session", hash_str(all, hash_str(want)));
  const auto r = run_program(argv, run_convert_main);
  const Str& got = screen().out;
  if (r.threw) violation("escaped-exception", "kanaConvert let an exception escape: %s", r.what.c_str());
  // an interrupted key read shows the prompt again: drop repeats before comparing
  auto norm = [](Str s) { const Str d = Str(FlagPrompt) + "\n" + FlagPrompt; for (size_t p; (p = s.find(d)) != Str::npos;) s.erase(p, strlen(FlagPrompt) + 1); return s; };
  const Str w = norm(want), g = norm(got);
  if (cutInPrompt) {
    if (g.compare(0, w.size(), w) != 0) violation("output", "interactive transcript differs before the terminal hung up: %s", diff(w, g).c_str());
    probe("terminal hung up inside a prompt");
    return;
  }
  if (fired_count(F_EIO_READ) && (w != g || r.status != status)) { // (an error may also be overcome by trying again)
    const Str read = all.substr(0, *sent - stdin_left());
    if (!r.status) violation("lost-input", "kanaConvert exits with status 0 although reading failed after %zu of %zu bytes", read.size(), all.size());
    if (screen().err.empty()) violation("no-message", "kanaConvert fails without a message");
    Str done;
    for (size_t i = 0, e; (e = read.find('\n', i)) != Str::npos; i = e + 1) {
      const Str l = read.substr(i, e - i);
      if (l == "q") break;
      try { done += conv(o, l); } catch (const std::exception&) { break; }
      if (!nonl) done += '\n';
    }
    if (g.compare(0, done.size(), done)) violation("output", "kanaConvert's output before the read error differs: %s", diff(done, g).c_str());
    probe("read error reported");
    return;
  }
  if (w != g) violation("output", "kanaConvert%s output differs: %s; input %s", inter ? " -i" : "", diff(w, g).c_str(), clip(all).c_str());
  if (inter && !fired_count(F_TTY_EINTR)) for (auto& [at, n] : asked) if (const auto d = due.find(at); d != due.end()) {
    if (d->second != n) violation("not-shown", "the next input is awaited with %zu bytes on the screen instead of %zu", n, d->second);
    probe("answered before more was awaited");
  }
  if (r.status != status) violation("status", "kanaConvert exits %d, expected %d: %s", r.status, status, screen().err.c_str());
  if (eof_fault) probe("input ended early");
  probe(inter ? "interactive session" : "piped session");
}
PROPS({"C14", nullptr, run_C14}, {"C15", nullptr, run_C15})
