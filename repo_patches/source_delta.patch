From 0dc201bfa49507700a2cab03c5e75c0754f11fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:01 +0000
Subject: [PATCH 01/20] fix: Choice stops at the end of input and restores the
 original terminal settings

---
 libs/kana/include/kt_kana/Choice.h |  1 +
 libs/kana/src/Choice.cpp           | 66 +++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 19 deletions(-)

diff --git a/libs/kana/include/kt_kana/Choice.h b/libs/kana/include/kt_kana/Choice.h
index 1198a60..eeb09ca 100644
--- a/libs/kana/include/kt_kana/Choice.h
+++ b/libs/kana/include/kt_kana/Choice.h
@@ -71,6 +71,7 @@ public:
   /// \throw DomainError if `def` is provided, but it's not in `choicesIn`
   /// \throw DomainError if 'quit option' has been set and is also in `choices`
   /// \throw DomainError if any choice in `choices` is not printable Ascii
+  /// \throw DomainError if input ends before a choice is made
   [[nodiscard]] char get(const String& msg, bool useQuit,
       const Choices& choices, OptChar def) const;
 
diff --git a/libs/kana/src/Choice.cpp b/libs/kana/src/Choice.cpp
index 3c0d604..86b4d13 100644
--- a/libs/kana/src/Choice.cpp
+++ b/libs/kana/src/Choice.cpp
@@ -1,6 +1,7 @@
 #include <kt_kana/Choice.h>
 #include <kt_utils/Exception.h>
 
+#include <cerrno>
 #include <termios.h>
 #include <unistd.h>
 
@@ -10,6 +11,43 @@ namespace {
 
 const String AlreadyInChoices{"' already in choices"};
 
+// XCOV_EXCL_START - this code requires user input (so not covered by tests)
+
+// turn raw mode on (allows getting single char without waiting for 'return')
+// and restore the original terminal settings when going out of scope
+class RawMode final {
+public:
+  RawMode() {
+    if (tcgetattr(0, &_original) < 0) {
+      perror("tcgetattr()");
+      return;
+    }
+    auto settings{_original};
+    settings.c_lflag &= ~(static_cast<tcflag_t>(ICANON) | ECHO);
+    settings.c_cc[VMIN] = 1;
+    settings.c_cc[VTIME] = 0;
+    if (tcsetattr(0, TCSANOW, &settings) < 0)
+      perror("tcsetattr() - turning on raw mode");
+    else
+      _on = true;
+  }
+
+  ~RawMode() {
+    if (!_on) return;
+    int result{};
+    do result = tcsetattr(0, TCSADRAIN, &_original);
+    while (result < 0 && errno == EINTR);
+    if (result < 0) perror("tcsetattr() - turning off raw mode");
+  }
+
+  RawMode(const RawMode&) = delete;
+  auto operator=(const RawMode&) = delete;
+private:
+  struct termios _original {};
+  bool _on{false};
+};
+// XCOV_EXCL_STOP
+
 } // namespace
 
 Choice::Choice(std::ostream& out, OptChar quit, const String& d)
@@ -53,9 +91,9 @@ char Choice::get(const String& msg, bool useQuit, const Choices& choices,
   do {
     _out << prompt;
     _out.flush();
-    if (_in)
-      std::getline(*_in, line);
-    else {
+    if (_in) {
+      if (!std::getline(*_in, line)) error("no more input");
+    } else {
       // XCOV_EXCL_START - code only used in interactive mode
       if (const auto choice{getOneChar()}; choice == '\n')
         line.clear();
@@ -119,24 +157,14 @@ char Choice::get(Range range, const String& msg, OptChar def) const {
 
 // XCOV_EXCL_START - this code requires user input (so not covered by tests)
 char Choice::getOneChar() {
-  static constexpr tcflag_t Icanon{ICANON}, Echo{ECHO};
-  struct termios settings {};
-  if (tcgetattr(0, &settings) < 0) perror("tcsetattr()");
-  // turn raw mode on - allows getting single char without waiting for 'return'
-  settings.c_lflag &= ~Icanon;
-  settings.c_lflag &= ~Echo;
-  settings.c_cc[VMIN] = 1;
-  settings.c_cc[VTIME] = 0;
-  if (tcsetattr(0, TCSANOW, &settings) < 0)
-    perror("tcsetattr() - turning on raw mode");
+  const RawMode rawMode;
   // read a single char
   char result{};
-  if (read(0, &result, 1) < 0) perror("read()");
-  // turn raw mode off
-  settings.c_lflag |= Icanon;
-  settings.c_lflag |= Echo;
-  if (tcsetattr(0, TCSADRAIN, &settings) < 0)
-    perror("tcsetattr() - turning off raw mode");
+  ssize_t count{};
+  do count = read(0, &result, 1);
+  while (count < 0 && errno == EINTR);
+  if (count < 0) perror("read()");
+  if (count < 1) error("no more input");
   return result;
 }
 // XCOV_EXCL_STOP
-- 
2.43.0


From 6d10962a733b081b9010032fb89ffa65a5946a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:54 +0000
Subject: [PATCH 02/20] fix: kanjiFormat prints the last line when it ends with
 kanji

---
 apps/formatMain.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index 299c411..f53ca9c 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -40,6 +40,8 @@ void format(Args args) {
       std::cout << line << '\n';
     prevLine = line;
   }
+  // the last line is still waiting to be printed if it ended with kanji
+  if (prevLineEndedWithKanji) std::cout << prevLine << '\n';
 }
 
 int main(int argc, const char** argv) {
-- 
2.43.0


From 7f7f92e4740d2d24b74d88010719f83281c10f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:54 +0000
Subject: [PATCH 03/20] fix: kanjiFormat reports files it can't read (and
 doesn't require write permission)

---
 apps/formatMain.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index f53ca9c..29ab9f4 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -16,7 +16,8 @@ void format(Args args) {
     throw DomainError("file not found: " + file.string());
   const std::wregex endsWithKanji{std::wstring{L"["} + KanjiRange() + L"]{1}$"},
       allKana{std::wstring{L"^["} + KanaRange() + L"]+$"};
-  std::fstream f{file};
+  std::ifstream f{file};
+  if (!f) throw DomainError("can't open file: " + file.string());
   String line, prevLine;
   auto prevLineEndedWithKanji{false};
   while (std::getline(f, line)) {
@@ -40,6 +41,7 @@ void format(Args args) {
       std::cout << line << '\n';
     prevLine = line;
   }
+  if (f.bad()) throw DomainError("failed to read file: " + file.string());
   // the last line is still waiting to be printed if it ended with kanji
   if (prevLineEndedWithKanji) std::cout << prevLine << '\n';
 }
-- 
2.43.0


From 274afb95c0d5b1548bdd538a6af8ec66f407047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:11 +0000
Subject: [PATCH 04/20] fix: ColumnFile reports files it can't open or read
 (and doesn't require write permission)

---
 libs/utils/include/kt_utils/ColumnFile.h | 2 +-
 libs/utils/src/ColumnFile.cpp            | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/utils/include/kt_utils/ColumnFile.h b/libs/utils/include/kt_utils/ColumnFile.h
index 1219b8d..03ecf20 100644
--- a/libs/utils/include/kt_utils/ColumnFile.h
+++ b/libs/utils/include/kt_utils/ColumnFile.h
@@ -137,7 +137,7 @@ private:
 
   [[nodiscard]] String errorMsg(const String&) const;
 
-  std::fstream _file;
+  std::ifstream _file;
   const char _delimiter;
 
   /// holds the 'last component name' of the file being processed
diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 141df70..9a76dcb 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -28,13 +28,14 @@ size_t ColumnFile::getColumnNumber(const String& name) {
 }
 
 ColumnFile::ColumnFile(const Path& p, const Columns& columns, char delim)
-    : _file{std::fstream(p)}, _delimiter{delim},
+    : _file{std::ifstream(p)}, _delimiter{delim},
       _fileName{p.filename().string()}, _rowValues{columns.size()},
       _columnToPosition(_allColumns.size(), ColNotFound) {
   assert(_columnToPosition.size() == _allColumns.size()); // need () ctor
   if (columns.empty()) error("must specify at least one column");
   if (!std::filesystem::exists(p)) error("doesn't exist");
   if (!std::filesystem::is_regular_file(p)) error("not regular file");
+  if (!_file.is_open()) error("can't open");
   if (String headerRow; std::getline(_file, headerRow)) {
     ColNames colNames;
     for (auto& c : columns)
@@ -43,7 +44,7 @@ ColumnFile::ColumnFile(const Path& p, const Columns& columns, char delim)
     processHeaderRow(headerRow, colNames);
     verifyHeaderColumns(colNames);
   } else
-    error("missing header row");
+    error(_file.bad() ? "failed to read header row" : "missing header row");
 }
 
 void ColumnFile::processHeaderRow(const String& row, ColNames& colNames) {
@@ -92,6 +93,7 @@ bool ColumnFile::nextRow() {
       error("not enough columns");
     return true;
   }
+  if (_file.bad()) error("failed to read file");
   return false;
 }
 
-- 
2.43.0


From 10e4617df2da3776aeec77cb3590ef02a30d0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:30 +0000
Subject: [PATCH 05/20] fix: list, linked Kanji and Jukugo files that can't be
 opened or read are reported

---
 libs/kanji/src/ListFile.cpp      | 2 ++
 libs/kanji/src/TextKanjiData.cpp | 2 ++
 libs/quiz/src/JukugoData.cpp     | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/libs/kanji/src/ListFile.cpp b/libs/kanji/src/ListFile.cpp
index e1ef9d4..9469a7c 100644
--- a/libs/kanji/src/ListFile.cpp
+++ b/libs/kanji/src/ListFile.cpp
@@ -63,6 +63,7 @@ void ListFile::load(const Path& file, FileType fileType,
           ", file: " + file.string());
   }};
   std::ifstream f{file};
+  if (!f) usage("can't open " + file.string());
   ListFile::StringList dups;
   for (String line; std::getline(f, line); ++lineNum) {
     std::stringstream ss{line};
@@ -74,6 +75,7 @@ void ListFile::load(const Path& file, FileType fileType,
       else if (!addEntry(token))
         error("exceeded '" + std::to_string(MaxEntries) + "' entries", false);
   }
+  if (f.bad()) usage("failed to read " + file.string());
   if (!dups.empty()) {
     String msg{"found " + std::to_string(dups.size()) + " duplicates in " +
                _name + ":"};
diff --git a/libs/kanji/src/TextKanjiData.cpp b/libs/kanji/src/TextKanjiData.cpp
index f6e4cf1..7eacdac 100644
--- a/libs/kanji/src/TextKanjiData.cpp
+++ b/libs/kanji/src/TextKanjiData.cpp
@@ -88,6 +88,7 @@ void TextKanjiData::loadJouyouKanji() {
 
 void TextKanjiData::loadOfficialLinkedKanji(const Path& file) {
   std::ifstream f{file};
+  if (!f) usage("can't open " + file.string());
   // each line in 'file' should be a Jouyou Kanji followed by the officially
   // recognized 'Jinmei Variant' (so loadJouyouKanji must be called first)
   auto& linkedJinmei{getTypes()[KanjiTypes::LinkedJinmei]};
@@ -103,6 +104,7 @@ void TextKanjiData::loadOfficialLinkedKanji(const Path& file) {
     } else
       usage("bad line '" + line + "' - file: " + file.filename().string());
   }
+  if (f.bad()) usage("failed to read " + file.string());
   // create 'LinkedOld' type kanji (these are the 'old Jouyou' that are not
   // LinkedJinmei created above)
   for (auto& old{getTypes()[KanjiTypes::LinkedOld]}; const auto& i : nameMap())
diff --git a/libs/quiz/src/JukugoData.cpp b/libs/quiz/src/JukugoData.cpp
index 7d13b96..2c32bba 100644
--- a/libs/quiz/src/JukugoData.cpp
+++ b/libs/quiz/src/JukugoData.cpp
@@ -54,6 +54,7 @@ const JukugoData::List& JukugoData::find(const String& kanji) const {
 size_t JukugoData::loadFile(const fs::path& file, KanjiGrades grade) {
   const auto previouslyCreated{_uniqueJukugo.size()};
   std::ifstream f{file};
+  if (!f) error("can't open " + file.string());
   auto lineNum{1};
   try {
     if (const bool onePerLine{grade != KanjiGrades::S}; onePerLine)
@@ -76,6 +77,7 @@ size_t JukugoData::loadFile(const fs::path& file, KanjiGrades grade) {
     error(String{e.what()} + " - line: " + std::to_string(lineNum) +
           ", file: " + file.filename().string());
   }
+  if (f.bad()) error("failed to read " + file.string());
   return _uniqueJukugo.size() - previouslyCreated;
 }
 
-- 
2.43.0


From d16be6c29643e82ae4b3f305fbae265ff63d7166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:14 +0000
Subject: [PATCH 06/20] fix: damaged Kanji names, levels, kyus and frequencies
 are refused instead of aborting

---
 libs/kanji/src/Kanji.cpp     | 3 ++-
 libs/kanji/src/KanjiData.cpp | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/kanji/src/Kanji.cpp b/libs/kanji/src/Kanji.cpp
index 4b695b1..fe99a05 100644
--- a/libs/kanji/src/Kanji.cpp
+++ b/libs/kanji/src/Kanji.cpp
@@ -180,7 +180,8 @@ Strokes Kanji::CtorParams::strokes() const {
 // Kanji::KanjiName
 
 Kanji::KanjiName::KanjiName(const String& name) : _name{name} {
-  assert(Utf8Char::size(_name) == 1);
+  if (Utf8Char::size(_name) != 1)
+    throw DomainError{"Kanji name '" + _name + "' is not a single character"};
 }
 
 bool Kanji::KanjiName::isVariant() const {
diff --git a/libs/kanji/src/KanjiData.cpp b/libs/kanji/src/KanjiData.cpp
index 5f35259..9da0e8c 100644
--- a/libs/kanji/src/KanjiData.cpp
+++ b/libs/kanji/src/KanjiData.cpp
@@ -250,17 +250,18 @@ bool KanjiData::checkInsert(List& s, const KanjiPtr& kanji) {
 }
 
 void KanjiData::addToKyus(const KanjiPtr& kanji) {
-  assert(kanji->hasKyu());
+  if (!kanji->hasKyu()) usage("Kanji '" + kanji->name() + "' has no kyu");
   _kyus[kanji->kyu()].emplace_back(kanji);
 }
 
 void KanjiData::addToLevels(const KanjiPtr& kanji) {
-  assert(kanji->hasLevel());
+  if (!kanji->hasLevel()) usage("Kanji '" + kanji->name() + "' has no level");
   _levels[kanji->level()].emplace_back(kanji);
 }
 
 void KanjiData::addToFrequencies(const KanjiPtr& kanji) {
-  assert(kanji->frequency());
+  if (!kanji->frequency())
+    usage("Kanji '" + kanji->name() + "' has no frequency");
   const auto bucket{(kanji->frequency() - 1U) / FrequencyEntries};
   _frequencies[bucket < FrequencyBuckets ? bucket : FrequencyBuckets - 1]
       .emplace_back(kanji);
-- 
2.43.0


From 90785be4c3ebb18da695377839c13af1800ba8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:14 +0000
Subject: [PATCH 07/20] fix: findByFrequency handles frequency lists with more
 than 2750 Kanji

---
 libs/kanji/src/KanjiData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/kanji/src/KanjiData.cpp b/libs/kanji/src/KanjiData.cpp
index 9da0e8c..3e384ab 100644
--- a/libs/kanji/src/KanjiData.cpp
+++ b/libs/kanji/src/KanjiData.cpp
@@ -110,8 +110,8 @@ KanjiPtr KanjiData::findByFrequency(Kanji::Frequency freq) const {
   if (!freq || freq >= _maxFrequency) return {};
   auto bucket{--freq};
   bucket /= FrequencyEntries;
-  if (bucket == FrequencyBuckets)
-    --bucket; // last bucket contains FrequencyEntries + 1
+  if (bucket >= FrequencyBuckets)
+    bucket = FrequencyBuckets - 1; // last bucket contains all remaining entries
   return _frequencies[bucket][freq - bucket * FrequencyEntries];
 }
 
-- 
2.43.0


From 96db1c7537c5e4a7e5cbeea68577ec692f2db448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:19 +0000
Subject: [PATCH 08/20] fix: kanjiStats orders Kanji by count, frequency, type
 and name as documented

---
 libs/stats/src/Stats.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/stats/src/Stats.cpp b/libs/stats/src/Stats.cpp
index dcaf834..c8742d1 100644
--- a/libs/stats/src/Stats.cpp
+++ b/libs/stats/src/Stats.cpp
@@ -110,10 +110,10 @@ KanjiTypes Stats::Count::type() const {
 }
 
 bool Stats::Count::operator<(const Count& x) const {
-  return _count > x._count ||
-         (_count == x._count && frequency() < x.frequency() ||
-             (frequency() == x.frequency() && type() < x.type() ||
-                 (type() == x.type() && _name < x._name)));
+  if (_count != x._count) return _count > x._count;
+  if (frequency() != x.frequency()) return frequency() < x.frequency();
+  if (type() != x.type()) return type() < x.type();
+  return _name < x._name;
 }
 
 std::ostream& operator<<(std::ostream& os, const Stats::Count& c) {
-- 
2.43.0


From e1653cfb79e33ac650958bd13083bf457af1d501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:24 +0000
Subject: [PATCH 09/20] fix: kanjiStats reports files it can't open or read
 (and doesn't require write permission)

---
 libs/stats/src/Utf8Count.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/stats/src/Utf8Count.cpp b/libs/stats/src/Utf8Count.cpp
index 1bdaa28..b8a36f1 100644
--- a/libs/stats/src/Utf8Count.cpp
+++ b/libs/stats/src/Utf8Count.cpp
@@ -119,14 +119,18 @@ size_t Utf8Count::processFile(const fs::path& file, const OptString& tag) {
   if (_find) return processFileWithRegex(file, tag);
   size_t added{};
   String line;
-  for (std::fstream f{file}; (std::getline(f, line));) added += add(line, tag);
+  std::ifstream f{file};
+  if (!f) throw DomainError{"can't open " + file.string()};
+  while (std::getline(f, line)) added += add(line, tag);
+  if (f.bad()) throw DomainError{"failed to read " + file.string()};
   return added;
 }
 
 size_t Utf8Count::processFileWithRegex(
     const fs::path& file, const OptString& tag) {
   size_t added{};
-  std::fstream f{file};
+  std::ifstream f{file};
+  if (!f) throw DomainError{"can't open " + file.string()};
   String line, prevLine;
   for (auto prevUnclosed{false}; std::getline(f, line);
        prevUnclosed = hasUnclosedBrackets(prevLine)) {
@@ -151,6 +155,7 @@ size_t Utf8Count::processFileWithRegex(
     }
     prevLine = line;
   }
+  if (f.bad()) throw DomainError{"failed to read " + file.string()};
   if (!prevLine.empty()) added += add(prevLine, tag);
   return added;
 }
-- 
2.43.0


From 4865384b1a90ad469eee7a2ed1ef01398fe2c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:03 +0000
Subject: [PATCH 10/20] fix: kanjiStats fails instead of printing a truncated
 report when out of memory

---
 libs/stats/src/Stats.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/stats/src/Stats.cpp b/libs/stats/src/Stats.cpp
index c8742d1..ac24fdb 100644
--- a/libs/stats/src/Stats.cpp
+++ b/libs/stats/src/Stats.cpp
@@ -135,7 +135,9 @@ std::ostream& operator<<(std::ostream& os, const Stats::Count& c) {
 Stats::Pred::Pred(const KanjiDataPtr& data, const KanjiData::Path& top,
     const String& name, bool showBreakdown)
     : _data{data}, _top{top}, _name{name},
-      _showBreakdown{showBreakdown}, _isKanji{name.ends_with("Kanji")} {}
+      _showBreakdown{showBreakdown}, _isKanji{name.ends_with("Kanji")} {
+  _os.exceptions(std::ios::badbit); // don't silently truncate the report
+}
 
 template <typename T>
 String Stats::Pred::run(const T& pred, bool verbose, bool firstCount) {
-- 
2.43.0


From 37192b352c4c3e5307c3982e464096f3c053c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:22 +0000
Subject: [PATCH 11/20] fix: final score of a quiz that was never started

---
 libs/quiz/include/kt_quiz/Quiz.h |  3 ++-
 libs/quiz/src/Quiz.cpp           | 18 +++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/libs/quiz/include/kt_quiz/Quiz.h b/libs/quiz/include/kt_quiz/Quiz.h
index 526f932..f93cd04 100644
--- a/libs/quiz/include/kt_quiz/Quiz.h
+++ b/libs/quiz/include/kt_quiz/Quiz.h
@@ -68,7 +68,8 @@ protected:
 
 private:
   const QuizLauncher& _launcher;
-  Question _currentQuestion;
+  const Question _start;
+  Question _currentQuestion{0};
   bool _showMeanings;
   Question _correctAnswers{0};
   ListFile::StringList _mistakes;
diff --git a/libs/quiz/src/Quiz.cpp b/libs/quiz/src/Quiz.cpp
index dda3c50..850caa8 100644
--- a/libs/quiz/src/Quiz.cpp
+++ b/libs/quiz/src/Quiz.cpp
@@ -16,8 +16,7 @@ void Quiz::run(const Args& args, std::ostream& out) {
 }
 
 Quiz::Quiz(const QuizLauncher& launcher, Question question, bool showMeanings)
-    : _launcher{launcher}, _currentQuestion{question}, _showMeanings{
-                                                           showMeanings} {}
+    : _launcher{launcher}, _start{question}, _showMeanings{showMeanings} {}
 
 Quiz::~Quiz() {
   if (isQuizMode()) {
@@ -47,15 +46,16 @@ void Quiz::printMeaning(const Kanji& kanji, bool useNewLine) const {
 }
 
 std::ostream& Quiz::beginQuizMessage(size_t totalQuestions) {
-  // _currentQuestion can be set to non-zero from command line -r or -t options,
-  // report an error if it's out of range, otherwise subtract one since
-  // 'question' list index starts at zero.
-  if (_currentQuestion) {
-    if (_currentQuestion > totalQuestions)
-      KanjiData::usage("entry num '" + std::to_string(_currentQuestion) +
+  // _start can be set to non-zero from command line -r or -t options, report an
+  // error if it's out of range, otherwise subtract one since 'question' list
+  // index starts at zero. _currentQuestion isn't set until here so that the
+  // final score doesn't count any questions if the quiz was never started.
+  if (_start) {
+    if (_start > totalQuestions)
+      KanjiData::usage("entry num '" + std::to_string(_start) +
                        "' is larger than total questions: " +
                        std::to_string(totalQuestions));
-    --_currentQuestion;
+    _currentQuestion = _start - 1;
   }
   return log(true) << "Starting " << (isQuizMode() ? "quiz" : "review")
                    << " for " << totalQuestions << ' ';
-- 
2.43.0


From 98f2779926eae77387e185ffd15ece24fa3aaeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:45 +0000
Subject: [PATCH 12/20] fix: list quiz never ended for a list with fewer
 readings than choices

---
 libs/quiz/src/ListQuiz.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/quiz/src/ListQuiz.cpp b/libs/quiz/src/ListQuiz.cpp
index 082321e..62ecd37 100644
--- a/libs/quiz/src/ListQuiz.cpp
+++ b/libs/quiz/src/ListQuiz.cpp
@@ -28,12 +28,19 @@ ListQuiz::ListQuiz(const QuizLauncher& launcher, Question question,
                                                        '0' + _choiceCount)} {
   assert(_answers.size() == _choiceCount); // need () ctor
   List questions;
+  ListFile::StringSet readings;
   for (auto& i : list) {
     if (!i->hasReading())
       // should never happen for any of the existing list quiz types
       throw DomainError{i->name() + " has no reading"};
     questions.emplace_back(i);
+    readings.insert(i->reading());
   }
+  // each choice must have a different reading (see populateAnswers)
+  if (isQuizMode() && !questions.empty() && readings.size() < _choiceCount)
+    throw DomainError{"list only has " + std::to_string(readings.size()) +
+                      " different readings for " +
+                      std::to_string(_choiceCount) + " choices"};
   if (launcher.questionOrder() == QuestionOrder::FromEnd)
     std::reverse(questions.begin(), questions.end());
   else if (launcher.questionOrder() == QuestionOrder::Random)
-- 
2.43.0


From f2990a8dba573ad63eac437593f7d50dbaea60ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:50 +0000
Subject: [PATCH 13/20] fix: answers of groups with more than 26 members

---
 libs/quiz/src/GroupQuiz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index 4ee0f79..f44d1b1 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -258,7 +258,7 @@ void GroupQuiz::checkAnswers(
   size_t correctCount{};
   for (size_t count{}; auto i : _answers) {
     const auto answer{
-        static_cast<size_t>(i <= 'z' ? i - 'a' : i - 'A' + TotalLetters)};
+        static_cast<size_t>(i >= 'a' ? i - 'a' : i - 'A' + TotalLetters)};
     // always look at reading for a match and only additionally require matching
     // meanings if '_showMeanings' is true
     if (questions[count]->reading() == readings[answer]->reading() &&
-- 
2.43.0


From d9039b445af79e1df75006a209d3e31be9bc6be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:06 +0000
Subject: [PATCH 14/20] fix: groups with fewer than two members with readings
 were still shown in list order

---
 libs/quiz/src/GroupQuiz.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index f44d1b1..f6313a7 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -34,10 +34,7 @@ GroupQuiz::GroupQuiz(const QuizLauncher& launcher, Question question,
     const auto c{get("Pattern name", PatternGroupChoices, '1')};
     if (isQuit(c)) return;
     start(prepareList(list, c - '1'));
-  } else if (launcher.questionOrder() == QuestionOrder::FromBeginning &&
-             _memberType == MemberType::All)
-    start(list); // can use the original list in this case
-  else
+  } else
     start(prepareList(list));
 }
 
-- 
2.43.0


From 26041392c10159aa9ca6d43fb28ee4501347dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:39:22 +0000
Subject: [PATCH 15/20] fix: programs exited with status 0 when their output
 couldn't be written

---
 apps/convertMain.cpp | 7 +++++++
 apps/formatMain.cpp  | 4 ++++
 apps/quizMain.cpp    | 7 +++++++
 apps/statsMain.cpp   | 7 +++++++
 4 files changed, 25 insertions(+)

diff --git a/apps/convertMain.cpp b/apps/convertMain.cpp
index 13d1c8f..9da8585 100644
--- a/apps/convertMain.cpp
+++ b/apps/convertMain.cpp
@@ -1,8 +1,15 @@
 #include <kt_kana/KanaConvert.h>
+#include <kt_utils/Exception.h>
+
+#include <cstdio>
+#include <iostream>
 
 int main(int argc, const char** argv) {
   try {
     kanji_tools::KanaConvert{{argc, argv}};
+    // stdio can lose buffered data without telling the stream about it
+    if (!std::cout.flush() || std::ferror(stdout))
+      throw kanji_tools::DomainError{"failed to write output"};
   } catch (const std::exception& err) {
     std::cerr << err.what() << '\n';
     return 1;
diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index 29ab9f4..7c1cfab 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -2,6 +2,7 @@
 #include <kt_utils/BlockRange.h>
 #include <kt_utils/Exception.h>
 
+#include <cstdio>
 #include <filesystem>
 #include <fstream>
 #include <regex>
@@ -49,6 +50,9 @@ void format(Args args) {
 int main(int argc, const char** argv) {
   try {
     format({argc, argv});
+    // stdio can lose buffered data without telling the stream about it
+    if (!std::cout.flush() || std::ferror(stdout))
+      throw DomainError{"failed to write output"};
   } catch (const std::exception& err) {
     std::cerr << err.what() << '\n';
     return 1;
diff --git a/apps/quizMain.cpp b/apps/quizMain.cpp
index f3243ca..be6c2a8 100644
--- a/apps/quizMain.cpp
+++ b/apps/quizMain.cpp
@@ -1,8 +1,15 @@
 #include <kt_quiz/Quiz.h>
+#include <kt_utils/Exception.h>
+
+#include <cstdio>
+#include <iostream>
 
 int main(int argc, const char** argv) {
   try {
     kanji_tools::Quiz::run({argc, argv});
+    // stdio can lose buffered data without telling the stream about it
+    if (!std::cout.flush() || std::ferror(stdout))
+      throw kanji_tools::DomainError{"failed to write output"};
   } catch (const std::exception& err) {
     std::cerr << err.what() << '\n';
     return 1;
diff --git a/apps/statsMain.cpp b/apps/statsMain.cpp
index 9b845a7..6bf2ebb 100644
--- a/apps/statsMain.cpp
+++ b/apps/statsMain.cpp
@@ -1,11 +1,18 @@
 #include <kt_kanji/TextKanjiData.h>
 #include <kt_stats/Stats.h>
+#include <kt_utils/Exception.h>
+
+#include <cstdio>
+#include <iostream>
 
 int main(int argc, const char** argv) {
   using kanji_tools::Args, kanji_tools::Stats, kanji_tools::TextKanjiData;
   try {
     const Args args{argc, argv};
     Stats{args, std::make_shared<TextKanjiData>(args)};
+    // stdio can lose buffered data without telling the stream about it
+    if (!std::cout.flush() || std::ferror(stdout))
+      throw kanji_tools::DomainError{"failed to write output"};
   } catch (const std::exception& err) {
     std::cerr << err.what() << '\n';
     return 1;
-- 
2.43.0


From 86ea25d00f44bceaf74a1436f3e109087e7b5dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:21 +0000
Subject: [PATCH 16/20] fix: kanaConvert reports a read error on standard input

A failing read (for example standard input being a directory or a disk
error) was taken for the end of the input: the rest of the text was
lost and the exit status was 0.
---
 libs/kana/src/KanaConvert.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 5e77ed3..42c5149 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -242,6 +242,10 @@ void KanaConvert::getInput() {
     convert(line);
     if (!_suppressNewLine) _out << '\n';
   }
+  // stdio doesn't tell the stream about read errors
+  if (!_interactive &&
+      (_in ? _in->bad() : std::cin.bad() || std::ferror(stdin)))
+    error("failed to read input");
 }
 
 void KanaConvert::printOptions() const {
-- 
2.43.0


From 806799cfee6eeb235383f4e1f0e96495f6f8daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:50:23 +0000
Subject: [PATCH 17/20] =?UTF-8?q?fix:=20kanaConvert=20separates=20several?=
 =?UTF-8?q?=20strings=20converted=20to=20R=C5=8Dmaji?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The space meant for this case was never printed since the condition for
'space' was the wrong way around ('kanaConvert -r か な' printed 'kana').
---
 libs/kana/src/KanaConvert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 42c5149..1d9680c 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -227,7 +227,7 @@ void KanaConvert::start(const List& strings) {
       if (space)
         _out << (_converter.target() == CharType::Romaji ? " " : "　");
       else
-        space = _converter.target() != CharType::Romaji &&
+        space = _converter.target() == CharType::Romaji ||
                 !(_converter.flags() & ConvertFlags::RemoveSpaces);
       convert(i);
     }
-- 
2.43.0


From c77252cbb5cf0b9b5aa04d24d167a23a2feef6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:50:27 +0000
Subject: [PATCH 18/20] fix: kanaConvert's -n option works for string arguments

It's documented as 'kanaConvert [-n] string ...', but the newline was
only suppressed when converting standard input.
---
 libs/kana/src/KanaConvert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 1d9680c..fea43fb 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -231,7 +231,7 @@ void KanaConvert::start(const List& strings) {
                 !(_converter.flags() & ConvertFlags::RemoveSpaces);
       convert(i);
     }
-    _out << '\n';
+    if (!_suppressNewLine) _out << '\n';
   }
 }
 
-- 
2.43.0


From 24857a070996fa0da79734d28598307aeab38a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 19/20] fix: don't overflow the stack in kanjiFormat on a very
 long kana line

---
 apps/formatMain.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index 7c1cfab..f2ccb3b 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -15,15 +15,17 @@ void format(Args args) {
   const std::filesystem::path file{args[1]};
   if (!std::filesystem::is_regular_file(file))
     throw DomainError("file not found: " + file.string());
+  // look for a non-kana character instead of matching '^[kana]+$' since matching
+  // a loop can use stack space for each character (so overflow on a long line)
   const std::wregex endsWithKanji{std::wstring{L"["} + KanjiRange() + L"]{1}$"},
-      allKana{std::wstring{L"^["} + KanaRange() + L"]+$"};
+      notKana{std::wstring{L"[^"} + KanaRange() + L"]"};
   std::ifstream f{file};
   if (!f) throw DomainError("can't open file: " + file.string());
   String line, prevLine;
   auto prevLineEndedWithKanji{false};
   while (std::getline(f, line)) {
     if (auto wline{fromUtf8ToWstring(line)}; prevLineEndedWithKanji) {
-      if (std::regex_search(wline, allKana)) {
+      if (!wline.empty() && !std::regex_search(wline, notKana)) {
         prevLineEndedWithKanji = false;
         // The previous line ended with kanji and current line is all hiragana
         // so assume the current line is furigana for the kanji at the end of
-- 
2.43.0


From 71108e86c8de1034483c1935dc78b3ef36d30a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 20/20] fix: don't overflow the stack in kanjiStats on very
 long furigana

---
 libs/stats/src/Utf8Count.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/stats/src/Utf8Count.cpp b/libs/stats/src/Utf8Count.cpp
index b8a36f1..c52170c 100644
--- a/libs/stats/src/Utf8Count.cpp
+++ b/libs/stats/src/Utf8Count.cpp
@@ -12,13 +12,23 @@ namespace {
 const String OpenWideBracket{"（"}, CloseWideBracket{"）"};
 const auto CloseWideBracketSize{CloseWideBracket.size()};
 
+// By default, libstdc++ recurses for each character matched by a loop so a very
+// long line could overflow the stack ('polynomial' matching doesn't do this).
+#ifdef __GLIBCXX__
+constexpr auto RegexFlags{
+    std::regex_constants::ECMAScript | std::regex_constants::__polynomial};
+#else
+constexpr auto RegexFlags{std::regex_constants::ECMAScript};
+#endif
+
 } // namespace
 
 namespace fs = std::filesystem;
 
 const std::wregex Utf8Count::RemoveFurigana{std::wstring{L"(["} + KanjiRange() +
                                             WideLetterRange() + L"]{1})（[" +
-                                            KanaRange() + L"]+）"};
+                                            KanaRange() + L"]+）",
+    RegexFlags};
 const std::wstring Utf8Count::DefaultReplace{L"$1"};
 
 Utf8Count::Utf8Count(
-- 
2.43.0

