"""Writes /verif/properties.jsonl (kept as code so the statements stay reviewable in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    if state: a["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
ST, U8 = "libs/stats/src/Stats.cpp", "libs/stats/src/Utf8Count.cpp"
p("C01", "kanjiStats' report does not depend on thread scheduling and has no data race",
  "For fixed arguments, data directory and input tree, kanjiStats prints the same bytes and exits with the same status under every interleaving of its worker threads. No two of its threads ever access the same memory without ordering when one of them writes, and no schedule deadlocks or stops making progress.",
  ["schedules", "inputs"], "every interleaving of the nine counting threads and the main thread, for every input tree",
  "the tests run each stats case once on whatever schedule the machine happens to give, and compare the final text only; a race that needs a particular preemption is invisible to them",
  [ST, U8, "apps/statsMain.cpp", "libs/kanji/src/KanjiData.cpp"],
  [("nine std::async tasks over shared data", ST + ":countKanji"), ("per-task counter and string stream", ST + ":Pred::run"), ("results collected in a fixed order", ST + ":countKanji")],
  ["stdout bytes and exit status of the whole process", "every memory access of the program's code (race detector)"])
p("C02", "kanjiStats counts each character of a tree exactly once, in the right class",
  "For every tree of regular files, the totals, unique counts, per-type lines with their examples, percentages, breakdown and file/directory numbers in the report are exactly those of the characters in the files and in the file and directory names, with furigana removed only where the documentation says and links inside a directory skipped. The report is independent of how reads are split and of directory entry types reported by the file system; given one directory order it is fully determined, and the input tree is never modified.",
  ["inputs", "configurations"], "every input tree, directory order, read chunking, set of options and set of loaded Kanji",
  "tests sample a few fixed files read in one piece from a real file system; bracket joining across lines, ordering ties and directory order combine in ways they never visit",
  [ST, U8, "libs/kana/src/Utf8Char.cpp", "libs/utils/include/kt_utils/UnicodeBlock.h"],
  [("recursive directory walk", U8 + ":doAddFile"), ("cross-line furigana joining", U8 + ":processFileWithRegex"), ("class predicates", ST + ":countKanji"), ("example and breakdown order", ST + ":Count::operator<")],
  ["stdout of the process", "file system after the run"])
p("C03", "kanjiStats under file-system faults reports everything or says it failed",
  "When opening, reading or listing any part of the named input fails, kanjiStats either still prints the exact report for the complete input or exits with a non-zero status and a message on the error stream; it never exits 0 with a report that silently leaves out part of the input. The input tree is never modified and the run always ends.",
  ["fault_sequences", "inputs"], "every sequence of failing or short reads, opens, stats and directory reads, on every file and offset, seen by any of the nine workers",
  "the tests use a healthy file system, so no error path of the readers is ever taken",
  [U8, ST, "apps/statsMain.cpp"], [("file reading loop", U8 + ":processFile, processFileWithRegex"), ("directory walk", U8 + ":doAddFile"), ("exception to exit status", "apps/statsMain.cpp")],
  ["stdout, stderr and exit status"])
p("C04", "kanjiStats fails cleanly when threads or memory run out",
  "If starting a worker thread fails or an allocation fails anywhere in any thread, kanjiStats either prints the exact report or ends with a non-zero status and a message; it never crashes, hangs, leaves a thread using destroyed data, or exits 0 with a wrong report.",
  ["fault_sequences", "schedules"], "every failing thread creation and every failing allocation, at every point and under every schedule",
  "thread creation and allocation never fail in a test run",
  [ST, "apps/statsMain.cpp"], [("futures and captured state unwound on failure", ST + ":countKanji"), ("report stream", ST + ":Pred::run")], ["stdout, stderr, exit status, race detector"])
p("C05", "Loaded Kanji data can be queried from many threads at once",
  "Once loading has finished, any number of threads may run the read-only queries (finding Kanji by name, frequency, Morohashi or Nelson ID, reading their attributes and order, converting kana with a converter of their own, classifying and validating UTF-8) at the same time. Every query returns what it returns when run alone, and no two threads race.",
  ["schedules", "inputs"], "every set of concurrent read-only operations and every interleaving of them",
  "tests call the queries from one thread, so lazily initialised or cached state never races",
  ["libs/kanji/src/KanjiData.cpp", "libs/kanji/src/Kanji.cpp", "libs/kana/src/Kana.cpp", "libs/kana/src/Converter.cpp", "libs/utils/src/UnicodeBlock.cpp"],
  [("const queries", "libs/kanji/include/kt_kanji/KanjiData.h"), ("function-local statics and lazily built maps", "libs/kana/src/Kana.cpp, libs/kanji/src/Kanji.cpp, libs/utils/src/Utf8.cpp")], ["query results", "every memory access of the code"])
CH = "libs/kana/src/Choice.cpp"
p("C06", "A prompt returns only an offered choice and always ends",
  "Whatever keys are typed, however they are chunked, typed ahead or interrupted by signals, a prompt returns only one of the choices it offered, the default when Enter is pressed and a default exists, or the quit choice when quitting is allowed. Keys that are not offered only cause the prompt to be shown again, no key is lost or read twice, and when input ends or the terminal hangs up the prompt ends with an error instead of looping.",
  ["inputs", "histories", "fault_sequences"], "every key sequence, chunking, signal interruption and end of input, for every set of choices",
  "tests feed a few well-formed keys through a string stream; raw terminal reads are never exercised at all",
  [CH, "libs/kana/include/kt_kana/Choice.h"], [("raw character read", CH + ":getOneChar"), ("prompt loop", CH + ":get")], ["return value, prompt text, keys consumed"])
p("C07", "The terminal is always given back as it was found",
  "Whatever terminal settings are in force when a prompt starts, exactly those are in force again when it returns or fails, including when reading is interrupted by a signal, when the terminal hangs up, when setting or getting attributes fails, and when the same program prompts many times. While a prompt waits for a key, single keys are delivered without Enter and without echo, and line input between prompts happens in the original mode.",
  ["histories", "fault_sequences", "configurations"], "every initial terminal state, every sequence of prompts and line reads, every signal and failure point",
  "tests read from a string stream, so the terminal code never runs under test",
  [CH], [("raw mode enter and leave", CH + ":getOneChar, RawMode")], ["terminal attributes as seen by the terminal driver"])
QZ = "libs/quiz/src/"
p("C08", "A list quiz session asks every question and keeps a true score",
  "In any session of a frequency, grade, kyu or level quiz, questions are asked in list order from the chosen start, each shows exactly the chosen number of distinct answers with exactly one of them right, and an answer is marked correct exactly when the user picked the right one. The final score, skipped count and list of mistakes equal what really happened, in any mix of answers, skips, meaning toggles and quitting at any prompt.",
  ["histories", "inputs", "configurations"], "every sequence of user actions and every random choice of wrong answers, for every list, start, order and number of choices",
  "tests drive a handful of scripted sessions; the wrong answers and their positions come from a random engine that tests never vary",
  [QZ + "ListQuiz.cpp", QZ + "Quiz.cpp"], [("answer choices", QZ + "ListQuiz.cpp:populateAnswers"), ("question loop", QZ + "ListQuiz.cpp:start"), ("score", QZ + "Quiz.cpp:finalScore")], ["terminal transcript of the session"])
p("C09", "A group quiz session matches answers to entries correctly, with edits",
  "In any session of a meaning or pattern group quiz, every reading shown belongs to exactly one shown entry, each entry gets the answer last assigned to it, no answer is used twice, edits replace exactly the chosen entry, and a group counts as correct exactly when every entry matches. Groups of every allowed size, refresh, skip, meaning toggles, duplicate readings and quitting at any prompt keep the score, mistakes and skipped numbers exact.",
  ["histories", "inputs", "configurations"], "every sequence of answers, edits, refreshes, skips and quits, for groups of every allowed size and every shuffle",
  "tests play a few fixed sessions on small groups; groups beyond 26 entries and edit orders are not reached",
  [QZ + "GroupQuiz.cpp", QZ + "GroupData.cpp"], [("answers and edits", QZ + "GroupQuiz.cpp:getAnswers, editAnswer"), ("checking", QZ + "GroupQuiz.cpp:checkAnswers")], ["terminal transcript of the session"])
p("C10", "Review and question order: every item once, back and forth consistently",
  "Beginning order lists every item in file order, ending order the reverse, and random order a permutation that is different from launch to launch; a start position n begins at the n-th item of that order. In a test, the place of the right choice, the wrong choices and the arrangement of a group's members and readings are drawn anew as well. In review mode, going forward and back always shows the item of the current position with the same text each time, never leaves the list, and ends after the last item or on quit.",
  ["histories", "configurations", "inputs"], "every sequence of next, previous, toggle and quit, every order and start position, every random permutation",
  "tests only use the deterministic orders and a few moves",
  [QZ + "QuizLauncher.cpp", QZ + "ListQuiz.cpp", QZ + "GroupQuiz.cpp", QZ + "Quiz.cpp"], [("orders", QZ + "QuizLauncher.cpp:start, processList"), ("review moves", QZ + "Quiz.cpp:reviewMode, moveBack")], ["terminal transcript"])
p("C11", "kanjiQuiz's menus and options lead to the selected quiz or a clean exit",
  "For every command line and every sequence of menu keys, kanjiQuiz runs the quiz on exactly the list, mode, order, size and style that were selected, shows details of exactly the Kanji asked for, or refuses with a message and a non-zero status. Quitting or end of input at any prompt ends the program, and no key sequence or argument crashes it or leaves it looping.",
  ["inputs", "histories", "configurations", "fault_sequences"], "every argument vector, key sequence and end of input, over every loadable data set",
  "tests call the launcher with a few argument sets; whole-process sessions with real menus, terminal input and end of input are not tested",
  [QZ + "QuizLauncher.cpp", "apps/quizMain.cpp"], [("argument processing", QZ + "QuizLauncher.cpp:processArgs"), ("menus", QZ + "QuizLauncher.cpp:start"), ("details", QZ + "QuizLauncher.cpp:showDetails")], ["stdout, stderr, exit status, keys consumed"])
KD = "libs/kanji/src/"
p("C12", "Data files load completely or the program refuses to start",
  "When any data file cannot be opened or read to its end, a directory cannot be listed, or memory runs out, loading either still yields exactly the complete data or fails with a non-zero exit and a message; the programs never run with part of the data silently missing. Data files that are readable but not writable load normally, and loading never modifies them.",
  ["fault_sequences", "configurations"], "every failing or short open, read, stat or directory read at every point of loading, for every data file",
  "tests load from a healthy writable disk only",
  ["libs/utils/src/ColumnFile.cpp", KD + "ListFile.cpp", KD + "TextKanjiData.cpp", QZ + "JukugoData.cpp", QZ + "GroupData.cpp"],
  [("column files", "libs/utils/src/ColumnFile.cpp:nextRow"), ("list files", KD + "ListFile.cpp:load"), ("linked Kanji", KD + "TextKanjiData.cpp:loadOfficialLinkedKanji"), ("compounds", QZ + "JukugoData.cpp:loadFile")], ["exit status, stderr, and a full dump of the loaded data"])
p("C13", "Loaded data is exactly what the files say, and bad files are refused",
  "For every well-formed data directory, each Kanji has exactly the type, grade, level, kyu, frequency, readings, strokes, radical, links and identifiers its files give it, every list is complete and in order, and looking it up by any key finds it. Files damaged by truncation, lost blocks or flipped bytes are loaded as what they then say or refused with a message; they never crash or hang the program.",
  ["inputs", "fault_sequences", "configurations"], "every well-formed data directory and every storage corruption of it",
  "tests use one fixed data set and a few hand-written malformed rows",
  [KD + "TextKanjiData.cpp", KD + "KanjiData.cpp", KD + "UcdData.cpp", KD + "RadicalData.cpp", KD + "ListFile.cpp", "libs/utils/src/ColumnFile.cpp"],
  [("load order and typing", KD + "TextKanjiData.cpp"), ("lookup maps", KD + "KanjiData.cpp:checkInsert"), ("row parsing", "libs/utils/src/ColumnFile.cpp:nextRow")], ["a full dump of the loaded data against a model built from the generated files"])
p("C14", "kanaConvert converts each line alone, with exactly the options in force",
  "However standard input is split into pieces and wherever it ends, kanaConvert prints exactly one converted line for each input line, in order, each depending only on that line and on the options in force; if reading piped input fails, it exits with a non-zero status and a message. Strings given as arguments are converted in the same way, in order and separated as the target needs, under all the options of the command line wherever they stand; unknown or contradictory options are refused before anything is printed. In interactive mode the options in force are exactly those set by the commands so far, unknown keys and commands change nothing, and the session ends on quit, end of input or hang-up.",
  ["inputs", "histories", "fault_sequences"], "every stream of lines, chunking, interactive command history, type-ahead and end of input",
  "tests convert single strings and a few scripted commands from an in-memory stream",
  ["libs/kana/src/KanaConvert.cpp", "libs/kana/src/Converter.cpp", CH, "apps/convertMain.cpp"],
  [("line loop", "libs/kana/src/KanaConvert.cpp:start"), ("interactive commands", "libs/kana/src/KanaConvert.cpp:processCommand"), ("flag prompt", CH)], ["stdout transcript and exit status"])
p("C15", "kanjiFormat keeps every line, joining only furigana lines",
  "For every text file, kanjiFormat prints every line unchanged and in order, except that a line made only of kana which follows a line ending in Kanji is printed in wide brackets at the end of that line; the last line is never lost. If the file cannot be read completely it exits with a non-zero status and a message, and the file is never modified or required to be writable.",
  ["inputs", "fault_sequences"], "every text, chunking of reads and read failure",
  "kanjiFormat has no tests at all",
  ["apps/formatMain.cpp"], [("line pairing", "apps/formatMain.cpp"), ("read failure", "apps/formatMain.cpp")], ["stdout, stderr, exit status"])
p("C16", "No program claims success when its output was lost",
  "When standard output stops accepting data at any byte (disk full, closed pipe or I/O error), each of the four programs ends by itself with a non-zero status. When every byte was accepted, also in short pieces, the output is complete.",
  ["fault_sequences", "inputs"], "every point at which writing standard output can fail, for every kind of output of the four programs",
  "tests write to string streams that never fail, and never run the programs' main functions",
  ["apps/convertMain.cpp", "apps/formatMain.cpp", "apps/quizMain.cpp", "apps/statsMain.cpp"], [("main functions", "apps/*.cpp")], ["bytes that reached standard output and exit status"])
p("C17", "The -info and -debug reports are true of the loaded data",
  "For every well-formed data directory, and however reading and writing are split up, the reports kanjiQuiz and kanjiStats print with -info and -debug state exactly what the data holds: every total and breakdown by type, grade, level and kyu, every list of Kanji found outside the standard types, every radical with its Kanji, the Unicode counts, links and variants, and every group and jukugo. If the data cannot be read completely the program exits with a non-zero status and a message instead of reporting on part of it.",
  ["inputs", "fault_sequences", "configurations"], "every well-formed data directory, read chunking and read failure",
  "tests check a handful of lines printed for one fixed data set",
  [KD + "KanjiData.cpp", KD + "TextKanjiData.cpp", KD + "UcdData.cpp", KD + "RadicalData.cpp", KD + "ListFile.cpp", "libs/quiz/src/GroupData.cpp", "libs/quiz/src/JukugoData.cpp"],
  [("totals and breakdowns", KD + "KanjiData.cpp:printCountsAndStats"), ("radical report", KD + "RadicalData.cpp:print"), ("Unicode report", KD + "UcdData.cpp:print"), ("group report", "libs/quiz/src/GroupData.cpp:printGroups"), ("list report", KD + "TextKanjiData.cpp:printListData")], ["the whole report text against one derived from the generated files"])
NA = []
def na(id, title, statement, files, mech, reason):
    p(id, title, statement, ["inputs"], "every input string or value", "tests sample a few values of an unbounded input space", files, mech)
    NA.append(dict(property=id, reason=reason))
pure = "pure function of its arguments: no concurrency, time, I/O, randomness or second party for a simulator to control; seeded input generation alone would be fuzzing, another technique. "
na("C20", "UTF-8 decoding, encoding and validation agree with the standard", "Every valid UTF-8 string round-trips through the wide-character forms, and validation accepts exactly the well-formed sequences.", ["libs/utils/src/Utf8.cpp"], [("codec", "libs/utils/src/Utf8.cpp:fromUtf8, toUtf8, validateUtf8")], pure + "It is exercised for real under C01-C03 and C14.")
na("C21", "Kana conversion is consistent between Hiragana, Katakana and Romaji", "Converting between Hiragana and Katakana is a bijection on supported kana, and converting kana to Romaji and back yields the same kana, under every flag.", ["libs/kana/src/Converter.cpp", "libs/kana/src/Kana.cpp"], [("conversion", "libs/kana/src/Converter.cpp:convert")], pure + "C14 decides the stream behaviour around it.")
na("C22", "Identifier parsers accept exactly their documented forms", "Morohashi identifiers, Pinyin, stroke counts, numbers and booleans in data columns are parsed to the value written, and everything else is refused.", ["libs/kanji/src/MorohashiId.cpp", "libs/kanji/include/kt_kanji/Pinyin.h", "libs/utils/src/ColumnFile.cpp"], [("parsers", "libs/kanji/src/MorohashiId.cpp:getId")], pure + "Well-formed and corrupted values go through it under C13.")
na("C23", "Enum lists, maps, arrays and bitmasks are consistent containers", "Every enum value appears exactly once in its list, converts to its string and back, and indexes its own slot.", ["libs/utils/include/kt_utils/EnumArray.h", "libs/utils/include/kt_utils/EnumMap.h", "libs/utils/include/kt_utils/EnumBitmask.h"], [("containers", "libs/utils/include/kt_utils")], pure)
na("C24", "Tables align wide and narrow text", "Every printed table row has the same display width, for wide, narrow and combining characters.", ["libs/kana/src/Table.cpp", "libs/kana/src/DisplaySize.cpp"], [("layout", "libs/kana/src/Table.cpp:print")], pure)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
import sys
sys.path.insert(0, here)
import props
TECH = "deterministic simulation with fault injection: seeded search over simulated runs, checked against a reference model"
checks = []
for x in P:
    i = x["id"]
    if i in props.PROPS:
        q = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough", technique=q.get("technique", TECH), level="exploration", level_note=q["note"]))
    elif not any(n["property"] == i for n in NA):
        NA.append(dict(property=i, reason="its simulation harness is not built yet"))
NA.sort(key=lambda n: n["property"])
m = dict(version=1, setup_cmd="python3 build.py " + " ".join(sorted({q["harness"] for q in props.PROPS.values()})), checks=checks, not_applicable=NA,
    notes="All seams are outside /repo (system calls, pthread calls, memory accesses and allocation are intercepted at link and symbol level), so no hooks were needed. See DESIGN.md.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
