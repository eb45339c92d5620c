"""What each property's campaign runs."""
_IO = "simulated: file system, stdin/stdout/stderr, terminal driver, clock, entropy source, allocator failures"
_REAL_CONV = "real: apps/convertMain.cpp, KanaConvert, Converter, Choice, String/Utf8 code, libstdc++ streams, glibc stdio"
_ASSUME = ["the C++ standard library and glibc behave as specified (they run for real, above the simulated system calls)",
           "sampled, not exhaustive: a clean campaign is evidence over the explored seeds only"]
_NOTE = "Seeded sampling of whole-process runs on a simulated OS; exact comparison with a reference model; every failure replays from its tape. No proof. "
_REAL_DATA = "real: TextKanjiData, KanjiData, ListFile, ColumnFile, UcdData, RadicalData, GroupData, JukugoData, libstdc++ file streams and filesystem, glibc stdio"
_REAL_STATS = "real: apps/statsMain.cpp, Stats, Utf8Count, Utf8Char, all Kanji data loading, std::async, std::wregex, libstdc++ streams and filesystem"
_THR = "simulated: pthread threads, mutexes, condition variables, once and futex waits (seeded scheduler)"
_REAL_QUIZ = ["real: kanjiQuiz's main, QuizLauncher, ListQuiz, GroupQuiz, GroupData, JukugoData, all data loading, Choice, libstdc++ streams and random engines, glibc stdio"]
_F_QUIZ = ["stdout_short_write", "stdin_eof", "tty_eintr", "tty_hangup", "tty_typeahead", "tty_junk_key", "tcsetattr_eintr", "rng_burst"]
_N_QUIZ = "The session model accepts any order the random engine may give but requires every printed character to be explained by it."
PROPS = {
    "C14": dict(harness="p_conv", quick=200000, thorough=1500000, real=[_REAL_CONV], stub=[_IO],
        rule="each run draws options, a session script (lines, menu commands, junk keys), type-ahead, read chunking and where input ends, or a whole command line of options and strings; distinct = distinct (input, expected transcript) pairs",
        probes=["interactive session", "piped session", "flag set through menu", "input ended early", "terminal hung up inside a prompt", "answered before more was awaited", "read error reported", "strings converted", "several strings", "command line refused", "chart shown"],
        faults=["stdin_chunk", "eio_read", "stdin_eof", "tty_eintr", "tty_hangup", "tty_typeahead", "tty_junk_key"], assumptions=_ASSUME,
        note=_NOTE + "Conversion of one line is the code's own converter, freshly constructed, so only cross-line state and session handling are judged."),
    "C15": dict(harness="p_conv", quick=200000, thorough=4000000, real=["real: apps/formatMain.cpp, Utf8/BlockRange code, std::wregex, libstdc++ file streams"], stub=[_IO],
        rule="each run draws a text of kanji-ended, kana-only and other lines, how the file is reached and a read-fault plan; distinct = distinct texts",
        probes=["joined furigana line", "read error reported", "through symlink", "very long line"],
        faults=["short_read", "eintr_read", "eio_read", "bad_sector", "open_fail", "stat_fail", "readonly_file", "unreadable_file", "stdout_short_write"], assumptions=_ASSUME, note=_NOTE + "The formatter's model is independent of the code."),
    "C05": dict(harness="p_data", quick=24000, thorough=600000, real=["real: all of libs/utils, libs/kana, libs/kanji and libs/quiz data classes, with every memory access instrumented"], stub=[_IO, "simulated: pthread threads, mutexes, condition variables, once and static guards (seeded scheduler)"],
        rule="each run loads a generated data set, then 2-4 threads run drawn batches of read-only queries, also as their very first use; results are compared with the same queries run alone; distinct = distinct interleavings (hash of the scheduling decisions)",
        probes=["first use from several threads", "queries on loaded data from several threads"],
        faults=["preemption", "stalled_thread"], assumptions=_ASSUME + ["sequentially consistent interleavings at instrumented accesses, with a happens-before race detector"], note=_NOTE + "Races are found by happens-before analysis of every access of each sampled schedule."),
    "C12": dict(harness="p_data", quick=36000, thorough=900000, real=[_REAL_DATA], stub=[_IO],
        rule="each run puts a generated data set on the simulated disk, draws a fault plan (kind, place, time) and loads it; distinct = distinct fault plans",
        probes=["load error reported", "complete data compared", "data file behind a link"],
        faults=["short_read", "eintr_read", "eio_read", "open_fail", "stat_fail", "opendir_fail", "readdir_fail", "dir_order", "dtype_unknown", "bad_sector", "readonly_file", "unreadable_file", "missing_file", "bad_alloc"], assumptions=_ASSUME,
        note=_NOTE + "The model of the loaded data is built from the generated world, not from the code."),
    "C13": dict(harness="p_data", quick=36000, thorough=900000, real=[_REAL_DATA], stub=[_IO],
        rule="each run draws a data set (up to 3100 Kanji in frequency lists), possibly damages stored files (truncation, corrupt bytes, lost blocks) and compares everything queryable with the model; distinct = distinct data sets",
        probes=["complete data compared", "damaged data loaded as it says", "damaged data refused", "damage with NUL bytes", "not a data directory"],
        faults=["truncated_file", "corrupt_byte", "lost_block", "misdirected_write"], assumptions=_ASSUME,
        note=_NOTE + "Damaged files are judged against an independent reader of the file formats: loaded as they now say, or refused with an exception; never a crash, hang or wrong data."),
    "C01": dict(harness="p_stats", quick=16000, thorough=900000, real=[_REAL_STATS], stub=[_IO, _THR],
        rule="each run draws a data set, a small input tree and a schedule (random, priority with change points, or switches at synchronisation only; stalled threads, spurious wake-ups) and compares the report with the one model answer; distinct = distinct interleavings (hash of the scheduling decisions)",
        probes=["report made by several threads"], faults=["preemption", "stalled_thread", "short_read"], assumptions=_ASSUME + ["sequentially consistent interleavings at instrumented accesses, with a happens-before race detector"], note=_NOTE + "Races are found by happens-before analysis of every access of each sampled schedule."),
    "C02": dict(harness="p_stats", quick=12000, thorough=900000, real=[_REAL_STATS], stub=[_IO, _THR],
        rule="each run draws a data set, a tree of files (kanji with and without variation selectors, furigana across lines, combining marks, malformed bytes, odd names, links), options, several arguments, directory order and read chunking; the whole report is compared with an independent counter; distinct = distinct inputs",
        probes=["furigana removed", "several directories", "unrecognized characters", "breakdown", "malformed text", "replacements shown", "refused command line", "large input", "very long furigana"],
        faults=["short_read", "eintr_read", "dir_order", "dtype_unknown", "readonly_file"], assumptions=_ASSUME, note=_NOTE + "The counter is written from the documentation and header comments, not from the code."),
    "C03": dict(harness="p_stats", quick=12000, thorough=700000, real=[_REAL_STATS], stub=[_IO, _THR],
        rule="each run adds one fault plan (bad sector, unreadable file or directory, failing open, stat, opendir, readdir or read at a drawn point, for one or all later calls) to a drawn tree; distinct = distinct (input, plan) pairs",
        probes=["failure reported"], faults=["eio_read", "open_fail", "stat_fail", "opendir_fail", "readdir_fail", "bad_sector", "unreadable_file"], assumptions=_ASSUME, note=_NOTE + "Exact report or non-zero exit with a message."),
    "C04": dict(harness="p_stats", quick=16000, thorough=900000, real=[_REAL_STATS], stub=[_IO, _THR],
        rule="each run fails thread creation (one, several or all from a drawn point) or one or more consecutive allocations at a drawn point, under a drawn schedule; distinct = distinct (input, schedule) pairs",
        probes=["thread could not be started", "out of memory", "failure reported"], faults=["thread_create_eagain", "bad_alloc"], assumptions=_ASSUME + ["allocations made below libstdc++'s directory iterator are not failed: that library code terminates by itself"], note=_NOTE + "Exact report or non-zero exit with a message; a crash, hang or data race while unwinding is a violation."),
    "C06": dict(harness="p_choice", quick=500000, thorough=10000000, real=["real: Choice, std::istream/ostream over glibc stdio, termios calls"], stub=[_IO],
        rule="each run draws up to seven prompts (ranges, choices, defaults, quit option, every overload, sometimes a refused set) and what is typed (junk, good keys, type-ahead, end of input anywhere), on a terminal or a stream; distinct = distinct (keys, transcript) pairs",
        probes=["prompt repeated", "default taken", "input ended inside a prompt", "stream lines", "prompt refused", "terminal keys", "quit chosen"],
        faults=["stdin_chunk", "stdin_eof", "tty_eintr", "tty_typeahead", "tty_junk_key", "tcsetattr_eintr"], assumptions=_ASSUME,
        note=_NOTE + "The prompt model (what is offered, shown and returned) is written from the header documentation."),
    "C07": dict(harness="p_choice", quick=500000, thorough=10000000, real=["real: Choice and kanaConvert's menu, termios calls, libstdc++ streams, glibc stdio"], stub=[_IO],
        rule="each run draws original terminal settings, a mix of prompts and line reads (or a whole kanaConvert session) and terminal faults; the settings are checked at every read and after every prompt; distinct = distinct terminal histories",
        probes=["prompts and lines mixed", "restored after raw reads", "settings could not be read", "whole program", "terminal hung up", "unusual terminal settings", "restoring was interrupted"],
        faults=["tty_eintr", "tty_hangup", "tcgetattr_fail", "tcsetattr_eintr"], assumptions=_ASSUME + ["a hung-up terminal cannot be restored"],
        note=_NOTE + "Settings are compared field by field with the ones the terminal had before the first prompt."),
    "C08": dict(harness="p_quiz", quick=240000, thorough=6000000, real=_REAL_QUIZ, stub=[_IO],
        rule="each run picks a preloaded data set, draws options (list, order, start, style, number of choices) and a simulated user who reads the screen and answers right, wrong, skips, toggles meanings, quits or loses the input; the whole transcript is judged against an exact model; distinct = distinct (arguments, keys, transcript) sessions",
        probes=["whole list done", "perfect score", "quit inside a quiz", "meanings toggled", "answered right", "answered wrong", "skipped", "prompt repeated", "input ended inside a session", "terminal hung up"],
        faults=_F_QUIZ, assumptions=_ASSUME, note=_NOTE + _N_QUIZ),
    "C09": dict(harness="p_quiz", quick=144000, thorough=4000000, real=_REAL_QUIZ, stub=[_IO],
        rule="as C08 for meaning and pattern groups: the simulated user assigns readings to entries (rightly, wrongly, or at random), edits and refreshes; groups of up to 52 members occur; distinct = distinct (arguments, keys, transcript) sessions",
        probes=["group right", "group wrong", "group beyond 26 right", "more than 26 members", "answer edited", "answer changed by an edit", "refreshed", "meanings toggled", "quit inside a quiz", "input ended inside a session", "terminal hung up"],
        faults=_F_QUIZ, assumptions=_ASSUME, note=_NOTE + _N_QUIZ),
    "C10": dict(harness="p_quiz", quick=192000, thorough=5000000, real=_REAL_QUIZ, stub=[_IO],
        rule="as C08, mostly in review mode: the simulated user moves on, back, toggles meanings and quits, in list, reversed and random order from any start number; one run in forty repeats one session 12 or 24 times in one process and compares what was drawn; distinct = distinct (arguments, keys, transcript) sessions",
        probes=["random order", "launches compared", "review", "moved back", "moved on", "test in order", "whole list done", "meanings toggled", "quit inside a quiz"],
        faults=_F_QUIZ, assumptions=_ASSUME, note=_NOTE + _N_QUIZ),
    "C11": dict(harness="p_quiz", quick=80000, thorough=2000000, real=_REAL_QUIZ, stub=[_IO],
        rule="each run starts the whole program (data load included) with drawn arguments: valid, contradictory, damaged, Kanji look-ups of every form, menus walked by a simulated user; distinct = distinct (arguments, keys, transcript) sessions",
        probes=["details shown", "help shown", "refused", "prompt repeated", "whole list done", "quit inside a quiz", "input ended inside a session"],
        faults=["stdout_short_write", "stdin_eof", "tty_eintr", "tty_hangup", "tty_typeahead", "tty_junk_key", "tcsetattr_eintr"], assumptions=_ASSUME, note=_NOTE + _N_QUIZ),
    "C16": dict(harness="p_loss", quick=96000, thorough=2000000, real=["real: the four programs' main functions and everything below them, data loading, libstdc++ streams, glibc stdio buffering"], stub=[_IO],
        rule="each run draws one of the four programs, arguments and input of every kind (files, pipes, a person at a terminal, help, look-ups, reports, quizzes), the byte at which standard output starts failing, the error, and whether space returns; distinct = distinct (arguments, accepted bytes, failure point)",
        probes=["kanjiFormat output lost", "kanaConvert output lost", "kanjiStats output lost", "kanjiQuiz output lost", "space came back", "nothing could be written", "everything was written"],
        faults=["stdout_enospc", "stdout_epipe", "stdout_eio", "stdout_short_write"], assumptions=_ASSUME + ["SIGPIPE is ignored or fatal (fatal is non-zero anyway)"],
        note=_NOTE + "A write error must end in a non-zero status and a message; texts of kanjiFormat and piped kanaConvert are also compared byte for byte."),
    "C17": dict(harness="p_report", quick=30000, thorough=900000, real=["real: main functions of kanjiQuiz and kanjiStats, TextKanjiData, KanjiData, ListFile, UcdData, RadicalData, GroupData, JukugoData and their reports, libstdc++ streams, glibc stdio"], stub=[_IO],
        rule="each run draws a data set, the program, -info or -debug, how the data directory is found, read chunking, directory order, output chunking and a fault plan, and compares the whole report with the one derived from the generated files; distinct = distinct reports",
        probes=["failure reported", "full quiz report", "full stats report", "summary report", "radicals with no Kanji", "kanji in several groups", "different strokes", "lists with linked Kanji"],
        faults=["short_read", "eintr_read", "eio_read", "open_fail", "bad_sector", "unreadable_file", "dir_order", "dtype_unknown", "stdout_short_write"], assumptions=_ASSUME + ["amounts of padding and zero-filling in the report are not judged"], note=_NOTE + "Every count, name and list in the report is predicted from the generated data files."),
}
