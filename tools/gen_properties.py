#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the source of truth for the property texts).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

L="internal/logger.go"; F="internal/logger_factory.go"; M="internal/logger_manager.go"
OB="internal/output_base.go"; OR="internal/output_rolling.go"; RW="internal/output_rollingwriter.go"; FS="internal/output_fsutil.go"
FP="internal/format_parser.go"; FT="internal/format_text.go"; CI="internal/logger_callerinfo.go"; LV="api/logger_level.go"; AP="api/logger_api.go"

p("C01","A message is emitted exactly when its level reaches the effective level",
  "A message logged at level L (Trace..Critical, through any logging method) reaches the logger's outputs if and only if L is at or above the logger's effective level: its own level if set, otherwise that of the nearest ancestor whose level is set, otherwise Off. Level(), LevelEnabled(L) and the XxxEnabled() methods answer exactly according to that same effective level, also when the outputs are inherited from an ancestor that has a different level.",
  ["inputs","configurations"],
  "every assignment of levels to the loggers of a parent chain, every placement of outputs on that chain, every message level and every logging method",
  "Tests log at a level that is enabled, on a logger that owns level and outputs; no test suppresses a message or gives child and parent different levels.",
  [L,F],[("level inheritance and gating","internal/logger.go defLogger.Level/LevelEnabled, defWriter.write")],
  ["Output.Send of a recording output","Logger.Level, LevelEnabled, XxxEnabled"],
  [("level","own level or Uninitialized","internal/logger.go defLogger")])
p("C02","Inherited outputs receive the child's event intact, exactly once, in order",
  "A message accepted by a logger is delivered to the outputs of the nearest logger on the path from it to the root that has outputs, once to each output and in their configured order, and to no other output. The delivered event carries the emitting logger's own name, the level, format, arguments and time of that call, and the context or fields attached with WithCtx / WithFields, no matter which ancestor owns the outputs.",
  ["inputs","configurations"],
  "every chain depth and placement of outputs within the bound, every level, method, field key/value and message",
  "Only one test inherits outputs, with one output, without fields; the fields test uses a logger that owns its outputs.",
  [L],[("recursive dispatch to the parent","internal/logger.go defWriter.write"),("field context","internal/logger.go defLogger.WithFields")],
  ["Output.Send of recording outputs","Event fields and Ctx"])
p("C03","Logger names form a stable tree: same name same logger, parent by prefix",
  "For every name, GetLogger returns the same logger each time, different names give different loggers, and \"\" and \"root\" both give the root logger. A logger without its own settings takes level and outputs from the logger named by its longest proper non-empty prefix that ends just before a '/' or '.', and so on up to the root logger, regardless of the order in which the loggers were first requested.",
  ["inputs","histories"],
  "all names up to the length bound over separator and ordinary (ASCII and multi-byte) characters; all orders of creation of related loggers",
  "Tests request two or three fixed names in one order and check one inherited delivery.",
  [F,"log4g.go","internal/log4g.go"],[("prefix walk that creates parents","internal/logger_factory.go getParent, createLogger")],
  ["identity of GetLogger results","Level() and deliveries of descendants"])
p("C04","A configured logger gets its settings whatever the order of creation",
  "After a configuration is accepted, every logger it lists (the root logger as 'root') has exactly the configured level and outputs, and every logger it does not list inherits both from its nearest ancestor. This holds whether a logger was requested before or after the configuration was set and whether it first came into existence through its own request or as the ancestor of another logger.",
  ["histories","configurations"],
  "every choice of levels and outputs for the configured loggers of a tree and every interleaving of SetConfig and GetLogger calls within the bound",
  "Tests configure only top-level names and always request the configured logger itself, after configuring.",
  [F,M],[("configuration applied on creation and on notification","internal/logger_factory.go GetLogger, createLogger, notify"),("lookup of a logger's outputs","internal/logger_manager.go GetLoggerOutputs")],
  ["Level() and deliveries of GetLogger results"])
p("C05","Invalid configuration is rejected with an error and changes nothing",
  "A configuration with two formats, two outputs or two loggers of the same name, an output naming an undefined format or a logger naming an undefined output, a document that does not parse, or a document of an unsupported type (or a file without a supported extension) is refused with an error, never a panic, and leaves every logger's level and outputs as they were. A configuration without any such defect is accepted without error.",
  ["inputs","configurations"],
  "all configurations within the size bound, with symbolic names and references; parse success or failure with arbitrary partial results; all file extensions within the length bound",
  "No test loads an invalid configuration; only one valid document is ever loaded.",
  [M],[("validation before installation","internal/logger_manager.go validateConfig, setConfig, LoadConfig, LoadConfigFile")],
  ["error result of SetConfig/LoadConfig/LoadConfigFile","Level() and deliveries before and after"])
p("C06","Accepted reconfiguration takes effect for existing and future loggers",
  "Once SetConfig has accepted a configuration whose formats and outputs can be created (registered types, layouts with a verb), messages of every logger the new configuration lists are filtered by its new level and delivered to its new outputs rendered with their new formats, also when the new configuration reuses the name of an output or format with a changed definition, and a logger listed only in an earlier configuration goes back to inheriting. Loggers that name the same output share one instance of it.",
  ["histories","configurations"],
  "every pair of successive configurations within the bound (levels, output lists, output attributes, format layouts symbolic), loggers created before, between or after",
  "No test configures the same manager twice with loggers alive.",
  [M,F],[("output and format caches","internal/logger_manager.go GetLoggerOutputs, setConfig"),("notification of the factory","internal/logger_factory.go notify")],
  ["which output instance receives the event and how it was configured"])
p("C07","The logged text is exactly what fmt would produce from the call",
  "The message text of Xxx(args...) is fmt.Sprint(args...), that of Xxxf(format, args...) and Printf with a non-empty format is fmt.Sprintf(format, args...) when arguments are given, and the format string itself, unmodified, when none are given. Percent signs, braces or verb-like sequences inside arguments, field values or argument-less formats are reproduced literally and never interpreted again.",
  ["inputs"],
  "all message and argument strings up to the length bound, all argument counts up to the bound, all twelve level methods and Printf",
  "Tests use two constant messages without special characters.",
  [AP,L,FP],[("Event.Message","api/logger_api.go Event.Message"),("verb evaluation","internal/format_parser.go StringFormatter.Format")],
  ["bytes written by an output with layout %{msg}"])
p("C08","A layout renders its literals verbatim and every verb in place",
  "Formatting an event with a layout yields the layout's literal text unchanged and in order, with each %{verb} replaced by that property of the event and each %{verb:fmt} by that property formatted with %fmt (for time: with fmt as the time layout); a name (letters and digits) that is no built-in verb is replaced by the value of the field of that name, the last one attached if repeated. A layout without any verb is rejected. The format part is non-empty and free of '}', backslashes and line breaks; all other text is literal.",
  ["inputs"],
  "all literal texts and verb names up to the length bound around one or more verbs, all built-in verbs, all event values; field keys and values symbolic",
  "Tests render five fixed layouts.",
  [FP,FT],[("layout parser","internal/format_parser.go StringFormatter.Parser"),("renderer","internal/format_parser.go StringFormatter.Format")],
  ["bytes returned by Formatter.Format"])
p("C09","Caller information names the statement that logged",
  "The file, line, package and function rendered by the caller verbs are those of the statement that called the logging method, for every logging method including Printf, called on the logger or on a writer from WithFields or WithCtx, with outputs of its own or inherited through any number of ancestors, synchronous or asynchronous. SetCallerSkip(n) moves the reported statement exactly n frames up the call stack. This holds whatever fields or context the call has (also the context of another event) and whether a formatter was set before or after SetOutputs.",
  ["inputs","configurations"],
  "every logging method x receiver kind x inheritance depth x skip count within the bound, every caller verb, sync and async outputs",
  "Tests check the function or file name of a Debug call on a logger with its own synchronous output.",
  [CI,L,FP,FT],[("call depth bookkeeping","internal/logger.go callerSkip, defWriter.write; internal/logger_callerinfo.go getCallerInfo"),("collection before dispatch","internal/format_text.go CallerInfoFlag; internal/logger.go SetOutputs")],
  ["rendered %{shortfile}, %{line}, %{longfunc}, %{shortfunc}, %{longpkg}, %{shortpkg}"])
p("C10","Every output applies its threshold exactly",
  "An output of any kind (console, rolling file, syslog; synchronous or asynchronous) writes an event it receives if and only if the event's level is at or above the output's configured threshold, and an absent or unrecognised threshold lets every level through. Whether one event passes never depends on the other events or outputs.",
  ["inputs","configurations"],
  "all event levels x all thresholds x all output kinds; threshold strings symbolic up to the length bound; sequences of events of arbitrary levels",
  "One test sends two events through one async output with one threshold.",
  [OB,"internal/output_console.go",OR,"internal/output_syslog.go"],[("threshold test","internal/output_base.go baseOutput.Send, asyncOutput.loop; internal/output_syslog.go Send"),("threshold parsing","internal/output_base.go GetThresholdLvl")],
  ["bytes reaching the underlying writer"])
p("C11","Level names parse case-insensitively and back to the same level",
  "Parsing the name of any level in any mixture of letter case yields that level, every level prints its documented long and short name, and parsing any string that is not such a name yields the 'uninitialized' level (a dotless i in the place of an I is left open). The order All < Trace < Debug < Info < Warn < Error < Critical < Off holds.",
  ["inputs"],
  "all ASCII strings up to the length bound, independent of map iteration order",
  "Tests parse 'error' in three spellings and one invalid string.",
  [LV],[("name table","api/logger_level.go levelStrings, LevelFrom")],
  ["LevelFrom, String, ShortStr"])
p("C12","Numeric output settings are honoured in range and made safe out of range",
  "For every setting string: queue_size yields the given integer if it lies in 1..100000, 100000 if larger and 1000 otherwise; batch_num the given integer in 1..500, 500 if larger and 20 otherwise; backups the given integer in 1..20, 20 if larger and 5 otherwise; and file_perm, back_perm, dir_perm the given (octal, decimal or hex literal) mode if it lies in 1..0777 and the documented default otherwise. An asynchronous output takes as many events as queue_size before a Send waits, writes by the time batch_num events wait, and no more backups remain than backups says.",
  ["inputs"],
  "all strings up to the length bound (digits, signs, letters, prefixes), including overflowing numbers",
  "No test sets any of these from a configuration string and observes the outcome.",
  [OB,OR],[("clamping parsers","internal/output_base.go GetQueueSize, GetBatchNum; internal/output_rolling.go getMaxRolls, getFileMode")],
  ["GetQueueSize, GetBatchNum","Send and the writes of outputs built from a configuration","number of backups kept and permission arguments of file operations for a rolling output built from the configuration"])
p("C13","The size limit of a rolling file means what the configuration says",
  "A size of n, nK, nM or nG (n a positive integer) makes the rolling file roll as soon as a write starts with the file at or above n, n*1024, n*1024^2 or n*1024^3 bytes, and not before. A missing, malformed, non-positive or unrepresentable size gives the default for its unit (10M, or 10M, 10M, 1G for a malformed K, M, G number) and never a limit that is zero or negative.",
  ["inputs"],
  "all size strings up to the length bound; all sizes of the existing file (64-bit symbolic)",
  "No test builds a rolling output from a configuration with a size.",
  [OR,RW],[("size parser","internal/output_rolling.go getMaxSize"),("roll decision","internal/output_rollingwriter.go rollingFileWriterSize.needsToRoll")],
  ["whether a write renames the current file"])
p("C14","An async output loses and repeats nothing: all sent before Close is written",
  "Every event at or above the threshold whose Send returned before Close was called has been handed to the underlying writer exactly once by the time Close returns, and events from one sender are written in the order they were sent. This holds for every scheduling of senders, flusher, timer and closer, every queue size and every batch size.",
  ["schedules","histories"],
  "all interleavings of the sender, closer, timer and writer goroutines, for all event levels, thresholds, queue and batch sizes within the bound",
  "The only async test sends two events, sleeps six seconds and closes; it exercises one schedule and never checks what Close guarantees.",
  [OB],[("queue, writer loop, close handshake","internal/output_base.go asyncOutput")],
  ["bytes given to the underlying writer when Close returns"],
  [("evtChan/closed/wait","queue and shutdown state","internal/output_base.go asyncOutput")])
p("C15","Concurrent Send and Close never panic, deadlock or write after Close",
  "Any number of goroutines may call Send and Close on an asynchronous output concurrently and repeatedly: no call panics, every call returns, and nothing is written after a completed Close. A Send that overlaps or follows Close either delivers its event exactly once or drops it.",
  ["schedules"],
  "all interleavings of concurrent senders and closers with the writer goroutine and timer within the bound, full and non-full queues",
  "No test calls Send and Close concurrently or Close twice.",
  [OB],[("close handshake","internal/output_base.go asyncOutput.Send, Close, loop")],
  ["panics, deadlocks, data races, writer calls after Close"])
p("C16","Asynchronous batching does not change what is written",
  "For every sequence of events, the bytes an asynchronous output has written after Close equal the bytes the synchronous output with the same formatter and threshold writes for that sequence (arguments and field values are not modified after the call), for every batch size, queue size and timing of the periodic flush. A flush never happens later than the event that fills the batch, and periods without events leave the target as it is (a rolling file neither rolls nor loses a backup to them).",
  ["inputs","schedules"],
  "all sequences of events (symbolic levels and contents), thresholds, batch sizes and timer firings within the bound",
  "The async test writes one event with batch size one.",
  [OB],[("batch buffer and flush","internal/output_base.go asyncOutput.flush, loop")],
  ["bytes given to the underlying writer"])
p("C17","Size rolling neither loses, splits, reorders nor duplicates records",
  "For every sequence of writes, the backups in order of their number followed by the current file contain every record written, whole, once and in order (apart from whole backups removed by retention), and content that existed before start-up is preserved. A roll happens exactly when a write finds the file at or above the limit, so no file exceeds the limit by more than its last record, and a backup is never overwritten.",
  ["inputs","histories"],
  "all record lengths and contents, limits, naming modes, contents of an already existing file and pre-existing directory entries within the bound",
  "Tests write one or two equal records and compare file names only, never contents.",
  [RW,OR],[("roll and reopen","internal/output_rollingwriter.go Write, roll, createFileAndFolderIfNeeded"),("numbering","internal/output_rollingwriter.go getNewHistoryRollFileName, sortFileRollNamesAsc")],
  ["directory listing and file contents after every write"])
p("C18","Retention deletes only the oldest own backups, and only beyond the limit",
  "After a roll at most the configured number of backups of this log remain, and those removed are the oldest ones: no backup is deleted while an older one is kept and none is deleted while the number is within the limit. A backup is a regular file named <file>.<label> or <label>.<file> whose label is a positive decimal number without leading zeros (size rolling) or parses with the time pattern (time rolling). Files that are not backups of this log (other names, other suffixes, directories), and the current file, are never renamed, changed or deleted.",
  ["inputs","histories"],
  "all directory contents within the bound (symbolic file names including non-numeric, signed and multi-digit suffixes, directories, foreign files), all limits, both naming modes, size and time rolling",
  "Tests cover a handful of directory contents with at most two backups.",
  [RW,FS],[("history listing and sorting","internal/output_rollingwriter.go getSortedLogHistory, isFileRollNameValid, sortFileRollNamesAsc"),("deletion","internal/output_rollingwriter.go deleteOldRolls"),("directory scan","internal/output_fsutil.go getDirFilePaths")],
  ["directory listing after each roll"])
p("C19","With archiving on, a log is archived before it is deleted, whatever fails",
  "When archiving (zip or gzip) is configured, every backup that retention removes is found complete under its name in an archive, and at every instant of a roll (crash at any point) and after the failure of any single file operation each record is still present in the current file, a backup or an archive. An existing archive's entries survive the addition of new ones. (Backup numbers and period labels are taken not to recur.)",
  ["crash_points","fault_sequences","configurations"],
  "every file operation of the roll as crash point or failing operation, zip and gzip, one-file-per-backup and single-archive modes, record contents symbolic",
  "Two tests check that an archive file name appears; no test opens it, and no test goes through the configuration, injects an error or a crash.",
  [RW,OR,"internal/archive/archive.go"],[("archive then delete","internal/output_rollingwriter.go deleteOldRolls, archiveExplodedLogs, archiveUnexplodedLogs"),("temporary file swapped in by rename","internal/output_rollingwriter.go tempArchiveFile")],
  ["directory and archive contents after each file operation"])
p("C20","Time rolling files each record under the period it was written in",
  "A time-rolling file rolls exactly when the formatted current time differs from that of the previous write; the backup then made is named with the period that has ended and holds exactly the records written in it, while the current file holds those of the current period. Backups in time order followed by the current file reproduce all records in order (what the file held at start-up counts as the first period's; the clock does not go back).",
  ["inputs","histories"],
  "all non-decreasing clock sequences over the period bound, record contents, naming modes and retention limits within the bound",
  "No test rolls by time.",
  [RW],[("period label","internal/output_rollingwriter.go rollingFileWriterTime.needsToRoll, getNewHistoryRollFileName")],
  ["file names and contents after every write"])
p("C21","A failed file operation neither loses accepted records nor stops logging",
  "If file operations fail during writes, rolls or start-up, then no record whose write reported success is lost or altered, and once operations succeed again later writes succeed and are recorded, and rolling resumes. A failing operation never makes the writer panic or fail for good.",
  ["fault_sequences"],
  "every single (and pair of) failing file operation(s) (open, stat, write, close, rename, directory read, remove, mkdir, chmod) at every point of a sequence of writes within the bound; size and time rolling",
  "No test injects an error.",
  [RW,FS],[("error paths of roll and Write","internal/output_rollingwriter.go Write, roll, createFileAndFolderIfNeeded")],
  ["result of Write","directory contents after the sequence"])
p("C22","Copying an archive preserves every entry's name and bytes, in order",
  "Archives written by the zip, tar and gzip writers read back as the same sequence of entries (names and contents), and copying from any supported reader to any supported multi-entry writer yields the same sequence again, whichever formats are involved (a gzip file holds one entry, whose name is the one its reader was opened with; directories are not entries). An error of the source or destination is reported, never swallowed.",
  ["inputs","fault_sequences"],
  "all sequences of entries within the bound with symbolic names and contents (including empty), all pairs of formats, every failing read or write",
  "Tests copy a few fixed entries and no failing streams.",
  ["internal/archive/archive.go","internal/archive/tar/tar.go","internal/archive/zip/zip.go","internal/archive/gzip/gzip.go"],[("Copy and its specialisations","internal/archive/archive.go Copy, copyBuffer, copyTar, copyZip"),("entry iteration","NextFile of each reader/writer")],
  ["entries read back from the destination"])
p("C23","Syslog severity follows the event level",
  "Each event that passes the threshold of a syslog output is sent to syslog exactly once with the rendered text, at severity debug for Trace and Debug, info for Info, warning for Warn, err for Error and crit for Critical.",
  ["inputs"],
  "all levels, thresholds and message contents within the bound, with and without a formatter",
  "No stable test reaches the syslog output (it needs a daemon).",
  ["internal/output_syslog.go"],[("severity switch","internal/output_syslog.go syslogOutput.Send")],
  ["calls on the syslog connection"])
p("C24","Files, backups and directories get the configured permissions",
  "The log file is created with the configured file permissions, every backup a roll makes ends up with the configured backup permissions, and missing directories of the log are created with the configured directory permissions, for size and time rolling, after every roll.",
  ["configurations","histories"],
  "all permission values 1..0777 and any number of rolls within the bound",
  "No test looks at permissions.",
  [RW,OR],[("permission arguments","internal/output_rollingwriter.go createFileAndFolderIfNeeded, roll")],
  ["permissions of files and directories in the file system"])
p("C25","Closing the manager flushes and closes every output once configured",
  "When the manager's Close returns, every event logged before the call through any logger has reached its target, for all outputs the current configuration or an earlier one has created, asynchronous or not; calling Close again is harmless. Receiving SIGINT or SIGTERM triggers the same flush.",
  ["schedules","configurations"],
  "all numbers of outputs and events within the bound, all schedules of their writer goroutines, in any closing order; both signals",
  "One test calls Close on idle outputs and checks nothing about delivery.",
  [M,"internal/log4g.go",OB],[("Close iterates outputs","internal/logger_manager.go Close"),("signal handler","internal/log4g.go init")],
  ["bytes at the target when Close returns"])
p("C26","Concurrent writers never interleave or lose records in a rolling file",
  "When several goroutines write to the same rolling output, each record appears contiguous and exactly once in one file, records of one goroutine keep their order, and rolling keeps its guarantees, for every schedule.",
  ["schedules"],
  "all interleavings of concurrent writes with rolls in between, within the bound, checked for data races",
  "No test writes concurrently.",
  [RW],[("writer lock","internal/output_rollingwriter.go Write, rollLock")],
  ["directory contents after all writers finish"])
p("C27","Loggers may be created, configured and used concurrently",
  "Concurrent GetLogger calls with the same name return the same logger, and logging, GetLogger and SetConfig may run concurrently without data race, panic or deadlock: each message is filtered by a level and delivered to outputs in force before or after a concurrent SetConfig (each logger changes level and outputs one after the other), and to each of those outputs once. After concurrent SetConfig calls have returned, all loggers follow one and the same of these configurations.",
  ["schedules"],
  "all interleavings of two or three goroutines doing GetLogger, SetConfig and logging calls, within the bound",
  "No test uses more than one goroutine with the factory or manager.",
  [F,M,L],[("factory lock","internal/logger_factory.go GetLogger, notify"),("manager lock","internal/logger_manager.go")],
  ["identity of loggers, deliveries, data races"])

p("C28","A loaded document has the effect of the configuration it spells",
  "A YAML document (type or extension yaml or yml) or JSON document (json), in any letter case of the type, loaded from memory or from a file, takes effect exactly as the configuration it spells: its formats, outputs and loggers lists, in any order of the keys, give each logger its level and outputs, and the creator of a format or output receives every key and value of its entry unchanged; other keys of the document or of a logger change nothing.",
  ["inputs","configurations"],
  "documents within the size bound with symbolic values, every order of keys, every supported type name, from memory and from files",
  "One valid document is loaded by one test, and what the creators receive is never looked at.",
  [M,"api/logger_mange.go"],[("decoding by type into Config","internal/logger_manager.go LoadConfig, LoadConfigFile"),("keys of the documents","api/logger_mange.go Config, CfgLogger field tags")],
  ["creator arguments","Level() and deliveries after loading"])
p("C29","Registered creators make every output and format of their type",
  "After RegisterOutputCreator / RegisterFormatterCreator the given function, and for a type registered several times the last one given, makes every output or format of exactly that type created afterwards, also for the name of a bundled type. It is called at most once per definition of the configuration in effect, with exactly the keys and values of that definition, and whatever it does to the map it is given changes no definition; every logger naming the output delivers to the instance it returned, which has the formatter instance of its own format set. A creator that fails, or a type nobody registered, affects no logger that does not name that output.",
  ["inputs","configurations"],
  "all type names within the length bound and those of the bundled types, every order of registration, configuration and first use within the bound",
  "Tests use the bundled types only.",
  [M],[("creation on first use","internal/logger_manager.go GetLoggerOutputs"),("registration","internal/logger_manager.go RegisterOutputCreator, RegisterFormatterCreator")],
  ["creator arguments and number of calls","deliveries to the returned instances"])
p("C30","Logging after Close is harmless, and a new configuration starts anew",
  "After the manager's Close, logging through any logger, requesting loggers, changing settings, setting a configuration and closing again neither panic nor block, for every bundled output type, asynchronous or not. What was written before Close stays where it is; a later message is written at most once and never in pieces. A configuration set after Close whose outputs were not defined before works like the first one.",
  ["inputs","histories"],
  "every sequence of operations after Close within the bound, for each bundled output type, synchronous and asynchronous",
  "No test uses anything after Close.",
  [OB,M],[("closed asynchronous output","internal/output_base.go asyncOutput.Send, Close"),("outputs closed and kept","internal/logger_manager.go Close")],
  ["text at the targets","panics and deadlocks"])
p("C31","Each bundled output writes exactly the rendered bytes, in order",
  "A console, memory, syslog or rolling-file output, asynchronous or not, hands its target for each event it accepts exactly the bytes its formatter returned for it, whatever they are and even if they are none, in the order sent and nothing else; the formatter is asked once per event. A synchronous output has done so when Send returns, an asynchronous one when Close returns. Outputs with different files, and memory outputs, do not share text.",
  ["inputs"],
  "all sequences of events within the bound with symbolic levels and rendered bytes, every bundled type, batch size and mode",
  "One test writes fixed messages to an asynchronous output; console, memory and syslog outputs are compared for one fixed message at most.",
  [OB,"internal/output_console.go","internal/output_memory.go","internal/output_syslog.go",OR],[("writing of rendered events","internal/output_base.go baseOutput.Send, asyncOutput.loop"),("memory buffer","internal/output_memory.go")],
  ["bytes at the targets","calls of the formatter"])
p("C32","Without configuration everything goes to standard output, in the default layout",
  "In a process that has set no configuration, or only ones that were rejected, every logger has level All and each message of any logger through any method is written to standard output once and at once, as a line with time, level padded to five, process id padded to six, logger name, message and in parentheses function, package, file and line of the logging statement. Under a configuration that does not list the root, the root and all that inherit from it have level Debug, and their messages are written there as a line with level padded to five, time, logger name and message.",
  ["inputs","histories"],
  "every logger of a set of names, every method and writer, every rejected configuration within the bound, all messages within the length bound",
  "No test relies on the default configuration.",
  ["internal/log4g.go"],[("default configuration","internal/log4g.go init")],
  ["text on standard output","Level()"])

p("C33","Name, place, archive and mode settings mean exactly what they say",
  "A rolling output writes to the file its configuration names, absolute or relative to the working directory and whatever characters the name has, makes missing directories, and puts backups and archives next to that file. A backup of <file> with label L is named L.<file> if name_mode is exactly 'prefix' and <file>.L for every other value or none; what retention removes is archived as zip or gzip if archive is exactly 'zip' or 'gzip', and simply deleted otherwise. Unless async is exactly 'true' an output of any bundled type has written an event when Send returns.",
  ["inputs","configurations"],
  "all strings within the length bound for each setting, file and directory names of any bytes within the bound, size and time rolling",
  "Tests set these fields of the writer directly and use one file name.",
  [OR,RW,"internal/output_console.go"],[("settings of a rolling output","internal/output_rolling.go NewRollingOutput"),("names of backups and archives","internal/output_rollingwriter.go"),("asynchronous or not","internal/output_console.go NewConsoleOutput, internal/output_rolling.go NewRollingOutput")],
  ["names and contents of all files"])

p("C34","Nothing is left behind: open files, temporary files, goroutines, timers",
  "However often a rolling output rolls and archives and whichever file operation fails, between two calls it keeps at most one file open; every other file or directory it opened has been closed, and no temporary file of its archives remains (unless removing it failed). Once an asynchronous output, or the manager, has been closed, its goroutines end and its periodic flush stops, whatever was sent or configured before. Synchronous outputs, requesting loggers and setting configurations start no goroutine or timer.",
  ["fault_sequences","schedules","histories","configurations"],
  "every kind of rolling, archive type and single failing operation at any place, every schedule of senders, timer and closer within the bounds",
  "A leak shows only after many rolls, failures or reconfigurations; tests make a few files and never look at descriptors or goroutines.",
  [RW,FS,OB,M],[("closing of files","internal/output_rollingwriter.go archiveExplodedLogs, archiveUnexplodedLogs, roll; internal/output_fsutil.go getDirFilePaths"),("end of the flusher","internal/output_base.go asyncOutput.Close, loop"),("closing outputs","internal/logger_manager.go Close")],
  ["number of open files after each call","temporary files","goroutines and timers after Close"])

p("C35","Configuration lookups tell exactly what is in effect",
  "GetLoggerOutputs(name) of the manager gives, for a logger listed in the configuration in effect whose outputs can be created, exactly its configured level and the instances of its outputs in the configured order, the very ones the logger delivers to, and an error for every other name; asking again gives the same and changes the level and outputs of no logger. GetCfgLogger, GetCfgOutput and GetCfgFormat return the entry of exactly the given name, or nothing if there is none, and Name, Type and FormatName of an entry its values, empty if absent.",
  ["inputs","configurations","histories"],
  "all names of the entries and of the question, which loggers are listed, with which levels and outputs, which outputs cannot be created, whether loggers exist before",
  "Tests look up one logger of one configuration.",
  [M,"api/logger_mange.go"],[("lookup of outputs","internal/logger_manager.go GetLoggerOutputs"),("lookup of entries","api/logger_mange.go GetCfgLogger, GetCfgOutput, GetCfgFormat")],
  ["values and instances returned"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
