"""The properties: text, anchors, and how each is claimed. tool/gen.py writes properties.jsonl and MANIFEST.json from this."""
I = "src/include/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[I + f for f in files],
                  mech=mech, state=state, observe=observe, technique=technique, note=note, na=na))


p("C01", "Building a record never writes outside its fixed text buffer",
  "Whatever is logged (any sequence of values of any supported type, any string, container, blank, printf-style message, prefix, file or function name of any length), "
  "the text and its length stay inside the record's fixed buffer: text that does not fit is cut short, and what the formatters write always fits in the room that was checked for it.",
  ["inputs", "programs"], "every sequence of stream operations on a record of any current length, every value, every name length, every channel and prefix combination",
  "tests write a few lengths; the bound has to hold for every operation at every fill level, where one missing or wrong room check is a silent overrun into the next record",
  ["fn_stream.h", "fn_fmt.h", "fn_channel.h", "fn_macro.h"],
  [("LogStream::write_buffer, operator<<, write_*", "fn_stream.h"), ("write_dec_unsafe, write_double_unsafe, write_date_unsafe, ...", "fn_fmt.h"), ("PushChannel, TransmitChannel", "fn_channel.h"), ("LOG_FORMAT", "fn_macro.h")],
  "LogData.content_, LogData.content_len_", "every write into a record's text",
  technique="abstract interpretation (linear bounds with disjunctions) of every stream operation, with summaries of the formatters proved from their bodies",
  note="sound for the operations of the driver under the stated entry invariant (0 <= length <= capacity-2), which every operation is shown to preserve")
p("C02", "Every published record ends with a newline and a terminator inside its buffer",
  "Every record that becomes visible to the devices, whether pushed, transmitted from another channel or recovered from a shared memory queue, "
  "ends with a newline followed by a terminating zero, both inside the record's buffer, and its stored length counts the newline.",
  ["inputs", "histories"], "every record at every content length on every publication path",
  "a sample of lengths cannot show that the terminator of the longest records stays in bounds nor that every path writes it",
  ["fn_channel.h", "fn_load.h"], [("PushChannel", "fn_channel.h"), ("InitLogger recovery of a shared queue", "fn_load.h")],
  "LogData.content_, LogData.content_len_", "the store that marks a slot as complete",
  technique="path-sensitive abstract interpretation: content stores and stored length at every publication point")
p("C03", "A queue slot belongs to one producer, and only its record is written into it",
  "When producers log concurrently, each accepted record gets a slot of its channel's queue that no other record in flight has; a slot is taken only when the queue is seen to have room, "
  "and a producer writes only to the slot it took, only between taking and publishing it.",
  ["schedules"], "every interleaving of producers and the consumer, every queue fill level including wrap-around",
  "a stress test sees a handful of interleavings; a lost compare-and-exchange or a stale full check shows up only in a narrow window",
  ["fn_channel.h", "fn_stream.h"], [("HoldChannel", "fn_channel.h"), ("PushChannel / TransmitChannel", "fn_channel.h"), ("LogStream", "fn_stream.h")],
  "RingBuffer.hold_idx_, read_idx_, LogData.data_mark_", "the stream object and the queue slots",
  technique="slot typestate by path-sensitive abstract interpretation of every producer path",
  note="assumes fewer than one full turn of the ring between reading an index and the compare-and-exchange on it (ABA)")
p("C04", "Complete records only are dispatched, once each, in order, none left behind",
  "The consumer sees a record only after its producer completed it; records are dispatched in queue order, each exactly once, also when several threads of a synchronous channel dispatch; "
  "a slot is reused only after its record was dispatched; and no producer or consumer leaves while complete records could still be published or released slots reclaimed.",
  ["schedules"], "every interleaving of producers completing out of order and of dispatching threads",
  "out-of-order completion and concurrent dispatch windows are a few instructions wide",
  ["fn_channel.h", "fn_stream.h"], [("PushChannel", "fn_channel.h"), ("EnterProcChannel", "fn_channel.h")],
  "RingBuffer.write_idx_, proc_idx_, read_idx_, LogData.data_mark_", "EnterDevice / dispatch of a slot",
  technique="slot typestate by path-sensitive abstract interpretation of publication and dispatch",
  note="assumes fewer than one full turn of the ring between reading an index and the compare-and-exchange on it (ABA)")
p("C05", "The queue's atomics order record contents between threads",
  "What a producer wrote into a record is visible to the thread that dispatches it, and a dispatched record has been read completely before its slot can be written again: "
  "the completion and release marks and the queue indices are atomic and carry at least release on the writing side and acquire on the reading side, "
  "and marking a slot and then re-reading the index is strong enough that two threads cannot both miss the other's progress.",
  ["schedules"], "every execution allowed by the C++ memory model, on any hardware",
  "on x86 a missing acquire or release never fails a test",
  ["fn_channel.h", "fn_data.h"], [("data_mark_, write_idx_, read_idx_, proc_idx_ accesses", "fn_channel.h")],
  "RingBuffer indices, LogData.data_mark_", "memory orders of the accesses",
  technique="memory-order rule over the path-sensitive evidence of every index advance and mark store")
p("C06", "Every accepted record is published exactly once",
  "A logging statement that was accepted publishes its record exactly once, when its stream object ends, whatever was written to it, also if the object was moved; "
  "a statement that was refused never touches the queue; a transmitted record is published exactly once.",
  ["programs", "histories"], "every logging front end, every sequence of operations and moves of a stream object",
  "tests use the macros in their usual form; moved, empty and refused streams are the cases that leak or double publish a slot, which stalls the whole queue",
  ["fn_stream.h", "fn_channel.h", "fn_macro.h"], [("LogStream constructor, move constructor, destructor", "fn_stream.h"), ("TransmitChannel", "fn_channel.h"), ("LOG_FORMAT, LogInfo(), ...", "fn_macro.h")],
  "LogStream.log_data_, hold_idx_", "calls that reserve and publish a slot",
  technique="typestate of the stream object and the held slot, by path-sensitive abstract interpretation")
p("C07", "Every filter admits exactly what its configuration says",
  "A record is accepted exactly when logger and channel are running, it passes the channel's priority, category and identify ranges and masks, and at least one enabled record-taking device would take it; "
  "an accepted record is written exactly to those enabled devices of its channel, not fed from the network, whose priority, category and identify ranges and masks admit it (category and identify below 64 where a mask applies).",
  ["inputs", "configurations"], "every combination of filter settings and record attributes",
  "the space of ten range and mask settings per channel and device cannot be sampled, and an off-by-one at a range end stays unnoticed",
  ["fn_channel.h"], [("BlockInput", "fn_channel.h"), ("DispatchLog", "fn_channel.h")],
  "Channel.config_fields_, Device.config_fields_", "the result of the admission test; which devices receive a record",
  technique="path-sensitive abstract interpretation: every path's verdict against a declarative table of clauses")
p("C08", "Starting, stopping and restarting follow one state machine and report failure",
  "A logger is started only from its initial state and only once at a time; whenever a step of starting fails, the call reports an error and everything already started is stopped again; "
  "stopping is allowed from any state, any number of times, and leaves a logger that can be started again; state changes happen under the logger's state lock.",
  ["histories", "fault_sequences"], "every sequence of start, stop and restart calls from any thread, and every failure of a step",
  "tests start and stop in the regular order; failures half way and repeated or concurrent calls are not exercised",
  ["fn_core.h"], [("StartLogger, StopLogger, StartChannels, StopChannels", "fn_core.h")],
  "Logger.logger_state_, Channel.channel_state_", "return values and state stores",
  technique="state-machine rule by path-sensitive abstract interpretation of start and stop")
p("C09", "Stopping drains: threads are joined before queues are cleared and handles closed",
  "Stopping a running logger lets every channel's thread finish and waits for it before the channel's queue is cleared, its device handles are closed, or its memory is released; "
  "a channel's thread ends only after its queue was seen empty.",
  ["schedules", "histories"], "every stop of a logger with records in flight",
  "a stop that closes a file before the thread wrote its last record loses lines only under load",
  ["fn_core.h", "fn_channel.h"], [("StopChannels, CleanChannels", "fn_core.h"), ("EnterProcChannel loop exit", "fn_channel.h")],
  "Logger.async_threads, Channel.channel_state_", "order of join, clear, close, release",
  technique="ordering (must-precede) analysis by path-sensitive abstract interpretation")
p("C10", "No deadlock: one lock order, no waiting for a thread that needs a held lock",
  "Locks are always taken in one global order and released on every path out of a function, exceptions included; no thread takes a non-recursive lock it already holds; "
  "and no thread waits for another to end while holding a lock that other thread can block on.",
  ["schedules"], "every thread schedule of start, stop, hot update, logging and dispatch",
  "a deadlock needs an interleaving a test does not hit",
  ["fn_core.h", "fn_channel.h", "fn_load.h", "fn_out_screen_device.h"], [("Logger::StateLock, read_locks_, hot_update, screen_", "fn_core.h")],
  "mutexes of Logger", "lock acquisition sequences",
  technique="lock-order and lockset analysis over the expanded call graph, with exceptional edges")
p("C11", "Device handles of a synchronous channel are used under the channel's lock",
  "When several threads dispatch on a synchronous channel, each operation on a file, socket or input buffer of the channel happens while holding that channel's lock; "
  "output to the screen is serialised between channels by one lock.",
  ["schedules"], "every interleaving of threads logging to one synchronous channel, and of channels writing to the screen",
  "torn lines and double opens need simultaneous dispatch",
  ["fn_channel.h", "fn_out_file_device.h", "fn_out_udp_device.h", "fn_out_screen_device.h"], [("EnterProcDevice, EnterProcChannel", "fn_channel.h"), ("EnterProcOutScreenDevice", "fn_out_screen_device.h")],
  "Logger.file_handles_, udp_handles_, read_locks_, screen_", "handle operations",
  technique="lockset analysis by path-sensitive abstract interpretation")
p("C12", "Log files rotate as configured and no line is lost to a rotation",
  "An open log file is closed and replaced exactly when the record at hand would exceed its size limit (where backups are configured), or the record's time lies outside the day the file was opened in (daily rotation) "
  "or, without daily rotation, outside that hour (hourly rotation). Files are opened for appending; backups are moved up without overwriting one another and deleted only beyond their configured number; "
  "the record is then written to the newly opened file, and if no file can be opened or the write fails, it is counted as lost.",
  ["inputs", "histories"], "every size, time and configuration at which a record arrives",
  "day and hour boundaries and size limits combine with backup settings; tests cover one of each",
  ["fn_out_file_device.h"], [("EnterProcOutFileDevice, OpenFileDevice", "fn_out_file_device.h")],
  "Device statistics and file handle", "file open, close, write",
  technique="path-sensitive abstract interpretation of the file device against a table of rotation conditions")
p("C13", "Any configuration text is parsed without reading or writing out of bounds",
  "For every text given as configuration, including truncated, malformed or oversized ones, no byte outside the text is read or changed; channels and devices are kept within their arrays and the counts within their limits; names, descriptions, paths and file names are written, with their ending zero, within their fields; "
  "number buffers are not overrun and always ended; a value, a key or a cursor never lies outside the text; and no string is asked for a position it does not have.",
  ["inputs"], "every byte sequence given as configuration",
  "a parser's inputs are unbounded; tests parse a few well-formed files",
  ["fn_parse.h"], [("ParseLogger, ParseChannel, ParseDevice, Lex, Predefined*", "fn_parse.h")],
  "LexState", "reads of the text and writes of the parse result",
  technique="abstract interpretation of cursor bounds and array indices of the parser")
p("C14", "Parsing and name expansion always end",
  "Parsing any configuration text, replacing its variables and macros, and expanding the variables in file and path names ends after a bounded number of steps: every loop moves forward in its text or towards a limit each time around, whatever the text, the replaced values, the process name or the time hold; no replacement is found again by the search that made it, and nothing empty is searched for.",
  ["inputs"], "every configuration text and every name pattern",
  "non-termination shows for particular inputs only",
  ["fn_parse.h", "fn_out_file_device.h"], [("Lex, ParseLogger, PredefinedMacro, ...", "fn_parse.h"), ("FmtName, MakeFileName", "fn_out_file_device.h")],
  "cursor positions", "loops of the parser",
  technique="static termination analysis: path-wise inference of a ranking measure for every loop, over linear facts")
p("C15", "Each configuration key sets its own field to the value given",
  "Every documented key of the global part, a channel section or a device section is recognised, distinguished from every other, and sets exactly the setting documented under that name to the line's own value: numbers and masks in 64 bits, sizes in units of 1000000, switches, documented words by their meaning, lists and ranges of bits as the mask of exactly these bits (inverted for a black list), an address as its IP and port, texts whole and ended. "
  "A text that does not fit is left out (path, file) or cut (name, description). No line of a section ends without its setting having been made, no documented key is refused except for a bad output kind, address, section number, macro or variable, and each section is read into the entry its number names, in sequence.",
  ["inputs", "configurations"], "every key, every value",
  "tests check a few keys; a crossed or dropped key stays silent",
  ["fn_parse.h"], [("ParseReserve", "fn_parse.h"), ("ParseLogger, ParseChannel, ParseDevice", "fn_parse.h"), ("ParsePriority, ParseBool, ParseChannelType, ParseOutType, ParseInType, ParseNumber, ParseBitArray, ParseAddres, ParseString", "fn_parse.h")], "Channel.config_fields_, Device.config_fields_, LexState", "the parse result",
  technique="decision-table extraction: constant propagation of keys and words, path-sensitive abstract interpretation of section parsers and value converters")
p("C16", "A hot update changes settings only, completely, and never what is in use",
  "A hot update changes, of a running logger, only the filter fields, the settings of existing devices and the hot update flag of the updating channel, and adds new devices after the existing ones, "
  "each copied completely before the number of devices includes it. It never changes queues, the counters (other than the updating channel's two own ones), channel types, device kinds or ids, or another channel. "
  "It takes a new text over only if hot update is enabled, the logger is running, the state lock is held and the text was parsed without error and still has the channel; then it takes over every setting of the channel and of each of its devices, "
  "and remembers the file's modification time; a changed text is not left unapplied for another reason.",
  ["histories", "schedules"], "every new configuration text arriving at any time",
  "tests update one well-formed file",
  ["fn_load.h", "fn_core.h"], [("HotUpdateLogger", "fn_load.h")], "Channel, Device", "stores made by a hot update",
  technique="effect analysis: the set of fields a hot update may write, under which conditions")
p("C17", "A shared memory queue is validated before use; recovery keeps complete records",
  "A shared memory segment left by an earlier run becomes the logger's storage only if its recorded size and id match, its channel count is between 0 and the maximum and every index of every queue lies inside the queue; nothing else of it is used before, and a segment that is refused is detached and reported. "
  "In each queue recovery changes only the records reserved but not completed: each gets the recovery text inside its content, terminated, and is marked complete before the write index passes it; no record that was complete changes and the read index never moves, so complete records stay for dispatch. "
  "Afterwards nothing is left reserved and dispatch resumes where reading stopped. A segment newly created records its size and id and starts with empty queues.",
  ["crash_points", "inputs"], "every content of an existing segment, every point at which the previous run ended",
  "tests recover from one orderly crash",
  ["fn_load.h"], [("LoadSharedMemory, InitLogger", "fn_load.h")], "SHMLogger, RingBuffer", "what is checked before the segment is used",
  technique="must-check analysis by path-sensitive abstract interpretation")
p("C18", "The logger's storage is released exactly once, by the way it was obtained",
  "Memory obtained privately is deleted and a shared segment is detached and removed from the system, exactly once and by the way it was obtained, also after failures, restarts with other settings and destruction; loading reports success exactly when the logger then holds storage, after release it holds none, "
  "the setting that tells the two kinds apart changes only while there is no storage, and storage is released only after the log thread was stopped.",
  ["histories", "fault_sequences"], "every history of loading, starting, stopping and reloading with failures",
  "mismatched release corrupts memory only in particular restart histories",
  ["fn_load.h", "fn_core.h"], [("LoadSharedMemory, UnloadSharedMemory", "fn_load.h")], "Logger.shm_", "new/delete and attach/detach calls",
  technique="ownership typestate by path-sensitive abstract interpretation")
p("C19", "Queries and setters are total: any channel, device or field number is safe",
  "Reading a statistic or setting, or changing a setting, with any channel, device or field number, on a logger in any state, accesses only existing entries; for numbers that do not exist it returns 0 or does nothing.",
  ["inputs", "histories"], "every combination of numbers, before, during and after the logger runs",
  "tests use valid numbers",
  ["fn_core.h", "fn_log.h"], [("GetChannelLog, SetChannelConfig, GetDeviceLog, SetDeviceConfig, GetDeviceConfig, BatchSet*", "fn_core.h")], "Channel, Device arrays", "array accesses",
  technique="abstract interpretation of array indices with NULL-ness of the storage")
p("C20", "Statistics count each event once, in the right counter",
  "Each record that is reserved, completed, published and dispatched, each wait for a full queue, its bytes under its priority, and each line and byte a device writes or loses is counted once, in the counter of its own channel or device, by the amount it stands for "
  "(a line handed to a socket counts as written; if sending it fails it is counted as lost as well).",
  ["histories", "schedules"], "every record on every path",
  "tests compare few counters at the end of regular runs",
  ["fn_channel.h", "fn_out_file_device.h", "fn_out_screen_device.h", "fn_out_udp_device.h", "fn_out_empty_device.h", "fn_out_virtual_device.h"],
  [("AtomicIncChannelLog, AtomicIncDeviceLog and their callers", "fn_channel.h")], "Channel.log_fields_, Device.log_fields_", "counter updates",
  technique="event/counter pairing by path-sensitive abstract interpretation")
p("C21", "Files, directories and sockets are closed once and never used after closing",
  "Every file, directory handle and socket the library opens is closed exactly once on every path, including failures; no file is used after closing or before opening, opening again closes what was open, a failed open leaves nothing behind, "
  "an object that ends closes its handle, and stopping a logger leaves no file or socket of its devices open.",
  ["fault_sequences", "histories"], "every sequence of opens, failures, writes and closes",
  "leaks and uses after close need failing system calls",
  ["fn_file.h", "fn_out_file_device.h", "fn_out_udp_device.h", "fn_data.h"], [("FileHandler, UDPHandler", "fn_file.h")], "FileHandler.file_, UDPHandler.fd_", "calls of the C library",
  technique="resource typestate by path-sensitive abstract interpretation")
p("C22", "What the parser reports is completely initialised",
  "Whatever keys a text leaves out, every setting in a successful parse result has a value: global settings start at their documented defaults (0, false, empty) before the first line, each channel and device entry is cleared (all zero: the documented defaults; no virtual device) before its section is read, and nothing else is put there first. "
  "The parser and its lexer read no field before it was written; the line record is complete after every line; of a failed parse its callers read only where it failed.",
  ["inputs"], "every subset of keys a text can contain",
  "an uninitialised field often happens to be zero in tests",
  ["fn_parse.h", "fn_data.h", "fn_load.h"], [("ParseLogger, ParseChannel, ParseDevice, Lex, LexState", "fn_parse.h"), ("InitFromYMAL, HotUpdateLogger", "fn_load.h")], "Channel, Device, LexState", "fields of the parse result",
  technique="definite-initialisation analysis over the bytes of the parse result by path-sensitive abstract interpretation")
p("C23", "Every error code has a description",
  "Each error code the library can return is one of its enumerations and is described by a text that is not empty, is not the text for unknown codes, and is not the text of a code of another kind (the shared memory codes are one kind, the hot update refusals another, and so the variable, address and unknown key codes of the parser; every other code is a kind of its own).",
  ["inputs"], "every error code",
  "tests look at none or few of them",
  ["fn_data.h", "fn_parse.h"], [("DebugErrno", "fn_load.h")], None, "the text returned",
  technique="exhaustiveness check of the switch over the enumeration, in the compiler's IR")
p("C24", "A record goes to the handler of its device's kind, with that device's own handle",
  "A record admitted by a device is handed to the writer for that device's output kind only, once, and the writer uses the file or socket that belongs to exactly that channel and device.",
  ["inputs", "configurations"], "every channel and device number and kind",
  "tests use few channels and devices per kind, where index mistakes coincide",
  ["fn_channel.h", "fn_out_file_device.h", "fn_out_udp_device.h"], [("EnterProcDevice, EnterProcOutFileDevice, EnterProcOutUDPDevice", "fn_channel.h")], "Logger.file_handles_, udp_handles_", "handle index expressions",
  technique="symbolic index analysis by path-sensitive abstract interpretation")
p("C25", "Network input stays within the record and is used only while enabled",
  "A datagram of any size is received into the record's buffer without exceeding it, is cut to what was received, terminated, and given to its own device only; a disabled input is closed and not read.",
  ["inputs"], "every datagram size and content, every device state",
  "tests send short datagrams",
  ["fn_channel.h", "fn_file.h"], [("EnterProcChannel udp input", "fn_channel.h"), ("UDPHandler::read", "fn_file.h")], "RingBuffer.udp_buffer_", "receive calls and the stores after them",
  technique="abstract interpretation of lengths and device state around the receive call")
p("C26", "The virtual device hook sees exactly the records its device admits",
  "When a logging statement that was accepted ends, the user's hook is called once for its record and the virtual device of the record's channel when that device is enabled and its priority, category and identify filters admit it, before the record is published, and never when no hook is set.",
  ["inputs", "configurations"], "every combination of virtual device settings and record attributes",
  "tests install a hook on one configuration",
  ["fn_stream.h", "fn_out_virtual_device.h"], [("LogStream::~LogStream, EnterProcOutVirtualDevice", "fn_out_virtual_device.h")], "Channel.virtual_device_id_, Device.config_fields_", "calls of the hook",
  technique="path-sensitive abstract interpretation: guard table of the hook call")
p("C27", "Written lines are flushed before the writer rests or ends",
  "Before the dispatching thread sleeps or ends, and before a synchronous logging call returns, every file device to which that thread handed records (logged ones or network input) since its last flush is flushed or closed.",
  ["schedules", "histories"], "every batch size and idle moment",
  "tests read files after the logger stopped, when closing has flushed everything",
  ["fn_channel.h"], [("EnterProcChannel", "fn_channel.h")], "flush_count", "flush calls before sleeping or returning",
  technique="must-precede analysis by path-sensitive abstract interpretation")
p("C28", "A record carries its own complete attributes, never those of a former record",
  "A record accepted from a logging statement carries that statement's channel, category, identify, source file, function and line with their lengths, its priority held within TRACE..FATAL, the time and thread of the statement and its own prefix and text lengths; "
  "nothing is read from or left over in the slot from its former record. Every front end and severity macro passes its own severity. A transmitted record takes the new channel, category and identify and keeps everything else; a received one is stamped anew.",
  ["histories", "inputs"], "every front end and every reuse of a slot",
  "a stale attribute looks right when consecutive records resemble each other",
  ["fn_channel.h", "fn_stream.h"], [("InitLogData, LogStream constructor, TransmitChannel", "fn_channel.h")], "LogData", "attribute stores before publication",
  technique="definite-assignment and source-of-value analysis by path-sensitive abstract interpretation")
p("C29", "What reaches a file, socket or screen is the record's text, whole",
  "A record handed to a device is put out as it stands: a file and a socket get its whole text, from its first byte, in its stored length and without being cut or added to (a file write that fails closes the file); a datagram goes to the address and port "
  "configured for that very device; the screen prints the text once as plain text, never as a format and never shortened; and the record itself is not changed while it is written.",
  ["inputs"], "every text, length, address and port",
  "tests log short texts and look at line counts more than at bytes",
  ["fn_file.h", "fn_out_file_device.h", "fn_out_udp_device.h", "fn_out_screen_device.h"], [("FileHandler::write, UDPHandler::write", "fn_file.h"), ("EnterProcOutFileDevice, EnterProcOutUDPDevice, EnterProcOutScreenDevice", "fn_out_file_device.h")], "LogData.content_, content_len_; Device.config_fields_ (udp address and port)", "the calls that write, send and print",
  technique="source-of-value analysis of the arguments of writing calls by path-sensitive abstract interpretation")
p("C30", "A record's text is only ever appended to",
  "Each stream operation, the prefixes and the printf-style front end write at the end of the record's text: no byte is left out between what was there and what is added (so nothing of a former record shows), text already in the record is not changed or "
  "removed (but for the last two bytes of a full record, where newline and terminator go), and the length never counts bytes that were not written. A string or buffer given is taken from its first byte on, completely or up to the end of the record's room.",
  ["inputs", "histories"], "every operation with every value, at every fill of the record",
  "a gap shows whatever the slot held before: nothing on a fresh queue; records near full are rarely tested",
  ["fn_stream.h", "fn_fmt.h", "fn_macro.h"], [("LogStream::operator<<, write_buffer, write_container, write_binary, constructor", "fn_stream.h"), ("LOG_FORMAT", "fn_macro.h")], "LogData.content_, content_len_", "every write into the text and every store to its length",
  technique="abstract interpretation tracking the contiguously written extent of the text")
# ---- outside the reach of a static argument here
p("C40", "Numbers and times are printed with their correct value",
  "Each integer, floating point number, pointer and time written to a record is shown as its exact decimal, hexadecimal or calendar value in the documented format.",
  ["inputs"], "every value", "tests print a few values", ["fn_fmt.h"], [("write_dec_unsafe, write_double_unsafe, write_date_unsafe", "fn_fmt.h")],
  na="the printed digits are a function of run-time arithmetic (tables, divisions, libc calendar and floating point conversions); deciding their value needs execution or a solver, no dataflow rule in reach bounds it. Their length and bounds are decided under C01")
p("C41", "Records of one thread reach a device in the order they were logged",
  "For one thread and one channel, lines appear in a device's output in the order of the logging statements.",
  ["schedules"], "every schedule", "order mistakes need contention", ["fn_channel.h"], [("PushChannel, EnterProcChannel", "fn_channel.h")],
  na="a history property over two threads' executions: statically only its ingredients can be decided (slots reserved and dispatched in queue order by single-step index advances), which C03 and C04 do; the order of lines in a file with several dispatching threads of a synchronous channel is not implied by them")
p("C42", "An asynchronous record is written within a bounded delay",
  "A record logged on an asynchronous channel reaches its devices within a small bounded time.",
  ["schedules"], "every load and schedule", "timing varies", ["fn_channel.h"], [("EnterProcChannel", "fn_channel.h")],
  na="time bounds depend on scheduling, sleep granularity and device speed: run-time quantities with no static bound")
