#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe)}})
S="server/"; D="datastruct/"
p("C01","No bytes a client can send crash the server",
 "Whatever bytes a client sends, in whatever order and split into whatever network reads, the server process neither panics, exits nor attempts an allocation of client-chosen unbounded size. Negative or huge lengths and counts, empty lines, out-of-range indices and missing arguments end in an error reply or in that one connection being closed.",
 ["inputs","histories"],"every byte string, every split into reads, every data set the commands can have built",
 "The suite parses nine well-formed messages and never runs a command handler; the failing inputs are extreme numbers and malformed framing in any of 40 handlers.",
 [S+"resp.go",S+"client.go",S+"server.go",S+"command*.go",D+"quicklist.go",D+"skiplist.go"],
 [("length checks before every slice of the query buffer",S+"resp.go"),("arity table bounds handler argument indexing",S+"command.go"),("range clamping before allocation",D+"quicklist.go Range, "+D+"skiplist.go RangeByRank")],
 [("queryBuf/queryLen","received bytes not yet consumed",S+"client.go")])
p("C02","Requests are decoded independently of network segmentation and pipelining",
 "The sequence of requests decoded from a connection depends only on the byte stream, not on how it is cut into reads. The decoder never acts on bytes that have not arrived, resumes a partially received request where it stopped, and never discards bytes that follow a complete request, so all pipelined requests are executed in order.",
 ["inputs","schedules"],"every request stream and every segmentation of it",
 "Tests feed one complete message in one piece and call the parser directly, so neither resumption nor what happens after the first request is reached.",
 [S+"resp.go",S+"client.go",S+"command.go"],
 [("resumable parser state in the client",S+"client.go Client"),("reset between requests",S+"client.go reset")],
 [("multiBulkLen, bulkLen, args","partially decoded request",S+"client.go")])
p("C03","Every executed request is answered by exactly one reply",
 "For every request whose words were decoded, whatever the command, the arguments and the data, exactly one reply is queued on that connection: never none and never two, also on error paths.",
 ["inputs","histories"],"every command, every argument vector, every state of the data set",
 "No test executes a command handler; a missing or doubled reply on one error branch desynchronises every later reply of the connection.",
 [S+"command.go",S+"command*.go",S+"client.go"],
 [("every handler path ends in one reply helper",S+"command*.go"),("dispatcher error replies",S+"command.go processCommand")])
p("C04","Replies are well-formed protocol messages for any data",
 "Each reply is one syntactically valid protocol message: announced bulk lengths equal the bytes that follow, announced array lengths equal the number of elements that follow, and client-supplied text placed in a single-line reply cannot introduce a line break. A client can therefore never make the server emit a forged or mis-framed reply.",
 ["inputs"],"every argument value and every stored value, including binary ones",
 "Reply encoding has no tests; only values containing CR/LF, or non-ASCII lengths, or mismatching counts expose a defect.",
 [S+"client.go",S+"command*.go"],
 [("reply builders",S+"client.go addReply*")])
p("C05","With a password set, nothing but AUTH runs before authentication",
 "When a password is configured, a connection that has not presented it can execute no command except AUTH, and a connection becomes authenticated only by presenting exactly the configured password; a failed attempt leaves it unauthenticated.",
 ["inputs","histories"],"every sequence of commands on every connection, every password",
 "Authentication is not exercised by any test.",
 [S+"command.go",S+"commandconnection.go"],
 [("gate before command execution",S+"command.go processCommand"),("password comparison",S+"commandconnection.go authCommand")],
 [("authenticated","connection passed AUTH",S+"client.go")])
p("C06","Commands run only with an argument count they accept",
 "An unknown command or a request with an argument count outside the command's declared arity is refused without executing anything. No command ever reads an argument that its declared arity does not guarantee to be present, and commands taking pairs refuse an incomplete pair before changing anything.",
 ["inputs"],"every command name and every argument count",
 "The arity table and dispatcher are untested; each of 40 entries would need its own boundary test.",
 [S+"command.go",S+"command*.go"],
 [("arity check",S+"command.go processCommand"),("command table",S+"command.go commandTable")])
p("C07","A command on a key of another type is refused and leaves it alone",
 "A command of one data type applied to a key that holds another type answers with a wrong-type error and neither alters, replaces nor removes the stored value; it never treats the key as absent and never crashes. Only a plain overwrite of the whole key is exempt.",
 ["inputs","histories"],"every command and every type of stored value",
 "No test stores values of different types under a key.",
 [S+"commandlist.go",S+"commandhash.go",S+"commandset.go",S+"commandzset.go",S+"commandstring.go"],
 [("typed lookup helpers",S+"command*.go getX, getXIfExist")])
p("C08","A command answered with an error changes nothing",
 "If the reply to a command is an error, the data set (keys, values, time-to-live) is the same as before the command, apart from the removal of keys that had already expired. In particular no key is created and no prefix of a multi-element update is applied.",
 ["inputs","histories"],"every command, arguments and data set for which an error is replied",
 "No test checks state after an error reply; handlers have several error exits each.",
 [S+"command*.go"],[("validate before mutate",S+"command*.go")])
p("C09","A command touches only the database its connection selected",
 "Each command reads and writes only the currently selected database of the connection that issued it. Only SELECT with a valid index changes the selection, it affects that connection alone, and an invalid index (negative, too large or not a number) is refused with the selection unchanged.",
 ["inputs","histories"],"every SELECT argument and every interleaving of connections",
 "SELECT and multi-database behaviour are untested.",
 [S+"commandconnection.go",S+"client.go",S+"command*.go"],
 [("handlers go through the client's database only",S+"command*.go"),("index validation",S+"commandconnection.go selectCommand")],
 [("db","selected database",S+"client.go")])
p("C10","An expired key is never observed",
 "From the moment its time-to-live has passed, a key behaves in every command as if it did not exist: reads do not return it, writes start from an empty value instead of extending the dead one, and its remaining life cannot be queried or prolonged. This does not depend on when background expiry removes it.",
 ["inputs","histories","schedules"],"every command on every key and every relation between its expiry time and the clock and background expiry",
 "Tests contain no time-to-live at all; the window between expiry and removal is a timing matter.",
 [S+"command.go",S+"command*.go"],
 [("lazy expiry before every key access",S+"command.go expireIfNeeded")],
 [("Expire","key to expiry time","database/database.go")])
p("C11","A time-to-live belongs to one key incarnation",
 "A time-to-live exists only for a key that exists: setting one on a missing key has no effect, and overwriting a key with a plain SET or removing a key (by expiry or because it became empty) discards it, so a later key of the same name never inherits it. Key and time-to-live are always removed together.",
 ["inputs","histories"],"every sequence of commands on a key",
 "No test combines expiry with other commands.",
 [S+"command.go",S+"commandkey.go",S+"commandstring.go",S+"server.go"],
 [("paired updates of the two dictionaries",S+"command*.go, "+S+"server.go databasesCron")])
p("C12","Read commands never change stored data",
 "Commands that only query (GET, TTL, KEYS, HGET, LRANGE, SMEMBERS, ZRANGE and the like) and the set operations SDIFF, SINTER and SUNION never alter any stored value, key or time-to-live, except that keys already expired may be removed. Set operations build their result apart from their operands.",
 ["inputs","histories"],"every query command, arguments and data set",
 "Needs to hold for every handler and every argument; tests call only the containers, and never compare operands after an operation.",
 [S+"command*.go",D+"set.go",D+"zset.go",D+"quicklist.go"],
 [("query handlers call only non-mutating container operations",S+"command*.go")])
p("C13","Every change of the data set is recorded in the append-only log",
 "With the append-only log enabled, every command that changed the data set in any way is appended to the log, in execution order, before the server next waits for events; this holds for every command and every path through it that changes data, even if sending its reply fails.",
 ["inputs","histories","fault_sequences"],"every command and every path on which it changes data",
 "AOF code has no tests; a change that is not recorded shows up only after a restart.",
 [S+"command.go",S+"aof.go",S+"command*.go"],
 [("change counter",S+"server.go dirty"),("feeding the log after a command that changed data",S+"command.go call")],
 [("dirty","number of changes",S+"server.go"),("aofBuf","log bytes not yet written",S+"server.go")])
p("C14","What is logged replays to the same effect at any later time",
 "A log record has an effect that does not depend on when, or with what random choices, it is replayed: relative expiry times are logged as absolute ones, and a command whose effect was chosen at random is logged as the concrete change it made. Removal of expired keys is logged too, and replay itself expires nothing on its own clock.",
 ["inputs","histories","schedules"],"every logged command, every replay time",
 "No test replays a log; differences need a random choice or elapsed time between execution and replay.",
 [S+"aof.go",S+"commandset.go",S+"command.go",S+"server.go"],
 [("translation of relative expiry",S+"aof.go feedAppendOnlyFile"),("translation of random removal",S+"commandset.go sPopCommand")])
p("C15","Each log record is replayed into the database it was executed in",
 "Replaying the log applies every record to the database in which the command was originally executed, for any interleaving of commands on different databases, across restarts of the server and across log rewrites.",
 ["histories","crash_points"],"every interleaving of databases, restarts and rewrites",
 "No test covers several databases, restarts or rewrites.",
 [S+"aof.go",S+"server.go"],
 [("SELECT record whenever the database differs from the last logged one",S+"aof.go feedAppendOnlyFile")],
 [("aofSelectDBID","database of the last logged record",S+"server.go")])
p("C16","A reply is sent only after its change is in the log",
 "With the log enabled, no byte of the reply to a changing command is sent to the client before the command's record has been written to the log file, and with the policy 'always' before it has been forced to disk; if writing or forcing fails the server stops rather than acknowledge.",
 ["schedules","crash_points","fault_sequences"],"every order of ready events on any number of connections, every crash point",
 "Only the order of write, sync and send decides it; no test has both a log and a client.",
 [S+"server.go",S+"aof.go","ae/ae.go"],
 [("log flushed before waiting for events","ae/ae.go Main, "+S+"server.go beforeSleepProc"),("replies leave only from the writable handler",S+"server.go sendReplayToClient")])
p("C17","The configured fsync policy is honoured, also when traffic stops",
 "Under 'always' every write to the log is followed by a forced sync before anything else is acknowledged; under 'everysec' data that was written to the log is synced within about a second even if no further command arrives; under 'no' the server never forces a sync on the command path. A failed sync is not ignored.",
 ["schedules","histories","configurations"],"every traffic pattern, including one write followed by silence",
 "Fsync timing is not visible to tests without power loss.",
 [S+"aof.go",S+"server.go","config/config.go"],
 [("sync decision",S+"aof.go aofFileSync")],
 [("aofLastFsyncTime","time of the last sync",S+"server.go")])
p("C18","The log encodes and loads any argument bytes exactly",
 "Loading the log yields exactly the commands that were written, for arguments of any length and content (empty, binary, containing line breaks, larger than any read buffer): every length prefix equals the bytes written, the loader reads each argument completely, and every loaded command is applied in order.",
 ["inputs","histories"],"every argument vector and every alignment of records with read-buffer boundaries",
 "No test writes or loads a log; short reads only occur at buffer boundaries.",
 [S+"aof.go"],
 [("record encoder",S+"aof.go catAppendOnlyGenericCommand"),("loader",S+"aof.go loadAppendOnlyFile")])
p("C19","A log cut off by a crash still loads",
 "If a crash cuts the log at any byte, the next start succeeds, restores exactly the complete records before the cut, and removes the incomplete tail so that records appended afterwards are read back correctly. Only damage elsewhere than at the end is refused.",
 ["crash_points"],"every byte position at which the last write can be cut",
 "No test truncates a log.",
 [S+"aof.go"],[("loader end-of-file handling",S+"aof.go loadAppendOnlyFile")])
p("C20","A rewritten log rebuilds the whole data set",
 "Loading a freshly rewritten log rebuilds every key of every database with the same type, contents, list order and scores, and with its expiry time (to the second, the unit of expireat, the command the log records expiry with); each kind of value is written by commands that exist, in argument groups those commands accept.",
 ["inputs","histories"],"every data set: all types, any size relative to the batch size, all databases, with and without expiry",
 "The rewrite is untested; loss shows only for particular types, sizes (batch boundaries) or after a reload.",
 [S+"aof.go"],
 [("per-type serialisers",S+"aof.go rewriteXObject"),("expiry record per key",S+"aof.go rewriteAppendOnlyFile")])
p("C21","Replacing the log by its rewrite is atomic under crashes",
 "At every instant the file under the log's name is a complete log containing every acknowledged change: the rewritten file, with the changes made meanwhile, is complete and forced to disk before it takes the log's name in a single atomic step, and only then is the old file given up. A failure on the way leaves the old log in use.",
 ["crash_points","fault_sequences"],"every crash point and every failing file operation during the replacement",
 "No test runs a rewrite, none crashes in one.",
 [S+"aof.go"],[("completion of a rewrite",S+"aof.go aofRewriteDoneCallback")])
p("C22","Changes made during a rewrite are kept exactly once",
 "Every change executed while a rewrite is in progress appears in the resulting log exactly once and after the snapshot it modifies; nothing buffered for an earlier rewrite leaks into a later one.",
 ["schedules","histories"],"every interleaving of commands with the start and end of a rewrite",
 "Requires commands concurrent with a rewrite; nothing in the suite does that.",
 [S+"aof.go",S+"server.go"],
 [("difference buffer",S+"aof.go feedAppendOnlyFile, aofRewriteDoneCallback")],
 [("aofRewriteBuf","changes since the snapshot",S+"server.go")])
p("C23","Background work shares no mutable data with command execution",
 "Whatever runs concurrently with command execution (log rewriting, background sync) works on a private snapshot or on data handed over through synchronisation: no memory is written by one side while the other can access it. The snapshot is independent at every depth, so a rewrite sees the data exactly as it was when it started.",
 ["schedules"],"every interleaving of background goroutines with the event loop",
 "A data race needs a particular interleaving; the suite never starts a background task and is not run under the race detector.",
 [S+"aof.go","database/database.go",D+"dict.go"],
 [("deep copy before the goroutine starts",S+"aof.go rewriteAppendOnlyFileBackground"),("atomic task state and result channel",S+"server.go")])
p("C24","At most one rewrite runs, and the next one always becomes possible",
 "Two log rewrites never run at the same time, however they are requested (command or automatic). When one finishes its result is installed and a later rewrite can start; requesting one when no log is in use is refused and harmless.",
 ["schedules","histories"],"every interleaving of rewrite requests, cron ticks and completions",
 "The suite never starts a rewrite.",
 [S+"aof.go",S+"commandserver.go",S+"server.go"],
 [("compare-and-swap of the task state",S+"aof.go rewriteAppendOnlyFileBackground")],
 [("backgroundTaskTypeAtomic","running background task",S+"server.go")])
p("C25","Connections are torn down completely, once, and never confused",
 "When a connection ends for any reason (peer close, read, write or protocol error) it is unregistered from polling, its descriptor is closed exactly once and its bookkeeping dropped, on every path; descriptors of failed set-ups are closed too. After that no handler acts for it, so a new connection that reuses its descriptor number is never read, written or closed in its place.",
 ["schedules","fault_sequences","histories"],"every error at every system call, every batch of simultaneously ready events, every reuse of descriptor numbers",
 "Needs failing system calls and simultaneous events; tests have one healthy connection.",
 [S+"client.go",S+"server.go",S+"tcp.go","ae/ae.go"],
 [("free",S+"client.go"),("event dispatch","ae/ae.go processEvents")])
p("C26","The event loop never blocks outside its poll",
 "Nothing run by the event loop waits for an unbounded time outside the poll itself: accepting, reading and writing sockets is non-blocking, and no handler sleeps, waits for a process, a lock or a channel that may stay empty. One slow or silent client can therefore not stall the others.",
 ["schedules","inputs"],"every callback and everything it calls",
 "Blocking appears only with an uncooperative peer or a slow child process.",
 [S+"server.go",S+"aof.go","ae/ae.go","socket/socket.go"],
 [("non-blocking sockets",S+"server.go acceptTCPHandler, Run")])
p("C27","Reply bytes are delivered completely and in order",
 "The bytes a client receives are exactly the concatenation of the replies in the order they were queued, however the kernel splits, shortens or refuses writes: after a short write sending resumes at the first unsent byte, nothing is sent twice or skipped, and while unsent bytes remain the connection stays registered for writing.",
 ["schedules","inputs"],"every sequence of short writes and would-block results",
 "Short writes need full socket buffers; not reached by tests.",
 [S+"server.go",S+"client.go"],
 [("resumable sending",S+"server.go sendReplayToClient")],
 [("sentLen","bytes of the first queued reply already sent",S+"client.go")])
p("C28","The poll registration always matches the handlers",
 "For every descriptor the kernel is asked for exactly the events for which a handler is registered: adding one direction keeps the other, removing one keeps the other, the last removal unregisters the descriptor, and a failed system call leaves the handler table unchanged. Each ready event is dispatched to the handler registered for that descriptor and direction.",
 ["histories","fault_sequences"],"every sequence of registrations and removals, with failures",
 "One test registers one readable and one writable handler and removes one.",
 ["ae/ae.go"],[("mask computation","ae/ae.go AddFileEvent, RemoveFileEvent, wait")],
 [("fileEventMap","registered handlers","ae/ae.go")])
p("C29","Timers fire when due: periodic ones forever, one-shot ones once",
 "A timer never fires before its interval has elapsed. A periodic timer is rescheduled after every firing, a one-shot timer is removed after its single firing, and the poll never sleeps past the earliest due timer; failures of the poll do not stop timers.",
 ["histories","schedules"],"every set of timers and every sequence of poll results",
 "One test observes one timer of each kind for a few firings.",
 ["ae/ae.go"],[("time event processing","ae/ae.go processEvents, wait, getNearestTime")])
p("C30","The hash table finds every key through resizing and iteration",
 "At every stage of incremental resizing each stored key is found, updated and deleted, and is counted exactly once, and no lookup or update during resizing creates a second copy. An operation on one key leaves every other key and its value as they were, and equal keys hash alike at any time. While any iteration is in progress entries are not moved between tables, an iteration comes to every key stored throughout it exactly once, and every iteration started is ended on every path, once, so that resizing resumes; a deep copy holds every stored key with its value.",
 ["histories","inputs"],"every sequence of operations and every point of resizing, with any number of active iterations",
 "Tests insert then look up sequential keys; deletes and updates during resizing and nested or abandoned iterations are not sampled.",
 [D+"dict.go",S+"commandkey.go",S+"commandhash.go",S+"aof.go",D+"set.go"],
 [("both tables consulted while resizing",D+"dict.go"),("iterator count pauses moves",D+"dict.go rehashStep")],
 [("rehashIndex, iterators, used","resize progress, active iterations, entry counts",D+"dict.go")])
p("C31","A sorted set's score index and its order always agree",
 "Every member of a sorted set appears exactly once in its ordered view, with the score that a score lookup returns, after any sequence of additions, score updates, removals and range removals; a removal or update always takes the member out of the order under the score it had there.",
 ["histories","inputs"],"every sequence of sorted-set operations",
 "Tests never update the score of an existing member and then look at the order.",
 [D+"zset.go",D+"skiplist.go"],
 [("dictionary and skip list updated together",D+"zset.go")])
p("C32","Sorted-set order and score intervals follow one rule everywhere",
 "Members are ordered by score and, for equal scores, by name, and every operation that inserts, deletes, ranks or searches uses this same order. Score intervals include both end points in every command that takes one (count, range and range removal).",
 ["inputs","histories"],"every set of scores and names, in particular ties and interval end points",
 "Tests use distinct integer scores; ties and operator mistakes at end points in one of many traversals are not sampled.",
 [D+"skiplist.go",D+"zset.go"],
 [("comparisons in the skip-list traversals",D+"skiplist.go")])
p("C33","List length and contents change together",
 "A list's reported length always equals the number of elements it holds: each insertion adds exactly one element and counts it, each removal that returns an element removes and discounts exactly that one, refused operations change neither, and no empty page is left behind.",
 ["histories","inputs"],"every sequence of list operations and every position relative to page boundaries",
 "Tests push at the back, insert once per position and remove from the front only.",
 [D+"quicklist.go"],[("length bookkeeping",D+"quicklist.go")])
p("C34","A collection that becomes empty ceases to exist",
 "When the last element of a list, hash, set or sorted set is removed by any command, the key itself disappears together with its time-to-live: it is no longer listed and a key of any type can be created under the name. No command leaves an empty collection behind.",
 ["inputs","histories"],"every removing command and every data set",
 "No test removes the last element through a command.",
 [S+"commandlist.go",S+"commandhash.go",S+"commandset.go",S+"commandzset.go"],
 [("removal of emptied keys",S+"command*.go")])
p("C35","Stored data never changes through later network input",
 "Keys, members and values taken from a request keep the bytes they were sent with, whatever is received on the connection afterwards. Request memory that stored data still refers to is never written again.",
 ["histories","inputs"],"every later input on the same connection",
 "Corruption needs a stored value followed by further input landing in the same memory.",
 [S+"resp.go",S+"client.go",S+"server.go"],
 [("zero-copy strings over a forward-only buffer",S+"resp.go, "+S+"client.go moveToNextLineInQueryBuffer")])
p("C36","Background expiry removes only expired keys, completely",
 "Periodic expiry deletes a key only if its own time-to-live has passed, deletes both the key and its time-to-live, covers every database, and does a bounded amount of work per run.",
 ["histories","schedules"],"every data set and clock reading",
 "Background expiry is not exercised by tests.",
 [S+"server.go"],[("sampling loop",S+"server.go databasesCron")])
p("C37","Recovery and set-up finish before the first client is served",
 "Clients are accepted and commands executed only after logging is set up and the whole append-only log has been replayed; replay executes the same command code as clients do, without network effects and without appending to the log again.",
 ["histories","crash_points"],"every start of the server with any log",
 "No test starts the server.",
 [S+"server.go",S+"aof.go","cmd/root.go","log/log.go"],
 [("load before the loop",S+"server.go Run"),("logger before server","cmd/root.go run")])
p("C38","Every documented setting takes effect",
 "Each option of the sample configuration file sets the corresponding behaviour of the server, and each accepted value of an enumerated option (fsync policy, log level) selects its own behaviour rather than silently falling through.",
 ["configurations"],"every option and every documented value",
 "Configuration loading has no tests.",
 ["config/config.go","config.toml",S+"server.go","log/log.go"],
 [("option tags","config/config.go Config"),("use of the settings",S+"server.go NewServer")])
p("C39","Expiry arithmetic never wraps around",
 "A client-supplied expiry time is either stored as the intended moment or refused with an error; no value makes the computation wrap so that a key expires at once or never, in memory or in the log.",
 ["inputs"],"every integer a client can supply as an expiry time",
 "Only extreme integers trigger it; expiry has no tests.",
 [S+"commandkey.go",S+"commandstring.go",S+"aof.go"],
 [("unit conversion of expiry times",S+"commandkey.go, "+S+"commandstring.go, "+S+"aof.go")])
p("C40","Stopping the server cannot corrupt or crash it",
 "A stop request at any moment ends the event loop between events; log and listening descriptors are closed only after the loop has finished, everything executed is in the log file, and stopping never panics, whatever background work is in flight.",
 ["schedules"],"every moment of a stop request relative to the event loop and background work",
 "No test stops a server.",
 [S+"server.go","cmd/root.go","ae/ae.go"],[("Stop",S+"server.go")])
p("C41","Set operations compute the set-theoretic result, missing keys being empty",
 "SUNION, SINTER and SDIFF return exactly the union, intersection and difference of their operands in the order given, where a missing key counts as the empty set in any position.",
 ["inputs","histories"],"every list of operands, any of which may be missing or repeated",
 "The command level is untested; container tests use two overlapping sets.",
 [S+"commandset.go",D+"set.go"],
 [("folding over operands",S+"commandset.go"),("membership tests",D+"set.go")])
# ------- not applicable to static analysis -------
p("C50","Rank queries return the exact rank",
 "Rank lookups, rank ranges and rank removals of sorted sets agree with the position in the sorted order for every sequence of insertions and removals.",
 ["histories","inputs"],"every skip-list shape",
 "Tests build ascending lists only.",[D+"skiplist.go"],[("span arithmetic",D+"skiplist.go")])
p("C51","A replayed log reproduces the data set exactly",
 "For every history of commands, restarting from the log yields a data set equal to the one before the restart.",
 ["histories","crash_points"],"every command history","No test replays a log.",
 [S+"aof.go",S+"command.go"],[("log and replay",S+"aof.go")])
p("C52","Random selection is uniform and terminates quickly",
 "RANDOMGET and SPOP choose every key or member with comparable probability and in bounded expected time.",
 ["inputs","histories"],"every data set","One statistical test with a fixed seed.",
 [D+"dict.go"],[("random bucket choice",D+"dict.go GetRandomKey")])
p("C53","Expired keys are reclaimed in bounded time",
 "Memory of expired keys that are never accessed again is reclaimed within a bounded time under any load.",
 ["schedules","histories"],"every load pattern","Needs long runs.",
 [S+"server.go"],[("sampling",S+"server.go databasesCron")])
p("C54","List operations address the right element",
 "Index and range operations on lists return exactly the elements at those positions for every list built by any history of pushes, inserts and removals.",
 ["histories","inputs"],"every page layout","Tests use one layout.",
 [D+"quicklist.go"],[("page walk",D+"quicklist.go get")])
p("C55","Resizing costs amortised constant time per operation",
 "Hash-table operations stay amortised constant-time for any history, and table growth keeps chains short.",
 ["histories"],"every history","Benchmarks only.",[D+"dict.go"],[("incremental rehash",D+"dict.go")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
