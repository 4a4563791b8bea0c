package main

// The registered checks. The text says what is analysed and which rule decides.

const dispTech = "abstract interpretation of the SSA of processCommand with every command handler inlined (disjunctive states, linear-inequality domain, loop fixpoints, abstract data-structure model)"

const dispHow = "processCommand is analysed from its source once for every entry of the command table and once for an unknown name, with all repository functions inlined, for an arbitrary client, argument vector, clock and data set. Dicts, sets, lists and sorted sets are abstract maps with a size; every call that reads or changes them, every store, reply and log append is an event on the analysed path. "

func dispatchCheck(id, how string) {
	register(&propMeta{id: id, technique: dispTech, how: dispHow + how, assumptions: dispAssume,
		run: func(p *Prog, r *Report) {
			exploreDispatch(p, r, id)
			if withCron[id] {
				exploreCron(p, r, id)
			}
		}})
}

// withCron: the rule also applies to what timers and the function before each wait do to the data set.
var withCron = map[string]bool{"C11": true, "C13": true, "C14": true, "C15": true}

var dispAssume = []string{
	"the data-structure operations behave as abstract maps/sequences (their own correctness is the subject of C30-C33)",
	"handlers run on one goroutine (C23, C26)",
	"object invariants assumed at entry and re-established by the same analysis on every path: no empty collection is stored (C34), no time-to-live without a key (C11), only known value types are stored (C20)",
}

func init() {
	dispatchCheck("C03", "Rule: when the dispatcher returns without an error of its own, exactly one complete top-level reply has been pushed on the reply list (an array reply counts once, its elements are accounted to it).")
	dispatchCheck("C05", "Rule: at the call of a handler other than auth the path has established that no password is configured or that the connection is authenticated; a store to 'authenticated' of anything but false happens only in auth on a path where the argument equals the configured password; a failed auth leaves the flag false.")
	dispatchCheck("C06", "Rule: at the handler call the path conditions imply the argument count required by the entry's arity; every index into the argument vector inside the handler is implied to be in range by the path conditions; a path that does not run the handler ends in an error reply.")
	dispatchCheck("C07", "Rule: on a path that has found the value of a key not to have the required type, the reply is an error and no change of the data set happens; no unchecked type assertion on stored data can fail.")
	dispatchCheck("C08", "Rule: a path whose reply is an error contains no change of the data set (removal of keys established as expired excepted) and no change of the selected database.")
	dispatchCheck("C09", "Rule: every dict operation on a key space or expiry table goes to the database that the issuing client has selected at that point; the selection is stored only by select, to the element of the server's database list at the index given by its argument, with the index established to be in range.")
	dispatchCheck("C10", "Rule: before a key is looked up or deleted in the key space the path has established that it has no time-to-live, or that it lies in the future, or that the key has just been removed; keys found by iteration or random choice are shown only under the same condition.")
	dispatchCheck("C11", "Rule: key and time-to-live are removed on the same path, an overwrite of a key removes its time-to-live or sets a new one, a time-to-live is set only for a key established to exist.")
	dispatchCheck("C12", "Rule: no path of a query handler contains an operation that changes stored data, or stores into the internals of a data structure.")
	dispatchCheck("C13", "Rule: a path that contains a change of the data set also appends a record to the log before it ends, unless the log is disabled; the removal of an expired key is logged before the next step.")
	dispatchCheck("C14", "Rule: the text appended to the log is a sequence of encoded commands that the command table accepts; a time computed from the clock is logged as the same absolute moment; a randomly chosen member is logged by name; any other record has exactly the words of the executed command; the removal of an expired key is logged as a del of that key; no path expires a key by the clock while the log is being replayed.")
	dispatchCheck("C15", "Rule: at every append to the log the last selected database of the log equals the database of the command, or a select record of that database is appended first; the remembered database is what the last record selected.")
	dispatchCheck("C34", "Rule: a path that removes an element of a stored collection ends with the collection's size established as at least one or the key removed; a path that stores a new collection also adds an element.")
	dispatchCheck("C39", "Rule: every addition, subtraction and multiplication of 64-bit integers on a value derived from an argument is implied not to leave the int64 range by the path conditions.")
	dispatchCheck("C04", "Rule: every reply, as a sequence of constant text, decimal numbers and data, is parsed by the protocol grammar: the announced bulk length is the byte length of the text that follows, single-line replies contain no data that may contain CR or LF, and the announced array length equals the number of elements pushed, for loops by an inferred counter invariant.")
	register(&propMeta{id: "C01", technique: "abstract interpretation of the SSA of everything the event loop runs: request parser, dispatcher and every command handler, connection handlers, timers",
		how:         dispHow + "The read handler and request parser are analysed over any segmentation of the input (see C02), the other callbacks for any outcome of their system calls. Rule: every index, slice bound, type assertion, pointer dereference, division, allocation size and library precondition on every path is implied to be safe by the path conditions.",
		assumptions: dispAssume,
		run: func(p *Prog, r *Report) {
			exploreDispatch(p, r, "C01")
			exploreInput(p, r, "C01")
			exploreConn(p, r, "C01")
			exploreCron(p, r, "C01")
			ctorRule(p, r)
		}})
	reg := func(id, technique, how string, f func(p *Prog, r *Report)) {
		register(&propMeta{id: id, technique: technique, how: how, run: f})
	}
	const loopTech = "abstract interpretation of the SSA of the event loop (one round from an arbitrary state, loop fixpoints, abstract handler table, kernel registration and timer list)"
	const loopHow = "The body of the event loop is explored for one round from an arbitrary reachable state with any result of the poll, any handler behaviour (handlers may add and remove registrations and timers) and any clock reading; AddFileEvent, RemoveFileEvent and AddTimeEvent are explored separately for an arbitrary registration state and any result of the system calls. "
	const dsTech = "abstract interpretation of the SSA of the container operations"
	reg("C31", dsTech+" with the two views of a sorted set as ghost maps; field-write scan", "Every exported operation of the sorted set is explored, helpers inlined, from a state in which dictionary and order agree for every member it touches; a range removal returns any number of nodes. Rules: a member is taken out of the order only under the score it has there, added only when it is not in it, at the end of the operation both views have the member with one score or neither has, every node taken out by a range removal is removed from the dictionary, once; scores and names of elements and nodes and the two views are written nowhere else.", func(p *Prog, r *Report) {
		exploreZset(p, r)
	})
	reg("C20", "interprocedural data flow on the SSA of the log rewrite (provenance of every argument of every record through helpers, closures, batches and loops) and must-pass path analysis of the loops", "Every record that the goroutine which rewrites the log renders is traced back to the database, entry and element its arguments come from. Rules: the command exists and is the one that rebuilds a value of that type; the key is that of the entry; an element is written as the group of arguments the command takes, in that order, scores in a format that is read back exactly; the size of a batch is a multiple of the group; no path through the loops over databases, entries, elements and batches leaves one out, ends before the last or returns success before; the elements of a list are written in their order; the expiry time of the same key of the same database follows the value, in seconds; every database that is not empty is written and selected before its keys.", func(p *Prog, r *Report) {
		exploreRewrite(p, r)
	})
	reg("C32", "evaluation of the comparison-only SSA of the ordered list over all orderings of a node and its successor with the target or the interval (finite: below, at, above), interprocedural; data flow of scores, names and limits", "Every walk along the nodes in the operations of the ordered list, and in the helpers they call, is evaluated once per ordering of the current node and of the next one. Rules: a walk goes past exactly the nodes before the place looked for, in the order (score, name) or below / up to the interval; what the walk has led to is removed, returned or ranked exactly if it is the element searched or lies in the interval; a walk that takes nodes takes exactly those of the interval and does not stop before its end; the test whether any node lies in the interval holds exactly then; a new node gets the score and name it is inserted under; limits are handed on as they are, and a command hands on those the client has sent, as a path-sensitive exploration of the commands that take scores shows, which also shows that no score is stored that is not a number.", func(p *Prog, r *Report) {
		exploreOrder(p, r)
		exploreDispatch(p, r, "C32")
	})
	reg("C33", dsTech+" with the content of every page as a symbolic sequence", "Every exported operation of the list and of its iterator is explored, helpers inlined, for a list of any number of non-empty pages of any length, with a ghost base per page (the number of elements before it). Rules: the elements change by at most one insertion or removal, at the requested position, and the length by the same amount; the result says what was done; no empty page is left; no page holds positions overwritten by an append in place; an access through an index, a walk, a range and a copy give every element at its position; no operation can panic; length and pages are written nowhere else.", func(p *Prog, r *Report) {
		exploreQlist(p, r)
	})
	const loadTech = "abstract interpretation of the SSA of the log loader over a stream of unknown content (ghost counters for the bytes of the current record and of the complete ones, loop fixpoints)"
	const loadHow = "The function that replays the log is explored with every read succeeding, finding the end of the file (between two records or inside one) or failing, for any content. Assumed: the file is shorter than 2^60 bytes and announces no longer arguments. "
	reg("C18", loadTech+"; symbolic encoding of the record writer", loadHow+"Rules: every function that turns a list of arguments into the text of a record writes the header with their number and then, for each in order, its length in bytes, its bytes and the line breaks; the loader takes exactly the announced number of bytes and the line break of every argument, fills the buffer completely, stores the argument of that length in its place without sharing a reused buffer, runs every record once, in order, with exactly its arguments, and refuses a log only after a test that a log written by the server cannot fail.", func(p *Prog, r *Report) {
		encoderRule(p, r)
		exploreLoader(p, r, "C18")
	})
	reg("C19", loadTech, loadHow+"Rules: nothing is read behind an incomplete record, no incomplete record is run; if the log ends inside a record, the loader truncates the file in use to exactly the bytes of the complete records and goes on, if it ends between two records it goes on without a truncation, and after any other read error or before the end of the log it does not go on as if the log were complete.", func(p *Prog, r *Report) {
		exploreLoader(p, r, "C19")
	})
	const fileTech = "abstract interpretation of the SSA of the log code with files as typestate objects (written text, unsynced, failed, closed, name) and buffers as symbolic text"
	const fileHow = "The function run before each wait, the timers, the commands that start a rewrite and the goroutines of the log are explored from arbitrary buffers, with any result of every file operation and any state of the background work. Text written to a file and text held in the buffers are symbolic sequences, so that nothing can be lost, doubled or reordered unnoticed. "
	const connTech = "abstract interpretation of the SSA of the connection handlers with descriptors as typestate objects (open, non-blocking, registered, closed)"
	const connHow = "Accepting, reading, sending and tearing down are explored for an arbitrary connection with any result of every system call. "
	reg("C16", fileTech, fileHow+loopHow+"Rules: when the function before the wait returns, or a socket is written in it, everything pending at its start has been written to the log in order and, with the policy 'always', forced to disk, a failure ends the server; the loop calls it before every wait that follows a handler or timer and schedules the write handler of a descriptor before its read handler; only handlers registered for writing lead to a write to a socket.", func(p *Prog, r *Report) {
		exploreLoop(p, r, "C16", 0)
		exploreFile(p, r, "C16", "sleep", "time")
		sendRule(p, r)
	})
	reg("C17", fileTech, fileHow+"Rules: with 'always' the function before the wait ends with nothing unsynced; with 'everysec' data left unsynced is remembered in a field and left only on a path that has established that the recorded time of the last sync is at most about a second ago; with 'no' nothing is synced; the background sync gets the file in use by value, and an error of a sync ends the server.", func(p *Prog, r *Report) {
		exploreFile(p, r, "C17", "sleep", "time")
		exploreSync(p, r, "C17")
	})
	reg("C21", fileTech, fileHow+"Rules: the log's name is taken only by os.Rename of the file the rewrite has delivered, when the changes made meanwhile have been written to it completely and it has been forced to disk without a failure; the log is never removed, emptied or moved away; the file in use afterwards is the one under the log's name, open and in append mode; the rewriting goroutine delivers its file only when it is complete, and creates it in the directory of the log.", func(p *Prog, r *Report) {
		exploreFile(p, r, "C21", "time")
		exploreRewriter(p, r, "C21")
	})
	reg("C22", fileTech, fileHow+"Rules: a record appended to the log buffer while a rewrite may be running is also appended to the difference buffer (checked on every command and timer path); the text written to the new log before it takes the log's name equals the difference buffer, nothing that the new log contains is written to it again, and the difference buffer is empty whenever no rewrite runs.", func(p *Prog, r *Report) {
		exploreFile(p, r, "C22", "time", "launch")
		exploreDispatch(p, r, "C22")
		exploreCron(p, r, "C22")
	})
	reg("C24", fileTech, fileHow+"Rules: a rewrite is started only on a path that has changed the task state from none to rewriting, and only if a log is in use; the state returns to none only on a path that has taken the result of the rewrite; every path that takes a result sets it; the rewriting goroutine delivers exactly one result on every path that ends.", func(p *Prog, r *Report) {
		exploreFile(p, r, "C24", "time", "launch")
		exploreRewriter(p, r, "C24")
	})
	reg("C25", connTech, connHow+"Rules: a path on which the connection has ended closes its descriptor exactly once, removes both registrations and the table entry before that and invalidates the stored number; nothing is done with a descriptor after it has been closed; a descriptor whose set-up fails is closed.", func(p *Prog, r *Report) {
		exploreConn(p, r, "C25")
	})
	reg("C26", connTech, connHow+"Rules: every descriptor that a handler reads, writes or accepts on has been set to non-blocking on the path that created it; nothing reachable from a callback waits for time, a lock, a process, a network peer or a channel, except a receive on a path that has established that the channel holds an element.", func(p *Prog, r *Report) {
		exploreConn(p, r, "C26")
		blockRule(p, r)
	})
	reg("C27", connTech, connHow+dispHow+"Rules: every write starts at the first unsent byte of the first queued reply and offers it to its end, the progress counter grows by exactly what the kernel has taken, a reply is dropped exactly when it is completely sent, registration for writing ends only when the queue is empty, and a reply is appended at the end of the queue on a path that has registered the connection or has found the queue not empty.", func(p *Prog, r *Report) {
		exploreConn(p, r, "C27")
		exploreDispatch(p, r, "C27")
	})
	reg("C28", loopTech, loopHow+"Rules: after a successful registration call the events asked of the kernel for the descriptor are exactly the directions with an entry in the handler table, after a failed one the table is unchanged; a handler is called only for a direction reported ready, with the descriptor and data it was registered with, and only if its registration is still in the table.", func(p *Prog, r *Report) {
		exploreLoop(p, r, "C28", 0)
		exploreLoop(p, r, "C28", epIn)
		exploreLoop(p, r, "C28", epOut)
		exploreReg(p, r, "C28")
	})
	reg("C29", loopTech, loopHow+"Rules: a timer is called only on a path that has established that its time has come; afterwards a periodic timer has a later time and stays in the list, a one-shot timer is out of it; every due timer is reached in the round; the poll timeout is at most the time to the earliest timer (or a constant of at most 10 ms).", func(p *Prog, r *Report) {
		exploreLoop(p, r, "C29", 0)
		exploreReg(p, r, "C29")
	})
	reg("C36", "abstract interpretation of the SSA of the timers (disjunctive states, linear inequalities, abstract data-structure model)", "The timers are explored from an arbitrary data set and clock. Rules: a key is removed only on a path that has established that its own time-to-live lies in the past, and together with its time-to-live; every loop of the timer's databases work is bounded; all databases of the server are visited.", func(p *Prog, r *Report) {
		exploreCron(p, r, "C36")
		boundedRule(p, r)
	})
	reg("C41", dsTech, "The set commands are explored with the set code inlined, for one arbitrary member: every operand is missing, holds the member or does not (or is not a set), an iteration yields the member exactly once if the set has it, a lookup finds it exactly then. Rules: the reply lists the member exactly if the set-theoretic result has it; the result is made from all operands, in an order that does not matter, unless the result can no longer change; the listing of a set has every member once.", func(p *Prog, r *Report) {
		exploreSetOps(p, r)
	})
	reg("C30", "abstract interpretation of the SSA of the hash table for one arbitrary key (shape analysis of its chain by reachability facts, linear inequalities, loop fixpoints); path rule for iterators", "Every exported operation of the table and of its iterator is explored, helpers inlined, for one arbitrary key in every shape of table it can be in (not initialised, not resizing, resizing; absent, in the old table at or after the resize index, in the new table), with any number of active iterations. Rules: afterwards the key is in exactly one bucket, that of its hash, of a table that is searched, results and counts say so, nothing is moved while an iteration may be in progress; an iteration returns the key exactly once; iterations are counted when they begin and end, and every iteration begun is ended on every path.", func(p *Prog, r *Report) {
		exploreDict(p, r)
	})
	const lifeTech = "abstract interpretation of the SSA of the functions that start, run and stop the server, with replay, event loop, set-up and waiting as events of a typestate"
	reg("C37", lifeTech, "The function that starts the server, the one that runs it, the constructor, the set-up of logging and the loader of the log are explored from any configuration with any result of every operation. Rules: the event loop is entered only after the complete log has been replayed, once, or where the log is disabled; nothing of the server is used and nothing is logged before logging has been set up, which sets every logging function in use and to ones that do not return where the server relies on that; the log is opened for appending under the name that is replayed exactly if it is enabled; commands are replayed for a client without a descriptor, marked as replayed until the end, and lead to no system call for such a client; the replay appends nothing to the log.", func(p *Prog, r *Report) {
		exploreLife(p, r, "C37")
	})
	reg("C40", lifeTech, "The function that starts the server, the one that runs it, the event loop, its timers and background goroutines are explored with any result of every operation and a stop request at any time. Rules: the timer that sees a stop request ends the loop on every path and is registered, periodically, before the loop is entered; the loop does not wait again after it has been asked to end; no file, log or descriptor in use is closed before it has ended; everything executed is written to the log before it is closed and before the server is reported as stopped, which happens exactly once on every path; whoever started the server asks, then waits, and does nothing that ends or closes anything before; no channel with senders is closed; a background sync that finds the log closed is no reason to panic.", func(p *Prog, r *Report) {
		exploreLife(p, r, "C40")
	})
	reg("C38", "comparison of the sample configuration with the configuration record, and abstract interpretation of the SSA of the functions that read, take over and use the settings", "The keys and documented values of config.toml are compared with the tags, types and constants of the configuration record; the function that reads the file, the constructor, the set-up of logging, the function that binds the address and the timer that rewrites the log are explored for any configuration. Rules: every documented key sets a field of a fitting type, every documented value of an enumerated option is a value of its type, and these differ; every field is used; the constructor takes over every setting unchanged and makes the set number of databases, at least one, each with its own number; the address bound is made of host and port; every documented log level selects itself and the log file is the one that has been set; a rewrite starts automatically only above the set size and if not switched off, and does not start only on a path that has found a reason. What the fsync policies do is the subject of C16 and C17, the password of C05.", exploreSettings)
	reg("C23", "thread confinement on the resolved call graph (effects of everything a goroutine reaches) and an ownership analysis of copies over SSA values", "The goroutines are taken from the go statements; the one that polls is the event loop. Rules: a function reachable from any other goroutine, or running on after the event loop has been started, touches a field of a server record only if it is a synchronisation object used by its methods, or a channel or value never written after construction; it writes no global, and reads none the event loop writes; a variable a goroutine captures is not written after the go statement; anything else a goroutine is handed is a value made for it, not kept and not used after the go statement, and everything put into it is made for it or cannot be changed, through every function that makes a part of the copy: a value of a container is taken over as it is only where its type has been established not to be one of the mutable types that are stored in such a container.", exploreConfine)
	reg("C02", "abstract interpretation of the SSA of the read handler and request parser (disjunctive states, linear inequalities, Houdini invariants per parser state), with resumption of every waiting state", "The read handler is explored from every state in which the parser can wait for data, for any amount and content of received data. Rules: only received bytes are looked at; every byte is consumed exactly once, at ends of lines and arguments that have been found; a test for missing data leads to waiting without any change of the parser's state, and waiting happens only after such a test; when more data arrives, the handler comes back to that test with the same local state; each decoded argument is stored at its position and a request is dispatched with all of them; the dispatcher (explored for every command) puts the parser's fields back and leaves the received bytes alone.", func(p *Prog, r *Report) {
		exploreInput(p, r, "C02")
		exploreConn(p, r, "C02")
	})
	reg("C35", "abstract interpretation of the SSA of the read handler and request parser, with positions of the query buffer as linear terms", "Strings made from the query buffer without a copy refer to the bytes before the parser's position. Rules: data is read to and nothing is written before the end of the received bytes; the buffer moves only forward and is replaced only by newly allocated memory.", func(p *Prog, r *Report) {
		exploreInput(p, r, "C35")
	})
}
