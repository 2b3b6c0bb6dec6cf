#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

p("C01","RESP values survive encode and decode",
  "Every RESP value the protocol package can build (simple string or error without CR/LF, any 64-bit integer, bulk string of arbitrary bytes, null bulk string, null array, arrays of any of these nested up to 128 levels) serialises to bytes from which the reader returns a value of the same type and content with the identical serialisation, consuming exactly those bytes so that the next pipelined value is read intact. The string and byte forms of a value are always the same bytes.",
  ["inputs"],"all value trees and payload bytes, every way the stream is split into reads",
  "Tests check a dozen literals one way and never decode what was encoded, never pipeline, and never vary the read chunking.",
  ["pkg/protocol/resp.go","pkg/protocol/reader.go"],
  [("constructors NewSimpleRedisString..NewNullRedisArray","pkg/protocol/resp.go"),("readObject/readToken/readBytes","pkg/protocol/reader.go")],
  [("stringRep/byteRep","cached serialisation of a value","pkg/protocol/resp.go"),("token","last token read","pkg/protocol/reader.go")],
  ["RedisObject.String/Byte/Data/Type","RESPReader.ReadObject"])
p("C02","The RESP reader is total on arbitrary bytes",
  "Whatever bytes a peer sends, reading a value terminates without a panic and yields either a value or an error, never both or neither. A stream that ends before the first value is complete yields an error (never a shortened value), a non-numeric or negative length other than -1, an unknown type byte and arrays nested more than 128 levels deep are rejected, and reading never consumes bytes beyond the end of the value it returns.",
  ["inputs"],"all byte streams up to the stated length and all ways of splitting them into reads",
  "Tests feed well-formed literals only; the accepting and rejecting sets are defined by all byte strings.",
  ["pkg/protocol/reader.go"],[("readToken","pkg/protocol/reader.go"),("readString","pkg/protocol/reader.go"),("readArray","pkg/protocol/reader.go")],
  [("token","last token read","pkg/protocol/reader.go")],["Parse","RESPReader.ReadObject"])
p("C03","Every request gets exactly one well-formed reply, no crash",
  "For every request array a client can send (any command name, any number and kind of arguments, any argument bytes) and every database state, the engine publishes exactly one response carrying that client's id, and it is a single well-formed RESP value: parsing it consumes all of its bytes and nothing is left over. No request makes the engine panic or stop serving later requests.",
  ["inputs","histories"],"all request arrays within the bounds against all states reachable by short histories",
  "pkg/command, pkg/db and pkg/network have no tests at all; the claim is over all argument shapes and states.",
  ["pkg/db/engine.go","pkg/db/db.go","pkg/command/command.go","pkg/command/global.go","pkg/command/list.go","pkg/command/hash.go","pkg/command/set.go"],
  [("Start/handleRequest/handleError","pkg/db/engine.go"),("ExecuteCommand","pkg/db/db.go"),("ParseArguments/Execute/Result of each command","pkg/command")],
  [("containers","all keyspaces of a database","pkg/container/container.go")],["event bus topic response"])
p("C04","String commands behave as a map from keys to byte strings",
  "SET, MSET, GET, MGET, EXISTS, STRLEN, APPEND and GETRANGE answer exactly as a map from byte-string keys to byte-string values would after the same history: a read returns the latest value written under that very key (null when never written), EXISTS counts named keys with multiplicity, APPEND concatenates and returns the new length, and GETRANGE returns the inclusive slice given by the slice rules (empty when the range is invalid). Keys that were not named keep their values.",
  ["inputs","histories"],"all histories of these commands up to the bound with arbitrary keys, values and 64-bit indices",
  "No test runs any command; container tests use random samples and never mix operations on one key.",
  ["pkg/command/global.go","pkg/container/string_map.go","pkg/container/string.go","pkg/util/index.go"],
  [("simpleStringMap","pkg/container/string_map.go"),("setCommand..getRangeCommand","pkg/command/global.go")],
  [("container","key to value map","pkg/container/string_map.go")],["Command.Result"])
p("C05","Counter commands are exact 64-bit arithmetic or a refusal",
  "INCR, INCRBY, DECR and DECRBY on a key holding a decimal 64-bit integer reply the mathematically exact result and store its decimal form, so that GET, STRLEN and further counter commands agree with it. When the value or the amount is not an integer, the key is missing, or the exact result does not fit in 64 bits, the reply is an error and the stored value is unchanged.",
  ["inputs","histories"],"all 64-bit values and amounts, all short non-numeric strings, sequences of counter and string commands",
  "Tests add random non-boundary numbers; wrap-around needs particular 64-bit operands.",
  ["pkg/command/global.go","pkg/container/string.go","pkg/container/int_variant.go","pkg/container/string_map.go"],
  [("Increase/Decrease","pkg/container/string.go"),("intVariantImpl","pkg/container/int_variant.go"),("incrCommand/decrCommand","pkg/command/global.go")],
  [("intVar","cached integer form of a string","pkg/container/string.go")],["Command.Result"])
p("C06","List commands behave as a sequence of byte strings",
  "LPUSH, RPUSH, LPOP, RPOP, LLEN, LINDEX, LRANGE, LSET, LINSERT, LREM and LTRIM answer exactly as operations on a finite sequence would after the same history, from both ends and at every 64-bit index or count (negative ones count from the tail): the reported length is always the number of elements and a forward read, a backward read and element access agree. An LTRIM whose range is invalid leaves the list unchanged, and no element value is treated specially.",
  ["inputs","histories"],"all histories up to the bound with arbitrary element bytes and arbitrary 64-bit indices and counts",
  "Container tests use fixed small lists and no command is tested; linked structure corruption shows only after particular sequences.",
  ["pkg/command/list.go","pkg/container/list.go","pkg/util/index.go"],
  [("linkedList","pkg/container/list.go"),("lpushCommand..linsertCommand","pkg/command/list.go"),("Slice.Resolve","pkg/util/index.go")],
  [("head/tail/size","doubly linked list with sentinels","pkg/container/list.go")],["Command.Result","ListContainer"])
p("C07","Hash commands behave as a map from fields to values",
  "HSET, HGET, HMGET, HEXISTS, HDEL, HLEN, HSTRLEN, HKEYS, HVALS and HGETALL answer exactly as a map from fields to values would after the same history: HSET and HDEL reply the number of fields that really appeared or disappeared, the latest value wins also within one command, and HGETALL, HKEYS, HVALS and HLEN describe the same set of pairs.",
  ["inputs","histories"],"all histories up to the bound with arbitrary fields and values, duplicates included",
  "Container tests use distinct random fields; no command is tested; duplicates inside one command are not sampled.",
  ["pkg/command/hash.go","pkg/container/hash.go"],
  [("hashContainer","pkg/container/hash.go"),("hsetCommand..hdelCommand","pkg/command/hash.go")],
  [("container","field to entry map","pkg/container/hash.go")],["Command.Result","HashContainer"])
p("C08","Set commands behave as mathematical sets",
  "SADD, SREM, SISMEMBER, SMEMBERS, SCARD, SPOP, SRANDMEMBER, SDIFF, SINTER and SUNION answer exactly as finite sets of byte strings would after the same history: additions and removals are counted once per distinct member, SPOP removes exactly what it returns, SRANDMEMBER returns distinct current members and changes nothing, and difference, intersection and union are those of the named sets (a missing key is the empty set, a key may be named twice) and leave their operands unchanged.",
  ["inputs","histories"],"all histories up to the bound with arbitrary members, all iteration orders of the underlying map",
  "Container tests use fixed sets; results depend on map iteration order and on member coincidences.",
  ["pkg/command/set.go","pkg/container/set.go"],
  [("setContainer","pkg/container/set.go"),("scardCommand..sunionCommand","pkg/command/set.go")],
  [("container","member map","pkg/container/set.go")],["Command.Result","SetContainer"])
p("C09","Commands touch only what they name; refused ones nothing",
  "Executing a command changes no key other than those it names and no other type's data under the same name (strings, lists, hashes and sets have separate keyspaces). A command that is refused at construction (wrong arity, wrong argument kind, non-integer index or count, unknown name) never changes any data, and command names are matched without regard to letter case.",
  ["inputs","histories"],"all pairs of a populated database and one arbitrary command on it",
  "There are no command or db tests.",
  ["pkg/db/db.go","pkg/container/container.go","pkg/command/command.go"],
  [("resolveName","pkg/db/db.go"),("GetOrCreateList/Hash/Set","pkg/container/container.go"),("NewCommand","pkg/command/command.go")],
  [("lists/hashes/sets/global","separate keyspaces","pkg/container/container.go")],["Command.Result"])
p("C10","Commands classified as reads never change data",
  "A command that reports the access (read-only) type never changes any observable data, so every command that can change data reports the modify type and therefore reaches the log. Executing any number of read commands between two identical reads gives the same answer.",
  ["inputs","histories"],"every command name with arbitrary arguments on arbitrary populated databases",
  "No command is tested and classification is never compared with effect.",
  ["pkg/command/global.go","pkg/command/list.go","pkg/command/hash.go","pkg/command/set.go","pkg/db/engine.go"],
  [("Type of each command","pkg/command"),("handleRequest","pkg/db/engine.go")],[],["Command.Type","Command.Result"])
p("C11","Replaying the log rebuilds the same data",
  "For every history of requests handled by an engine with a database file, a fresh engine that rebuilds from the records in that file answers every read exactly as the original would (SPOP, whose choice is random, aside). This includes requests that failed, values of arbitrary bytes, and names in any letter case.",
  ["inputs","histories","schedules"],"all histories up to the bound, with all schedules of the engine's own goroutines",
  "pkg/log and pkg/db have no tests; it needs whole histories and the order in which log writes land.",
  ["pkg/db/engine.go","pkg/log/log.go","pkg/log/persistent.go"],
  [("writeLog","pkg/db/engine.go"),("BuildFromLog/convertArguments","pkg/db/engine.go"),("NewLog/PackLog/ParseLog","pkg/log/log.go")],
  [("file","buffered log file","pkg/db/engine.go")],["Engine.BuildFromLog","event bus topic response"])
p("C12","Log framing loses nothing and survives a torn tail",
  "Parsing the concatenation of packed log records returns exactly those records in order. When the stream is cut at any byte (a crash while appending) parsing returns exactly the records that were complete before the cut, never a partial or invented one, and never panics on arbitrary bytes.",
  ["inputs","crash_points"],"all records within the bounds and every cut position; all short arbitrary byte streams",
  "pkg/log has no tests; every byte of every record is a crash point.",
  ["pkg/log/log.go","pkg/util/util.go"],
  [("PackLog","pkg/log/log.go"),("ParseLog/readLog","pkg/log/log.go"),("ReadExactBytes","pkg/util/util.go")],[],["ParseLog","PackLog"])
p("C13","A replica receives the whole log or reports failure",
  "Receiving from a master returns exactly the records of the transmitted log when the whole message arrives, however it is split into network reads, and nothing for an empty log. If the connection ends before the announced length has arrived, the result is an error and no records. A replica that takes no data does not keep others from receiving the log.",
  ["inputs","fault_sequences"],"all logs within the bounds, every connection cut and read split",
  "pkg/replication has no tests.",
  ["pkg/replication/replica.go","pkg/replication/master.go","pkg/log/log.go"],
  [("Receive","pkg/replication/replica.go"),("handleConn","pkg/replication/master.go")],[],["Replica.Receive"])
p("C14","Index and slice resolution is exact for all 64-bit inputs",
  "Resolving an index against a size gives the position it denotes (negative counts from the end) and -1 exactly when that position is not inside the range. Resolving a slice gives the inclusive segment it denotes with the right end clamped to the last position, and (-1, -1) exactly when the left end is outside the range, the right end is before the beginning, or the ends are crossed.",
  ["inputs"],"all 64-bit indices and all sizes",
  "Tests enumerate small tables; boundaries and overflow lie outside them.",
  ["pkg/util/index.go"],[("Index.Resolve","pkg/util/index.go"),("Slice.Resolve","pkg/util/index.go")],[],["Index.Resolve","Slice.Resolve"])
p("C15","Lexical comparison is a total order consistent with equality",
  "Comparing two byte strings yields zero exactly when they are equal, a negative number exactly when the first precedes the second in bytewise lexicographic order, and a positive number otherwise; the magnitude is the 1-based position of the first difference, or the length of the shorter non-empty string when it is a proper prefix.",
  ["inputs"],"all pairs of byte strings within the length bound",
  "Tests compare eight literal pairs; none has an empty or high-bit operand.",
  ["pkg/util/util.go","pkg/container/string.go"],[("LexicalCompare","pkg/util/util.go"),("CompareTo","pkg/container/string.go")],[],["LexicalCompare","StringContainer.CompareTo"])
p("C16","String objects keep all their views consistent",
  "A string object's text, bytes, length, hash and integer view always describe the same value, initially and after any sequence of increments, decrements, appends and range reads. Two objects are equal exactly when their bytes are equal, whatever their hashes, and append and range build new objects without changing their operands.",
  ["inputs","histories"],"all byte strings within the bound, all 64-bit amounts, all operation sequences up to the bound",
  "Tests sample random strings and never check all views after an update.",
  ["pkg/container/string.go","pkg/container/int_variant.go"],
  [("update","pkg/container/string.go"),("Equals","pkg/container/string.go"),("Increase/Decrease","pkg/container/string.go")],
  [("data/bytes/size/hash/intVar","redundant views","pkg/container/string.go")],["StringContainer"])
p("C17","A future ends exactly once and all waiters agree",
  "Under every schedule a future ends either fulfilled or cancelled, never both, and once: every Get, Wait and Cancel issued by any number of goroutines returns without a panic, at most one Cancel succeeds, all waiters see the same outcome, and a fulfilled future gives every caller the task's own result and error. After a successful Cancel no Get returns a result.",
  ["schedules"],"all interleavings of the task, cancellers and waiters within the bound",
  "Tests sample a few timings with sleeps; the races need exact interleavings.",
  ["pkg/concurrency/future.go","pkg/concurrency/task.go"],
  [("start","pkg/concurrency/future.go"),("Cancel/Wait/Get","pkg/concurrency/future.go")],
  [("doneChan/cancelChan","end state","pkg/concurrency/future.go")],["Future"])
p("C18","A data channel delivers each accepted event exactly once, in order",
  "Under every schedule, each event whose Send reports success is received exactly once (at most once if the receiver closes before taking it) and events sent one after another by one sender arrive in that order; an event reported expired or closed is never received. After the receiver closed the channel, every later Send reports closed and every later Receive reports that the channel is closed; closing repeatedly or concurrently is safe.",
  ["schedules"],"all interleavings of senders, receiver, closers and timer expiry within the bound",
  "Tests run one or two timings; select picks and timer firing are not controllable there.",
  ["pkg/concurrency/data_channel.go"],[("Send","pkg/concurrency/data_channel.go"),("Receive/Close","pkg/concurrency/data_channel.go")],
  [("closed/closeChannel","receiver closed","pkg/concurrency/data_channel.go")],["Sender.Send","Receiver.Receive"])
p("C19","A topic delivers to every live subscriber and counts truthfully",
  "Publishing delivers the event at most once to each subscriber, exactly once to each that is ready to take it, and the returned future yields exactly the number of subscribers that got it. A subscriber is forgotten only if it closed its receiver: live subscribers, including one that re-subscribed under a name whose earlier receiver was closed, keep receiving. A subscriber that takes nothing does not keep others from their events.",
  ["schedules","histories"],"all interleavings of publish, subscribe, close and delivery within the bound",
  "Tests wait with sleeps for clean-up and sample single schedules.",
  ["pkg/concurrency/topic.go","pkg/concurrency/data_channel.go"],
  [("distributeEvent/batchRemove","pkg/concurrency/topic.go")],[("subscribers","registered senders","pkg/concurrency/topic.go")],["Topic.Publish","Receiver.Receive"])
p("C20","The event bus keeps one topic per name and routes by name",
  "Under every schedule, creating and removing topics behaves like an atomic set of names (of several concurrent creations of one name exactly one succeeds, likewise for removals), an event is delivered only to subscribers of the topic it names and carries the data, error, topic and source it was published with, and publishing or subscribing to an absent topic reports that there is no such topic. Removing a topic tells its subscribers that it was removed.",
  ["schedules","histories"],"all interleavings of bus operations within the bound",
  "The event bus test file contains no tests.",
  ["pkg/concurrency/event_bus.go","pkg/concurrency/topic.go"],[("eventBus","pkg/concurrency/event_bus.go")],
  [("topics","name to topic map","pkg/concurrency/event_bus.go")],["EventBus"])
p("C21","Data maps are maps, and the concurrent ones stay consistent",
  "All three data map kinds behave as a map under any sequential history (latest value, presence, removal, exact length). For the two concurrent kinds this also holds under every interleaving: the final contents and length equal those of some sequential order of the operations, and the length equals the number of present keys once all operations have finished.",
  ["schedules","histories"],"all histories and all interleavings of set, get, has, remove and len within the bound",
  "Tests use one history each; concurrent sets of one key are never timed exactly.",
  ["pkg/types/data_map.go"],[("simpleDataMap","pkg/types/data_map.go"),("lockedDataMap","pkg/types/data_map.go"),("syncDataMap","pkg/types/data_map.go")],
  [("size","cached length","pkg/types/data_map.go")],["DataMap"])
p("C22","Pipelines stop at the first error; broadcasts reach everyone",
  "A pipeline runs its handlers once each in the order added, feeding each the previous result, stops at the first handler that fails and returns that handler's result and error. A broadcaster blocks every Get until the message is set and then gives the same message to all past and future callers under every schedule.",
  ["inputs","schedules"],"all handler outcome vectors and all interleavings of getters and the setter within the bound",
  "Tests check one failing and one succeeding pipeline and one broadcast timing.",
  ["pkg/util/pipeline.go","pkg/concurrency/broadcast.go"],[("Run","pkg/util/pipeline.go"),("Set/Get","pkg/concurrency/broadcast.go")],[],["Pipeline.Run","BroadCaster.Get"])
p("C23","The sorted set keeps members ordered by score, then by member",
  "After any history of adds, deletes, score increases and pops (with scores that are numbers) on the sorted set container, popping from the low end yields the members in ascending (score, member) order and popping from the high end in descending order, each member once; the length, score and rank of a member agree with that order. Adding a member that is present keeps its score, and missing members and empty sets are reported as such.",
  ["inputs","histories"],"all histories up to the bound with arbitrary finite scores and all random level choices",
  "The sorted set test file is empty.",
  ["pkg/container/sorted_set.go","pkg/util/util.go"],[("insert/delete/getRank","pkg/container/sorted_set.go")],
  [("head/tail/span/set","skip list","pkg/container/sorted_set.go")],["SortedSetContainer"])
p("C24","A closed connection fails fast and never blocks",
  "Under every schedule of reads, writes, expiry and closing, a connection object closes exactly once, every operation issued after it is closed returns the closed error, and no Read or Write blocks for ever on the connection's own bookkeeping. What Write accepts is what the peer gets, in order. A connection closes itself once no read or write was started for its expire time, and not before.",
  ["schedules","fault_sequences"],"all interleavings of one reader, one writer, closers and the expiry timer within the bound",
  "pkg/network has no tests.",
  ["pkg/network/conn.go"],[("startExpireWorker","pkg/network/conn.go"),("Read/Write/Close","pkg/network/conn.go")],
  [("closed/resetChan/closeChan","life cycle","pkg/network/conn.go")],["Conn.Read","Conn.Write","Conn.Close"])
p("C25","Pipelined requests of one client are answered in order",
  "When one client sends several requests on a connection without waiting, the server executes them and answers them in the order sent, each exactly once, under every schedule. Other clients that leave without reading their replies or send malformed data do not change that.",
  ["schedules"],"all interleavings of the server's goroutines for one client",
  "pkg/network and pkg/db have no tests.",
  ["pkg/network/server.go","pkg/concurrency/topic.go","pkg/concurrency/event_bus.go","pkg/db/engine.go"],
  [("newConn/responseWorker","pkg/network/server.go"),("Publish/distributeEvent","pkg/concurrency/topic.go")],[],["TCP connection"])
p("C26","Stopping the engine flushes the log and never crashes",
  "For every configuration (with or without a database file, with or without replication, replication port free or taken) stopping the engine or server returns without a panic, and every record accepted before is in the database file afterwards.",
  ["configurations","histories"],"all configurations and short histories before the stop",
  "pkg/db and pkg/network have no tests.",
  ["pkg/db/engine.go","pkg/network/server.go","pkg/log/persistent.go","pkg/replication/master.go"],
  [("Stop","pkg/db/engine.go"),("Flush","pkg/log/persistent.go")],[],["Engine.Stop","database file"])
p("C27","The client sends what was typed and shows what was answered",
  "A command line made of words separated by spaces, where a word or part of one may be put in double quotes to contain spaces or be empty, is sent as the array of exactly those words in order; a line with an unclosed quote is refused. Every reply value is rendered without a crash and shows its content: strings in double quotes, errors as 'Server error: ' and the message, integers as '(integer) ' and the decimal number, null strings as (nil), null and empty arrays as (empty list or set), and other arrays one element per line, numbered from 1 as 'n) '.",
  ["inputs"],"all command lines and reply values within the bounds",
  "cmd/client has no tests.",
  ["cmd/client/internal/codec.go"],[("FormatInput","cmd/client/internal/codec.go"),("FormatOutput","cmd/client/internal/codec.go")],[],["FormatInput","FormatOutput"])
p("C28","Appending after a torn record keeps later records readable",
  "If the server is restarted on a database file whose last record was cut off by a crash, records written after that restart are all recovered by the next restart, together with the complete records from before the crash.",
  ["crash_points","histories"],"every cut position of the last record, short histories before and after",
  "pkg/log and pkg/network have no tests; it needs two restarts around a crash.",
  ["pkg/network/server.go","pkg/log/log.go","pkg/db/engine.go"],
  [("fromFile","pkg/network/server.go"),("ParseLog","pkg/log/log.go")],[],["database file"])
p("C29","Configuration files are read faithfully",
  "Parsing a configuration file sets exactly the options the file names (log_path, log_level, port, database_file, enable_replica, replica_port, master_address; top-level keys) to the values it gives and leaves all others as they were (a new configuration holds the documented defaults). A missing file, malformed text, an option named twice and a value of the wrong type are reported as an error; a file that is not well-formed changes nothing. No file crashes the program.",
  ["inputs","configurations"],"all configuration files",
  "pkg/common has no tests.",
  ["pkg/common/config.go"],[("Parse","pkg/common/config.go")],[],["Config.Parse"])
p("C30","Log messages are kept, whole and only at their level",
  "After InitLog every message logged at or above the threshold (the level INFO, WARN, ERROR or FATAL of the configuration, INFO for any other word, everything in debug mode) is appended to the log file exactly once, on its own line, at its own level, with the text given or, for the functions whose names end in f, formatted as Printf formats it; messages below the threshold and earlier contents of the file are left alone. Messages of several goroutines do not mix. Error and Errorf return an error with the message, also before InitLog, when nothing is written; after InitLog, Panic and Panicf panic with the message, and Fatal and Fatalf do not return.",
  ["inputs","schedules"],"all messages, levels and interleavings of loggers",
  "pkg/common has no tests.",
  ["pkg/common/logging.go"],[("InitLog","pkg/common/logging.go")],[],["InitLog","Errorf"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
