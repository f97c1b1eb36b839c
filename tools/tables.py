#!/usr/bin/env python3
"""The one table behind properties.jsonl, checks.json and MANIFEST.json.

tools/tables.py rewrites the three files from the entries below.
"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, parts, note, technique, state=None, observe=None, assumptions=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, state=state or [], observe=observe, parts=parts, note=note,
                      technique=technique, assumptions=assumptions or []))


def M(name, where):
    return {"name": name, "where": where}


MODEL = "model-based property testing: generated operation histories against a reference model, shrunk to a replay"
CORE = [{"pkg": "core"}]


def crash(suite, a=12, b=15):
    """the histories, and in a build that records every file call, the histories with a crash between any two calls."""
    return [{"pkg": "core", "quick": a}, {"pkg": "core", "mode": "os", "suite": suite, "quick": b}]


def sched(pkg="core", a=12, b=13, **kw):
    """the histories as they are, and in a build that explores schedules."""
    return [dict({"pkg": pkg, "quick": a}, **kw), {"pkg": pkg, "mode": "sched", "quick": b}]


SCHED_NOTE = " The histories are run a second time in a build in which goroutines wait for generated moments of virtual time at every lock, atomic and file operation, so that each case has a schedule of its own, drawn from its seed and repeated with it."
CRASH_NOTE = " In the crash suites every call that changes a file is recorded (standard package os built with a hook), the directory is rebuilt as it was between two generated calls, and the database is opened on it; recovery itself is crashed again the same way. Calls acknowledged within the write interval of the log are optional, and a batch in flight is there entirely or not at all."
PC = ["the operating system keeps what a completed write system call wrote (process crash, not power loss)"]
BASE_NOTE = "Exploration: every generated history is run against the real database through its public API in virtual time and compared with an exact reference model; sizes and counts of histories are bounded by the time budget."
VT = "testing/synctest virtual time stands for the wall clock: goroutine timers of the database fire in a deterministic order when the generated history lets time pass"

prop("P01", "A query returns exactly the matching live messages, newest first",
     "A query for a topic returns the payloads of exactly the messages that were put on it and are neither deleted nor expired, each with the bytes that were put, newest first and never more than the limit asked for. This holds wherever the message is held at that moment: in memory, partly synced, or in the files.",
     ["histories", "inputs"], "all histories of puts, bulk puts, deletes, syncs, waits and queries over a small set of topics with sizes from 1 byte up to many blocks",
     "The tests put a handful of messages on one topic and read them once; the interaction of memory, window blocks, index blocks and limits depends on the whole history.",
     ["db.go", "db_internal.go", "query.go", "time_window.go", "block_reader.go", "time_window_reader.go"],
     [M("lookup over time window, window blocks and memory", "db.go:Get, db_internal.go:lookup"), M("entry read", "db_internal.go:readEntry")],
     CORE, BASE_NOTE, MODEL)
prop("P02", "Closing and reopening keeps every live message and nothing else",
     "After Close and a new Open of the same path, with the same or with different options, every query returns exactly what it returned before the close. This holds for any number of reopenings and for messages that were only in memory at the close.",
     ["histories", "configurations"], "all histories of operations with any number of close and reopen steps and changes of options between them",
     "The tests reopen a database once with a few messages; what survives depends on which entries were synced, logged or only leased at the close.",
     ["db.go", "db_sync.go", "recovery.go", "wal/wal.go", "db_info.go", "trie.go"],
     [M("sync on close", "db.go:Close"), M("recovery from the log", "recovery.go:recoverLog"), M("topic trie loaded from the window file", "db_internal.go:loadTrie")],
     sched(), BASE_NOTE + SCHED_NOTE, MODEL)
prop("P03", "Acknowledged writes survive a crash",
     "When the process dies at any moment, a later Open succeeds and finds every message acknowledged early enough to have been logged, no message that was never written, and no message whose deletion was acknowledged. Batches that were committed are complete, and recovery is itself safe against a crash.",
     ["crash_points", "histories"], "all histories and all points between two file operations of the process, those of the recovery included",
     "The tests recover one log of one history; a crash can fall between any two writes of a sync, and the number of such points grows with the history.",
     ["db_sync.go", "recovery.go", "wal/writer.go", "wal/reader.go", "memdb/recovery.go", "memdb/tiny_log.go", "leasing.go"],
     [M("write-ahead log and its release", "wal/wal.go, wal/writer.go"), M("replay and idempotent sync", "recovery.go:recoverLog, db_sync.go:startSync")],
     crash("crashpoints", 10, 20) + sched()[1:], BASE_NOTE + CRASH_NOTE + SCHED_NOTE, MODEL, assumptions=PC)
prop("P04", "A deleted message never comes back",
     "Once Delete of a message has returned, no query returns it, whether it was in memory or synced, and it stays gone across syncs, reopening and crashes. Every other message stays as it was.",
     ["histories", "crash_points"], "all histories with deletes of messages in every stage of their life, repeated deletes included",
     "The tests delete one message straight after it was put; a deletion can race with the sync, the log or the reuse of the freed space.",
     ["db.go", "db_internal.go", "memdb/db.go", "leasing.go", "block_writer.go"],
     [M("delete in memory, index and free list", "db_internal.go:delete"), M("tombstones in the memory log", "memdb/db.go:Delete")],
     crash("delcrash") + sched()[1:], BASE_NOTE + CRASH_NOTE + SCHED_NOTE, MODEL, assumptions=PC)
prop("P05", "Topics are independent of each other",
     "What is put on or deleted from one topic is never returned for, and never removed from, a different topic without wildcards, whatever the two names have in common: shared prefixes, permuted parts, repeated parts or different depth.",
     ["inputs", "histories"], "all sets of topic names over a small alphabet of parts up to the maximum depth, and histories over them",
     "The tests use unrelated names; collisions depend on the structure of the pairs of names.",
     ["message/topic.go", "trie.go", "hash/hash.go", "db_internal.go"],
     [M("topic hash and part hashes", "message/topic.go:GetHash, Parse"), M("trie lookup", "trie.go")],
     CORE, BASE_NOTE, MODEL)
prop("P06", "Wildcard queries return exactly the messages of the matching topics",
     "A query whose topic has single-part or multi-part wildcards returns the messages of exactly the stored topics the pattern matches, wherever the wildcards stand. Messages stored under a wildcard topic are returned to queries their pattern covers.",
     ["inputs", "histories"], "all pairs of generated stored topics and patterns with wildcards at every position, before and after sync and reopening",
     "The tests query two fixed wildcard patterns; the matcher walks a trie whose shape is given by all topics stored.",
     ["trie.go", "message/topic.go", "db_internal.go"],
     [M("wildcard lookup", "trie.go:lookup"), M("wildcard parse", "message/topic.go:Parse")],
     CORE, BASE_NOTE + " The reference matcher compares part lists.", MODEL)
prop("P07", "Messages of one contract are invisible to every other contract",
     "A query with one contract never returns a message stored with another contract, and a topic used under two contracts behaves as two topics, across syncs and reopening, with or without wildcards.",
     ["inputs", "histories"], "all histories over several contracts, the master contract included, with the same topic names in each",
     "The tests use a single contract for each topic.",
     ["db.go", "message/id.go", "message/topic.go", "trie.go", "entry.go"],
     [M("contract in topic hash and message prefix", "message/topic.go, message/id.go")],
     CORE, BASE_NOTE, MODEL)
prop("P08", "A message with a time to live is returned until it expires and never after",
     "A message put with a time to live is returned by every query before its expiry and by none after it, whether or not it was synced, reopened or recovered meanwhile. Messages without one never expire, and expiring one message leaves all others as they were.",
     ["histories", "inputs"], "all histories of puts with times to live in each form of the topic option, waits and the expirer's runs",
     "A test cannot wait for hours; with virtual time the history crosses many expiry windows.",
     ["expiry_window.go", "db_internal.go", "entry.go", "message/topic.go", "options.go"],
     [M("expiry windows", "expiry_window.go"), M("expirer", "db_internal.go:expireEntries"), M("ttl option", "message/topic.go:TTL")],
     CORE, BASE_NOTE, MODEL, assumptions=[VT])
prop("P09", "Query limits return the newest messages in the asked range",
     "A query with a number returns that many of the most recent messages, or all when there are fewer; a query with a duration returns only messages put within it; without either the configured default applies, and no query exceeds the configured maximum.",
     ["inputs", "histories"], "all limits, durations and option values against topics holding from none to several blocks of messages",
     "The tests read with one limit below one block.",
     ["query.go", "options.go", "db.go", "time_window.go", "message/topic.go"],
     [M("parse of the query", "query.go:parse"), M("limited lookup", "time_window.go:lookup")],
     CORE, BASE_NOTE, MODEL, assumptions=[VT])
prop("P10", "A batch takes effect completely or not at all",
     "The puts of a batch that commits are all there and its deletes all done, in the order given; a batch that fails, or that is aborted, or that a crash or close interrupts before its commit leaves nothing behind. Batches do not disturb writes outside them.",
     ["histories", "crash_points"], "all histories mixing batches (writes, deletes, options, explicit and implicit writes, errors returned by the function) with single operations, reopening and crashes",
     "The tests commit two small batches; partial effects appear only with errors or crashes between parts.",
     ["batch.go", "db.go", "memdb/batch.go"],
     [M("batch write and commit", "batch.go:Write, Commit"), M("abort", "batch.go:Abort")],
     crash("batchcrash") + sched()[1:], BASE_NOTE + CRASH_NOTE + SCHED_NOTE, MODEL, assumptions=PC)
prop("P11", "Encryption changes nothing but what lies on disk",
     "With encryption on for the database, for an entry or for a batch, every query returns the plain bytes that were put, also after reopening, and the plain payload bytes do not appear in the files. The setting of the database survives reopening.",
     ["inputs", "configurations", "histories"], "all payload sizes and histories with every combination of the three encryption switches",
     "The tests encrypt one message and read it back from memory.",
     ["crypto/mac.go", "db.go", "batch.go", "db_info.go", "db_internal.go"],
     [M("encrypt on put, decrypt on query", "db_internal.go:setEntry, db.go:Get")],
     CORE, BASE_NOTE, MODEL)
prop("P12", "Freed space is reused without damaging live messages",
     "Space of deleted and expired messages is handed out again to new ones, and no message that is alive ever shares its bytes with another. This holds across syncs, reopening and crashes, and a workload of constant live size keeps the files bounded.",
     ["histories", "crash_points"], "all histories of puts and deletes of mixed sizes with free-list defragmentation, reopening and crashes",
     "The tests never free more than one block; a double allocation needs a sequence of frees and merges.",
     ["leasing.go", "block_writer.go", "db_sync.go"],
     [M("leases of freed blocks", "leasing.go"), M("defrag", "leasing.go:defrag")],
     crash("reusecrash", 15) + sched()[1:], BASE_NOTE + CRASH_NOTE + SCHED_NOTE, MODEL, assumptions=PC)
prop("P13", "Concurrent calls behave as if they had been made one at a time",
     "Puts, deletes, queries, batches, syncs and status calls made from several goroutines at once, and a Close among them, never corrupt, lose or invent messages: a query sees every message whose put returned before it began and none whose delete did. No call deadlocks or panics, and there is no data race.",
     ["schedules", "histories"], "all schedules of up to eight goroutines over generated operation lists",
     "The tests run everything from one goroutine.",
     ["db.go", "db_internal.go", "db_sync.go", "mutex.go", "memdb/db_internal.go", "time_window.go", "batch.go"],
     [M("sharded locks, sync lock", "mutex.go, db_internal.go"), M("close wait", "db.go:Close")],
     sched("core", 12, 20, nondet=True) + [{"pkg": "core", "race": True, "quick": 12, "nondet": True}],
     "Exploration: schedules come from the Go scheduler with generated operation lists, with and without the race detector; a logical clock orders what must be seen. Schedules are sampled, not enumerated." + SCHED_NOTE, "randomised concurrent histories with a visibility oracle, and the race detector as a second oracle")
prop("P14", "One database directory has one opener, and a closed database refuses calls",
     "While a database is open a second Open of its path fails without disturbing the first; after Close, or a failed Open, or a crash, it can be opened again. Every call on a closed database returns an error and neither panics nor blocks.",
     ["schedules", "histories"], "all sequences and concurrent attempts of open, close, crash and use on one path by several openers",
     "The tests open and close from one place in order.",
     ["db.go", "file_unix.go", "file.go", "errors.go"],
     [M("lock file", "file_unix.go:createLockFile"), M("closed flag", "db_internal.go:ok")],
     sched("core", 12, 14, nondet=True), BASE_NOTE + SCHED_NOTE, "generated histories of concurrent openers against an ownership model")
prop("P15", "Invalid requests are refused and change nothing",
     "A put, delete, query or batch with an empty, too long or malformed topic, empty or too long payload, an invalid id or a time already past is refused with an error or is harmless; it never panics and leaves every query's result as it was. Boundary values that are allowed work like any others.",
     ["inputs", "histories"], "all entries with values on and around each limit, interleaved with valid histories",
     "The tests try two invalid entries.",
     ["db.go", "entry.go", "batch.go", "message/topic.go", "errors.go"],
     [M("checks of entry and query", "db.go:PutEntry, query.go, batch.go")],
     CORE, BASE_NOTE, MODEL)
prop("P16", "Counts and sizes reported agree with the operations made",
     "The number of messages reported equals the puts minus the deletes and expiries made, also after reopening; the meters grow by exactly the operations made, and the file size reported equals what the directory holds.",
     ["histories"], "all histories of operations without crashes",
     "The tests check a count after one kind of operation.",
     ["db.go", "meter.go", "db_info.go", "file.go", "db_sync.go"],
     [M("count in the info header", "db_info.go, db_internal.go:incount, decount"), M("meter", "meter.go:Varz")],
     sched(), BASE_NOTE + SCHED_NOTE, MODEL)
prop("P17", "Message ids are unique and stay usable",
     "No two messages, and no two ids handed out, are the same, across batches, reopening and concurrent use; a message put under a chosen id can be deleted under that id at any later time.",
     ["histories", "schedules"], "all histories of id requests, puts with own ids, batches, reopening and reuse after deletes",
     "The tests ask for a handful of ids from one process run.",
     ["db.go", "message/id.go", "leasing.go", "db_internal.go", "uid/uid.go"],
     [M("sequence and lease of freed sequences", "db_internal.go:nextSeq, leasing.go:getSlot")],
     sched("core", 14, 14, nondet=True), BASE_NOTE + SCHED_NOTE, MODEL)

prop("P18", "A file operation that fails loses no message",
     "When writing to the files fails while messages are moved to them, because of an error, a full disk or a write that is cut short, every query and the count of messages stay as they were. A later sync, a reopening or a crash after it find every message exactly once, and a database that cannot be opened completely is not opened.",
     ["fault_sequences", "histories"], "all histories with a fault in any of the file calls of a sync or an opening, also several in a row",
     "The tests run with a disk that works; each call that may fail leaves the files in a different half-written state.",
     ["db_sync.go", "block_writer.go", "time_window_writer.go", "recovery.go", "leasing.go", "file.go"],
     [M("rollback of a sync", "db_sync.go:abort, block_writer.go:abort, time_window_writer.go:abort"), M("recovery", "recovery.go:startRecovery")],
     [{"pkg": "core", "mode": "os", "suite": "faults"}], BASE_NOTE + " The calls of the standard package os that change files, the memory log included, are made to fail by a hook; faults of the background sync are left out.", "model-based property testing with fault injection at the file system calls, shrunk to a replay", assumptions=[VT])

MEM = [{"pkg": "mem"}]
MEM_NOTE = "Exploration: generated histories against the in-memory store (package memdb) through its public API in virtual time, compared with an exact reference model; values range from empty to several pages, log and block intervals from 1 ms to 5 s."
prop("M01", "The in-memory store returns the last value put for each key",
     "Get returns the bytes last put for a key, from Put or from a committed batch, and fails for a key that was never put, was deleted, or belongs to an aborted batch. Keys lists every stored key once, Size counts them, and Lookup finds the value in the time block that its put returned.",
     ["histories", "inputs"], "all histories of puts, overwrites, deletes, batches, aborted batches and waits over a small set of keys",
     "The tests put a few keys and read them; overwrites across time blocks, aborted batches and keys of many blocks need long histories.",
     ["memdb/db.go", "memdb/db_internal.go", "memdb/block.go", "memdb/batch.go", "memdb/tiny_log.go"],
     [M("time blocks", "memdb/db_internal.go:put, memdb/db.go:Get"), M("batches with a block of their own", "memdb/batch.go")],
     sched("mem"), MEM_NOTE + SCHED_NOTE, MODEL)
prop("M02", "The in-memory store is rebuilt from its log after a reopen or a crash",
     "After Close and Open every key has the value it had, no deleted key is back and no freed entry is back. After a crash the same holds for every operation older than a few log intervals and for every committed batch, while later ones are there or not; opening with the reset option starts empty.",
     ["crash_points", "histories"], "all histories of puts, deletes, batches, frees, reopenings, resets and crashes at any operation",
     "The tests recover one log of one history.",
     ["memdb/recovery.go", "memdb/tiny_log.go", "memdb/db_internal.go", "wal/wal.go", "wal/reader.go"],
     [M("recovery in the order of the logs", "memdb/recovery.go:startRecovery"), M("tombstones and release of logs", "memdb/db_internal.go:releaseLog, deletesPending")],
     sched("mem"), MEM_NOTE + SCHED_NOTE, MODEL, assumptions=PC)
prop("M03", "Draining the in-memory store loses and repeats nothing",
     "Iterating the time blocks shows each written block once with exactly its stored keys, and freeing a block removes exactly the entries of that block. An entry is in memory or was drained, never both and never neither.",
     ["histories"], "all histories of puts, deletes, batches, waits and drains of some or all of the blocks",
     "The tests free one block; which blocks may be freed depends on the log, on open batches and on the deletes so far.",
     ["memdb/db.go", "memdb/db_internal.go", "memdb/time_mark.go", "memdb/batch.go"],
     [M("block iterator and time marks", "memdb/db.go:BlockIterator, memdb/time_mark.go"), M("free", "memdb/db.go:Free")],
     sched("mem"), MEM_NOTE + SCHED_NOTE, MODEL)
prop("M04", "The in-memory store is safe for concurrent use",
     "Goroutines that put, delete, batch and read their own keys while others list keys and drain blocks each see exactly their own history, and at the end, and after a reopen, every entry is in the store or was drained once. No call panics or deadlocks and there is no data race.",
     ["schedules", "histories"], "all schedules of up to eight workers, a drain and a listing over generated operation lists",
     "The tests use the store from one goroutine.",
     ["memdb/db.go", "memdb/db_internal.go", "memdb/tiny_log.go", "memdb/time_mark.go"],
     [M("block locks and released blocks", "memdb/db_internal.go:put, releaseLog")],
     sched("mem", 10, 14, nondet=True) + [{"pkg": "mem", "race": True, "quick": 12, "nondet": True}],
     "Exploration: schedules come from the Go scheduler with generated operation lists, with and without the race detector; schedules are sampled, not enumerated." + SCHED_NOTE, "randomised concurrent histories with per-goroutine models, and the race detector as a second oracle")
prop("W01", "The write-ahead log returns exactly what was written and not released",
     "After a reopen or a crash the log is read back in ascending order of the log IDs, each log with exactly the records appended to it, byte for byte and in order. Released and reset logs do not come back, a log can be neither appended to nor written again once it is written, and a closed log refuses readers and writers.",
     ["histories", "inputs", "crash_points"], "all histories of writes, concurrent writes, releases, resets, reopenings and crashes with IDs of any length and records of 0 to 70000 bytes",
     "The tests write one log with a thousand short records and check that something was recovered.",
     ["wal/wal.go", "wal/writer.go", "wal/reader.go", "wal/file.go", "wal/header.go"],
     [M("log files", "wal/file.go:put, read, all, del"), M("record framing", "wal/writer.go:append, wal/reader.go:Next")],
     MEM, "Exploration: generated histories against package wal through its public API, with an exact reference model.", MODEL, assumptions=PC)
prop("W02", "A damaged log costs only its own entries",
     "Whatever happened to some of the log files (cut short, extended, bytes changed, foreign files beside them), opening the in-memory store never fails, panics or hangs, and it can be written and reopened. If logs are only cut or extended, all entries of the undamaged logs are there and no value is wrong.",
     ["inputs", "crash_points"], "all sets of logs with any damage to any of their bytes",
     "The tests never open damaged files; the damage is at any of thousands of offsets.",
     ["wal/file.go", "wal/reader.go", "wal/header.go", "memdb/recovery.go"],
     [M("validation of a log file", "wal/file.go:read"), M("validation of records", "wal/reader.go:Next, memdb/recovery.go:startRecovery")],
     MEM, "Exploration: logs written by generated puts and deletes are damaged by generated mutations; byte flips are only required not to break opening and use, since the format has no checksums.", "fuzzing of log files by structured mutation with a recovery oracle")
LIB = [{"pkg": "lib"}]
LIB_NOTE = "Exploration: generated inputs and histories against the exported functions of the package, with an independent reference or relation as oracle."
prop("L01", "Placement of blocks is consistent and moves only what it must",
     "Every key is placed in a block in use, the placement depends only on the key and on the history of added and removed blocks, and every block in use gets its share of the keys. Adding a block moves keys only to it, removing one moves only its own keys, and adding it back restores the earlier placement.",
     ["inputs", "histories"], "all histories of additions and removals over rings of 1 to 2000 blocks, partly used from the start or entirely",
     "The tests place some keys in a ring that is never changed.",
     ["hash/consistent.go"],
     [M("anchor hash", "hash/consistent.go:AddBlock, FreeBlock, FindBlock")],
     LIB, LIB_NOTE, "metamorphic property testing: generated histories of a consistent hash, each step related to the one before, and to a second instance")
prop("L02", "The membership filter has no false negatives",
     "Every key added to the filter is found in it, at once and after any number of later additions. At most a few percent of keys never added are found, up to the capacity of the filter.",
     ["inputs"], "all sets of up to some ten thousand keys, spread or consecutive",
     "No test covers the filter; a false negative depends on the bits of one key.",
     ["filter/bloom.go", "filter/filter.go"],
     [M("bloom filter", "filter/bloom.go:Add, Test")],
     LIB, LIB_NOTE, "property testing of a filter against the set of added keys")
prop("L03", "Text encodings of identifiers are exact and reversible",
     "Every identifier is written with the alphabet of the encoding exactly as standard base32 would write it, and reading the text gives the identifier back, also when it is decoded in place. Neither direction changes its input.",
     ["inputs"], "all identifiers of 8 and 32 bytes",
     "Each bit of an identifier passes through its own shift and mask; tests sample none of them.",
     ["encoding/base32.go", "encoding/base8.go", "server/internal/pkg/encoding/base32.go", "server/internal/pkg/encoding/base8.go"],
     [M("unrolled base32", "encoding/base32.go, server/internal/pkg/encoding")],
     LIB, LIB_NOTE, "round-trip and differential property testing against encoding/base32 of the standard library")
prop("L04", "Encrypted payloads are returned unchanged and damage is noticed",
     "Decrypting what was encrypted with the same key gives the same bytes, for payloads of any length, as often as it is done and from any number of goroutines; no input is changed by it. A payload whose bits were changed, cut or extended, or that was encrypted with another key, is refused and never returned.",
     ["inputs", "schedules"], "all payloads, keys and single damages to a ciphertext, empty and shorter than a nonce included",
     "No test encrypts anything.",
     ["crypto/mac.go", "server/internal/pkg/crypto/mac.go"],
     [M("authenticated encryption", "crypto/mac.go:Encrypt, Decrypt")],
     LIB + [{"pkg": "lib", "race": True, "quick": 8, "nondet": True}], LIB_NOTE, "round-trip property testing and fuzzing of ciphertexts")
prop("L05", "Metrics report exactly what was recorded",
     "Counters and gauges hold the sum of, or the last of, the values recorded by any number of goroutines, and a name gives the same metric to everyone until it is unregistered. The statistics of a series, asked directly or of a snapshot, are those of exactly the durations recorded most recently, also when there are none, and a snapshot never changes.",
     ["histories", "schedules"], "all histories of recording, resetting, reading, registering and unregistering over eight metrics, with steps done by several goroutines at once, and series of 1 to 1000 durations",
     "No test reads a statistic; the order of recorded durations and the moment of a snapshot decide.",
     ["metrics/sample.go", "metrics/histogram.go", "metrics/timeseries.go", "metrics/counter.go", "metrics/metrics.go", "server/internal/pkg/metrics/sample.go", "server/internal/pkg/metrics/metrics.go"],
     [M("ring of durations", "metrics/sample.go:AddTime, Snapshot"), M("registry", "metrics/metrics.go:GetOrRegister")],
     LIB + [{"pkg": "lib", "race": True, "quick": 8, "nondet": True}], LIB_NOTE + " Percentiles may be off by one rank and averages of the longest and shortest part by one duration, since their rounding is not documented.", "model-based property testing: generated histories of metrics against a model of the durations recorded, also under the race detector")
SRV = [{"pkg": "srv"}]
SRV_NOTE = "Exploration: generated cases against the package of the server, with an independent reference model or relation as oracle; numbers and sizes are bounded by the time budget."
prop("S01", "Every packet of the wire protocol is read as it was written",
     "Any stream of packets that the server or a client writes is read back, packet by packet and field by field, however the bytes are split up by the transport; server and clients encode alike, and as the protocol definition says. A stream that ends inside a packet gives the complete packets and then an error.",
     ["inputs"], "all sequences of up to a dozen packets of each type with any field values, any fragmentation of the bytes and any cut",
     "The tests cover no packet; each field and each length boundary has its own encoding step.",
     ["server/utp/message.go", "server/utp/publish.go", "server/utp/subscribe.go", "server/utp/connect.go", "server/utp/relay.go", "server/utp/flow_control.go", "server/internal/net/message.go"],
     [M("fixed header and length", "server/utp: Read, Encode"), M("messages", "server/utp, server/proto")],
     SRV, SRV_NOTE, "round-trip and differential property testing against a hand-written encoder of the protocol definition")
prop("S02", "Malformed input is refused without harm",
     "Reading any bytes from a connection gives packets or an error, never a panic or endless wait, and takes memory in proportion to the bytes received. A packet whose body is refused or ignored does not change how the packets before it, or behind a readable one, or those of another connection, are read.",
     ["inputs"], "all mutations of valid streams: changed, removed, inserted and repeated bytes, any header, any announced length, random bodies",
     "No test sends malformed input.",
     ["server/utp/message.go", "server/utp/publish.go", "server/utp/subscribe.go", "server/utp/connect.go", "server/utp/relay.go", "server/utp/flow_control.go"],
     [M("header checks", "server/utp: Read"), M("body decoding", "server/utp: FromBinary")],
     [{"pkg": "srv", "suite": "malformed"}, {"pkg": "srv", "suite": "together", "nondet": True, "quick": 10}], SRV_NOTE + " Several streams are also read at the same time, each with the result it has alone.", "structured fuzzing of packet streams with a re-reading oracle and a memory bound")
prop("S03", "Connections over streams carry the bytes unchanged",
     "What is written to a connection over a stream of messages or over a web socket is read at the other end, completely and in order, whatever the sizes of writes and reads and however many goroutines write; concurrent writes are not mixed. After one end is closed the other reads the rest and then the end of the stream.",
     ["inputs", "schedules"], "all sequences of writes of 0 to 100000 bytes by up to four goroutines per side, with any sizes of the read buffers",
     "No test covers these connections.",
     ["server/internal/net/hdl_grpc.go", "server/internal/net/hdl_grpc_web.go"],
     [M("message stream as a connection", "server/internal/net: gRPC connection"), M("web socket as a connection", "server/internal/net: websocket connection")],
     [{"pkg": "srv", "nondet": True}], SRV_NOTE, "round-trip property testing of byte streams with recorded concurrent writes")
prop("S04", "A topic key opens exactly its topic with exactly its permissions",
     "A key generated for a topic has exactly the permissions asked for and is valid for exactly the topic or wildcard it was made for, or for every topic if it was made for all, and not for topics that differ in a part or in depth. Key, topic and options of a request are separated exactly, and no text makes this panic.",
     ["inputs"], "all topics of up to 23 parts with wildcards and options, permissions, contracts, and other topics made by changing parts",
     "The tests try a few keys; a key encodes each part of a topic in a bit mask and a hash.",
     ["server/internal/message/security/key.go"],
     [M("key fields and topic hash", "server/internal/message/security/key.go"), M("parsing", "server/internal/message/security/key.go:ParseKey")],
     SRV, SRV_NOTE, "property testing of generated topics with metamorphic changes of parts", assumptions=["different topic parts have different 32-bit hashes (generated collisions are excluded)"])
prop("S05", "Client identities are exact and cannot be forged",
     "An identity is read back from its text with all its fields, a secondary identity belongs to the contract of its primary one and is not primary, and writing or deriving changes nothing. A text that was changed, cut, made under another key or made up is never read as another identity.",
     ["inputs"], "all identities, single changes to their text, other keys and random texts",
     "The tests do not decode identities.",
     ["server/internal/pkg/uid/clientid.go", "server/internal/pkg/uid/uid.go", "server/internal/pkg/encoding/base32.go"],
     [M("encrypted identity", "server/internal/pkg/uid: Encode, Decode")],
     SRV, SRV_NOTE, "round-trip property testing and fuzzing of identity texts")
prop("S06", "Message identifiers of a connection are never given twice",
     "An identifier given out is not given again until it is freed, also not to concurrent callers, and never is one that belongs to a resumed message; identifiers are taken in turn and no free one is skipped. Its type can be asked for as long as it is in use.",
     ["histories", "schedules"], "all histories of requests, resumed and freed identifiers and resets, and concurrent requests by up to eight goroutines",
     "No test covers them; the conflict with resumed identifiers needs a resumed session.",
     ["server/internal/message/messageids.go"],
     [M("identifier table", "server/internal/message: MessageIds")],
     SRV, SRV_NOTE, MODEL)
prop("S07", "The subscriptions of a connection are counted exactly",
     "The first subscription to a topic is the first and only the removal of the last one is the last, and it gives back the identifier made with the first. Topics never subscribed are not found, and the list shows each topic with its count.",
     ["histories"], "all histories of subscriptions and removals over a few topics",
     "No test covers them.",
     ["server/internal/message/sub.go"],
     [M("counted subscriptions", "server/internal/message/sub.go:Stats")],
     SRV, SRV_NOTE, MODEL)
prop("S08", "Contracts are placed on cluster nodes consistently",
     "Every key is placed on a node of the ring, on the same node in whatever order and in however many steps the nodes were added. Adding a node moves keys only to it, and rings have the same signature exactly when they have the same nodes.",
     ["inputs", "histories"], "all sets of up to a few dozen nodes, replica counts and keys",
     "No test covers the ring.",
     ["server/internal/pkg/hash/ringhash.go"],
     [M("hash ring", "server/internal/pkg/hash")],
     SRV, SRV_NOTE, "metamorphic property testing: rings built in different orders and extended by a node")
prop("S09", "The message log of the server keeps what is still owed, and sessions",
     "A message kept for a session is found, unchanged, until it is completed or the session is reset; completed messages do not come back, and sessions do not see each other's messages. The state of a session is the one last stored, and all of this holds after the server is stopped and started again.",
     ["histories"], "all histories of inbound and outbound packets of several sessions, completions, resets, session changes and restarts",
     "No test covers the log of the server.",
     ["server/internal/store/store.go", "server/internal/db/unitdb/adapter.go"],
     [M("inbound and outbound log", "server/internal/store: MessageLog"), M("adapter", "server/internal/db/unitdb")],
     SRV, SRV_NOTE, MODEL, assumptions=[VT])
prop("S10", "The store of the server returns the messages and subscriptions it was given",
     "The last messages of a topic are exactly those stored for it under the contract within the duration or number asked for, and the subscriptions found for a topic are exactly those whose pattern covers it and that have not ended, each once. Contracts do not see each other, and all of this holds after the server is stopped and started again.",
     ["histories", "inputs"], "all histories of messages with and without a time to live, subscriptions with wildcards, their ends, waits and restarts over several contracts",
     "The tests of the server store one subscription and one message.",
     ["server/internal/store/store.go", "server/internal/db/unitdb/adapter.go"],
     [M("subscriptions stored as messages", "server/internal/store: SubscriptionStore"), M("adapter", "server/internal/db/unitdb")],
     SRV, SRV_NOTE, MODEL, assumptions=[VT])
prop("S12", "One listener serves each connection by the protocol its first bytes say",
     "Every connection is handed to the first registered protocol that its first bytes match, which reads all bytes from the first one on, however they arrive, while other connections are idle or half-open. A connection that matches none is closed, and closing the listener ends all waiting accepts.",
     ["inputs", "schedules"], "all sets of up to a dozen concurrent connections with protocol prefixes, HTTP requests or arbitrary bytes, split and delayed at any point",
     "No test covers the listener.",
     ["server/internal/net/listener/listener.go", "server/internal/net/listener/patricia.go"],
     [M("sniffing", "server/internal/net/listener/listener.go"), M("matchers", "server/internal/net/listener/patricia.go")],
     [{"pkg": "srv", "nondet": True}], SRV_NOTE + " Connections are real TCP connections on the loopback interface.", "property testing of generated connections against a model of the matchers")
E2E = " The real server runs with its memory and file store in a virtual-time bubble; clients speak the wire protocol over in-memory connections, and a reference model says after each step what every client has to have received."
E2E_SRC = ["server/internal/db/unitdb/adapter.go", "server/internal/conn.go", "server/internal/hdl_conn.go", "server/internal/batch.go", "server/internal/service.go", "server/internal/store/store.go", "server/internal/message/sub.go", "server/utp/message.go"]
E2E_M = [M("requests of a connection", "server/internal/conn.go, server/internal/hdl_conn.go"), M("store of messages and subscriptions", "server/internal/store/store.go")]
prop("S11", "A published message reaches exactly the matching subscribers, once and unchanged",
     "Every message a client publishes is delivered, with its topic and bytes unchanged, to exactly those connections of its contract that are subscribed to a topic or wildcard matching it at that moment, one copy for each matching subscription, and to nobody else. After an unsubscribe or a disconnect nothing more is delivered for that subscription, and every accepted request is acknowledged exactly once.",
     ["histories"], "all histories of connecting, subscribing, unsubscribing, publishing (also concurrently) and disconnecting by up to 5 clients of up to 2 contracts, over a few topics and wildcards",
     "No test runs the server; who receives what depends on the history of subscriptions of all clients.",
     E2E_SRC, E2E_M + [M("matching", "server/internal/hdl_conn.go:onPublish, server/internal/conn.go:publish")],
     sched("srv"), SRV_NOTE + SCHED_NOTE + E2E, MODEL, assumptions=[VT])
prop("S13", "The numbers the server reports agree with what happened",
     "The reported numbers of connections, subscriptions, and messages and bytes received and sent on directly agree with the requests and deliveries that happened, after any history. Refused and repeated requests are not counted as successful ones.",
     ["histories"], "the histories of message routing, with the numbers compared after each step",
     "No test looks at the counters, which are changed in many places.",
     ["server/internal/conn.go", "server/internal/hdl_conn.go", "server/internal/monitor.go"], [M("counters", "server/internal/hdl_conn.go, server/internal/conn.go")],
     sched("srv"), SRV_NOTE + SCHED_NOTE + E2E, MODEL, assumptions=[VT])
prop("S14", "A request has effect only with a key that permits it",
     "A client in secure mode publishes to, subscribes to and asks for stored messages of exactly the topics its key is valid for and permits, and every other request is answered with an error and has no effect. Keys and client identities that are given out are of the asking client's own contract, only a primary client obtains new identities, and identities not given by the server are refused.",
     ["histories"], "all histories of up to 4 clients of 2 contracts with keys of ten kinds (right, of another topic or contract, lacking a permission, damaged, missing), and of key and identity requests",
     "No test sends a request without permission.",
     E2E_SRC + ["server/internal/message/security/key.go"], [M("authorisation", "server/internal/hdl_conn.go"), M("identities and keys on request", "server/internal/hdl_conn.go: onClientIDRequest, onKeyGen")],
     sched("srv"), SRV_NOTE + SCHED_NOTE + E2E, MODEL, assumptions=[VT])
prop("S15", "A reliable message is owed to the session until it is confirmed",
     "A message for a subscription that asks for reliable delivery is announced to the client, sent when the client asks for it, and completed when the client confirms it. Until then it is announced again, and stays available unchanged under its identifier, whenever the session is resumed, and afterwards never again; sessions do not see each other's messages.",
     ["histories"], "all histories of up to 4 clients that connect with session keys or without, lose the connection at any step, resume, and answer announcements late or never",
     "No test resumes a session.",
     E2E_SRC, [M("session resume", "server/internal/hdl_conn.go"), M("message log", "server/internal/store/store.go")],
     sched("srv"), SRV_NOTE + SCHED_NOTE + E2E, MODEL, assumptions=[VT])
prop("S16", "Batching delays messages but loses, repeats and mixes none",
     "Messages sent to a client in batches, and messages for a subscription with a delay, arrive completely, once each and unchanged, not before the delay is over and soon after it. Messages with different delays do not hold up or release each other.",
     ["histories", "schedules"], "all histories of publishes, also concurrent, to clients with batch settings and subscriptions with delays from 1 ms to 20 s, with waits in between",
     "Batches depend on timers and on messages that arrive while one is sent.",
     ["server/internal/batch.go", "server/internal/hdl_conn.go", "server/internal/conn.go"], [M("batches", "server/internal/batch.go")],
     sched("srv"), SRV_NOTE + SCHED_NOTE + E2E, MODEL, assumptions=[VT])
prop("S17", "Stored messages are relayed to who asks for them",
     "A client that asks for the stored messages of a topic receives exactly those published on it by its contract within the time asked for that have not expired, with their bytes unchanged. Nothing is relayed from other topics or contracts.",
     ["histories"], "all histories of publishes with and without a time to live, waits and relay requests by up to 4 clients of 2 contracts",
     "No test relays.",
     ["server/internal/hdl_conn.go", "server/internal/store/store.go"], [M("relay", "server/internal/hdl_conn.go"), M("store of messages", "server/internal/store/store.go")],
     sched("srv"), SRV_NOTE + SCHED_NOTE + E2E, MODEL, assumptions=[VT])
prop("S18", "A misbehaving client harms no other",
     "Whatever a client sends, and wherever it stops, the server keeps running and every other client gets all its acknowledgements and messages. The connection of the misbehaving client is closed or goes on, and its end releases everything it held.",
     ["inputs", "histories"], "all histories of message routing mixed with clients that send garbage, mutated packets, requests in the wrong order, odd topics, half packets, or stop reading or disconnect at once",
     "No test sends malformed or misplaced requests to a running server.",
     E2E_SRC, E2E_M, sched("srv"), SRV_NOTE + SCHED_NOTE + E2E, MODEL + ", with fuzzed packets", assumptions=[VT])
prop("S19", "A restarted server still has stored messages and what sessions are owed",
     "After the server is stopped, or dies and is started again on its files, stored messages are relayed and unconfirmed messages are announced and sent on resume as before. Messages already confirmed stay confirmed.",
     ["histories", "crash_points"], "all histories of reliable messages, stored messages and sessions with stops and crashes between steps",
     "No test restarts the server.",
     E2E_SRC, [M("stores opened again", "server/internal/service.go, server/internal/store")],
     sched("srv"), SRV_NOTE + SCHED_NOTE + E2E + " A crash is a copy of the files taken while the server is idle, after its log interval.", MODEL, assumptions=[VT] + PC)
# ---MORE---


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": p["mechanism"]}
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    with open(os.path.join(HERE, "checks.json"), "w") as f:
        f.write("{\n" + ",\n".join(' %s: %s' % (json.dumps(p["id"]), json.dumps({"parts": p["parts"], "assumptions": p["assumptions"]})) for p in PROPS) + "\n}\n")
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                       "thorough_cmd": "python3 run.py %s thorough" % p["id"], "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]} for p in PROPS],
           "not_applicable": []}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]


if __name__ == "__main__":
    main()
