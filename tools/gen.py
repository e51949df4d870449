#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "schedules"; I = "inputs"; H = "histories"; C = "configurations"; F = "fault_sequences"; K = "crash_points"; P = "programs"
sx = "scouterx/"
# id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], technique, note
L = []
def p(*a): L.append(a)

p("C01", "A finished service is recorded exactly once",
  "Every traced service that is ended produces exactly one transaction record, however many goroutines end it, mark it as failed or sweep it at the same time. The record carries the service's own id, name, elapsed time and error state as they were when it ended. A service that was not ended produces none, and ending it again changes nothing.",
  [S, H], "all interleavings of 2-3 goroutines ending/marking one or several services, and against the stuck sweep; all short sequences of service operations",
  "The tests start and end services on one goroutine and assert nothing about the record that is sent; a double end needs a particular interleaving.",
  ["strace/tracemain.go", "strace/tctxmanager/tctxmanager.go", "netio/tracecontext.go", "netio/dataproxy.go"],
  [("EndService/EndHttpService/EndAny and the closed mark of the trace context", "strace/tracemain.go"), ("removal from the registry of active services", "strace/tctxmanager/tctxmanager.go")],
  "stateless model checking of the real code: deviation-bounded enumeration of all interleavings, plus exhaustive operation sequences against a reference model", "")
p("C02", "The active services list is exact",
  "At any moment the services reported as active are exactly those started and not yet ended, each with its own id, name, elapsed time and client address, and the three speed counts (up to the yellow threshold, up to the red one, above) add up to their number. Starting, ending and querying services concurrently never loses, duplicates or invents one.",
  [S, H, C], "all sequences of up to 5 service operations and clock steps with several thresholds; all interleavings of starts and ends with a query",
  "No test queries the list; counts depend on the clock against thresholds and on concurrent changes.",
  ["strace/tctxmanager/tctxmanager.go", "netio/tcpclient/handlers.go", "conf/configure.go"],
  [("registry of trace contexts", "strace/tctxmanager/tctxmanager.go"), ("OBJECT_ACTIVE_SERVICE_LIST and ACTIVESPEED", "netio/tcpclient/handlers.go")],
  "bounded exhaustive operation sequences and interleavings of the real code against a reference list", "")
p("C03", "Stuck services are reported and forgotten exactly when overdue",
  "At each periodic sweep, every active service that has run longer than the configured stuck time, and no other, is announced by one alert of the configured level. If removal is configured it then leaves the active list, its record being sent once with an error (its own if it had one) and a note in its profile; otherwise it stays active. A removed service that ends later adds no second record.",
  [S, H, C], "all sequences of 5 operations x 6 settings; sweeps interleaved with completions and error marks",
  "The sweep runs on a timer against minutes of elapsed time, which no test waits for, and its races with completion need specific schedules.",
  ["strace/tctxmanager/tctxmanager.go", "strace/tracemain.go", "task/countertask/countertask.go"],
  [("forced end of overdue contexts in the active count", "strace/tctxmanager/tctxmanager.go")],
  "bounded exhaustive operation sequences and interleavings of the real code under a virtual clock", "")
p("C04", "A service's profile arrives complete and in order",
  "All profile steps (messages, methods, calls) added to a service arrive at the collector exactly once, in order, with contiguous indices, correct nesting, times and texts, however many steps there are and whatever the buffer sizes. The transaction record's step count and size equal what was sent. Nothing is sent for a service whose profile is discarded.",
  [H, P, C, I], "all step programs up to 6 operations over 9 operations x buffer sizes; profiles up to 10000 steps; message lengths around every encoding boundary",
  "Tests never add more than a handful of steps, never decode what is sent and never vary buffer sizes.",
  ["netio/profilecollector.go", "netio/dataproxy.go", "strace/tracemain.go", "common/netdata/step.go", "common/netdata/xlogprofilepack.go"],
  [("step stack, buffer and flush of the profile collector", "netio/profilecollector.go"), ("SendProfile", "netio/dataproxy.go")],
  "bounded exhaustive enumeration of step programs executed by the real code, decoded by an independent codec and compared with a reference profile", "")
p("C05", "Goroutines of one service can add profile steps concurrently",
  "When several goroutines add, open and close steps of the same service, also while it ends, no step is lost that was added before the end, none is duplicated, indices stay unique and contiguous, and the agent neither crashes nor deadlocks.",
  [S, C], "all interleavings at every shared memory access of 2-3 goroutines with small and large buffers, up to the deviation bound",
  "Needs particular interleavings inside the collector; tests are single threaded.",
  ["netio/profilecollector.go", "strace/tracemain.go"],
  [("mutex of the profile collector", "netio/profilecollector.go"), ("closed state of ended collectors", "netio/profilecollector.go")],
  "stateless model checking: deviation-bounded enumeration of all interleavings of the real code", "")
p("C06", "Asynchronous children are linked to their parent and complete on their own",
  "A service started from another one's context for asynchronous work gets its own id and record, linked to its caller and to the root of the whole tree, and the caller's profile shows where it was started. Parent and children may end in any order on any goroutine, and each still yields exactly one complete record and profile.",
  [S, H, P], "all trees of up to 4 services with all orders of starting and completing; interleavings of parent, child and grandchild",
  "The tests run one child in one order.",
  ["strace/tracemain.go", "netio/tracecontext.go", "common/netdata/threadstep.go"],
  [("GoWithTrace/StartNewGoroutineService and the thread call step", "strace/tracemain.go")],
  "bounded exhaustive enumeration of program trees and interleavings of the real code", "")
p("C07", "The agent is transparent to its host",
  "No public tracing call ever panics, blocks, exits or changes the host's results, on any context (traced, untraced, ended, cancelled), with any argument including nil, in any configuration or environment. A panic of the application passes through tracing calls unchanged. Host values and deadlines stay readable in returned contexts.",
  [H, I, C, F], "all sequences of up to 3 of 32 API calls with ordinary and degenerate arguments on 5 kinds of context; each call under 8 configurations and 5 broken environments",
  "Tests use well-formed arguments in one environment.",
  ["strace/tracemain.go", "common/panic.go", "common/logger/logger.go", "netio/tracecontext.go"],
  [("recovery around every API entry", "strace/tracemain.go")],
  "bounded exhaustive enumeration of API call sequences, arguments, configurations and environment faults on the real code", "")
p("C08", "Sampling and discarding follow the configuration exactly",
  "Whether a service's record and profile are kept, reduced or dropped is the function of its name, elapsed time, error state and the sampling and discard settings that the documentation of the settings gives; error services are kept unless their discarding is requested. A service that belongs to a larger transaction is still reported, marked with the decision, when sampling drops it. Discarded services still count in the counters.",
  [I, C], "all 2048 combinations of switches x rates x names x durations x error x root/child, every boundary duration, all random draws",
  "Tests cover a few switch combinations; the full decision table and its boundaries are never sampled.",
  ["strace/xlogsampler.go", "strace/tracemain.go", "conf/configure.go"],
  [("evaluation of discard mode and sampling bands", "strace/xlogsampler.go")],
  "exhaustive enumeration of the decision table on the real code against an independent reference", "")
p("C09", "Service name patterns match as documented",
  "A comma-separated list of patterns matches a service name exactly if one of the patterns does, where a star stands for any text, including none, and every other character for itself. The answer does not depend on pattern shape, length or repetition of parts.",
  [I], "all patterns up to 8 characters over {a,b,*} x all names up to 8 over {a,b}; all chains of 2-3 short patterns",
  "Tests check a dozen pairs; overlapping and repeated parts only show up in specific pairs.",
  ["common/util/strmatch.go", "strace/xlogsampler.go"],
  [("StrMatch and CommaSeparatedChainedStrMatcher", "common/util/strmatch.go")],
  "exhaustive enumeration of pattern/name pairs on the real code against a reference matcher", "")
p("C10", "Changed patterns apply to all later services",
  "After a change of a discard or sampling pattern has been loaded, by polling or on request, every service ended later is judged by the new patterns only, whatever the order of changes, and also when the change coincides with the first use of the sampler.",
  [S, H, C], "all sequences of 4 contents of each pattern setting applied in every way; first use interleaved with a change; concurrent refreshes",
  "Tests never change a pattern; a change lost during start-up needs a specific interleaving.",
  ["strace/xlogsampler.go", "conf/configure.go", "conf/opserver.go"],
  [("sampler as an observer of configuration changes", "strace/xlogsampler.go"), ("observer registration", "conf/opserver.go")],
  "bounded exhaustive histories and interleavings of the real code", "")
p("C11", "HTTP services are recorded as the request was",
  "A traced HTTP request yields a record with its path and method as the name, its method, remote address (also through the configured forwarding header), user agent, referer and status, and with the header and query steps that the capture settings request, and no others. Requests are never altered.",
  [I, C], "5 methods x 8 paths x 20 addresses x header variants x capture switches x statuses x ways to end",
  "Tests send one request and assert nothing about the record.",
  ["strace/tracemain.go", "common/util/iputil.go", "netio/profilecollector.go"],
  [("StartHttpService/EndHttpService and header capture", "strace/tracemain.go"), ("address conversion", "common/util/iputil.go")],
  "exhaustive enumeration of requests and settings on the real code against an independent reference", "")
p("C12", "Outgoing calls, errors and methods are attributed correctly",
  "Each recorded outgoing call adds one call step with name, address, duration and error, and the record counts the calls and their total time; an error mark fills the record's error and one message. Propagation headers carry the caller's transaction and root ids and object name in the notation the receiver parses. Method steps name the calling function and its duration.",
  [H, P, I], "all programs of 5 operations over 8 kinds; propagation for 4 kinds of service x id sequences x calls",
  "Tests call each function once and ignore what is sent.",
  ["strace/tracemain.go", "netio/tracecontext.go", "common/util/hexautil.go", "common/netdata/apicallstep.go"],
  [("API call steps and propagation headers", "strace/tracemain.go")],
  "bounded exhaustive enumeration of programs on the real code against a reference record", "")
p("C13", "The configuration in force is the configuration file's",
  "Within one polling period after the file changes, every setting has the value of the file, overridden by nothing but the documented environment and references, and settings removed from the file return to their defaults; unparsable values fall back to defaults. A file that is missing, unreadable or half-written never crashes the agent and never leaves settings of several versions mixed. Observers are told of each change.",
  [H, C, F, I], "63 settings x 8-11 values added/changed/removed; all histories of 4 of 9 file events; a change at every step of a reload; every single file operation failing",
  "Tests read one fixed file once.",
  ["conf/configure.go", "conf/exthandler.go", "conf/opserver.go"],
  [("refresh by modification time and apply", "conf/configure.go"), ("typed getters with defaults", "conf/configure.go")],
  "bounded exhaustive histories with file fault enumeration on the real code over a virtual file system", "")
p("C14", "Saving the configuration remotely is atomic and lossless",
  "A configuration text saved through the agent is read back unchanged and takes effect; if saving fails or the process dies at any point, the file holds the complete old or the complete new text. A failed save is reported as such.",
  [K, F, S, H, I], "all sequences of 3 saves/reads of 5 texts; every failing file operation, crash point, torn write and loss of unsynced data; saves interleaved with polling",
  "Tests cannot crash a process inside a file write.",
  ["conf/configure.go", "netio/tcpclient/handlers.go"],
  [("SaveConfigText: temporary file, sync, rename", "conf/configure.go")],
  "exhaustive crash-point and fault enumeration on the real code over a virtual file system", "")
p("C15", "Encoded values decode to the same values",
  "Every number, text, byte string and nested value the agent encodes is decoded to an equal one, consuming exactly the bytes written, in any sequence and at any length; a map holds exactly the values put into it, whatever their type.",
  [I, P], "all 24-bit numbers and all within 2 of powers of two, all text lengths at encoding boundaries, all value trees up to 5 nodes, all pairs of 88 operations",
  "Tests check one or two values per type.",
  ["common/netdata/dataoutputx.go", "common/netdata/datainputx.go", "common/netdata/value.go", "common/netdata/mapvalue.go", "common/netdata/listvalue.go", "common/netdata/valuecreator.go"],
  [("DataOutputX/DataInputX", "common/netdata/dataoutputx.go"), ("CreateValue", "common/netdata/valuecreator.go")],
  "bounded exhaustive enumeration of values and operation sequences on the real code against an independent codec", "")
p("C16", "Packs and steps have the collector's wire format",
  "Every pack and profile step is encoded byte for byte as the collector's protocol defines, for all field values; fields never leak into each other, and sequences of steps are the concatenation of the steps.",
  [I], "every field at all boundary values, all pairs of fields, all sequences of up to 3 steps",
  "Tests do a round trip of two packs through the same library, which cannot notice a symmetric error.",
  ["common/netdata/xlogpack.go", "common/netdata/xlogprofilepack.go", "common/netdata/objectpack.go", "common/netdata/perfcounterpack.go", "common/netdata/alertpack.go", "common/netdata/textpack.go", "common/netdata/step.go", "common/netdata/mappack.go"],
  [("Write of each pack and step", "common/netdata/")],
  "bounded exhaustive enumeration of field values encoded by the real code and decoded by an independent implementation of the protocol", "")
p("C17", "Decoding survives any input and any segmentation",
  "Decoding any bytes, truncated, corrupted or hostile, ends with a value or an error: it never panics, hangs, or allocates out of proportion to the input. What is decoded does not depend on how the stream is cut into reads.",
  [I, F], "all byte strings up to 3 bytes; every truncation, single-byte corruption and cut of a corpus; hostile lengths and deep nesting",
  "Tests decode well-formed buffers only, from memory.",
  ["common/netdata/datainputx.go", "common/netdata/valuecreator.go", "common/netdata/packcreator.go", "common/netdata/listvalue.go", "common/netdata/mapvalue.go"],
  [("bounded reads of DataInputX", "common/netdata/datainputx.go")],
  "bounded exhaustive enumeration of inputs, truncations and segmentations on the real code", "")
p("C18", "Every collector command is answered exactly once, in order",
  "Each command a collector sends on the control connection, known or unknown, with proper or improper parameters, gets exactly one complete answer, in the order sent and with the data asked for, however the bytes are cut into segments and whatever came before.",
  [H, I, S, F], "all sequences of 3 of 45 commands; every single and double cut; short reads; large requests; concurrent services",
  "There is no test of the control connection.",
  ["netio/tcpclient/tcpclient.go", "netio/tcpclient/handlers.go"],
  [("request loop and response framing", "netio/tcpclient/tcpclient.go"), ("command handlers", "netio/tcpclient/handlers.go")],
  "bounded exhaustive command histories and segmentations on the real code over a virtual network", "")
p("C19", "The control connection is re-established after any failure or change",
  "Whatever a collector does (refuses, closes, resets, stays silent, sends garbage), the agent tries again within bounded time and works with the next proper connection, introducing itself with its current identity. When the object name, collector address or port changes, the old connection is left and a new one made to the right place; unrelated changes leave it alone. There is never more than one.",
  [H, F, S, C], "all sequences of 4 of 17 collector behaviours; all sequences of 3 changes; changes interleaved with the connection loop",
  "There is no test of the control connection; failures must be injected at specific points.",
  ["netio/tcpclient/tcpmanager.go", "netio/tcpclient/tcpclient.go", "conf/opserver.go"],
  [("connection loop", "netio/tcpclient/tcpmanager.go"), ("observer of object and address changes", "netio/tcpclient/tcpclient.go")],
  "bounded exhaustive fault and change histories and interleavings of the real code over a virtual network and clock", "")
p("C20", "Dump files are listed, delivered and deleted exactly, and nothing else is",
  "A collector sees the dump files that exist, with their sizes and times, receives their content unchanged and complete, and deletes exactly the one it names. No file name a collector can send makes the agent read or delete anything outside its dump folders.",
  [I, F, S, C], "all folder contents of 7 entries, all sizes at chunk boundaries, all names up to 5 path tokens, every failing file operation, concurrent commands",
  "There is no test of these commands.",
  ["dump/dump.go", "netio/tcpclient/handlers.go", "common/util/fileutil.go"],
  [("ListDumpFiles, StreamDumpFile, DeleteDumpFile", "dump/dump.go"), ("file commands", "netio/tcpclient/handlers.go")],
  "bounded exhaustive enumeration of folders, names and file faults on the real code over a virtual file system", "")
p("C21", "Dumps on request are taken once, for the right time, and leave no trace",
  "A requested thread, CPU, block or mutex dump produces a complete, readable file of the right kind and name, covering the documented time window. Profiling is switched on only during windows, also when they overlap or fail, and afterwards the host's own settings are back. A failing dump never harms the host.",
  [H, S, F], "all sequences of 4 of 6 triggers with 4 waits; every failing file operation; overlapping windows interleaved",
  "There is no test of these triggers; overlaps need specific timing.",
  ["dump/dump.go", "netio/tcpclient/handlers.go"],
  [("profile windows with rate restore", "dump/dump.go")],
  "bounded exhaustive trigger histories, file faults and interleavings of the real code under a virtual clock", "")
p("C22", "Packs travel over UDP unchanged within the datagram limit",
  "Any pack or list of packs given to the UDP client reaches the collector complete and unchanged, in order, as one datagram, several, or numbered fragments, and no datagram exceeds the configured limit plus framing. A write that fails loses at most the datagram concerned and never mixes packs.",
  [I, F, C], "all limits x all pack sizes around them; all lists of packs of critical sizes; all single and double write failures",
  "Tests send one small pack and look at nothing.",
  ["netio/udpclient/udpclient.go"],
  [("WriteUDP, WriteUDPList and fragmentation", "netio/udpclient/udpclient.go")],
  "bounded exhaustive enumeration of sizes, lists and write faults on the real code, reassembled by an independent receiver", "")
p("C23", "Queued packs are sent once, in order, to the current collector",
  "Packs handed to the sender from any goroutine are sent exactly once, those of one goroutine in order, unless the queue was full, which the caller can tell. A changed collector address, port or datagram limit takes effect without losing, repeating or blocking later packs, and sending resumes once an unusable address becomes usable.",
  [S, H, F, C], "all batches of up to 5 packs of critical sizes; 2-4 producers; queues of 1-3; endpoint changes and outages interleaved",
  "The tests send packs to nowhere; ordering and reload races need specific schedules.",
  ["netio/udpsender/udpsender.go", "netio/udpclient/udpclient.go", "netio/dataproxy.go"],
  [("bounded channel and sending loop", "netio/udpsender/udpsender.go"), ("client replacement on change", "netio/udpsender/udpsender.go")],
  "stateless model checking: deviation-bounded enumeration of interleavings and faults of the real code", "")
p("C24", "The collector can resolve every text it is referred to",
  "Whenever a record, profile step, counter or object refers to a text by hash, that text has been handed to the sender before it, under the right kind, since the collector last asked for a reset; also if the queue was full, texts were sent concurrently, or the agent's memory of sent texts overflowed. A text remembered as sent is not repeated needlessly.",
  [H, S, F], "all sequences of 5 texts and resets over pairs of 11 kinds; services using all kinds; full queues; concurrent senders and resets; more texts than remembered",
  "Tests never look at texts; losing one needs a full queue or a specific schedule.",
  ["netio/dataproxy.go", "common/structure/cacheset/cacheset.go", "netio/udpsender/udpsender.go"],
  [("sent-text caches by kind", "netio/dataproxy.go")],
  "bounded exhaustive histories and interleavings of the real code, decoded by an independent receiver", "")
p("C25", "Bounded caches keep the newest entries and are safe concurrently",
  "Each bounded cache behaves as a map or set limited to its capacity that evicts the oldest (or least recently used) entry first: it never exceeds its capacity, finds what it holds, and lists its keys and values consistently. Concurrent use is equivalent to some sequential order of the same operations.",
  [S, H], "4 caches x capacities 1-3: all sequences of 5 changes with all queries after each; every change against every pair of operations at every memory access",
  "Tests run a few sequential calls on one or two caches.",
  ["common/structure/lra/lra.go", "common/structure/cachemap/cachemap.go", "common/structure/cachemap2/cachemap2.go", "common/structure/cacheset/cacheset.go"],
  [("mutex and eviction of each cache", "common/structure/")],
  "bounded exhaustive operation sequences against a model, and linearizability checking of all interleavings of the real code", "")
p("C26", "Metering windows report exactly what happened in them",
  "Count, rate, average elapsed time, error rate and average value over the last n seconds (up to 300) are those of exactly the services or values of these seconds, for any gaps and phases of the clock. Adding and asking concurrently loses nothing.",
  [S, H, I], "all sequences of 4 additions after one of 12 waits from 3 clock phases with 8 windows; 2-3 adders and an asker at every memory access",
  "Tests meter for one or two real seconds with loose bounds.",
  ["counter/metering.go", "counter/serviceMetering.go", "counter/valueMetering.go"],
  [("ring of one-second buckets", "counter/metering.go")],
  "bounded exhaustive histories under a virtual clock and interleavings of the real code against a reference", "")
p("C27", "Counters and heartbeats are sent on time with correct values",
  "Every two seconds the agent sends its object information and its real-time counters, and every ten seconds the five-minute counters, without gaps, under its current name. Their values (services per second, elapsed time, error rate, active services by speed, heap, garbage collections) are those of the preceding 30 or 300 seconds. Failing sends or busy hosts do not stop them.",
  [H, S, F], "all sequences of 4 host operations x 3 waits, long steady loads, lost packets, services ending while counters are taken",
  "Tests of the tasks sleep for seconds and assert nothing.",
  ["task/countertask/countertask.go", "task/agenttask/agenttask.go", "counter/collector.go", "counter/gocounter/gocounter.go", "counter/serviceMetering.go"],
  [("ticking of the counter and object tasks", "task/countertask/countertask.go")],
  "bounded exhaustive histories, write faults and interleavings of the real code under a virtual clock", "")
p("C28", "Hashes, ids and addresses convert as the collector expects",
  "Equal texts have equal hashes in all agents, namely their 32-bit CRC as a signed number, and every 64-bit id has one textual notation that parses back to it. A dotted address converts to exactly its four bytes, any other text to none (0.0.0.0).",
  [I], "all strings up to 3 characters over a byte alphabet, all ids within 2 of sums of powers of two and of 32, all dotted addresses over boundary parts",
  "Tests check one or two values.",
  ["common/util/hashutil.go", "common/util/hexautil.go", "common/util/iputil.go"],
  [("HashString, IntToXlogString32, IpToBytes", "common/util/")],
  "exhaustive enumeration of inputs on the real code against an independent reference", "")
p("C29", "Transaction ids are unique",
  "No two services get the same id: not within a process whatever its goroutines do, nor in agents started at different nanoseconds of the same two seconds. Ids are positive.",
  [S, C, I], "2-3 goroutines starting services and drawing ids at every memory access; agents started at all of a grid of moments",
  "Tests draw a few ids on one goroutine.",
  ["common/util/keygen/keygen.go", "strace/tracemain.go"],
  [("seeded generator under a mutex", "common/util/keygen/keygen.go")],
  "deviation-bounded enumeration of all interleavings of the real code, and exhaustive start moments", "")
p("C30", "Starting the agent never harms the host and works in any order",
  "Initialising the agent once, repeatedly or from several goroutines, before, after or without using tracing calls, never panics, blocks or ends the process and starts each background task once, whatever the environment refuses (files, network, host name). Background tasks survive failures and work again as soon as the environment does.",
  [S, F, C], "every single (thorough: pair of) refused file and network operation of a start; interleaved initialisations; environments that fail for a time",
  "Tests start the agent once in a working environment.",
  ["agent.go", "strace/tracemain.go", "conf/configure.go", "netio/udpsender/udpsender.go", "netio/tcpclient/tcpmanager.go", "task/agenttask/agenttask.go", "task/countertask/countertask.go", "common/logger/logger.go", "common/panic.go"],
  [("Init and once guards", "agent.go"), ("recovery in background tasks", "common/panic.go")],
  "exhaustive fault enumeration and interleavings of the real code's start-up", "")
p("C31", "An inheriting service continues its predecessor's identity",
  "A service started as the heir of another gets its own id, linked to the predecessor as caller and to the same root, and takes over its name, client, request data, calls and error state as they were at that moment. Later changes to either do not affect the other, and both are recorded once, completely.",
  [H, S, P], "all programs of 4 operations before, 1 after and every order of ends; heirs of roots, children and heirs; interleavings",
  "There is no test of inheritance.",
  ["strace/tracemain.go", "netio/tracecontext.go"],
  [("StartNewInheritanceService and Inherit", "strace/tracemain.go")],
  "bounded exhaustive programs and interleavings of the real code against a reference record", "")
p("C32", "The agent does not accumulate resources",
  "Whatever uses and troubles an agent goes through (services, children, heirs, stuck services, commands, dumps, configuration and endpoint changes, lost or refused connections, failing files), once they are over it has no more goroutines, open files, sockets, connections and active services than when it was idle before. The memory it keeps does not grow with their number, apart from the bounded set of texts it remembers as sent.",
  [H, S, F], "all sequences of 3 of 26 kinds of use and trouble; pairs of 9 at the same time; each of 27 kinds repeated thousands of times",
  "Leaks show only in what is left after long histories of uses and failures; tests end before.",
  ["netio/udpsender/udpsender.go", "netio/udpclient/udpclient.go", "netio/tcpclient/tcpclient.go", "netio/tcpclient/tcpmanager.go", "netio/tcpclient/handlers.go", "dump/dump.go", "conf/configure.go", "conf/opserver.go", "strace/tracemain.go", "strace/tctxmanager/tctxmanager.go", "common/structure/lra/lra.go", "task/countertask/countertask.go", "task/agenttask/agenttask.go", "counter/metering.go", "netio/dataproxy.go"],
  [("endpoint change closes the old socket", "netio/udpsender/udpsender.go"), ("connection closed when it ends", "netio/tcpclient/tcpclient.go"), ("bounded text caches", "common/structure/lra/lra.go"), ("files closed, recordings ended", "dump/dump.go")],
  "exhaustive enumeration of use and fault histories and interleavings of the real code with an account of what it holds", "")

props, checks, na = [], [], []
src = "".join(open(os.path.join(V, "harness", f)).read() for f in sorted(os.listdir(os.path.join(V, "harness"))) if f.endswith(".go"))
for (i, t, st, over, qt, why, files, mech, tech, note) in L:
    assert len(t) <= 80, t
    assert len(re.findall(r"[.](?=\s|$)", st)) <= 3, st
    fs = [f if f.startswith("scouterx") else sx + f for f in files]
    for f in fs: assert os.path.exists("/repo/" + f), f
    props.append({"id": i, "title": t, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
                  "anchors": {"files": fs, "mechanism": [{"name": n, "where": sx + w} for n, w in mech]}})
    m = re.search(r'ID:\s*"%s"(.*?)Scenarios:' % i, src, re.S)
    if not m:
        na.append({"property": i, "reason": "its check is not built yet"})
        continue
    b = re.search(r'Bounds:\s*"((?:[^"\\]|\\.)*)"', m.group(1)).group(1)
    a = re.findall(r'"((?:[^"\\]|\\.)*)"', re.search(r'Assumptions:\s*\[\]string\{(.*?)\}', m.group(1), re.S).group(1))
    checks.append({"property": i, "quick_cmd": "bash /verif/run.sh %s quick" % i, "thorough_cmd": "bash /verif/run.sh %s thorough" % i,
                   "technique": tech, "level": "model_checking",
                   "level_note": "Holds on every execution enumerated on the real code within: " + json.loads('"' + b + '"') + ". Assumes: " + "; ".join(json.loads('"' + x + '"') for x in a) + ". Trusts the source instrumenter and the virtual scheduler, clock, file system, network and profiler the code runs on."})
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(q, ensure_ascii=False) + "\n" for q in props))
json.dump({"version": 1, "setup_cmd": "bash /verif/run.sh --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: run.sh instruments a scratch copy of the working tree's sources on every run."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)

T = {"C01": ("interleavings of completing threads; op sequences", "records decoded from UDP, one per service"),
"C02": ("op sequences x thresholds; interleavings with queries", "list of live services"),
"C03": ("op sequences x settings; sweep vs completion", "list of overdue services"),
"C04": ("step programs x buffers; long profiles", "reference profile"),
"C05": ("interleavings in the collector", "set of steps added before the end"),
"C06": ("service trees x orders; interleavings", "reference tree"),
"C07": ("API call sequences x arguments x contexts x environments", "host program unaffected, still works"),
"C08": ("full decision table", "independent decision function"),
"C09": ("patterns x names", "glob matcher"),
"C10": ("pattern histories; first use vs change", "current pattern decides"),
"C11": ("requests x settings", "the request itself"),
"C12": ("programs of calls; propagation", "reference record"),
"C13": ("settings x values; file histories; faults", "independent property parser and defaults"),
"C14": ("save/read histories; crash points; faults", "old or new text"),
"C15": ("numbers, texts, trees, op sequences", "independent codec"),
"C16": ("field values of all packs and steps", "independent codec"),
"C17": ("byte strings, truncations, cuts, corruptions", "no crash; same result for all cuts"),
"C18": ("command sequences; segmentations", "one proper answer per command"),
"C19": ("collector behaviours; changes; interleavings", "one right connection in bounded time"),
"C20": ("folders, names, sizes, faults", "virtual file tree before/after"),
"C21": ("trigger histories; faults; overlaps", "windows and rates recorded by the profiler shim"),
"C22": ("limits x sizes x lists x write faults", "independent reassembly"),
"C23": ("batches; producers; reload and outage", "multiset and order of accepted packs"),
"C24": ("text histories; services; full queues; threads", "dictionary of a simulated collector"),
"C25": ("op sequences; linearizability", "model of the cache"),
"C26": ("clock histories; adders vs asker", "list of samples"),
"C27": ("host histories; loads; lost packets; races", "list of services and runtime values"),
"C28": ("strings, ids, addresses", "independent conversions"),
"C29": ("start moments; interleaved draws", "all ids distinct"),
"C30": ("start-up faults; orders; outages", "host unaffected, tasks run again"),
"C31": ("inheritance programs; interleavings", "reference records"),
"C32": ("sequences, pairs and long repetitions of uses and troubles", "what an idle agent holds")}
rows = []
for c in props:
    i = c["id"]
    try: q = "%.0f s" % max(1, json.load(open(os.path.join(V, "tools", "times.json")))[i])
    except Exception: q = ""
    rows.append("| %s %s | %s | %s | %s |" % (i, c["title"], T[i][0], T[i][1], q))
seed = []
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mp = os.path.join(sd, d, "meta.json")
    if os.path.exists(mp):
        m = json.load(open(mp))
        seed.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m.get("caught_by", "")))
st = "| id | property | what it breaks | caught by (quick) |\n|---|---|---|---|\n" + "\n".join(seed)
src = open(os.path.join(V, "tools", "DESIGN.in.md")).read().replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDED@@", st)
open(os.path.join(V, "DESIGN.md"), "w").write(src)
