#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": list(observe), "hook_needed": hook}})

p("B01", "Frame buffer delivers committed frames in order, once, unaltered",
  "Every frame the producer commits is handed to the consumer exactly once per successful take, in commit order and with the bytes the producer wrote, unless it was flushed or was the oldest queued frame at a moment when a new frame was needed and no free frame existed; a frame the consumer puts back is the next one delivered, and an aborted or released frame is never delivered. No call sequence of producer, consumer, garbage collector and flush hands the same frame storage to two holders at once.",
  ["histories", "schedules"], "all call histories of the buffer API by one producer, one consumer, garbage collector and flush, and all interleavings of those threads",
  "test_buffer runs a few dozen fixed, single-threaded call sequences; order and conservation are claims about every history and interleaving, including GC and flush in between.",
  ["src/core/buffer.c", "src/core/buffer.h", "src/util/list.h"],
  [("queue/pool moves under one mutex", "src/core/buffer.c: BUF_newFrame, BUF_commitFrame, BUF_getFrame*, BUF_putFrame, BUF_releaseFrame, BUF_flush")],
  [("queue", "committed frames not yet consumed", "src/core/buffer.c"), ("pool", "free frames", "src/core/buffer.c")],
  ["return values and contents of the buffer API", "BUFFER_getStatistics"])
p("B02", "Buffer capacity is exact: only the oldest frame is dropped, only when full",
  "Asking for a new frame always succeeds without waiting while the configured minimum holds; it recycles the oldest queued frame only if every frame of the static backlog and, with history enabled, of the maximum number of dynamic pools is in use (or a dynamic pool cannot be allocated), and never grows memory beyond the configured pools. Without history the buffer never grows, and the discard, pool and queue statistics agree with what happened.",
  ["histories", "configurations", "fault_sequences"], "all API histories, all buffer configurations (static backlog, dynamic backlog, increments, history), and allocation failures at any growth step",
  "Tests use two or three configurations and never let an allocation fail; the bound must hold at every point of every history.",
  ["src/core/buffer.c"], [("getFrameFromPool: free list, uncollect, grow, discard oldest", "src/core/buffer.c: getFrameFromPool"), ("configuration fix-up", "src/core/buffer.c: cfgFix")],
  [("dynPools", "dynamic pools in existence", "src/core/buffer.c")], ["BUFFER_getStatistics", "malloc/free calls"])
p("B03", "Garbage collection and shutdown reclaim buffer memory without touching frames",
  "A garbage collection run never changes which frames are queued or held nor their order or contents; afterwards every dynamic pool none of whose frames is queued or held has been given back, and frames of the others stay usable. The automatic collector runs only at its configured interval and only below its threshold, and destroying the buffer frees every allocation exactly once.",
  ["histories", "schedules"], "all API histories with collections at any point, any number of pools",
  "Tests run the collector in a handful of hand-built situations; use-after-free, leaks or lost frames depend on which pool each in-flight frame belongs to.",
  ["src/core/buffer.c"], [("collect / destroy / uncollect", "src/core/buffer.c: collectPools, destroyUnusedPools, uncollectPools, mainloop")], [], ["malloc/free calls", "BUFFER_getStatistics"])
p("B04", "Buffer consumer blocks, wakes, times out and is cancelled correctly",
  "A consumer waiting for a frame is woken by every commit, never returns without a frame unless its full timeout has elapsed with the queue empty, and never misses a frame that was committed; cancelling a thread at any point inside the buffer leaves the buffer unlocked and loses no committed frame. No schedule deadlocks.",
  ["schedules", "crash_points"], "all interleavings of producer, consumer, collector and flusher threads including spurious wake-ups, clock times, and cancellation at every cancellation point",
  "The tests are single threaded apart from one timing test; wake-up, timeout and cancellation races are properties of schedules.",
  ["src/core/buffer.c", "src/util/threads.h"], [("condition wait loop with absolute deadline and cleanup handler", "src/core/buffer.c: BUF_getFrame, BUF_getFrameTimeout")], [], ["API return values and virtual time"])
p("N01", "Sending transmits each message's exact bytes, whole and uninterleaved",
  "When a send reports success, the server has been given exactly the message's bytes, in order, contiguously and once, no matter how the operating system splits the transfer and how many threads send; when it reports failure, at most a prefix of that message was transmitted and nothing more is sent on that connection as part of that message. No byte outside the caller's buffer is ever read or sent.",
  ["schedules", "fault_sequences"], "all splits of a transfer into partial writes, failures at any byte, and all interleavings of concurrent senders",
  "No test links the network module at all; partial writes need a full socket buffer and never occur on loopback in a short test.",
  ["src/core/network.c"], [("send loop and send mutex", "src/core/network.c: trySend, NET_send")], [], ["bytes given to send() per socket"])
p("N02", "Connection loss is survived: directions converge, no crash, no leaked socket",
  "Whatever the order in which sender and receiver notice failures of a connection, and however often connecting fails, the daemon neither crashes nor deadlocks, the old socket is shut down and closed exactly once and never used after being closed, and both directions end up on the same new connection. Waiting for a connection returns only while connected, and is always released once a new connection is up.",
  ["schedules", "fault_sequences"], "all interleavings of connector, sender and receiver threads; failures of connect, send and receive at any step, any number of times",
  "No test exercises the network state machine; leader/follower races exist only for particular interleavings of three threads.",
  ["src/core/network.c"], [("connState/transState leader-follower protocol", "src/core/network.c: mainloop, emitDisconnect, NET_waitConnected, NET_checkConnected, NET_forceDisconnect")],
  [("connState, transState, sendsock, recvsock", "connection and transition state", "src/core/network.c")], ["socket system calls", "returns of the NET API"])
p("N03", "Connecting tries every address once and paces failed rounds",
  "A connection attempt resolves the configured host and tries each resolved IPv4 or IPv6 address at most once with the configured port until one succeeds, closing every socket that failed to connect; after a round without success the next one starts after the fixed 10 second pause, while the first attempt and the one after a lost connection start immediately. The connection statistics count attempts, disconnects and bytes accordingly.",
  ["fault_sequences", "schedules"], "all resolver results (failure, any mixture of address families) and all patterns of per-address failure",
  "Tests never open a socket.",
  ["src/util/net_common-posix.c", "src/core/network.c", "src/radarcape/network.c"], [("address loop", "src/util/net_common-posix.c: NETC_connect"), ("retry loop", "src/core/network.c: mainloop")], [], ["getaddrinfo/socket/connect/close calls and virtual time", "NET_getStatistics"])
p("N04", "Every connection starts with the complete login sequence",
  "On each new connection the first message is the device ID (type and version), then the serial number (after a serial request if none is known), then the position if available, then the user name if configured, and only then frames or keep-alives; a failure in between restarts the whole sequence on the next connection. Each message is escaped exactly as the protocol requires and carries the configured values.",
  ["schedules", "fault_sequences", "configurations"], "all points of connection loss during or after login, all interleavings with receiver, connector and input threads, all configured values",
  "No test links login, relay and network together; order across reconnects depends on which thread notices a failure first.",
  ["src/core/login.c", "src/core/relay.c", "src/core/network.c", "src/core/gps.c"], [("relay outer loop", "src/core/relay.c: mainloop"), ("login sequence", "src/core/login.c: LOGIN_login")], [], ["byte stream per connection"])
p("N05", "Relay forwards queued frames in order, re-sends on failure, keeps link alive",
  "After login, frames are sent in queue order, each until one send of it has succeeded: a frame whose send failed is the first one sent on the next connection when history is enabled, and no frame is skipped or, once sent successfully, sent again. Without history, everything queued before login completed is discarded instead of being sent; when no frame arrives for the configured timeout a keep-alive is sent, and never earlier.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings of producer, relay, receiver and connector with failures at any send, with and without history",
  "Relay, network and buffer are never tested together.",
  ["src/core/relay.c", "src/core/buffer.c"], [("relay inner loop", "src/core/relay.c: mainloop")], [], ["byte stream per connection and virtual time"])
p("N06", "Stopping the feed at any moment loses no frame and leaves no lock or socket",
  "Cancelling the relay, receiver, input and connector threads at any point terminates them, puts a frame being sent back at the head of the queue and an unfinished input frame back into the pool, and leaves every lock free and the connection socket and input closed. The feed can afterwards be started again and behaves as after a first start.",
  ["crash_points", "schedules"], "cancellation at every cancellation point of every thread, in every state, followed by a restart",
  "Only the library test starts and stops components, once, against a stub without network.",
  ["src/core/relay.c", "src/core/recv.c", "src/core/network.c", "src/util/threads.h"], [("cleanup handlers", "CLEANUP_PUSH in relay.c, recv.c, network.c, buffer.c")], [], ["system calls and buffer state after stop"])
p("T01", "Talkback packets are framed independently of segmentation, per connection",
  "The sequence of talkback packets acted upon is a function of the bytes received on one connection only: it does not depend on how those bytes are split into reads, and bytes left over from an earlier connection are never combined with those of a later one. Only a header with an impossible length discards what has been read so far, and it never causes memory outside the receive buffer to be touched.",
  ["inputs", "schedules"], "all byte streams and all segmentations, with the connection lost and re-established at any point",
  "No test links the talkback module.",
  ["src/core/tb.c", "src/core/network.c"], [("receive buffer and length check", "src/core/tb.c: mainloop")], [], ["registered packet callbacks, bytes returned by recv"])
p("T02", "Talkback packets trigger exactly their registered effect, and nothing else",
  "A complete packet runs the processor registered for its type exactly once with its payload if and only if the payload length equals the registered one; unknown types and other lengths have no effect. A filter packet changes exactly the settings selected by its mask to the given values, the reset bit un-synchronizes the receiver, and process-starting packets run only the fixed command with the address taken from the packet.",
  ["inputs"], "all packet types, lengths and payloads, in all orders",
  "No test links the talkback module.",
  ["src/core/tb.c", "src/core/filter.c", "src/radarcape/tb-rshell.c", "src/radarcape/tb-misc.c", "src/util/proc.c"], [("processor table", "src/core/tb.c: processPacket, packetConfigureFilter")], [], ["callbacks, filter configuration, execve arguments"])
p("S01", "Serial number is requested, persisted and used consistently",
  "With no serial number configured, login asks the server for one and waits until an answer arrives, giving up as soon as the connection is lost or forcing a reconnect after one minute; a number obtained is written to the configuration before it is used, and the same number is used and reported on every later login and after a restart. With a serial number configured no request is ever made.",
  ["schedules", "fault_sequences"], "all timings of the answer relative to the wait, connection losses, write failures",
  "No test links the serial request module.",
  ["src/dump1090/req-serial.c"], [("wait loop", "src/dump1090/req-serial.c: SERIAL_getSerial"), ("response handler", "serialResponse")], [], ["messages sent, file written, values returned"])
p("S02", "Hardware serial number is the lower 31 bits of the MAC address, or a failure",
  "Without a configured number the device serial number is the lower 31 bits of the Ethernet device's hardware address, asked from the socket API or else from sysfs, and stable afterwards, also over a saved configuration; a configured number takes precedence. If no hardware address can be determined the failure is reported to the caller: a login then ends the process instead of reporting an arbitrary number, and the Radarcape daemon refuses to start. No descriptor is leaked, whatever fails.",
  ["fault_sequences", "inputs"], "all hardware addresses and all failures of the socket and sysfs lookups",
  "The unit tests replace this function by a stub.",
  ["src/util/serial_eth.c", "src/radarcape/main.c", "src/core/login.c"], [("lookup and cache", "src/util/serial_eth.c: SERIAL_ETH_getSerial")], [], ["return value, socket/ioctl/fopen/close calls"])
p("G01", "A requested position is sent exactly when position and fix are available",
  "A position request at login is answered at once if a position with a valid fix is known; otherwise it is remembered and answered with the current position by the first update that makes both available, once per request, retried on later updates if sending fails. No position is sent that was not requested, without a fix, or after the request was withdrawn, and the message carries the exact coordinates.",
  ["histories", "fault_sequences"], "all histories of position updates, fix changes, requests, resets and send failures",
  "test_gps covers a dozen fixed sequences of at most four calls.",
  ["src/core/gps.c"], [("need/has/fix flags", "src/core/gps.c: sendPositionIfAvail, GPS_sendPosition")], [], ["messages passed to the network"])
p("G02", "Position updates from other threads never break the connection protocol",
  "Position updates arriving at any time from another thread never crash or deadlock the daemon, never make a message appear on a connection before its login, and never hide a connection loss from the sending thread, so that every connection still starts with a login.",
  ["schedules", "fault_sequences"], "all interleavings of a position-updating thread with the relay, receiver and connector threads and connection failures",
  "Needs a position update between connection loss and re-login, with a deferred request.",
  ["src/core/gps.c", "src/core/network.c"], [("send from the updating thread", "src/core/gps.c: sendPositionIfAvail"), ("emitDisconnect", "src/core/network.c")], [], ["byte stream per connection, process survival"])
p("I01", "Receiver input is parsed independently of chunking and resynchronizes",
  "The sequence of frames extracted from a receiver byte stream depends only on the bytes and not on how reads split them; every well-formed frame preceded by a clean frame boundary is delivered with exactly its type, timestamp, signal level and payload, and with raw bytes equal to its escaped wire image. Malformed, truncated or unknown frames are skipped without delivering altered data and without affecting later well-formed frames, and a read failure is reported as such.",
  ["inputs"], "all byte streams up to a bound and random longer ones, all segmentations",
  "test_radarcape checks selected streams; chunk independence and resynchronization quantify over all streams and splits.",
  ["src/radarcape/rc-parser.c"], [("buffer scanning and de-escaping", "src/radarcape/rc-parser.c")], [], ["frames returned by the input API"])
p("I02", "Escaping is reversible and frames are self-delimiting",
  "For every byte string, the escaped form is the string with each synchronization byte doubled and nothing else changed; hence every message on the wire can be split back into exactly the messages sent, and feeding the escaped image of any frame back through the parser yields the same frame.",
  ["inputs"], "all byte strings up to a bound over an alphabet with and without the escape byte, all message kinds",
  "test_radarcape tests a few encodings; reversibility is about all of them.",
  ["src/core/beast.c", "src/radarcape/rc-parser.c"], [("BEAST_encode", "src/core/beast.c")], [], ["output bytes and length"])
p("I03", "Filters pass exactly the configured Mode-S frames",
  "A frame passes if and only if the receiver is synchronized or the synchronization filter is off, it is a short or long Mode-S frame, and, with the extended-squitter filter on, its downlink format is 17 or 18; changes of the settings apply to all later frames. The filter statistics count received, unsynchronized and filtered frames accordingly.",
  ["histories", "inputs", "configurations"], "all histories of configuration changes, synchronization changes and frames of every type and format",
  "test_recv samples a few frames per setting.",
  ["src/core/filter.c"], [("FILTER_filter", "src/core/filter.c")], [], ["return values, FILTER_getStatistics"])
p("I04", "Every received frame that passes the filter is queued once, in order",
  "Frames read from the input that pass the filter are queued for relaying exactly once, in order and unaltered, and no other frame is; the receiver counts as synchronized from the first status frame with a non-zero timestamp after each (re)connection of the input on, and not before. When the input fails it is disconnected and reconnected and reception continues.",
  ["inputs", "histories", "fault_sequences"], "all sequences of input frames and input failures under all filter settings",
  "test_recv runs some sequences without input failures after traffic.",
  ["src/core/recv.c", "src/core/filter.c"], [("receive loop", "src/core/recv.c: mainloop")], [], ["frames in the buffer, input API calls"])
p("I05", "Inputs reconnect, set up their device and never leak or cross descriptors",
  "The receiver and the GPS receiver, at a UART or by network, are opened again at once after they were lost and every 10 seconds until that succeeds. Nothing is read from a directly attached device before it was set up completely: line parameters and options according to the configuration and the current filter settings, for the GPS receiver the change of speed and the selection of UTC; a changed filter setting is sent to the receiver, whatever happens at the same time, and a device which cannot be set up is closed and tried again. Never is more than one descriptor open, everything opened is closed on failure, reconnection and stop, and nothing is ever written to a descriptor which belongs to another part of the program.",
  ["fault_sequences", "schedules", "histories"], "all patterns of open, attribute, connect, read and write failures, all moments of the end and of changes of settings",
  "No test links the real inputs.",
  ["src/radarcape/network.c", "src/radarcape/uart.c", "src/radarcape/rc-parser.c", "src/core/recv.c", "src/trimble/trimble_recv.c", "src/trimble/trimble_parser.c", "src/trimble/trimble_input_uart.c", "src/trimble/trimble_input_network.c"], [("RC_INPUT_connect/read/disconnect, INPUT_reconfigure", "src/radarcape/network.c, src/radarcape/uart.c, src/radarcape/rc-parser.c"), ("TRIMBLE_PARSER_connect, TRIMBLE_INPUT_connect", "src/trimble/*.c")], [], ["open, terminal and socket calls, bytes written to the device, frames delivered"])
p("I06", "The simulated receivers deliver valid random traffic until stopped",
  "After every initialization the simulated receiver first delivers one status frame, so that the receiver counts as synchronized, and then, at intervals of 5 to 325 milliseconds and without end, long Mode-S extended squitters (downlink format 17), each well-formed on the wire (escaped), stamped with the UTC time of day in nanoseconds at which it was made, and otherwise random in the signal level and in every byte of the payload; so every frame but the first passes any filter setting and is queued. It accepts every setting, and it can be stopped at any moment. The simulated GPS receiver delivers nothing and ends when it is stopped.",
  ["histories", "inputs", "schedules"], "all random numbers, times of the day and moments of stopping",
  "No test links the simulated receivers.",
  ["src/radarcape/dummy.c", "src/trimble/trimble_input_dummy.c"], [("RC_INPUT_read", "src/radarcape/dummy.c"), ("TRIMBLE_INPUT_read", "src/trimble/trimble_input_dummy.c")], [], ["frames returned by the reader and committed to the queue, with their times"])
p("M01", "GPS receiver packets are parsed independently of chunking and resynchronize",
  "The sequence of packets extracted from the GPS receiver's byte stream depends only on the bytes, not on read boundaries; each well-formed packet shorter than the caller's buffer is delivered once, un-escaped and exact, no packet whose type would be a frame delimiter is ever delivered, and garbage, oversized or broken packets are skipped without corrupting memory or aborting the daemon: of two consecutive well-formed packets behind them at least the second is delivered, and so is the first unless the garbage ends in the middle of an escape.",
  ["inputs"], "all byte streams up to a bound and random longer ones, all segmentations",
  "No test links the GPS parser.",
  ["src/trimble/trimble_parser.c"], [("DLE framing", "src/trimble/trimble_parser.c")], [], ["packets returned by the parser API"])
p("M02", "Only valid GPS reports change the position and fix",
  "The GPS receiver passes on a position with fix exactly once for each supplemental timing packet (type 0x8f-0xac, 69 bytes) that reports a usable fix (over-determined clock, locked to GPS, no critical alarm, neither test mode nor self survey, doing fixes), with latitude and longitude converted to degrees and the altitude in metres without loss, before it waits for more data; everything known is forgotten each time the device is (re)connected and configured, and no other packet, garbage or failure has an effect on the position.",
  ["inputs", "histories"], "all sequences of packets of every type and length",
  "No test links the GPS receiver.",
  ["src/trimble/trimble_recv.c"], [("packet dispatch", "src/trimble/trimble_recv.c")], [], ["calls to the position API"])
p("C01", "Components start after their dependencies and stop before them",
  "For every set of components and dependencies, all dependencies are registered automatically, and each component is constructed and started only after all its dependencies and stopped and destructed before them (apart from a component which cannot be stopped at once); each callback runs exactly once per cycle, a callback a component does not have is skipped, configuration sections are registered with their components, disabled components are skipped, and a dependency cycle or a disabled dependency is refused.",
  ["configurations", "histories"], "all dependency graphs up to a bound, enable/start flags and repeated start/stop cycles",
  "No test targets the component manager.",
  ["src/util/component.c"], [("fixDependencies, sequentialize, initAll, startAll, stopAll, destructAll", "src/util/component.c")], [], ["callback order"])
p("C02", "A failing component start or construction is rolled back completely",
  "If constructing or starting any component fails, the failure is reported and exactly the components already constructed or started in that round are undone, in reverse order; components that cannot be stopped at once are retried while any progress is made and remain started otherwise; a thread that does not end is given up after a second per attempt, so that stopping always returns. Afterwards a new attempt behaves like the first.",
  ["fault_sequences", "configurations"], "all failure positions, all patterns of components refusing to stop",
  "No test targets the component manager.",
  ["src/util/component.c"], [("stopUntil, destructUntil", "src/util/component.c")], [], ["callback order and results"])
p("D01", "Daemons come up from a consistent configuration or not at all",
  "Each daemon (the three Radarcape and the three dump1090 variants) runs its parts only after the defaults and then the configuration files were read in order (/var before /etc for dump1090) and found consistent (parts' own checks; for dump1090 a complete position within the ranges of latitude and longitude), and all parts which are not disabled were initialized, each after those it depends on, and what the login needs was set from that configuration (device type of the variant, user name, a serial number, the position). The server commands of exactly that variant are registered before anything runs. Any failure ends the process with an emergency, with everything that had been started stopped and, if initializing failed, everything initialized destructed. On SIGINT all parts are stopped and destructed in reverse order and the exit status is 0. With --save the configuration in effect is written, nothing is run, and the exit status tells whether it was written.",
  ["configurations", "fault_sequences"], "all configurations, arguments, variants and failures of every part",
  "No test runs the daemons' main functions.",
  ["src/radarcape/main.c", "src/dump1090/dump1090.c", "src/dump1090/position.c", "src/dump1090/devtype.c", "src/util/component.c"],
  [("main", "src/radarcape/main.c, src/dump1090/dump1090.c"), ("checkCfg", "src/dump1090/position.c")], [], ["callbacks of the parts, exit status, files"])
p("F01", "Configuration files mean what they say",
  "Reading a configuration file sets every option that appears in its section to its last value there, and leaves all other options unchanged, regardless of the letter case of section and option names, white space behind the option name and before the value, comment lines (# or ;), blank lines, LF or CR LF line endings and a missing final newline; an empty value means the default. A value which is no number (decimal, octal or hexadecimal; for floating point: decimal with exponent), out of range, no boolean or too long for its buffer is replaced by the default if the caller asked for it, and otherwise makes the read return false (the rest of the file may then be read or not). Unknown sections and options are skipped. A malformed section line makes the read fail. Nothing of this is silent: a failure or replaced value is logged, and unknown names are if the caller asked. The fix callback of each section runs after every read. No file content crashes the reader.",
  ["inputs", "configurations"], "all files over a small alphabet of lines up to a bound, random larger ones, all reader modes",
  "No test targets the configuration reader.",
  ["src/util/cfgfile.c"], [("readCfg, parseOption", "src/util/cfgfile.c")], [], ["option variables, given flags, return values"])
p("F02", "Saved configuration reads back to the same values",
  "For every assignment of option values which a file can express (strings without newline, leading white space or trailing CR, and empty only if that is the default), writing the configuration (or one section) and reading it back on top of the defaults yields the same values, and the same given flags for options which may be empty. A write which fails (cannot be opened, disk full) is reported. A configuration directory is read file by file in the order of the numbers at the start of the names (<number>...conf; ties in any order), later files overriding earlier ones, and the result tells whether all files could be read. Setters store the value in the option, strings cut off to the buffer and always terminated.",
  ["inputs", "fault_sequences"], "all option values of every type at and between their limits, all file name sets, write errors",
  "No test targets the configuration writer.",
  ["src/util/cfgfile.c"], [("CFG_write, CFG_writeSection, CFG_readDirectory", "src/util/cfgfile.c")], [], ["files and option variables"])
p("L01", "Feeder library submits exactly the accepted frames, encoded correctly",
  "While a feeder library is configured and enabled, every submitted frame of a supported type that passes the filter is queued once with its type, timestamp, signal level and payload encoded as on the wire, and nothing is queued while it is not; the time stamp conversion is exact for every time.",
  ["inputs", "histories"], "all frames, timestamps and histories of configure, enable, disable and time status changes",
  "test_lib submits a few frames to one of the two libraries.",
  ["src/gplib/opensky.cc", "src/radarcape/lib/opensky.cc"], [("submitFrame, output_message", "src/gplib/opensky.cc, src/radarcape/lib/opensky.cc")], [], ["frames in the buffer"])
p("U01", "Linked lists behave as the sequences they represent",
  "Every list operation (push, pop, shift, unshift, insert, unlink, concatenate, cut, iterate forwards and backwards) on every list flavour has exactly the effect of the corresponding operation on a sequence, including the element count, for every history of operations on several lists.",
  ["histories"], "all operation histories up to a bound over several lists and all list flavours",
  "test_list checks single operations on lists of fixed size, not histories.",
  ["src/util/list.h"], [("LIST_* operations", "src/util/list.h")], [], ["list traversal results"])
p("W01", "GPIO operations change exactly their pin; the watchdog is fed in time",
  "An operation on a GPIO pin changes or reads exactly that pin's bit of that pin's controller and no other pin, also if several threads use different pins at the same time through the set and clear operations; the registers are only accessed while all four controllers are mapped, and a failing set-up leaves nothing mapped or open and reports failure. The watchdog makes its pin an output at low level before it pulses it, pulses it at once when it runs and every 30 s from then on. The watchdog daemon maps the controllers first and, when started as root, gives up its supplementary groups, group and user, in this order and for those of nobody (65534 if there is no such group or user), before it feeds the watchdog; it ends with a failure if it cannot set up the controllers, cannot give up its privileges or is called wrongly and otherwise does not end.",
  ["histories", "schedules", "fault_sequences"], "all histories of operations on all pins, failures while mapping, schedules of threads",
  "The code needs the memory of an AM335x; no test links it.",
  ["src/radarcape/gpio.c", "src/radarcape/watchdog.c", "src/radarcape/wd-main.c", "src/util/util.c"],
  [("GPIO_*", "src/radarcape/gpio.c"), ("mainloop", "src/radarcape/watchdog.c"), ("main", "src/radarcape/wd-main.c")], [], ["register accesses, system calls, virtual time"])
p("W02", "The FPGA is programmed bit by bit as in its file, or failure is reported",
  "Programming the FPGA resets it for at least 50 ms, waits until it reports to be ready, and then sends exactly the bits of the configured file, least significant bit of every byte first, each valid before the clock's rising edge, checking the device's status after every byte; an attempt is only given up after the device reported an error or did not get ready or complete within the waiting time, at most three attempts are made, and success is reported exactly if the device reported completion of the whole file. A relative file name is looked up below the firmware directory, an absolute one is used as it is; a file which cannot be used is reported. The pins are never driven otherwise, and no memory, mapping or descriptor is left behind.",
  ["inputs", "fault_sequences"], "all files and names, and all behaviours of the device (ready after any time or never, error after any byte, complete after any time or never)",
  "The code needs the hardware; no test links it.",
  ["src/radarcape/fpga.c"], [("FPGA_comp: construct, program", "src/radarcape/fpga.c")], [], ["pin operations, return value, mappings"])
p("R01", "Log messages are complete, ordered lines with all their parts",
  "Every log message appears in the output as one complete line consisting of the level, the component (if there is one), the text with its arguments (cut to 2047 bytes in the libraries) and, for errors, the text and number of the error of the moment of the call; lines of different threads never mix and appear in the order in which the calls took effect, regardless of when a logging thread is cancelled, which leaves the log usable. The libraries write errors and emergencies to the error stream and all others to the message stream. An emergency ends the process, after everything logged up to and including it has been written out.",
  ["schedules", "inputs"], "all messages, and all interleavings and cancellations of logging threads",
  "Tests replace the log by one which stores the messages.",
  ["src/util/log_stdio.c", "src/gplib/log_lib.cc", "src/radarcape/lib/log_lib.cc"],
  [("LOG_*", "src/util/log_stdio.c, src/gplib/log_lib.cc, src/radarcape/lib/log_lib.cc")], [], ["output streams"])
p("R02", "Statistics reports state the counters exactly and on time",
  "While statistics are enabled and run, a report is printed every configured interval: it names the start and the running time, every counter of filter, buffer and network exactly as at that time, including those which exceed 32 bits, the shares as rounded percentages of the right total (all frames; all Mode-S frames for their types, listing those which occurred), and rates which are the counter divided by the running time and the counter's growth since the last report divided by the time since then. A report is printed as a whole even if the component is stopped meanwhile, and its first report after a restart compares to its start.",
  ["histories", "inputs"], "all counter values, intervals and stops",
  "No test prints statistics.",
  ["src/util/statistics.c"], [("printStatistics", "src/util/statistics.c"), ("mainloop", "src/util/statistics.c")], [], ["standard output"])
p("T03", "Started programs get nothing of the sensor but its output streams",
  "Programs may be started (reverse shell, reboot, upgrade, restart of the daemon) while other threads are just opening or using network connections, serial devices, configuration and firmware files, device memory or the look-up of the hardware address. At whatever moment that happens, the started program inherits no descriptor of the sensor besides the standard streams: everything the sensor opens is close-on-exec from the moment it exists, not only some time later. Programs started in the background read from the null device. Opening a serial device never makes it the controlling terminal of the sensor, so that its hang-up does not end the process.",
  ["schedules", "histories", "fault_sequences"], "all moments at which a program can be started relative to other threads' system calls, and all failures of these calls",
  "No test opens a device or starts a program.",
  ["src/util/net_common-posix.c", "src/radarcape/uart.c", "src/trimble/trimble_input_uart.c", "src/util/port/mmap-posix.c", "src/radarcape/fpga.c", "src/radarcape/gpio.c", "src/util/serial_eth.c", "src/util/proc.c"],
  [("NETC_connect", "src/util/net_common-posix.c"), ("doConnect", "src/radarcape/uart.c, src/trimble/trimble_input_uart.c"), ("MMAP_open", "src/util/port/mmap-posix.c"), ("PROC_execAndFinalize", "src/util/proc.c")], [], ["descriptor table", "system calls"])
p("P01", "An installed feeder runs with what the administrator entered",
  "The questionnaire of the feeder packages asks for everything that was not answered yet (all of it when reconfiguring, not the serial number on an upgrade), as far as it is important enough for the administrator, and then again, with an explanation, for exactly those answers the daemon cannot use: positions which are no plain decimal numbers or out of range, user names of more than 40 bytes, serial numbers and ports which are no numbers in range. It ends as soon as nothing is left that could be corrected, also if nobody is there to answer, never before, and leaves valid answers as they are; a changed user name is pointed out. Installing, upgrading or reconfiguring then writes a configuration file which the daemon reads, without complaint, as exactly these answers (with the default port and host if none are given, and leaving the serial number which the daemon stored itself if none is given), keeps all other files except that a stored serial number of an old version is renamed so that it does not override the answers, and makes user, group and directory, the latter owned by the daemon and closed to others unless the administrator overrode that. Removing the package changes nothing of this, purging it removes files, user, group and answers.",
  ["inputs", "histories", "crash_points"], "all answers, priorities and histories of installing, upgrading, reconfiguring, removing and purging, including aborted ones and installations without anybody to answer",
  "No test runs the maintainer scripts.",
  ["debian/opensky-feeder.config", "debian/opensky-feeder-donated.config", "debian/opensky-feeder.postinst", "debian/opensky-feeder-donated.postinst", "debian/opensky-feeder-kit.postinst", "debian/opensky-feeder.postrm", "debian/opensky-feeder.templates", "src/dump1090/dump1090.c"],
  [("questionnaire", "debian/*.config"), ("configure", "debian/*.postinst"), ("purge", "debian/*.postrm"), ("options", "src/dump1090/dump1090.c, src/dump1090/position.c")], [], ["debconf dialogue", "configuration files", "account commands"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
