"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": pid, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over.split(), "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files.split(),
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})


p("C01", "Typed writers produce exactly the documented wire format",
  """Every typed encoder call appends to the message exactly the documented bytes: one type byte, then the
  value (little endian for 8/16-bit and floating point, zigzag for signed and minimal 7-bit groups for
  32/64-bit integers, length-prefixed strings with their NUL and length-prefixed buffers), and a finished message starts
  with the magic 'POMP', its id and its total size in little endian.  Nothing else of the message is
  changed, a string whose size including the NUL exceeds 65535 is refused, and a write that fails leaves the message decodable up to
  the previous argument.""",
  "inputs", "all values of every argument type, all message ids, all argument sizes in the stated bounds",
  "The tests compare a few constants and round-trip; an encoder/decoder pair that agrees on a wrong format passes them, and other implementations (Python, older releases) then fail to interoperate.",
  "src/pomp_encoder.c src/pomp_msg.c src/pomp_prot.h protocol.txt",
  [("encoder_write_data / size_* / zigzag varints", "src/pomp_encoder.c"), ("pomp_msg_finish", "src/pomp_msg.c")],
  ["bytes returned by pomp_msg_get_buffer + pomp_buffer_get_cdata"])
p("C02", "Decoding returns the encoded values, in order",
  """For any sequence of arguments encoded in a message, decoding with the matching types returns exactly the
  same values bit for bit in the same order and consumes exactly their bytes; decoding an argument as another
  type than the one encoded fails with an error and without consuming it; decoding past the last argument fails.""",
  "inputs", "all values of every type, followed by any other argument",
  "Tests use constants; sign extension, varint length boundaries and NaN payloads need all values.",
  "src/pomp_encoder.c src/pomp_decoder.c src/pomp_buffer.c src/pomp_msg.c",
  [("typed readers with type byte check", "src/pomp_decoder.c"), ("varint/zigzag codec", "src/pomp_encoder.c, src/pomp_decoder.c")],
  ["return values and outputs of pomp_decoder_read_*"])
p("C03", "Decoding hostile message bytes is safe and strict",
  """Whatever bytes a message contains, every decoder call terminates, reads only inside the message, leaks
  nothing, and returns either an error or a value whose encoding is really there.  Truncated values, varints
  without end or longer than 10 bytes, strings without their final NUL, strings and buffers longer than the remaining bytes, sizes
  not representable in their type, wrong or unknown types and missing file descriptors are all refused.""",
  "inputs", "all message contents up to the stated length, for each reader and for generic walking",
  "Hostile inputs are rare combinations; the tests decode only well formed messages and a few corruptions.",
  "src/pomp_decoder.c src/pomp_buffer.c",
  [("decoder_read_data/cdata bound checks, size_u16/u32, varint decoding", "src/pomp_decoder.c"), ("pomp_buffer_read/cread bounds", "src/pomp_buffer.c")],
  ["return values of pomp_decoder_read_*, memory safety"])
p("C04", "Format strings mean exactly the typed calls",
  """Writing or reading with a format string has exactly the effect of the corresponding sequence of typed
  calls for every supported conversion (%hhd %hd %d %ld %lld with i/u variants, %s/%ms, %p%u, %f and %lf
  families); any other format is refused with an error.  When a read fails, every string it already
  allocated has been freed and its pointer reset to NULL, at most 16 strings can be read in one call (-E2BIG
  beyond), and on success the caller owns exactly the returned strings.""",
  "inputs programs", "all values per conversion, all unsupported format strings up to 4 characters, every failure position after strings were allocated",
  "The tests try one value per conversion and a few bad formats; argument promotion, width and error clean-up mistakes need all values and positions.",
  "src/pomp_encoder.c src/pomp_decoder.c src/pomp_msg.c",
  [("encoder_writev_internal", "src/pomp_encoder.c"), ("pomp_decoder_readv with strsav clean-up", "src/pomp_decoder.c")],
  ["bytes produced, values returned, live allocations"])
p("C05", "Stream parsing does not depend on how bytes are chunked",
  """A byte stream made of well-formed messages, handed to the protocol parser in pieces cut anywhere,
  yields exactly those messages, complete, unmodified, each once and in order; no message is delivered before its last byte
  arrived, and the parser always reports how many bytes it consumed (at least one, at most those given), so the
  caller can continue with the rest.""",
  "inputs schedules", "all contents and ids, all cuts of the stream within the stated sizes",
  "A stream of n bytes has 2^(n-1) cuts; the tests use whole messages and a few fixed splits.",
  "src/pomp_prot.c", [("header/payload state machine", "src/pomp_prot.c")],
  ["messages and counts returned by pomp_prot_decode_msg"],
  [("prot state, offheader, offpayload", "position inside the current message", "src/pomp_prot.c")])
p("C06", "The stream parser survives garbage and failures",
  """Fed with any bytes in any chunking, and with memory allocation failing at any point, the parser never
  touches memory out of bounds, always makes progress (consumes at least one byte per call with data), and rejects every header
  whose size is smaller than a header.  After bytes without a 'P', a partial magic broken by a byte that is not 'P', a header with a bad size, or a
  message it could not allocate, the next well-formed message is delivered intact.""",
  "inputs fault_sequences", "all byte streams up to the stated length; any single allocation failure",
  "Needs corrupted input followed by good input, and allocation failure at a chosen point, which no test produces.",
  "src/pomp_prot.c src/pomp_msg.c", [("magic resynchronisation, size check, allocation of the message", "src/pomp_prot.c")],
  ["return values and messages of pomp_prot_decode_msg"])
p("C07", "Message life cycle: finished messages are immutable and valid",
  """A message must be initialised before being written and can be initialised again only once cleared; after it is finished every
  write is refused (-EPERM) and changes nothing; its header always states its id and exact size.  A message made from a buffer is accepted only if the buffer holds a
  complete header with the right magic and a size equal to the buffer's length, and a copied message has the
  same id and bytes in storage of its own.  Failing operations leak nothing and leave the message usable.""",
  "inputs histories fault_sequences", "all orders of the life-cycle calls up to the stated length, all buffer contents, any single allocation failure",
  "Order-dependent: the tests follow the normal order with few deviations.",
  "src/pomp_msg.c src/pomp_encoder.c", [("finished flag and buf pointer checks", "src/pomp_msg.c")],
  ["return values, bytes of the message buffer, live allocations"])
p("C08", "Buffers behave as growable byte arrays",
  """Any sequence of buffer operations behaves as on an abstract byte array with a length and a capacity: data written is read back
  unchanged at its position, appends go to the end, growth keeps the content, length never exceeds capacity, reads beyond the length are refused, and a refused or failed operation (including a memory shortage)
  leaves content, length and position unchanged.  A shared buffer (more than one reference) refuses every
  modification with -EPERM, and the memory is released exactly when the last reference goes, never before.""",
  "inputs histories fault_sequences", "all positions, lengths and capacities (full 64-bit range for the checks), operation sequences within the stated bound, any single allocation failure",
  "Size arithmetic near overflow, growth at exact boundaries and failing reallocations are never exercised by the tests.",
  "src/pomp_buffer.c src/pomp_buffer.h", [("ensure_capacity, bounds checks, refcount", "src/pomp_buffer.c")],
  ["pomp_buffer_get_cdata, return values, live allocations"])
p("C09", "File descriptors in messages are duplicated and closed exactly once",
  """Writing a file descriptor in a message duplicates it and the message owns the duplicate: it is returned by the reader, duplicated again when the message or buffer is
  copied, and closed exactly once, when the last reference to its buffer is released or the buffer is cleared; descriptors of the caller are
  never closed.  At most 4 descriptors fit in a buffer, and any failure (full table, failing duplication or allocation) closes what it
  had opened and leaves the other descriptors owned and readable.""",
  "inputs histories fault_sequences", "any number of descriptors around the limit, any single failing call",
  "A descriptor leaked or closed twice on an error path passes every functional test.",
  "src/pomp_buffer.c src/pomp_encoder.c src/pomp_decoder.c", [("register_fd / clear / new_copy", "src/pomp_buffer.c"), ("pomp_encoder_write_fd", "src/pomp_encoder.c")],
  ["set of open descriptors in the system model"])
p("C10", "A connection sends every byte exactly once and in order",
  """For every behaviour of the socket (short writes of any size, would-block, interruption), the bytes handed to the
  socket are exactly the concatenation of the buffers accepted for sending, in order, with nothing lost, duplicated or
  interleaved, and descriptors attached to a buffer are sent with its first byte exactly once.  While data is pending the connection asks to be
  notified when the socket is writable, and stops asking when the queue is empty.""",
  "inputs schedules histories", "all outcomes of each write (any accepted count, EAGAIN, EINTR, error) for several queued buffers",
  "Partial writes depend on kernel buffer state; the tests mostly see complete writes.",
  "src/pomp_conn.c", [("pomp_io_buffer offsets and writeq", "src/pomp_conn.c")],
  ["bytes and control data passed to sendmsg/sendto/write, events registered in the loop"],
  [("writeq", "pending buffers", "src/pomp_conn.c")])
p("C11", "Each accepted buffer is reported to the send callback once",
  """Every buffer accepted for sending is reported to the send callback exactly once, in sending order and never from inside the send call itself, with OK if all its
  bytes were written, ERROR if its sending failed, ABORTED if the connection ended first; QUEUE_EMPTY is set exactly when
  nothing is pending any more.  The buffer is held until it was reported, and released exactly once.""",
  "schedules histories fault_sequences", "all socket outcomes, sends, disconnections within the stated bound",
  "Requires combinations of partial sends and disconnection timing.",
  "src/pomp_conn.c src/pomp_ctx.c src/pomp_loop.c", [("idle notifications of io buffers", "src/pomp_conn.c")],
  ["calls of the send callback, live allocations"])
p("C12", "Received bytes are delivered once, in order, until the end",
  """Whatever sizes the socket returns, the receiver gets all bytes of the stream in order and once (raw mode) or the messages they contain (message mode),
  none after the connection was removed; end of stream or a socket error leads to exactly one disconnection, would-block and interruption do
  not, and nothing is read while reading is suspended by the application.""",
  "inputs schedules", "all read sizes and errors within the stated bound",
  "Read sizes are decided by the kernel; tests see a few.",
  "src/pomp_conn.c src/pomp_prot.c", [("pomp_conn_process_read*", "src/pomp_conn.c")],
  ["data given to the callbacks, calls to recvmsg/recvfrom/read"])
p("C13", "Received descriptors reach the right message or are closed",
  """File descriptors received with a stream are attached to the message they were sent with, at the place of their argument, and readable from it; received
  descriptors that no argument claims, or that arrive where no message can take them, are closed.  No received descriptor is ever leaked or closed twice.""",
  "inputs fault_sequences", "all messages with up to the stated number of descriptors, any mismatch between payload and control data",
  "Tests send matching payload and descriptors; a peer may send anything.",
  "src/pomp_conn.c src/pomp_msg.c src/pomp_decoder.c", [("fd fix-up of decoded messages", "src/pomp_conn.c, src/pomp_decoder.c")],
  ["set of open descriptors in the system model"])
p("C14", "A context pairs connection events and cleans everything up",
  """Each connection produces exactly one CONNECTED event and then exactly one DISCONNECTED event; every refused or failed connection, listening or
  connecting attempt releases its socket and registers a retry when one is due.  Stopping notifies and closes every connection, releases the timer and socket, refuses to
  be destroyed while running, and leaves the context reusable, whichever system call failed before.""",
  "histories fault_sequences schedules", "every failing system call, any order of accept/connect/stop/disconnect within the stated bound",
  "The tests run the success path; failing socket calls and stop from callbacks are not reached.",
  "src/pomp_ctx.c src/pomp_conn.c", [("server/client start, stop, retry timer", "src/pomp_ctx.c")],
  ["event callback calls, open descriptors, loop registrations, live allocations"])
p("C15", "The loop calls exactly the callbacks of ready descriptors",
  """A loop behaves as a map from descriptor to (events, callback): adding twice is refused, updating or removing an unknown descriptor is refused, update2 adds and
  removes exactly the given events, and a failed operation changes nothing.  When waiting returns, each registered descriptor that is ready gets exactly one call of its callback with exactly the ready events,
  a descriptor removed by an earlier callback of the same round gets none, and removal during dispatch is safe; this holds for the
  epoll and the poll implementation alike.""",
  "inputs histories schedules", "all event masks and readiness outcomes, all operation sequences within the stated bound",
  "All masks, and removal from callbacks in every position, are not enumerated by tests.",
  "src/pomp_loop.c src/pomp_loop_linux.c src/pomp_loop_posix.c", [("list of pomp_fd, event translation", "src/pomp_loop*.c")],
  ["arguments of epoll_ctl/poll, callback calls"])
p("C16", "Idle callbacks run once, in order, unless removed",
  """Each idle callback registered on a loop is called exactly once, in registration order, with its own data, after the current round of events and without waiting
  for new ones, unless it was removed first (by callback and data, or by cookie); removal affects only matching entries.  Flushing runs all pending entries (or all of
  one cookie), entries added or removed by an idle callback are handled correctly, and a failed registration leaves the queue as it was.""",
  "histories schedules fault_sequences", "all sequences of add/remove/flush/process within the stated bound including calls from idle callbacks",
  "Sequences that mix removal and re-registration from inside callbacks are not enumerated.",
  "src/pomp_loop.c", [("idle_entries list and wakeup event", "src/pomp_loop.c")],
  ["calls of idle callbacks, live allocations"])
p("C17", "Timers are armed for exactly the requested time",
  """Setting a timer arms the system timer with exactly the requested delay and period in milliseconds for every 32-bit value, one-shot timers have no period, clearing
  disarms, and the callback runs exactly when the system reports an expiration, never after clear or destroy and never on a failed read; failures release everything.""",
  "inputs fault_sequences", "all delays and periods (32-bit), every failing system call",
  "Long or extreme delays cannot be waited for in a test.",
  "src/pomp_timer.c src/pomp_timer_linux.c src/pomp_timer_posix.c", [("ms to itimerspec conversion", "src/pomp_timer_linux.c")],
  ["arguments of timerfd_settime / timer_settime, callback calls"])
p("C18", "The watchdog fires only for rounds that exceed the delay",
  """With the watchdog enabled, its callback is called when the processing of one round of events lasts longer than the delay, at most once per
  round, and never for a round that ended in time, nor while the loop waits, nor after it is disabled; the deadline is the start of the round plus
  exactly the delay for every 32-bit delay and every clock value, and disabling always ends the watchdog thread.""",
  "schedules inputs", "all interleavings of the loop thread and the watchdog thread within the stated steps, all clock values and delays",
  "Depends on thread interleaving and on sub-second clock values.",
  "src/pomp_watchdog.c src/pomp_watchdog.h", [("mutex/condition protocol, absolute timeout", "src/pomp_watchdog.c")],
  ["watchdog callback calls, arguments of pthread_cond_timedwait"])
p("C19", "An event object is readable exactly while signalled",
  """An event is readable from a signal until it is cleared whatever the number of signals, clearing never blocks and never fails on an unsignalled event; attached to one loop,
  its callback is called once per round while it was signalled since the last call, with the event cleared before; it can be attached to one
  loop only and is refused again until detached, and failures leave it as it was.""",
  "histories fault_sequences", "all sequences of signal/clear/attach/detach/process within the stated bound, every failing system call",
  "Sequences and failing system calls are not enumerated by tests.",
  "src/pomp_evt.c src/pomp_evt_linux.c src/pomp_evt_posix.c", [("eventfd/pipe protocol", "src/pomp_evt_linux.c, src/pomp_evt_posix.c")],
  ["descriptor state in the system model, callback calls"])
p("C20", "Address strings are parsed and formatted safely and consistently",
  """Parsing any string either fails or fills the address completely within the given size, without reading or writing out of bounds; formatting any
  address stays within both the destination and the address and always terminates the string.  Every accepted 'unix:path', 'unix:@name' and
  numeric inet/inet6 address is reproduced by formatting the parsed result, and over-long names and bad ports are refused.""",
  "inputs", "all strings and addresses up to the stated length, all sizes",
  "Boundary lengths (107/108-byte paths, exact buffer fits) and unterminated sun_path are not tested.",
  "src/pomp_addr.c", [("pomp_addr_parse/format/is_unix/get_real_addr", "src/pomp_addr.c")],
  ["outputs and memory accesses"])
p("C21", "Dumping a message never overruns and reports its arguments",
  """Dumping any message, valid or not, into a buffer of any size stays within it and terminates the string (if the size is not 0), truncated output ends
  with '...' when there is room; the allocating variant returns the complete text with the id and every argument in order, whatever
  their number and size, and leaks nothing on failure.""",
  "inputs fault_sequences", "all message contents and destination sizes up to the stated bounds",
  "Overruns need destination sizes at exact argument boundaries and corrupt messages.",
  "src/pomp_decoder.c src/pomp_msg.c", [("dump_append", "src/pomp_decoder.c")],
  ["destination buffer and memory accesses"])
p("C22", "Encoding from argument strings is checked and equals the typed calls",
  """Encoding from an array of strings converts each string to the type named by the format and produces exactly the bytes of the typed call with that value;
  it never reads beyond the given array or its strings: with fewer strings than conversions, with missing values or malformed buffer text it fails with an error.""",
  "inputs", "all strings up to the stated length, all argument counts",
  "The tests pass one well-formed vector per type.",
  "src/pomp_encoder.c", [("argv branch of encoder_writev_internal, parse_buffer_argv", "src/pomp_encoder.c")],
  ["bytes produced, memory accesses"])
p("C23", "The Python implementation speaks the same wire format",
  """For every argument value the Python encoder produces exactly the bytes of the C library, the Python decoder returns the value from those bytes, and the Python
  stream parser accepts exactly the headers the C parser accepts.""",
  "inputs", "all values of each argument type within the stated sizes",
  "The two implementations are never run against each other by the tests.",
  "python/pomp/encoder.py python/pomp/decoder.py python/pomp/protocol.py python/pomp/message.py python/pomp/buffer.py",
  [("Encoder/Decoder classes", "python/pomp")], ["bytes produced by Encoder, values returned by Decoder"])
p("C24", "The C++ wrappers forward faithfully and own their objects",
  """Each C++ wrapper call has the effect of the C call it wraps with the same arguments and result, and each wrapper object releases the C object it owns exactly once.""",
  "histories", "all sequences of wrapper calls",
  "Ownership mistakes on rarely used paths are invisible to functional tests.",
  "include/libpomp.hpp include/libpomp-cxx11.hpp", [("class wrappers", "include/libpomp.hpp")], ["C API calls made"])

NA = {}      # pid -> reason
exec(open(os.path.join(HERE, "tools", "claims.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    man = {"version": 1, "setup_cmd": "./setup",
           "checks": [], "not_applicable": [], "notes": NOTES}
    for x in P:
        i = x["id"]
        if i in CLAIMS:
            man["checks"].append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                                  "thorough_cmd": "./check %s --tier thorough" % i,
                                  "technique": CLAIMS[i][0], "level": "model_checking", "level_note": CLAIMS[i][1]})
        else:
            man["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
