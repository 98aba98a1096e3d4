#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so the list is reviewable in one place).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MSG = ["src/message.c", "src/buffer.h", "src/strmap.c"]
TRX = ["src/trax.c", "include/trax.h"]
REG = ["src/region.c", "src/region.h"]

p("M01", "A written message is read back unchanged",
  "Any message the library writes to a stream is read back by the library with the same message type, the same positional arguments in the same order, and exactly the same set of named arguments and values. This holds for every text the arguments and values may contain, including spaces, quotes, backslashes, line breaks, equals signs in values, and non-ASCII bytes. (A positional argument that itself has the form of a named argument is, by the grammar, one.)",
  ["inputs"], "Every message type, every list of positional arguments (that do not themselves look like key=value) and every property set with valid keys, over all byte contents.",
  "The tests send a few fixed rectangles and file paths; quoting, escaping and non-ASCII bytes are never exercised in combination.",
  MSG, [("write_message / write_buffer_escaped", "src/message.c"), ("read_message", "src/message.c")], ["bytes on the output descriptor", "arguments and properties returned by the reader"])
p("M02", "Non-protocol and malformed lines never disturb protocol messages",
  "Lines in the stream that are not well-formed protocol messages (program output, unknown message names, malformed escapes or quoting) are skipped as a whole. The protocol messages before and after such a line are delivered exactly as if that line were not in the stream: none of them is lost, and none acquires arguments or properties from the skipped line.",
  ["inputs"], "Every content of an interleaved non-protocol or malformed line, in every position relative to well-formed messages.",
  "Tests never interleave hostile or malformed lines with protocol messages.",
  MSG, [("read_message PASS / SPACE_EXPECT / escape states", "src/message.c")], ["message returned by the reader after a junk line"])
p("M03", "Message exchange is independent of how the transport chunks bytes",
  "The sequence of messages a reader obtains depends only on the byte sequence, not on how the transport splits it into reads. Writing a message over a transport that accepts only part of the data at a time still delivers every byte exactly once and in order, on descriptors and on sockets alike.",
  ["schedules", "fault_sequences"], "Every way of splitting input into reads and every sequence of short writes, for descriptor and socket streams.",
  "Local pipes deliver whole messages in the tests, so partial reads and writes never happen.",
  ["src/message.c"], [("read_character buffer refill", "src/message.c"), ("write_buffer loop", "src/message.c")], ["bytes accepted by the transport", "messages returned"])
p("M04", "Every message is exactly one line",
  "Writing any message puts exactly one line on the stream: it starts with the protocol prefix and the message name, ends with one line break, and contains no other line break, whatever the arguments and property values contain. Therefore no argument or value can inject another message or line.",
  ["inputs"], "Every message type, argument text and property value.",
  "Tests never send values with line breaks or protocol prefixes inside.",
  ["src/message.c"], [("write_buffer_escaped", "src/message.c")], ["bytes on the output descriptor"])
p("M05", "End of stream never fabricates a message",
  "When the peer closes the stream or reading fails, the reader reports an error: a message whose line was not completed is not delivered, and no further message is ever reported, no matter what was received before. Every waiting call then returns an error instead of blocking or looping forever.",
  ["crash_points", "histories"], "Every point at which the peer may close or break the stream, after any history of messages.",
  "Tests only close streams after an orderly quit.",
  ["src/message.c", "src/trax.c"], [("read_message end-of-input handling", "src/message.c"), ("wait calls", "src/trax.c")], ["return code of reading and waiting calls"])
p("M06", "Reading arbitrary bytes is memory safe",
  "Reading messages from a stream with arbitrary contents never reads or writes outside the library's buffers, never crashes or aborts, and leaks no memory once the handle and results are released. This includes inputs longer than the internal buffers' growth step.",
  ["inputs"], "Every byte sequence delivered by the peer.",
  "Tests only feed well-formed traffic from the library itself.",
  MSG, [("string buffer growth", "src/buffer.h"), ("read_message", "src/message.c")], ["process memory"])
p("M07", "Messages are decoded according to the documented grammar",
  "A line of the documented form (prefix, message name in any letter case, space-separated quoted or unquoted arguments with backslash escapes, keys limited to 64 alphanumeric, dot and underscore characters) decodes to exactly the arguments and properties the protocol document prescribes. When a key is not valid, the text is treated as a positional argument.",
  ["inputs"], "Every protocol line up to the bound, compared with an independent decoder written from the protocol document.",
  "Tests contain no hand-written protocol lines in other valid spellings.",
  ["src/message.c", "docs/protocol.rst"], [("read_message state machine", "src/message.c"), ("key validation", "src/message.c")], ["arguments and properties returned"])
p("B01", "Base64 encoding round-trips and its length functions agree",
  "Decoding the encoding of any byte block yields the same bytes and the same length. The advertised encoded and decoded lengths are exactly what encoding and decoding produce, so buffers of those sizes are never overrun.",
  ["inputs"], "Every byte block of every length.",
  "Tests never look at the encoder directly; only whole images of a couple of sizes pass through it.",
  ["src/base64.c"], [("base64encode / base64decode", "src/base64.c")])
p("B02", "Base64 decoding of arbitrary text stays inside advertised sizes",
  "For any terminated text, the advertised decoded size is positive and decoding writes no more bytes than that, reading nothing beyond the terminator. A text of length zero decodes to zero bytes.",
  ["inputs"], "Every text, including empty, truncated, padded and illegal input.",
  "Tests only decode what the encoder produced.",
  ["src/base64.c"], [("base64decodelen / base64decode", "src/base64.c")])
p("I01", "An image survives transport unchanged",
  "Encoding an image of any kind (file path, URL, raw memory in each pixel format, encoded buffer) for transport and decoding it yields an image of the same kind with the same path or URL, dimensions, pixel format, length and data bytes.",
  ["inputs"], "Every path and URL text, every pixel format, dimension and content, every buffer content with a supported signature.",
  "Tests use one path, one URL and one fixed picture; sizes that hit padding and terminator edge cases are not covered.",
  ["src/trax.c", "src/base64.c"], [("image_encode / image_decode", "src/trax.c")])
p("I02", "Decoding arbitrary image text is safe and never yields a malformed image",
  "Decoding any text as an image either fails or yields an image whose data block covers its declared dimensions, format and length. It never crashes, aborts or touches memory out of bounds, also for truncated, empty, oversized or negative dimensions and illegal encodings.",
  ["inputs"], "Every text received in an image argument.",
  "Tests only decode what the library encoded.",
  ["src/trax.c", "src/base64.c"], [("image_decode", "src/trax.c")])
p("I03", "Image rows address disjoint, complete parts of the pixel data",
  "For a raw image, row r starts exactly r full rows into the pixel data, for reading and writing alike, so rows never overlap and lie inside the image. Writing all rows and reading them back yields what was written.",
  ["inputs"], "Every width, height, pixel format and row index.",
  "Tests access rows of one image only, always sequentially and without comparing rows.",
  ["src/trax.c"], [("row accessors", "src/trax.c")])
p("I04", "Image lists keep one image per channel",
  "An image stored in a list under a channel is returned for that channel and no other; channels never set return nothing, and unknown channel codes neither store nor return anything. Counting channels counts exactly the channels named in the mask.",
  ["inputs", "histories"], "Every sequence of stores over every channel code.",
  "Tests use one or two fixed channels.",
  ["src/trax.c", "include/trax.h"], [("image list accessors", "src/trax.c")])
p("F01", "Capability lists survive the introduction; absent ones take defaults",
  "Every combination of supported image formats, region formats and channels announced by a server is what the client learns. When the peer omits a list, the documented defaults (file paths, rectangles, color) are assumed, and unknown or repeated entries never crash the client.",
  ["inputs", "configurations"], "Every subset of formats and channels and every list text from the peer.",
  "Tests try only a few combinations and never omit the lists.",
  ["src/trax.c"], [("format list encoding and decoding", "src/trax.c")])
p("R01", "A region survives its textual form",
  "Converting any region (special code, rectangle, polygon, mask) to text and parsing that text yields a region of the same kind with the same code, the same coordinates up to the four printed decimals, or the same mask placement and pixels. This includes empty, full and single-pixel masks and negative coordinates.",
  ["inputs"], "Every region of every kind with finite coordinates in the printable range, every mask content.",
  "Tests parse and print a handful of fixed strings and random polygons; mask run-length borders are sampled at best.",
  REG + ["src/trax.c"], [("region_string / region_parse", "src/region.c")])
p("R02", "Parsing arbitrary region text is safe",
  "Parsing any text as a region either fails or yields a region whose coordinate or pixel storage covers its declared size. It never crashes, aborts, reads out of bounds or writes out of bounds.",
  ["inputs"], "Every text received in a region argument.",
  "Tests only parse well-formed strings.",
  REG, [("region_parse, number sequence parsing", "src/region.c")])
p("R03", "Region conversion and bounds cover exactly the region",
  "The bounds of a region are the tightest box around its points or set pixels, for any sign of the coordinates (a mask without set pixels has no specified bounds). Converting to a rectangle gives that box, converting a rectangle to polygon or mask and back gives the same rectangle, cloning gives an independent equal region, and conversion never touches memory out of bounds; a rectangle that is empty or too large for a mask is not converted to one.",
  ["inputs"], "Every region of each kind and every target kind.",
  "Tests convert a few positive-coordinate regions only.",
  REG + ["src/trax.c"], [("region_convert, bounds computation", "src/region.c")])
p("R04", "Region overlap is a symmetric ratio",
  "The overlap of two regions is always a number between 0 and 1, does not depend on argument order, equals 1 for two equal non-empty regions, equals 0 for regions that share no pixel, and otherwise is shared pixels divided by pixels covered by either. It is independent of where the regions lie in the plane and never touches memory out of bounds. (For regions of more than 2^31 pixels or that far from the origin only the range and memory safety hold.)",
  ["inputs"], "Every pair of regions, with and without limiting bounds.",
  "Tests compare random polygons with a reference on few samples; degenerate (one pixel wide, touching, empty) pairs are not covered.",
  REG + ["src/trax.c"], [("region_compute_overlap", "src/region.c")])
p("R05", "Point containment agrees with the region's extent",
  "A point is reported inside a mask exactly when the pixel containing it is set, inside a rectangle exactly when it lies between its edges, and never inside a polygon when it is outside the polygon's bounds. The query never touches memory outside the region, for any point.",
  ["inputs"], "Every region and every point, including negative and fractional coordinates.",
  "Tests never query points at negative fractional coordinates or at mask borders.",
  REG + ["src/trax.c"], [("point_in_mask, point_in_polygon, rectangle test", "src/region.c")])
p("R06", "Extracting a mask window copies exactly the visible pixels",
  "Extracting a window from a mask region sets each window pixel to the corresponding mask pixel, and to zero where the window lies outside the mask. Nothing outside the window buffer or the mask is touched, wherever the window lies.",
  ["inputs"], "Every mask and window position and size, overlapping or not.",
  "Tests only extract windows at the origin.",
  REG, [("region_get_mask_offset for masks", "src/region.c")])
p("R07", "Rasterizing stays inside the window and matches the shape",
  "Rasterizing a polygon or rectangle into a window writes only inside the window buffer, gives every window pixel a value, and sets no pixel outside the shape's bounds. An axis-aligned rectangle with integer corners sets exactly the pixels it covers inside the window, and a triangle with integer corners sets at least its corners and the pixels whose centres lie inside it.",
  ["inputs"], "Every polygon and window, including polygons partly or completely outside.",
  "Tests rasterize polygons inside the window only.",
  REG, [("rasterize_polygon", "src/region.c")])
p("P01", "A property set is a faithful map",
  "After any sequence of stores, each key yields its most recently stored value and keys never stored yield nothing; presence queries, counting and enumeration agree with that, visiting each key exactly once. Keys that collide internally do not affect each other and clearing removes everything.",
  ["histories", "inputs"], "Every sequence of stores, including replaced values of any length and colliding keys.",
  "Tests store a few distinct keys once.",
  ["src/strmap.c", "src/trax.c"], [("sm_put / sm_get / sm_enum", "src/strmap.c")])
p("P02", "Appending and copying properties respects the overwrite choice",
  "A copy of a property set has exactly the same entries and is independent of the original. Appending adds every missing entry, replaces existing ones only when overwriting is requested, never removes entries, and never changes the source. (Appending a set to itself is unspecified.)",
  ["histories", "inputs", "configurations"], "Every pair of property sets and both overwrite choices.",
  "Tests never append to a set that already has the key.",
  ["src/trax.c"], [("copy_properties and its visitors", "src/trax.c")])
p("P03", "Typed properties round-trip and fall back to the default",
  "A stored integer is read back exactly and a stored real number up to its six printed decimals. Reading a missing, empty or non-numeric value as a number yields the caller's default. (Hexadecimal texts and names of infinities or NaN are unspecified.)",
  ["inputs"], "Every integer, every real number in the printable range, every stored text.",
  "Tests read back one or two numbers and never malformed text.",
  ["src/trax.c"], [("typed getters and setters", "src/trax.c")])
p("L01", "Object lists own independent copies",
  "Setting an object in a list stores an independent copy of the region; later changes to or release of the original do not affect the list. Appending one list to another (also to itself) adds copies of all its regions and properties in order after the existing ones, and out-of-range indices are refused without effect.",
  ["histories", "inputs"], "Every sequence of list operations with any index.",
  "Tests build lists of one or two objects once and never misuse indices.",
  ["src/trax.c"], [("object list operations", "src/trax.c")])
p("H01", "The client learns exactly what the server announced",
  "After the introduction, the client's view of the server - protocol version, region formats, image formats, channels (color only for version 1), name, description, family, multi-object ability (version 4 and later) and custom properties - equals what the server announced. Reserved protocol properties never show up among the custom ones.",
  ["inputs", "configurations"], "Every server metadata and every protocol version.",
  "Tests use a few fixed configurations.",
  ["src/trax.c"], [("server_setup / client_setup", "src/trax.c")], ["client metadata"])
p("H02", "A terminated session stays silent",
  "Terminating a session sends exactly one quit message carrying the reason, however often it is repeated and even if cleanup follows; after sending or receiving quit the handle is not alive. Every later request, reply or wait on it is refused with an error and puts nothing on the stream.",
  ["histories"], "Every sequence of calls after termination by either side.",
  "Tests stop using the handle after quitting.",
  ["src/trax.c"], [("alive checks, trax_terminate, trax_cleanup", "src/trax.c")], ["bytes on the output stream", "return codes"])
p("H03", "Single-object server waiting follows the protocol",
  "A version 1-3 server waiting for a request returns initialize with images and region, frame with images, or quit exactly when that message arrives with the right number of well-formed arguments in supported formats, and passes on its properties. Anything else is an error, which returns no images and no region.",
  ["inputs", "histories"], "Every incoming message type, argument list and property set.",
  "Tests send only correct messages in the normal order.",
  ["src/trax.c"], [("single-object server wait", "src/trax.c")], ["return code and outputs"])
p("H04", "Multi-object server waiting collects objects in order",
  "A version 4 server waiting for a request gathers the objects announced since the last frame, in order and with their own properties, and delivers them together with the next frame's images; it reports an initialization when the session was (re)started and a frame otherwise. An argument-less initialize restarts the object count (objects announced before it in the same wait are unspecified), a restart followed by a frame without any object is an error, and every unexpected message, bad argument count or quit ends the wait with no images and no objects delivered.",
  ["inputs", "histories"], "Every sequence of incoming messages.",
  "Tests use at most two objects in the normal order.",
  ["src/trax.c"], [("multi-object server wait", "src/trax.c")], ["return code and outputs", "object count expected in replies"])
p("H05", "Client waiting returns one state per tracked object",
  "A client waiting for results returns the state code only when it received exactly one well-formed region for each tracked object, and then delivers them in order with their properties. Quit from the server ends the session, and any other message or malformed state is an error; in both cases no object list is delivered. Waiting for results while no object is tracked is an error as well.",
  ["inputs", "histories"], "Every sequence of replies from the server.",
  "Tests have a well-behaved server only.",
  ["src/trax.c"], [("client wait", "src/trax.c")], ["return code and outputs"])
p("H06", "Client requests are complete or not sent at all",
  "An accepted request sends exactly the messages the protocol prescribes: the images of every required channel in channel order, regions converted to a format the server supports, and the given properties. A request that is refused (dead session, missing channel, too many objects, no object, a region that cannot be converted to a supported format) puts nothing on the stream and does not change how many objects are tracked.",
  ["inputs", "configurations", "histories"], "Every image list, object list, server capability set and protocol version.",
  "Tests only issue acceptable requests.",
  ["src/trax.c"], [("client initialize and frame", "src/trax.c")], ["bytes on the output stream"])
p("H07", "Server replies carry exactly the tracked objects",
  "An accepted reply sends one state message per tracked object, in order, with that object's region and properties. A multi-object (version 4) reply with a different number of objects than are being tracked, a single-region reply in a multi-object session, a region that cannot be sent, or any reply on a dead session is refused with an error and puts nothing on the stream. (List replies in versions 1-3 are unspecified.)",
  ["inputs", "histories", "configurations"], "Every object list against every session state.",
  "Tests reply with the right number of objects only.",
  ["src/trax.c"], [("server reply", "src/trax.c")], ["bytes on the output stream"])
p("E01", "Error text describes the last failed call",
  "After a request, reply or wait on a handle succeeds, no error text is available. After a refused request, reply or wait or protocol violation the error text is present, properly terminated and reports the actual numbers involved, and it survives until the next call without leaks or dangling references.",
  ["histories", "inputs"], "Every sequence of successful and failing calls.",
  "Tests never read the error text.",
  ["src/trax.c"], [("set_error / clear_error", "src/trax.c")])
p("S01", "A whole session transports data faithfully between the two endpoints",
  "When a client and a server built from this library talk to each other, every image, region and property the client sends is what the server receives and every reply is what the client receives, in order, in single- and multi-object mode, until one side quits. Both sides always agree on how many objects are tracked.",
  ["inputs", "histories", "configurations"], "Every protocol version, every number of objects within the bound, every region and property content.",
  "Tests run one fixed dialogue per mode.",
  ["src/trax.c", "src/message.c", "src/region.c"], [("client and server calls", "src/trax.c")])
p("T01", "Session handles do not leak and release everything once",
  "Creating, using and cleaning up client and server handles, images, regions, lists and property sets releases each allocation exactly once on success and on every error path, so a long-running session does not grow.",
  ["histories"], "Every success and failure path of the session calls within the bound.",
  "Tests do not check memory on error paths.",
  ["src/trax.c", "src/message.c", "src/region.c"], [("release functions and failure paths", "src/trax.c")])
p("X01", "Tracker commands start the intended process with the intended streams",
  "A tracker command line is split at spaces into the program and its arguments; text in double quotes is one argument, and neither leading or trailing spaces nor the length of an argument matter. A command without a program or with an unbalanced quote is refused with an exception. (Escapes inside quotes and text directly after a closing quote are unspecified.) Starting a process connects its input, output and error output (or, with dedicated streams, the descriptors announced to it in TRAX_IN and TRAX_OUT) to the three descriptors the parent uses, runs it in the requested directory with exactly the variables that were set or copied, and leaves the parent's own directory unchanged. A start that fails leaves nothing behind and may be repeated; destroying the process object ends and reaps the process and closes every descriptor exactly once; the exit code or (negated) signal of an ended process is reported and stays available.",
  ["inputs", "fault_sequences", "configurations"], "Every command line text, environment and failing system call.",
  "Tests start one fixed command that always works.",
  ["support/client/process.cpp"], [("command parsing and process start", "support/client/process.cpp")])
p("X02", "Tracker output logging never overflows and loses nothing",
  "Everything the client library reads from a tracker it started (also text between protocol messages and an unfinished last line) and every message it sends appears in the log, in this order, byte by byte; so does everything the tracker writes to its error output until it ends, in its own order (up to 10 KB that are still unread when it ends). A line of more than 255 bytes is cut to 255 bytes and a line break. A complete line of error output is not mixed into other lines. Silent mode logs none of this. This holds for every text and line length, and whenever the logger and the watchdog thread get to run; no buffer is overrun.",
  ["inputs", "histories", "schedules"], "Every text, every line length, every interleaving of caller, logger and watchdog.",
  "Tests print short lines only and never look at the log.",
  ["support/client/client.cpp", "src/message.c"], [("line buffered logger", "support/client/client.cpp")], ["bytes in the log stream"])
p("X03", "Timed waits and timers compute with correct points in time",
  "A timed wait of n milliseconds (n > 0) waits, holding its mutex, until a normalized absolute deadline exactly n milliseconds after the current time. The client library's timer reports exactly the difference between two clock readings in whole microseconds, in seconds, and never a negative one.",
  ["inputs"], "Every current time and every wait length.",
  "Whether the deadline is valid depends on the microsecond at which the call happens.",
  ["support/client/threads.cpp", "support/client/timer.cpp"], [("condition wait with timeout", "support/client/threads.cpp"), ("timer", "support/client/timer.cpp")])
p("N01", "A socket connection is complete or leaves nothing behind",
  "Creating a listening socket, accepting a tracker on it (client) and connecting to the port in TRAX_SOCKET (tracker) either succeed completely - the socket listens on the requested port of the local host; the session carries requests and answers over exactly this connection - or report failure (a negative descriptor, no handle) with no descriptor left open, whichever single call to the network fails; a tracker keeps trying while nobody listens yet. Accepting waits no longer than the given timeout and never for a connection that is not there; a peer that leaves without an introduction yields no handle. Ending a session closes its connection and nothing else, so the listening socket can accept the next one. A TrackerProcess over sockets tells its tracker exactly the port it listens on, tries up to ten ports when they are in use, and a connection of an earlier process is never taken for the one of its successor.",
  ["inputs", "fault_sequences"], "Every port, every failing call, and every behaviour of the peer.",
  "Tests only connect once, on a machine where every call succeeds.",
  ["src/message.c", "src/trax.c", "support/client/client.cpp"], [("accepting and connecting", "src/message.c"), ("server setup from the environment", "src/trax.c"), ("listening socket and choice of the port", "support/client/client.cpp")], ["handles and descriptors returned", "descriptors left open", "time spent waiting", "what arrives at the peer"])
p("W01", "C++ handles share and release the underlying object exactly once",
  "Creating, copying, moving, assigning (also to itself), changing and destroying C++ wrapper objects (Region, Properties, Image, ImageList, ObjectList, Metadata) in any order keeps the underlying object alive exactly as long as some wrapper refers to it and releases it exactly once; a change made through one wrapper is not seen through its copies (pixel rows written through a row pointer are the exception: copies share them), and elements taken out of a list or put into it live on independently of the list. A wrapper that was moved from may only be assigned to or destroyed.",
  ["histories"], "Every sequence of these operations within the bound.",
  "Tests do not exercise self-assignment or shared handles.",
  ["src/traxpp.cpp", "include/trax.h"], [("reference counted wrapper", "src/traxpp.cpp")])
p("W02", "C++ and C interfaces deliver the same data",
  "Properties, regions, images, lists and metadata accessed through the C++ interface have the same content, conversions, overlaps and texts as through the C interface; lists keep what was stored in them, and unknown channels and indices are refused without touching memory out of bounds. A dialogue between a C++ endpoint (Client, ServerSOT, ServerMOT) and a C endpoint delivers the same requests, replies, properties, metadata and reasons for quitting as one between two C endpoints. Calls on an endpoint without a session, requests without images, objects or a region and replies without a region are refused with an error and nothing is sent.",
  ["inputs", "histories"], "Every content and index within the bound.",
  "Tests of the C++ interface check a single value each.",
  ["src/traxpp.cpp", "src/trax.c", "include/trax.h"], [("wrapper classes", "src/traxpp.cpp")])
p("Y01", "The Python bindings agree with the C library on codes and formats",
  "Every numeric code the Python package uses for messages, regions, images, pixel formats, buffer formats and channels equals the C library's code, its structures have the C layout and its calls the C library's arguments; encoding and decoding of capability lists in Python yields the same sets as in C; regions, images and arrays get the kind, pixel format, size and content that belong to their code.",
  ["inputs", "configurations"], "Every constant and every subset of formats and channels.",
  "Python tests only touch regions and one path image.",
  ["support/python/trax"], [("constant tables and list coders", "support/python/trax/image.py"), ("region kinds and coders", "support/python/trax/region.py"), ("structures, signatures and constants", "support/python/trax/_ctypes.py"), ("status codes", "support/python/trax/__init__.py")], ["results of encode, decode, encode_list, decode_list and wrap", "arrays and images"])
p("Y02", "Python objects and sessions carry the data of the C library and own it exactly once",
  "Regions, images and properties read in Python what was put into them (coordinates, codes, offsets, pixels of any array view, texts in any script, defaults for missing properties; an invalid index is an IndexError). A Python server delivers each request with exactly the images by channel, objects with their properties, and properties that the library received, and sends each state with all its objects and properties; a Python client sends requests with exactly the images, objects and properties given (none if none are given) and delivers all answers; a quit reason arrives. Every failure the library reports (setup, introduction, wait, request, reply, terminate, an answer that is quit) becomes a TraxException with the library's text, and no other exception occurs. Every object created by the library is released exactly once when its last Python owner is gone, and never used afterwards; the objects of the caller stay valid.",
  ["inputs", "histories", "fault_sequences"], "Every result of the library at every call, every combination of objects, channels and properties, every array view.",
  "Python tests run one kind of session that goes well.",
  ["support/python/trax"], [("server", "support/python/trax/server.py"), ("client", "support/python/trax/client.py"), ("wrappers and ownership", "support/python/trax/__init__.py"), ("regions", "support/python/trax/region.py")], ["values read back", "what reaches the library's functions", "exceptions", "objects released"])
p("Z01", "Tracker processes are always reaped and bounded in time",
  "Whatever a tracker process started by the client library (TrackerProcess, over standard streams, dedicated streams or a socket) does - hang, ignore requests to end, crash, exit, end early, talk garbage, announce a protocol version that is too new, say quit, answer slowly, connect too late -, and whenever the watchdog and the logger thread get to run: every call returns within a bounded time after the timeout, throws nothing but std::runtime_error, and leaves no mutex locked; a start that is impossible (bad command, no descriptors, no such program) is reported by std::runtime_error; a tracker that is to be stopped (any of the watchdog callbacks, timeout, reset, destruction) is ended, by force only after it was asked to end; when the TrackerProcess object is destroyed, every process it started has been ended and reaped, its threads have ended, and every descriptor, mutex and piece of memory is released. A tracker whose protocol version is too new is never sent a request. A tracker is reported as tracking exactly from a successful initialization until a failed call, a reset or its end; wait and frame are refused (std::runtime_error) before that; after a failure the next initialization starts a new tracker. A tracker that behaves is never ended or replaced on its own account, and all its answers are delivered unchanged, each once.",
  ["schedules", "fault_sequences", "histories"], "Every sequence of calls, every behaviour of the tracker, and every interleaving of the caller, the watchdog, the logger and the tracker.",
  "Tests only run trackers that behave, with whatever schedule the machine happens to produce.",
  ["support/client/client.cpp", "support/client/process.cpp", "support/client/threads.cpp", "src/traxpp.cpp", "src/trax.c"], [("watchdog and logger threads, start and stop of the process", "support/client/client.cpp"), ("Process", "support/client/process.cpp")], ["results and exceptions of TrackerProcess calls", "processes, threads, descriptors and memory after the object is destroyed"])
p("C01", "The command line client evaluates a tracker faithfully",
  "traxclient processes the images of its list in order, each from the first frame that has an initialization. A start sends the initialization of that frame (from the initialization file, otherwise the groundtruth) together with all -p parameters and exactly the image channels and the kind of image that the tracker announced; the tracker runs with the given command words and the -e variables. Every following frame is sent once, after the answer to the one before. The results file has one line per frame of the sequence (as long as the shorter of images and groundtruth): 1 for a start, the answer for a tracked frame, 2 where the overlap of answer and groundtruth is at or below the threshold of -f (clamped to 0..1), 0 for frames that are skipped; after a failure tracking starts anew with -r frames after the failed one, in a new tracker process, or not at all without -r. The timing file has one line for each of these lines, with the time that very answer took, and 0 where there is none. A last line without a newline counts like any other line, frames without initialization are skipped. If the tracker cannot be started, crashes, hangs beyond the timeout, or answers nonsense, or a file is missing or an option unknown, the client reports an error and exits with a non-zero code, and otherwise with zero. It always terminates, and leaves no process, thread or descriptor behind.",
  ["inputs", "fault_sequences", "histories"], "Every sequence, every list of answers, every set of options and every behaviour of the tracker.",
  "The tests of the client run one short sequence with a tracker that behaves and without a threshold.",
  ["support/client/cli.cpp", "support/client/client.cpp", "src/traxpp.cpp", "src/trax.c"], [("main, read_images, load_images, save_timings", "support/client/cli.cpp"), ("load_trajectory, save_trajectory, TrackerProcess", "support/client/client.cpp")], ["requests the tracker gets, its command and environment", "the results and timings files, the exit code", "processes, threads and descriptors at the end"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
