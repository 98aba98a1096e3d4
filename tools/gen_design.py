#!/usr/bin/env python3
"""Writes DESIGN.md from design_prose.md, design_tail.md, checks.py and properties.jsonl."""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import checks
O = {
"M01": ("h_msg_roundtrip.c: write with `write_message`, read with `read_message`", "what was written"),
"M02": ("h_msg_lines.c: message, junk line with symbolic bytes, message", "both messages arrive unchanged and nothing else, except if an independent recogniser of the grammar accepts the line itself"),
"M03": ("h_msg_frag.c: symbolic split points of every read; symbolic short writes; descriptor and socket variants", "the messages read from the unsplit stream; the bytes of an unsplit write"),
"M04": ("h_msg_roundtrip.c: every byte written is inspected", "exactly one line feed, at the end"),
"M05": ("h_msg_lines.c: stream cut or failing at a symbolic position", "only complete lines give messages; afterwards end of stream is reported, again and again"),
"M06": ("h_msg_lines.c: arbitrary bytes; lengths around the buffers", "memory safety rules of the engine; leaks"),
"M07": ("h_msg_lines.c: arbitrary argument sections and names", "an independent parser of the documented grammar in the harness"),
"B01": ("h_base64.c", "decode(encode(x)) = x, advertised lengths equal the real ones, alphabet and padding of RFC 4648"),
"B02": ("h_base64.c", "everything written lies inside the advertised size; result length within it"),
"I01": ("h_image.c: encode, decode, compare", "every accessor equal"), "I02": ("h_image.c", "NULL or an image whose invariants hold; memory safety"),
"I03": ("h_image.c: rows written with arbitrary pixels", "row r = bytes r*stride..; rows disjoint and cover the data"),
"I04": ("h_image.c: arbitrary 32 bit codes", "a three-entry table in the harness"),
"F01": ("h_session.c 0-2: introduction between real client and server, or a scripted peer", "the sets announced; documented defaults"),
"R01": ("h_region.c: to text and back with symbolic coordinates", "same kind and values (to the printed precision)"),
"R02": ("h_region.c: arbitrary texts", "refused, or a well-formed region; memory safety"),
"R03": ("h_region.c: conversions and bounds", "bounding box computed in the harness from coordinates or set pixels; pixel sets of rectangle and mask equal"),
"R04": ("h_region.c", "intersection over union counted in the harness on pixels; symmetry; range 0-1"),
"R05": ("h_region.c", "membership computed in the harness (pixel table, bounds, half planes)"),
"R06": ("h_region.c", "pixel by pixel copy in the harness"), "R07": ("h_region.c", "no store outside the buffer; strictly inside pixels set, strictly outside pixels clear"),
"P01": ("h_props.c: histories of stores, clears and lookups", "association list in the harness"), "P02": ("h_props.c", "association lists"), "P03": ("h_props.c", "decimal arithmetic in the harness; the default for texts that are no number"),
"L01": ("h_props.c / h_session.c lists", "arrays in the harness; changing a source does not change the list"),
"H01": ("h_session.c 3-4: a real introduction on both ends", "the metadata given to the server"), "H02": ("h_session.c 5: calls after termination", "no byte is sent, every call refused, state stays terminated, reason delivered once"),
"H03": ("h_session.c 6: scripted client texts against a real server", "a reference state machine of the protocol in the harness"), "H04": ("h_session.c 7", "a reference state machine that collects objects"),
"H05": ("h_session.c 8: scripted server", "a reference state machine of replies"), "H06": ("h_session.c 9", "messages predicted from capabilities and arguments: all of them or none"),
"H07": ("h_session.c 10", "as many state messages as tracked objects, or none"), "E01": ("h_session.c, assertions on error texts", "NULL after success, a text after failure, unchanged when read twice"),
"S01": ("h_session.c 11: real client and real server, dialogue chosen by the solver", "what was given to one end arrives at the other"),
"T01": ("all of these with leak and release assertions only", "every block allocated is released exactly once"),
"X01": ("h_client.cpp 0-2", "an independent parser of commands; the model's record of spawn actions and descriptors"), "X03": ("h_client.cpp 10-11", "64 bit integer arithmetic in the harness"),
"X02": ("h_client.cpp 21: tracker that writes symbolic bytes to its output or error output, logger callback", "each stream's lines arrive complete, in order, truncated only as configured; nothing in silent mode; buffers stay in bounds"),
"N01": ("h_client.cpp 30-32: client, tracker and TrackerProcess on a modelled network in which one call fails", "descriptor counts, the model's record of ports and connections, the time spent"),
"W01": ("h_cpp.cpp 0-6: histories of operations on wrappers", "reference values in the harness, release count of the underlying object"), "W02": ("h_cpp.cpp 10-23: C++ call against the same C call; C++ endpoint against C endpoint", "equality"),
"C01": ("h_cli.cpp: a whole run of the client's main function on files in memory against a modelled tracker", "a simulation written from the documentation: requests, results, times, exit code, nothing left behind"),
"Z01": ("h_client.cpp 20: a TrackerProcess against modelled trackers under the scheduler", "functional model for good trackers; time limits; everything reaped, closed, released and joined; only runtime_error"),
"Y01": ("py/y.py: the real Python modules executed with symbolic integers and names (proxies that fork on z3 decisions); constants, layouts and signatures compared with what clang reports for include/trax.h", "the C header"),
"Y02": ("py/y.py: the real Python modules on a model of the C library that keeps values, owners and releases; every result the library may return is a symbolic value", "values given to one side, release counts"),
}
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
out = [open(H + "/tools/design_prose.md").read(), "\n## Property by property\n\nLevel everywhere: bounded, exhaustive within the stated bounds (every value, path and listed schedule decided by z3). The quick\ntier of a property takes 2 s to 3 min on 8 cores; evidence files hold the times of the last run.\n"]
for p in props:
    i = p["id"]
    if i not in checks.CHECKS: out.append("\n### %s %s\nNot claimed. %s\n" % (i, p["title"], checks.NOT_APPLICABLE.get(i, ""))); continue
    c = checks.CHECKS[i]; m, o = O[i]
    seeds = [os.path.basename(os.path.dirname(f)) for f in sorted(glob.glob(H + "/seeded/*/meta.json")) if json.load(open(f))["property"] == i]
    out.append("\n### %s %s\n* How: %s.\n* Oracle: %s.\n* Bounds: %s.\n" % (i, p["title"], m, o, c["bounds"]) + ("* Outside: %s.\n" % c["outside"] if c["outside"] else "") + ("* Seeded changes it catches: %s.\n" % ", ".join(seeds) if seeds else ""))
out.append("\n" + open(H + "/tools/design_tail.md").read())
open(H + "/DESIGN.md", "w").write("".join(out))
