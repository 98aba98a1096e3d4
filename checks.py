"""Which harnesses decide which property, and within which bounds."""
ASSUME = [
  "symx executes LLVM IR compiled from /repo at -O0; malloc succeeds for sizes up to 16 MB",
  "the C library is modelled by harness/models.c (C locale); sampled paths and every counterexample are replayed against the real one",
  "descriptors and sockets are byte channels (harness/vh_io.h)",
]
CHECKS = {}
def check(id, jobs, bounds, outside="", assume=()):
    CHECKS[id] = {"jobs": jobs, "bounds": bounds, "outside": outside, "assume": list(assume)}
def J(h, quick, thorough=None, **k):
    d = {"h": h, "quick": quick, "thorough": thorough if thorough is not None else quick}; d.update(k); return d

check("M01", [J("h_msg_roundtrip.c",
    [dict(args=1, props=1, len=2, types=5), dict(args=2, props=0, len=2, types=1), dict(args=1, props=0, len=4, types=1), dict(args=0, props=2, len=4, types=1), dict(args=1, props=0, len=2, types=1, lo=4093, hi=4097), dict(args=0, props=1, len=2, types=1, lo=4091, hi=4097)],
    [dict(args=1, props=1, len=3, types=5), dict(args=2, props=0, len=3, types=2), dict(args=3, props=1, len=2, types=1), dict(args=1, props=0, len=5, types=1), dict(args=0, props=2, len=5, types=1)],
    covers=["roundtrip"])],
  "up to 3 arguments and 2 properties, each text up to 5 arbitrary non-NUL bytes, or 2 arbitrary bytes after about 4096 plain ones")
check("M04", [J("h_msg_roundtrip.c",
    [dict(line=1, args=1, props=1, len=2, types=5), dict(line=1, args=2, props=0, len=2, types=1), dict(line=1, args=1, props=0, len=4, types=1), dict(line=1, args=0, props=1, len=4, types=1), dict(line=1, args=0, props=0, len=0, types=5)],
    [dict(line=1, args=1, props=1, len=3, types=5), dict(line=1, args=3, props=0, len=2, types=1), dict(line=1, args=1, props=0, len=6, types=1), dict(line=1, args=0, props=1, len=6, types=1), dict(line=1, args=0, props=0, len=0, types=5), dict(line=1, args=1, props=0, len=2, types=1, lo=4093, hi=4097)],
    covers=["line"])],
  "up to 3 arguments and 1 property, each text up to 6 arbitrary non-NUL bytes", "line breaks inside property keys (keys are not escaped by design: the grammar forbids them)")

L = "h_msg_lines.c"
check("M02", [J(L, [dict(mode=4, k=k, n=2) for k in range(8)] + [dict(mode=5, k=k, n=3) for k in range(23)] + [dict(mode=1, n=4)],
                   [dict(mode=4, k=k, n=4) for k in range(8)] + [dict(mode=5, k=k, n=5) for k in range(23)] + [dict(mode=1, n=4)], covers=["decoded"])],
  "a line with 2 (thorough 4) arbitrary bytes after any prefix of the protocol prefix or 3 (thorough 5) after one of 23 malformed line heads, between two messages",
  "carriage returns and NUL bytes inside protocol lines, double quotes inside unquoted arguments (unspecified by the protocol)")
check("M03", [J(L, [dict(mode=9, frag=1), dict(mode=9, frag=1, sock=1), dict(mode=10, n=1, span=24), dict(mode=10, n=1, span=24, sock=1), dict(mode=0, n=2, frag=1)] , None, covers=["decoded"], wit=3),
              J("h_msg_frag.c", [dict(len=1, out=2, fmax=3), dict(len=1, out=2, fmax=3, sock=1), dict(len=2, out=1), dict(len=2, out=1, sock=1), dict(rd=1, cuts=2), dict(rd=1, cuts=2, sock=1)],
   [dict(len=2, out=2, fmax=2), dict(len=2, out=2, fmax=2, sock=1), dict(rd=1, cuts=3), dict(rd=1, cuts=3, sock=1)], covers=["delivered"])],
  "every way of splitting a short message stream at up to 3 places into reads, bytewise reads, messages at every position around the 4096 byte refill boundary, every split of a written message into short writes of up to 3 bytes",
  "failing writes")
check("M05", [J(L, [dict(mode=9, cut=1), dict(mode=9, cut=1, err=1), dict(mode=0, n=2, cut=1), dict(mode=4, k=7, n=2, cut=1, err=1), dict(mode=9, cut=1, frag=1, sock=1)],
                   [dict(mode=9, cut=1), dict(mode=9, cut=1, err=1), dict(mode=0, n=3, cut=1), dict(mode=4, k=7, n=3, cut=1, err=1), dict(mode=9, cut=1, frag=1, sock=1)], covers=["decoded"])],
  "streams of up to 4 messages with up to 3 arbitrary bytes, cut at every position or failing there")
check("M06", [J(L, [dict(mode=6, n=4)] + [dict(mode=7, k=k, n=1) for k in range(6)] + [dict(mode=8, k=k, n=1) for k in range(2)] + [dict(mode=0, n=3)],
                   [dict(mode=6, n=5)] + [dict(mode=7, k=k, n=2, lo=lo, hi=lo + 4) for k in range(6) for lo in (4094,)] + [dict(mode=8, k=k, n=2) for k in range(2)] + [dict(mode=0, n=4)], steps=20000000)],
  "every stream of up to 5 bytes; names, keys, values and arguments of 4094-4098 bytes plus arbitrary bytes; 8-34 arguments or properties; every leak checked")
check("M07", [J(L, [dict(mode=0, n=4), dict(mode=1, n=5), dict(mode=3, k=0), dict(mode=3, k=1)] + [dict(mode=2, k=k, n=i) for k in range(6) for i in (0, 1)],
                   [dict(mode=0, n=6), dict(mode=1, n=7), dict(mode=3, k=0), dict(mode=3, k=1)] + [dict(mode=2, k=k, n=i) for k in range(6) for i in (0, 1, 2)], covers=["decoded"])],
  "every argument section of up to 4 (thorough 6) bytes, every message name of up to 5 (thorough 7) bytes and every letter case of the known names, keys of 62-67 characters",
  "carriage returns and NUL bytes inside protocol lines, double quotes inside unquoted arguments (unspecified by the protocol)")
check("B01", [J("h_base64.c", [dict(mode=0, n=9), dict(mode=0, lo=40, n=120, sym=2)], [dict(mode=0, n=30), dict(mode=0, lo=30, n=400, sym=3)], covers=["roundtrip"], io=False)], "every block of up to 9 (thorough 24) bytes and blocks of up to 120 (thorough 400) bytes with 2 (3) arbitrary ones")
check("B02", [J("h_base64.c", [dict(mode=1, n=30)], [dict(mode=1, n=70)], covers=["decoded"], io=False)], "every text of up to 30 (thorough 70) characters")
I = "h_image.c"
check("I01", [J(I, [dict(mode=0, n=5), dict(mode=1, n=3)] + [dict(mode=1, k=k, n=2) for k in range(12)] + [dict(mode=2, k=k, n=3, m=2) for k in range(3)] + [dict(mode=3, n=5)],
                   [dict(mode=0, n=10), dict(mode=1, n=6)] + [dict(mode=1, k=k, n=5) for k in range(12)] + [dict(mode=2, k=k, n=4, m=4) for k in range(3)] + [dict(mode=3, n=16)], covers=["transported"], io=False)],
  "paths of up to 5 (thorough 10) characters; URLs with a scheme of up to 5 arbitrary or 15 given characters and up to 3 (6) more; raw images of up to 3x2 (4x4) pixels in each format with arbitrary pixels; JPEG and PNG buffers of 5-10 (21) bytes",
  "URLs whose scheme has capitals, digits or more than 15 characters (taken for legacy paths)")
check("I02", [J(I, [dict(mode=4, k=k, n=3) for k in range(15)] + [dict(mode=4, k=k, n=2, tail=t) for k, t in ((1, 1), (1, 2), (2, 3), (3, 2), (4, 4), (4, 5), (8, 4), (8, 5), (9, 4), (7, 2))] + [dict(mode=5, n=0), dict(mode=5, n=1)],
                   [dict(mode=4, k=k, n=5) for k in range(15)] + [dict(mode=4, k=k, n=4, tail=t) for k, t in ((1, 1), (1, 2), (2, 3), (3, 2), (4, 4), (4, 5), (8, 4), (8, 5), (9, 4), (7, 2))] + [dict(mode=5, n=0), dict(mode=5, n=2)], io=False)],
  "up to 3 (thorough 5) arbitrary characters after 15 heads of image text, 12x12 extreme dimensions in 6 formats")
check("I03", [J(I, [dict(mode=6, n=4)], [dict(mode=6, n=7)], covers=["rows"], io=False)], "raw images of up to 4x4 (thorough 7x7) pixels in each format, arbitrary pixels")
check("I04", [J(I, [dict(mode=7, n=2)], [dict(mode=7, n=3)], covers=["list"], io=False)], "up to 2 (thorough 3) stores under any 32 bit code, every lookup code and channel mask")
R = "h_region.c"
def RJ(c, q, t=None, **k): return J(R, q, t, covers=c, io=False, **k)
check("R01", [RJ(["text"], [dict(mode=0)] + [dict(mode=1, k=k, n=5) for k in range(4)] + [dict(mode=1, k=k, n=6, div=4) for k in (0, 3)] + [dict(mode=2, n=4), dict(mode=3, n=3), dict(mode=3, n=9, m=1), dict(mode=4, k=0), dict(mode=4, k=1), dict(mode=5)],
   [dict(mode=0)] + [dict(mode=1, k=k, n=5) for k in range(4)] + [dict(mode=1, k=k, n=6, div=4) for k in range(4)] + [dict(mode=2, n=5), dict(mode=2, n=6, div=2), dict(mode=3, n=4), dict(mode=3, n=14, m=1), dict(mode=4, k=0), dict(mode=4, k=1), dict(mode=5)])],
  "special codes and mask offsets: every number of up to 9 decimal digits and the extreme ones; rectangles and polygons of 3-6 points with one arbitrary coordinate, every multiple of 1/16 below 100000 or of 1/4 below 1000000; masks of up to 3x3 (thorough 4x4) and 9x1 (14x1) arbitrary pixels, runs in masks 300 pixels wide", "")
check("R02", [RJ([], [dict(mode=10, k=k, n=3) for k in range(18) if k not in (2, 3, 4, 14)] + [dict(mode=10, k=k, n=n) for k, n in ((2, 2), (3, 2), (4, 2), (14, 1))] + [dict(mode=10, k=k, n=2, tail=t) for k in (1, 3, 8) for t in (1, 2, 3)] + [dict(mode=10, k=2, n=1, tail=t) for t in (1, 2, 3)] + [dict(mode=11), dict(mode=12)],
   [dict(mode=10, k=k, n=4) for k in range(18) if k not in (2, 3, 4, 14)] + [dict(mode=10, k=k, n=n) for k, n in ((2, 3), (3, 3), (4, 3), (14, 2))] + [dict(mode=10, k=k, n=3, tail=t) for k in (1, 3, 8) for t in (1, 2, 3)] + [dict(mode=10, k=2, n=2, tail=t) for t in (1, 2, 3)] + [dict(mode=11), dict(mode=12)], sto=5000)],
  "up to 3 (thorough 4) arbitrary characters after 18 heads of region text and before 3 tails; 12x12 extreme mask sizes with 12 extreme runs; 25 extreme numbers", "hexadecimal numbers, masks of more than 16 MB")
R03 = [dict(mode=20, k=3), dict(mode=21, k=3), dict(mode=22, n=2), dict(mode=23, k=0), dict(mode=23, k=1, n=3), dict(mode=24, lo=-2, hi=1)] + [dict(mode=25, k=k) for k in range(4)]
check("R03", [RJ(["bounds"], R03, [dict(mode=20, k=5), dict(mode=21, k=3), dict(mode=21, k=5, lo=-1000, hi=1000), dict(mode=22, n=4), dict(mode=23, k=0), dict(mode=23, k=1, n=8), dict(mode=24, lo=-2, hi=2)] + [dict(mode=25, k=k, n=6) for k in range(4)]),
   RJ(["bounds"], [dict(mode=26, k=k, lo=l, n=m) for k in range(4) for l in (0, 1) for m in (0, 1)], steps=60000000)],
  "polygons of 3 (thorough 5) points with arbitrary coordinates below 10^6 in magnitude, masks of up to 2x2 (4x4) arbitrary pixels anywhere within 1000, whole rectangles within 1000, integer triangles within -2..1 (-2..2) to masks, conversions of regions with 10 extreme coordinates", "bounds of a mask without set pixels, conversions to masks of more than 50000 pixels")
check("R04", [RJ(["overlap"], [dict(mode=30, k=1, n=2, lo=-1, hi=1), dict(mode=31, n=3, lo=-3, hi=3), dict(mode=31, k=1, n=2, lo=-2, hi=2), dict(mode=32, k=0, lo=0, hi=1), dict(mode=32, k=1, lo=0, hi=1), dict(mode=32, k=2, lo=0, hi=1), dict(mode=33), dict(mode=34, n=2)],
    [dict(mode=30, k=1, n=2, lo=-2, hi=2), dict(mode=30, n=3, lo=-1, hi=1), dict(mode=31, n=4, lo=-4, hi=4), dict(mode=31, k=1, n=3, lo=-3, hi=3), dict(mode=32, k=0, lo=0, hi=2), dict(mode=32, k=1, lo=0, hi=2), dict(mode=32, k=2, lo=0, hi=2), dict(mode=33), dict(mode=34, n=3)])],
  "pairs of masks of up to 2x2 (thorough 3x3) arbitrary pixels in every relative position, whole rectangles of up to 3x3 (4x4) in every relative position, integer triangles within 0..1 (0..2) against triangles, rectangles and masks; regions without pixels and huge ones", "the value of the overlap of regions with more than INT_MAX pixels or beyond INT_MAX / 4")
check("R05", [RJ(["contains"], [dict(mode=40, n=2, lo=-2, hi=1), dict(mode=40, k=1, n=1, lo=-1, hi=0), dict(mode=41), dict(mode=42), dict(mode=43, k=3, n=0, lo=0, hi=1), dict(mode=43, k=3, n=1, lo=-1, hi=0), dict(mode=44), dict(mode=45, k=3), dict(mode=45, k=4)],
    [dict(mode=40, n=3, lo=-3, hi=2), dict(mode=40, k=1, n=2, lo=-1, hi=0), dict(mode=41), dict(mode=42), dict(mode=43, k=3, n=0, lo=-1, hi=1), dict(mode=43, k=4, n=0, lo=0, hi=1), dict(mode=43, k=3, n=1, lo=-1, hi=1), dict(mode=44), dict(mode=45, k=3, n=6), dict(mode=45, k=4, n=6)])],
  "masks of up to 2x2 (thorough 3x3) arbitrary pixels queried at every multiple of 1/8 within 500, masks anywhere and whole rectangles at any point, integer triangles at any point")
check("R06", [RJ(["window"], [dict(mode=50, n=3, win=4, lo=-5, hi=4), dict(mode=51)], [dict(mode=50, n=4, win=5, lo=-6, hi=5), dict(mode=51)])], "masks of up to 3x3 (thorough 4x4) arbitrary pixels and windows of up to 4x4 (5x5) in every relative position, and both anywhere within 10^6")
check("R07", [RJ(["raster"], [dict(mode=60, k=k, n=4, lo=-3, hi=3) for k in (0, 1)] + [dict(mode=61, k=3, lo=-1, hi=3), dict(mode=61, k=4, lo=0, hi=2), dict(mode=62, k=3, n=0), dict(mode=62, k=3, n=4), dict(mode=62, k=4, n=0, hi=1), dict(mode=62, k=4, n=1, hi=3), dict(mode=62, k=4, n=3, hi=5), dict(mode=63)],
   [dict(mode=60, k=k, n=6, lo=-6, hi=5, W=4, H=4) for k in (0, 1)] + [dict(mode=61, k=3, lo=-2, hi=4), dict(mode=61, k=4, lo=-1, hi=2), dict(mode=62, k=3, n=0), dict(mode=62, k=3, n=2), dict(mode=62, k=3, n=4)] + [dict(mode=62, k=4, n=n, hi=h) for n in range(6) for h in range(n)] + [dict(mode=63)])],
  "whole rectangles of up to 4x4 around a 3x2 window, integer triangles and quadrilaterals within -1..3 (thorough -2..4) around a 3x3 window, triangles with two arbitrary whole x coordinates within 8 million, triangles with two of 12 extreme coordinates")
P = "h_props.c"
def PJ(c, q, t=None, **k): return J(P, q, t, covers=c, io=False, **k)
check("P01", [PJ(["map"], [dict(mode=0, n=1, k=2, len=1), dict(mode=0, n=3, k=0, len=2), dict(mode=1, n=4, keys=3), dict(mode=1, n=3, keys=2, len=3), dict(mode=1, n=3, keys=6), dict(mode=7, n=70, len=2)],
    [dict(mode=0, n=2, k=1, len=1), dict(mode=0, n=1, k=2, len=3), dict(mode=0, n=4, k=0, len=3), dict(mode=1, n=5, keys=4), dict(mode=1, n=4, keys=3, len=3), dict(mode=1, n=4, keys=7), dict(mode=7, n=180, len=3)])],
  "every history of up to 4 (thorough 5) stores and clears over 3 (4) keys of one bucket, of 3 (4) over 6 (7) keys; one key of up to 2 arbitrary characters (thorough two of 1) with arbitrary queries; 70 (180) keys with one stored again; values of up to 3 arbitrary characters")
check("P02", [PJ(["append"], [dict(mode=2, n=2, k=3), dict(mode=2, n=2, k=2, len=2), dict(mode=3, n=3, k=5), dict(mode=3, n=2, k=2, len=3)], [dict(mode=2, n=2, k=5), dict(mode=2, n=3, k=2), dict(mode=2, n=2, k=2, len=4), dict(mode=3, n=4, k=5), dict(mode=3, n=2, k=7, len=3)])],
  "two sets of up to 2 (thorough 3) entries over 3 (5) keys that may collide, both overwrite choices, values of up to 2 (4) arbitrary characters", "appending a set to itself")
check("P03", [PJ(["typed"], [dict(mode=4), dict(mode=5, n=0, k=0), dict(mode=5, n=5, k=16), dict(mode=5, n=2, k=64)], [dict(mode=4), dict(mode=5, n=0, k=0), dict(mode=5, n=5, k=32), dict(mode=5, n=2, k=128)]), PJ(["typed", "number"], [dict(mode=6, n=3)], [dict(mode=6, n=4)])],
  "every integer of up to 9 decimal digits and six extreme ones; reals below 100000 in steps of 1/16 and below 100 in steps of 1/64; every text of up to 3 (thorough 4) characters read as a number", "hexadecimal, inf and nan texts")
check("L01", [PJ(["list"], [dict(mode=10, n=i) for i in range(4)] + [dict(mode=11, n=i, k=2) for i in range(3)], [dict(mode=10, n=i) for i in range(5)] + [dict(mode=11, n=i, k=3) for i in range(4)])],
  "lists of up to 3 (thorough 4) regions of each kind with arbitrary contents, any index of 32 bits; appending lists of up to 2 (3) regions, also to themselves")
S = "h_session.c"
def SJ(c, q, t=None, **k): return J(S, q, t, covers=c, **k)
def on(o, l): return [dict(d, only=o) for d in l]
check("F01", [SJ(["hello"], [dict(mode=0), dict(mode=1), dict(mode=2, n=2)], [dict(mode=0), dict(mode=1), dict(mode=2, n=4)])],
  "every subset of region formats, image formats and channels in every protocol version; 14 image, 10 region and 11 channel lists from the peer; every list of up to 2 (thorough 4) characters after 6 heads", "the meaning of lists with unknown entries")
check("H01", [SJ(["hello"], [dict(mode=3, n=1), dict(mode=4)], [dict(mode=3, n=3), dict(mode=4)])],
  "every protocol version, with and without each description and multi-object ability, descriptions and custom values of up to 1 (thorough 3) arbitrary bytes, 7 custom keys; 6 streams that start with something else")
check("H02", [SJ(["quit"], [dict(mode=5, n=2)], [dict(mode=5, n=4)])], "client and server in every version, fresh or tracking, ended by either side, with reasons of up to 2 (thorough 4) arbitrary characters, followed by every pair of further calls and cleanup")
H03q = [dict(mode=6, n=1, kinds=11), dict(mode=6, n=1, kinds=5, ch=6), dict(mode=6, n=1, kinds=3, ch=7), dict(mode=6, n=1, kinds=11, im=5), dict(mode=6, n=1, kinds=6, ch=5, im=3), dict(mode=6, n=2, kinds=3, extra=1, lean=1)]
H03t = H03q + [dict(mode=6, n=1, kinds=11, ch=5), dict(mode=6, n=1, kinds=4, ch=7), dict(mode=6, n=2, kinds=3, extra=1), dict(mode=6, n=3, kinds=2, extra=1, lean=1), dict(mode=6, n=2, kinds=3, ch=6, extra=1, lean=1)]
check("H03", [SJ(["delivered"], H03q, H03t)], "one (version 1-3) request of every type with every number of arguments up to two too many, every combination of 11 kinds of image and 5 kinds of region texts on 1-3 channels, and sequences of two (thorough three) requests; property values of up to 2 arbitrary characters")
H04q = [dict(mode=7, n=3), dict(mode=7, n=2, many=19), dict(mode=7, n=1, many=10), dict(mode=7, n=1, many=29), dict(mode=7, n=2, ch=6), dict(mode=7, n=2, ch=7), dict(mode=7, n=5, kinds=3), dict(mode=7, n=4, kinds=4)]
check("H04", [SJ(["delivered"], H04q, H04q + [dict(mode=7, n=4), dict(mode=7, n=4, kinds=8, ch=5), dict(mode=7, n=6, kinds=3)])], "every sequence of up to 3 (thorough 4) of 12 kinds of messages, of up to 5 (6) restarts, objects and frames, on 1-3 channels, requests of 10-31 objects, with an arbitrary property character each")
H05q = [dict(mode=8, n=3), dict(mode=8, n=2), dict(mode=8, n=4, kinds=3, k=4)]
check("H05", [SJ(["delivered", "quit"], H05q, H05q + [dict(mode=8, n=4, kinds=8), dict(mode=8, n=5, kinds=3, k=3)])], "0-4 tracked objects, every sequence of up to 3 (thorough 4) of 10 kinds of replies, with an arbitrary property character each")
H06q = [dict(mode=9, n=1, ch=1, rf=4), dict(mode=9, n=1, ch=7, rf=4), dict(mode=9, n=1, rf=0), dict(mode=9, n=2, lean=1, ch=1), dict(mode=9, n=2, lean=1, ch=5, rf=0), dict(mode=9, n=3, lean=1, ch=1, rf=0, vlo=3)]
check("H06", [SJ(["accepted", "refused"], H06q, H06q + [dict(mode=9, n=2, objs=1, ch=1, rf=2, vlo=3), dict(mode=9, n=3, lean=1, ch=3, rf=2), dict(mode=9, n=4, lean=1, ch=1, rf=0, vlo=4)])],
  "every request with up to 2 objects, every subset of channels required and provided, 5 sets of region formats, and sequences of 2-3 (thorough 4) requests", "images of a kind the server does not support (not checked by the client)")
H07q = [dict(mode=10, n=1), dict(mode=10, n=2, objs=1), dict(mode=10, n=1, objs=3)]
check("H07", [SJ(["accepted", "refused"], H07q, H07q + [dict(mode=10, n=2), dict(mode=10, n=3, objs=1)])], "0-3 tracked objects and lists of up to 4 regions of 3 kinds with an arbitrary property character, sequences of up to 2 (thorough 3) replies", "single-object replies before the first object, list replies in versions 1-3")
S01q = [dict(mode=11, n=1), dict(mode=11, n=3, images=1, regions=1), dict(mode=11, n=2, regions=1, images=2, ch=7), dict(mode=11, n=2, images=1, objs=2, version=4), dict(mode=11, n=2, images=4, regions=2, version=3), dict(mode=11, n=1, wide=1, images=1, regions=1), dict(mode=11, n=1, version=4, objs=4, images=1, regions=2)]
check("S01", [SJ(["dialogue"], S01q, S01q + [dict(mode=11, n=2), dict(mode=11, n=4, images=1, regions=1), dict(mode=11, n=5, images=1, regions=1, version=4), dict(mode=11, n=2, wide=1, images=1, regions=1, version=4), dict(mode=11, n=3, images=2, regions=2, version=2)])],
  "dialogues of up to 3 (thorough 5) requests in every version, with up to 4 objects, regions of 3 kinds, images of 4 kinds on 1-3 channels with arbitrary characters, pixels and bytes, properties of an arbitrary letter (byte in short dialogues), ended by either side")
E1 = lambda q: on(1, q)
check("E01", [SJ([], E1([dict(mode=5, n=1), dict(mode=6, n=1, kinds=6), dict(mode=6, n=1, kinds=3, ch=5), dict(mode=6, n=2, kinds=2, extra=1, lean=1), dict(mode=7, n=3), dict(mode=7, n=2, ch=6), dict(mode=8, n=3), dict(mode=9, n=1, rf=2), dict(mode=9, n=2, lean=1, ch=1, rf=0), dict(mode=10, n=1), dict(mode=10, n=2, objs=1)]),
                     E1([dict(mode=5, n=2), dict(mode=7, n=4), dict(mode=8, n=4, kinds=8), dict(mode=10, n=2)] + H03t + H06q))],
  "the calls explored for H02-H07: error texts after every success and failure, the two argument counts, the text read twice")
CP = "h_cpp.cpp"
def CJ(c, q, t=None, **k): return J(CP, q, t, covers=c, src="cpp", **k)
W1 = lambda n, s, ms=range(6): [dict(mode=m, n=n, slots=s) for m in ms]
check("W01", [CJ(["history", "released"], W1(2, 3) + W1(3, 2) + [dict(mode=6, n=3)], W1(3, 3) + W1(4, 2) + [dict(mode=6, n=4)], steps=20000000, time=600, sto=5)],
  "for each kind of wrapper, every history of 2 (thorough 3) operations (create, copy, assign, move, destroy, change) over three wrappers and of 3 (4) over two, destroyed in any order; histories of 3 (4) exchanges between elements and lists of two regions or images", "rows written through a row pointer, which copies share by design; wrappers that were moved from, other than assigning to and destroying them")
W2r = [dict(mode=11, k=k, conv=c, sym=2 if c > 2 or k == 0 else 1) for k in range(5) for c in range(6)]
W2q = W2r + [dict(mode=10, n=1), dict(mode=10, n=2), dict(mode=12, n=2), dict(mode=13, n=2), dict(mode=14, n=2), dict(mode=20, n=2), dict(mode=21, n=2), dict(mode=22, n=2), dict(mode=23)]
check("W02", [CJ([], W2q, W2q + [dict(mode=10, n=3), dict(mode=11, k=3, conv=3, sym=1), dict(mode=11, k=0, conv=4, sym=1), dict(mode=11, k=1, conv=3, sym=1), dict(mode=12, n=4), dict(mode=13, n=4), dict(mode=14, n=4), dict(mode=20, n=4), dict(mode=21, n=4), dict(mode=22, n=4)], steps=20000000)],
  "regions of every kind with arbitrary or small contents and every conversion; images of every kind with up to 2 (thorough 4) arbitrary bytes; lists of up to 2 (4) elements and any index; histories of up to 2 (3) accesses to properties; dialogues of 2 (4) requests with arbitrary letters between each C++ endpoint and a C peer", "OpenCV conversions")
T1 = lambda q: on(2, q)
check("T01", [SJ(["released"], T1([dict(mode=0), dict(mode=1), dict(mode=3, n=1), dict(mode=4), dict(mode=5, n=1), dict(mode=6, n=1, kinds=11), dict(mode=6, n=1, kinds=4, ch=5), dict(mode=7, n=3), dict(mode=7, n=2, ch=7), dict(mode=8, n=3), dict(mode=9, n=1, rf=2), dict(mode=9, n=2, lean=1, ch=1), dict(mode=10, n=1), dict(mode=11, n=2, images=4, regions=2, version=3), dict(mode=11, n=2, images=2, regions=1, version=4)]),
                       T1([dict(mode=2, n=3), dict(mode=5, n=2), dict(mode=7, n=4), dict(mode=8, n=4, kinds=8), dict(mode=10, n=2)] + H03t + H06q + S01q)),
              PJ(["released"], T1([dict(mode=0, n=1, k=1), dict(mode=1, n=3, keys=3, len=2), dict(mode=2, n=2, k=2), dict(mode=3, n=2, k=2), dict(mode=4), dict(mode=6, n=2), dict(mode=7, n=40), dict(mode=10, n=2), dict(mode=11, n=2, k=2)])),
              CJ(["released"], T1(W1(2, 2) + [dict(mode=6, n=2), dict(mode=10, n=1), dict(mode=20, n=1), dict(mode=21, n=1), dict(mode=22, n=1), dict(mode=23)]))],
  "the calls explored for F01, H01-H07, S01, P01-P03, L01, W01 and W02, each followed by the release of everything created: no block remains, none is released twice or used afterwards")
CL = "h_client.cpp"
WRAP = "socket setsockopt bind listen connect accept read close dup shutdown pipe select kill waitpid posix_spawnp posix_spawn_file_actions_init posix_spawn_file_actions_destroy posix_spawn_file_actions_addclose posix_spawn_file_actions_adddup2 getcwd chdir usleep sleep gettimeofday clock_gettime environ pthread_create pthread_join pthread_attr_init pthread_attr_destroy pthread_self pthread_equal pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_signal pthread_cond_wait pthread_cond_timedwait".split()
WRAPC = "socket setsockopt bind listen connect accept select sleep getenv".split()
def LJ(c, q, t=None, **k): return J(CL, q, t, covers=c, src="cpp", extra=["support/client/%s.cpp" % f for f in ("client", "process", "threads", "timer")], wrap=WRAP, wrapc=WRAPC, **k)
OSA = ["the operating system (descriptors, pipes, processes, threads, time) is modelled by harness/vh_os.h"]
check("X01", [LJ(["command"], [dict(mode=0, n=3), dict(mode=1, n=200), dict(mode=1, n=1500)], [dict(mode=0, n=5), dict(mode=1, n=1500), dict(mode=1, n=4000)], steps=20000000), LJ(["streams"], [dict(mode=2)])],
  "commands of up to 3 (thorough 5) arbitrary bytes after five heads, arguments of 200 to 4000 characters; both kinds of streams, 6 failures of the operating system, inherited environments with up to 2 arbitrary bytes, 6 ways to end", "quotes and backslashes inside a quoted argument, text right after a closing quote", OSA)
check("X03", [LJ(["time"], [dict(mode=10), dict(mode=11)], sto=60000, time=200)],
  "every current time up to 2e9 s, waits of 5 numbers of whole seconds up to 25 h plus every number of milliseconds; every pair of clock readings", "waits that are interrupted by signals", OSA)
CM = lambda **k: dict(dict(n=2, lo=2), **k)
check("C01", [J("h_cli.cpp", [CM(n=1, lo=0, kinds=4, thrs=4), CM(), CM(n=1, lo=0, init=1), CM(init=1, kinds=2, timings=0), CM(n=3, lo=3, blanks=0, kinds=2), CM(n=3, lo=3, kinds=1, blanks=1), CM(n=3, lo=3, blanks=0, ends=1, kinds=1), CM(n=1, ends=1, lo=1), CM(n=1, lo=0, nostart=1), CM(n=1, lo=0, conn=1, given=0), CM(n=1, lo=0, conn=2), CM(n=2, lo=2, conn=2, ends=1, kinds=1, blanks=0), CM(n=1, lo=1, conn=1, ends=1, kinds=1), CM(n=1, lo=0, query=1), CM(n=1, lo=0, query=1, nostart=1), CM(n=1, lo=0, bad=1), CM(n=2, lo=1, depth=1, kinds=1), CM(n=2, lo=1, depth=2, kinds=1), CM(kinds=4, blanks=0), CM(n=1, lo=1, sym=1, blanks=0, kinds=1), CM(n=2, lo=1, buf=1, gone=1, blanks=0, kinds=1), CM(n=1, lo=1, buf=1, sym=1, blanks=0, kinds=1)],
  [CM(n=1, lo=0, kinds=4), CM(kinds=4, thrs=4), CM(init=1, kinds=3), CM(n=3, lo=3, kinds=2), CM(n=3, lo=3, init=1, kinds=1), CM(n=4, lo=4, blanks=0, kinds=2), CM(n=4, lo=4, blanks=0, kinds=3, timings=0, given=0), CM(n=3, lo=3, blanks=0, ends=1, kinds=2), CM(n=2, lo=2, ends=1), CM(n=1, lo=0, nostart=1), CM(conn=1, given=0), CM(conn=2), CM(n=2, lo=1, conn=1, ends=1, kinds=2), CM(n=2, lo=1, conn=2, ends=1, kinds=2), CM(n=1, lo=0, query=1), CM(n=1, lo=0, query=1, nostart=1), CM(n=1, lo=0, bad=1), CM(n=3, lo=1, depth=1, kinds=1), CM(n=3, lo=1, depth=2, kinds=1), CM(n=1, lo=1, sym=1, kinds=2), CM(n=2, lo=2, sym=1, blanks=0, kinds=1), CM(n=3, lo=1, buf=1, gone=1, blanks=0, kinds=1), CM(n=2, lo=2, buf=1, sym=1, blanks=0, kinds=1), CM(n=2, lo=2, delays=1, kinds=1, blanks=0)],
  covers=[], src="cpp", extra=["support/client/%s.cpp" % f for f in ("cli", "client", "process", "threads", "timer")], wrap=WRAP + ["exit", "sigaction"], wrapc=WRAPC, defs=["-Dmain=cli_main"], steps=20000000, time=700)],
  "sequences of 0 to 3 (thorough 4) images, each with or without an object, with three kinds of answers (the object, far from it, half of it) and slow ones; lists longer or shorter than each other, with or without an end of the last line; every failure threshold of none, below 0, 0, 0.5 and above 1; new starts after 1 or 2 images or none; a tracker that crashes, hangs or talks garbage at any image, or never starts; three kinds of connection; images sent as paths or as contents, up to three channels; arbitrary characters in a path, in a parameter (two), in a variable and in the contents of images (three), and a missing image; queries, wrong options and missing files",
  "a tracker that says quit, files that are no images, overlaps bounded by the image, other regions than rectangles, signals, a list of images with carriage returns, printed output", OSA + ["files are kept in memory (harness/cxx/vhstream) in the symbolic build and in a directory of their own in replays", "getopt is modelled as the C library's for the option letters without abbreviations"])
X2 = lambda **k: dict(dict(mode=21, n=1), **k)
check("X02", [LJ(["log"], [X2(where=0, n=3, frames=1), X2(where=0, explicit=1, n=2), X2(where=1, n=3), X2(where=1, explicit=1, n=2), X2(where=2, how=5, n=3), X2(where=0, silent=1), X2(where=1, silent=1), X2(where=1, delays=2, pads=0), X2(where=1, n=2, delays=1, pads=1), X2(where=0, delays=1, pads=1)],
  [X2(where=0, n=6, frames=1), X2(where=0, explicit=1, n=4), X2(where=1, n=6), X2(where=1, explicit=1, n=4), X2(where=2, how=5, n=6), X2(where=0, silent=1, n=3), X2(where=1, silent=1, n=3), X2(where=1, n=2, delays=2, pads=0), X2(where=1, n=3, delays=1, pads=3), X2(where=1, silent=1, delays=1, pads=0), X2(where=0, n=2, delays=1, pads=3), X2(where=0, frames=1, delays=1, pads=0)], steps=20000000, time=700)],
  "a tracker that writes 0 to 1020 plain bytes and up to 3 (thorough 6) arbitrary ones, with or without an end of the line, to its output before the session, to its output before it crashes, or to its error output; dialogs of one or two answers; schedules as for Z01 with up to 2 departures", "error output beyond 10 KB that is still unread when the tracker ends; output of a tracker that the client never reads; standard output text of upper case letters (used to tell the two streams apart)", OSA)
def L(**k): d = dict(mode=20, n=2, delays=0); d.update(k); return d
HOW = range(11)
SK = [L(how=h, sock=1, then=1) for h in range(12)] + [L(n=1, how=h, sock=1, delays=1, talk=1) for h in (0, 1, 5, 9)] + [L(n=3, how=11, then=1, sock=1), L(n=3, how=0, sock=1, mot=1)]
SKt = [L(how=h, sock=1, delays=1, then=1) for h in range(12)] + [L(n=3, how=h, sock=1, then=1) for h in range(12)]
check("Z01", [LJ(["life"], [L(n=1, how=0, delays=2, talk=1)] + [L(how=h, delays=1) for h in HOW] + [L(n=1, how=h, delays=1, talk=1) for h in HOW] + [L(n=3, how=h) for h in (0, 8, 9)] + [L(n=3, how=5, then=1), L(n=3, how=1, then=1), L(n=3, how=0, mot=1), L(how=0, mot=1, delays=1), L(how=0, debug=1), L(how=0, silent=1, talk=1), L(how=0, badcmd=1), L(how=0, nostart=1), L(n=3, how=0, nopipe=1)] + SK,
  [L(how=h, delays=1, talk=1, then=1) for h in HOW] + [L(n=1, how=h, delays=2, talk=1) for h in HOW] + [L(n=3, how=h, then=1) for h in HOW] + [L(n=4, how=0), L(n=4, how=0, mot=1), L(n=3, how=5, then=1, delays=1), L(n=3, how=0, delays=1), L(n=3, how=0, mot=1, delays=1), L(how=0, debug=1, delays=1), L(how=0, silent=1, talk=1, delays=1), L(how=0, badcmd=1, delays=1), L(how=0, nostart=1, delays=1), L(n=3, how=0, nopipe=1)] + SKt, steps=20000000, time=700)],
  "sequences of 1 to 3 (thorough 4) calls; over standard streams, explicit descriptors or a socket; 11 (12) behaviours of a tracker, optionally followed by a good one, single and multi-object; caller, watchdog and logger as threads that may switch at every operating system call and every use of a mutex: all schedules with up to 1 (some 2) departures from the fixed order; pipes running out anywhere", "switches elsewhere (between two memory accesses); a tracker that does not read more than a pipe holds; Windows", OSA)
check("N01", [LJ(["session", "refused"], [dict(mode=30), dict(mode=31), dict(mode=32), dict(mode=32, fail=1), dict(mode=32, two=1)], steps=20000000), LJ(["life"], [dict(mode=20, n=3, how=h, then=1, sock=1) for h in (1, 4, 11)], [dict(mode=20, n=4, how=h, then=1, sock=1) for h in (1, 4, 11)], steps=20000000)],
  "one connection between a client and a tracker over the loopback network: every port, a peer that stays away, comes, leaves or says something else, connections that fail up to 3 times, timeouts of 0 to 2 s, 0 to 11 ports in use before and around the end of the range, any one call to the network failing; sequences of 3 (thorough 4) calls with a tracker that hangs, leaves or connects late and a good one after it", "more than one failing call; descriptors beyond FD_SETSIZE; descriptors 0 to 2 closed in the client; Windows", OSA)
PYA = ["the C library is replaced by a model (py/fakelib.py) that keeps values, owners and releases; values of numpy arrays are concrete patterns"]
def pycheck(id, scenarios, bounds, outside=""):
    CHECKS[id] = dict(scenarios=scenarios.split(), bounds=bounds, outside=outside, assume=PYA, jobs=[], technique="symbolic execution of the Python package with z3 (proxies that fork on solver decisions); counterexamples replayed on concrete values")
pycheck("Y01", "constants layout status channel_decode channel_decode_list channel_encode channel_lists region_decode_list region_encode region_lists image_decode_list image_encode image_lists region_wrap image_wrap memory_create memory_array buffer",
  "every status code, every set of formats and channels as a number and as a list of up to 3 (thorough 4) names, every text of up to 11 letters as a name, every type code, arrays of up to 3x3 (5x5) pixels of 9 kinds, also strided and flipped; every constant, structure field and argument kind that both sides define", "names with other characters than lower case letters")
pycheck("Y02", "special rectangle polygon mask mask_normalized names properties server_new server_wait server_status server_quit server_with client_new client_initialize client_frame client_quit exports",
  "regions with arbitrary codes, offsets and coordinates (multiples of 1/16 below a million), polygons of 3-5 (thorough 8) points with any index, masks of up to 3x3 (5x5) pixels also strided, flipped and transposed; histories of 2 (3) accesses to properties; sessions with every result the library may return, up to 3 objects, 4 sets of channels, 3 kinds of images, up to 2 (3) requests to a server", "log callbacks, Mask.get, masks with negative offsets as normalized arrays, calls from several threads")
NOT_APPLICABLE = {
}
