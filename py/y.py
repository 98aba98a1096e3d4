#!/usr/bin/env python3
"""y.py <repo> <out.json> <tier> [replay file]: decides Y01 and Y02 by executing the Python bindings on symbolic values."""
import sys, os, json, subprocess, tempfile, re, gc, time, io, contextlib, ctypes
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import pysym
from pysym import *
import fakelib
REPO = os.path.abspath(sys.argv[1]); BIG = int(len(sys.argv) > 4 and sys.argv[4] == "thorough")
import numpy as np

# ---------------------------------------------------------------- facts of the C library, from its compiler
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, **k)
INC = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-DTRAX_STATIC_DEFINE"]
ast = json.loads(sh(["clang", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-x", "c", REPO + "/include/trax.h"] + INC).stdout)
def kind(t):
    t = t.replace("const ", "").strip(); d = TYPEDEF.get(t)
    if "*" in t or "(" in t: return "pointer"
    if d and d != t: return kind(d)
    if t == "void": return "void"
    if t in ("float", "double"): return t
    if t.startswith("struct"): return "struct"
    return "int"
TYPEDEF = {n["name"]: n["type"].get("desugaredQualType", n["type"]["qualType"]) for n in ast["inner"] if n["kind"] == "TypedefDecl"}
PROTO = {}
STRUCT = {}
for n in ast["inner"]:
    if n["kind"] == "FunctionDecl" and n["name"].startswith("trax_"):
        PROTO[n["name"]] = (kind(n["type"]["qualType"].split("(")[0]), [kind(p["type"].get("desugaredQualType", p["type"]["qualType"])) for p in n.get("inner", []) if p["kind"] == "ParmVarDecl"])
    if n["kind"] == "RecordDecl" and n.get("name", "").startswith("trax_") and n.get("completeDefinition"): STRUCT[n["name"]] = [f["name"] for f in n["inner"] if f["kind"] == "FieldDecl"]
macros = [m for m in re.findall(r"#define (TRAX_\w+) (.+)", sh(["clang", "-E", "-dM", "-x", "c", REPO + "/include/trax.h"] + INC).stdout) if re.match(r"^[\w\s()|+-]+$", m[1]) and not re.search(r"EXPORT|DEPRECATED|_H_?$|^\(?[IMLF],", " ".join(m))]
d = tempfile.mkdtemp(prefix="vh_")
try:
    def probe(ms):
        src = "#include <stdio.h>\n#include <stddef.h>\n#include <trax.h>\nint main(){\n" + "".join('printf("c %s %%d\\n",(int)(%s));\n' % (m, m) for m in ms)
        for s, fs in STRUCT.items(): src += 'printf("s %s %%d\\n",(int)sizeof(%s));\n' % (s, s) + "".join('printf("o %s.%s %%d %%d\\n",(int)offsetof(%s,%s),(int)sizeof(((%s*)0)->%s));\n' % (s, f, s, f, s, f) for f in fs)
        open(d + "/p.c", "w").write(src + "return 0;}\n"); r = sh(["clang", d + "/p.c", "-o", d + "/p"] + INC)
        return sh([d + "/p"]).stdout if r.returncode == 0 else None
    ok = [m for m, v in macros if v.strip() and re.search(r"\d|TRAX", v)]
    out = probe(ok)
    if out is None: ok = [m for m in ok if probe([m]) is not None]; out = probe(ok)
    C, OFF = {}, {}
    for l in out.splitlines():
        p = l.split()
        if p[0] == "c": C[p[1]] = int(p[2])
        else: OFF[p[1]] = tuple(int(x) for x in p[2:])
finally: subprocess.run(["rm", "-rf", d])
assert d.startswith(tempfile.gettempdir() + "/vh_")

# ---------------------------------------------------------------- the package on the modelled library
lib = fakelib.Lib(); dll = fakelib.DLL(lib, set(PROTO))
real_cdll = ctypes.CDLL; ctypes.CDLL = lambda *a, **k: dll
sys.path.insert(0, REPO + "/support/python")
import trax, trax._ctypes as ct, trax.region as R, trax.image as I, trax.server as S, trax.client as CL
ctypes.CDLL = real_cdll
lib.types = {n: getattr(ct, n) for n in ("struct_trax_metadata", "struct_trax_handle", "struct_trax_logging")}
# results of the library arrive in cells that may hold symbolic values
ORIG = {(m, n): getattr(m, n) for m in (R, I, CL) for n in ("c_int", "c_float", "byref") if hasattr(m, n)}
def cells(on):
    for (m, n), v in ORIG.items():
        if n == "byref": setattr(m, n, (lambda c, b=v: c if isinstance(c, fakelib.Cell) else b(c)) if on else v)
        else: setattr(m, n, fakelib.Cell if on else v)

REG = {"special": C["TRAX_REGION_SPECIAL"], "rectangle": C["TRAX_REGION_RECTANGLE"], "polygon": C["TRAX_REGION_POLYGON"], "mask": C["TRAX_REGION_MASK"]}
IMG = {"path": C["TRAX_IMAGE_PATH"], "url": C["TRAX_IMAGE_URL"], "memory": C["TRAX_IMAGE_MEMORY"], "buffer": C["TRAX_IMAGE_BUFFER"]}
CHN = {"color": C["TRAX_CHANNEL_COLOR"], "depth": C["TRAX_CHANNEL_DEPTH"], "ir": C["TRAX_CHANNEL_IR"]}
STA = {"error": C["TRAX_ERROR"], "ok": C["TRAX_OK"], "hello": C["TRAX_HELLO"], "initialize": C["TRAX_INITIALIZE"], "frame": C["TRAX_FRAME"], "quit": C["TRAX_QUIT"], "state": C["TRAX_STATE"]}
def kindof(o): t = o.type; return t() if callable(t) else t
def refused(f, *a, exc=Exception):
    try: f(*a)
    except exc: return True
    except Exception as e:
        if isinstance(e, (Violation, Cut)): raise
        return False
    return False

# ---------------------------------------------------------------- Y01
def constants():
    for n, v in C.items():
        if isinstance(getattr(ct, n, None), int): same(getattr(ct, n), v, n)
    for n in STA: same(getattr(trax.TraxStatus, n.upper()), n, "name of status")
    P = {"IMAGE_MEMORY_GRAY8": "TRAX_IMAGE_MEMORY_GRAY8", "IMAGE_MEMORY_GRAY16": "TRAX_IMAGE_MEMORY_GRAY16", "IMAGE_MEMORY_RGB": "TRAX_IMAGE_MEMORY_RGB", "IMAGE_BUFFER_PNG": "TRAX_IMAGE_BUFFER_PNG", "IMAGE_BUFFER_JPEG": "TRAX_IMAGE_BUFFER_JPEG"}
    for a, b in P.items():
        if hasattr(I, a): same(getattr(I, a), C[b], a)
def layout():
    """structures and calls have the shape the C compiler gives them"""
    for s, fs in STRUCT.items():
        c = getattr(ct, "struct_" + s, None)
        if c is None or not getattr(c, "_fields_", None): continue
        for f in fs:
            if hasattr(c, f): a = getattr(c, f); same((a.offset, a.size), OFF[s + "." + f], "place of %s.%s" % (s, f))
            else: ensure(False, "%s.%s is missing" % (s, f))
        same(ctypes.sizeof(c), OFF[s][0], "size of " + s)
    def k(t):
        if t is None: return "void"
        if t in (ctypes.c_float,): return "float"
        if t in (ctypes.c_double,): return "double"
        if isinstance(t, type) and issubclass(t, ctypes.Structure): return "struct"
        if t in (ctypes.c_int, ctypes.c_int32, ctypes.c_uint): return "int"
        return "pointer"
    for n, (r, a) in PROTO.items():
        f = dll._f.get(n)
        if f is None or f.argtypes is None: continue
        same([k(x) for x in f.argtypes], a, "arguments of " + n)
        same(k(f.restype), r, "result of " + n)
def status():
    s = integer("status", -1, 5); r = trax.TraxStatus.decode(s); ensure(r in STA, "a status has no name"); same(s, STA[r], "status " + str(r))
def decoder(cls, names, f="decode"):
    def run():
        i = choose("kind", len(names)) ; n = sorted(names)[i]; c = integer("code", 0, 15)
        if not hasattr(cls, f): return
        if c == names[n]: same(getattr(cls, f)(c), n, "name of code")
    return run
def list_decoder(cls, names):
    def run():
        m = integer("codes", 0, sum(names.values())); r = list(cls.decode_list(m)); ensure(len(r) == len(set(r)), "a name occurs twice")
        ensure(set(r) <= set(names), "a name is unknown")
        for n, c in names.items(): same(m & c, c if n in r else 0, n + " in the list")
    return run
def encoder(cls, names):
    def run():
        t = text("name", sorted(names))
        try: r = cls.encode(t)
        except Exception as e:
            if isinstance(e, (Violation, Cut)): raise
            for n in names: ensure(not (t == n), "the name %s is refused" % n)
            return
        hit = [n for n in names if t == n]; ensure(len(hit) == 1, "an unknown name is encoded"); same(r, names[hit[0]], "code of " + hit[0])
    return run
def list_encoder(cls, names, most):
    def run():
        k = choose("length", most + 1); l = [sorted(names)[choose("name", len(names))] for i in range(k)]; want = 0
        for n in l: want |= names[n]
        same(cls.encode_list(list(l)), want, "codes of the list"); same(set(cls.decode_list(want)), set(l), "decoded list")
    return run
def wraps():
    i = choose("region", 4); n = sorted(REG)[i]; c = integer("type", 0, 15)
    if c == REG[n]:
        o = lib.new("region", type=c, code=0, rect=(0, 0, 1, 1), pts=[], x=0, y=0, w=0, h=0); w = R.Region.wrap(ctypes.c_void_p(o.p)); ensure(isinstance(w, {"special": R.Special, "rectangle": R.Rectangle, "polygon": R.Polygon, "mask": R.Mask}[n]), "a %s is wrapped as another kind" % n); same(kindof(w), n, "kind of region")
def wrapi():
    i = choose("image", 4); n = sorted(IMG)[i]; c = integer("type", 0, 15)
    if c == IMG[n]:
        o = lib.new("image", type=c, text=b"", w=0, h=0, f=1, size=0); w = I.Image.wrap(ctypes.cast(o.p, ctypes.POINTER(ct.struct_trax_image))); ensure(isinstance(w, {"path": I.FileImage, "url": I.URLImage, "memory": I.MemoryImage, "buffer": I.BufferImage}[n]), "a %s image is wrapped as another kind" % n); same(kindof(w), n, "kind of image")
FMT = {"gray8": (C["TRAX_IMAGE_MEMORY_GRAY8"], 1, np.uint8), "gray16": (C["TRAX_IMAGE_MEMORY_GRAY16"], 1, np.uint16), "rgb": (C["TRAX_IMAGE_MEMORY_RGB"], 3, np.uint8)}
def pixels(shape, dt):
    return (np.arange(int(np.prod(shape)), dtype=np.int64) * 37 + 11).astype(dt).reshape(shape)
def memory_create():
    h, w = 1 + choose("height", 3 + 2 * BIG), 1 + choose("width", 3 + 2 * BIG); ch = (None, 1, 3)[choose("channels", 3)]; dt = (np.uint8, np.uint16, np.int32)[choose("depth", 3)]; cut = choose("view", 3)
    shape = (h, w) if ch is None else (h, w, ch)
    a = pixels(shape, dt)
    if cut == 1: a = pixels((h, w * 2) + shape[2:], dt)[:, ::2]
    if cut == 2: a = np.flip(a, 0)
    want = None
    if dt == np.uint8: want = FMT["rgb" if ch == 3 else "gray8"]
    elif dt == np.uint16 and ch != 3: want = FMT["gray16"]
    try: im = I.MemoryImage.create(a)
    except trax.TraxException: ensure(want is None, "a supported image is refused"); return
    ensure(want is not None, "an image of an unsupported kind is accepted"); o = lib.i(im.reference)
    same(o.f, want[0], "format of the image"); same((o.w, o.h), (w, h), "size of the image"); same(o.data.raw[:o.size], np.ascontiguousarray(a).tobytes(), "pixels"); same(o.data.raw[o.size:], b"\x07" * 64, "memory after the pixels")
def memory_array():
    i = choose("format", 3); n = sorted(FMT)[i]; c, ch, dt = FMT[n]; f = integer("code", 0, 5); h, w = 1 + choose("height", 3 + 2 * BIG), 1 + choose("width", 3 + 2 * BIG)
    if f == c:
        p = pixels((h, w, ch), dt); o = lib.trax_image_create_memory(w, h, c); o.f = f; ctypes.memmove(o.data, p.tobytes(), o.size)
        im = I.Image.wrap(ctypes.cast(o.p, ctypes.POINTER(ct.struct_trax_image))); a = im.array(); same(a.dtype, np.dtype(dt), "type of pixels"); same(a.reshape(h, w, ch).tobytes(), p.tobytes(), "pixels"); str(im)
def buffers():
    n = choose("length", 4); data = bytes(integer("byte", 0, 15 + 48 * BIG).__index__() if i == 0 else (0, 255, 10)[i - 1] for i in range(n + 1)); f = integer("format", 1, 2)
    im = I.BufferImage.create(data); o = lib.i(im.reference); same(bytes(im.buffer()), data, "content of the buffer"); o.f = f; s = str(im)
    if f == C["TRAX_IMAGE_BUFFER_PNG"]: ensure("png" in s.lower() and "jpeg" not in s.lower(), "a PNG image is described as something else")
    else: ensure("jpeg" in s.lower() and "png" not in s.lower(), "a JPEG image is described as something else")
Y01 = {"constants": constants, "layout": layout, "status": status, "channel_decode": decoder(I.ImageChannel, CHN), "channel_decode_list": list_decoder(I.ImageChannel, CHN), "channel_encode": encoder(I.ImageChannel, CHN), "channel_lists": list_encoder(I.ImageChannel, CHN, 3 + BIG),
  "region_decode_list": list_decoder(R.Region, REG), "region_encode": encoder(R.Region, REG), "region_lists": list_encoder(R.Region, REG, 3 + BIG), "image_decode_list": list_decoder(I.Image, IMG), "image_encode": encoder(I.Image, IMG), "image_lists": list_encoder(I.Image, IMG, 3 + BIG),
  "region_wrap": wraps, "image_wrap": wrapi, "memory_create": memory_create, "memory_array": memory_array, "buffer": buffers}

# ---------------------------------------------------------------- Y02
def special():
    c = integer("code", -2 ** 31, 2 ** 31 - 1); r = R.Special.create(c); same(lib.r(r.reference).code, c, "stored code"); same(r.code, c, "code"); del r
def rectangle():
    v = [real(n) for n in "xywh"]; r = R.Rectangle.create(*v)
    for a, b in zip(lib.r(r.reference).rect, v): same(a, b, "stored rectangle")
    for a, b in zip(r.bounds(), v): same(a, b, "rectangle")
    k = R.Rectangle.create(x=v[0], height=v[3])
    for a, b in zip(k.bounds(), (v[0], 0, 0, v[3])): same(a, b, "rectangle from named values")
def polygon():
    n = 3 + choose("points", 3 + 3 * BIG); p = [(real("x"), real("y")) for i in range(n)]; r = R.Polygon.create(list(p)); same(r.size(), n, "number of points"); i = integer("index", -2, n + 1)
    for a, b in zip(lib.r(r.reference).pts, p): same(a[0], b[0], "stored x"); same(a[1], b[1], "stored y")
    same(len([1 for q in r]), n, "number of points visited")
    for a, b in zip(r, p): same(a[0], b[0], "x visited"); same(a[1], b[1], "y visited")
    try: q = r[i]
    except IndexError: ensure(not (0 <= i) or not (i < n), "a valid index is refused"); return
    ensure(bool(i >= 0) and bool(i < n), "an invalid index is accepted"); k = int(i); same(q[0], p[k][0], "x"); same(q[1], p[k][1], "y")
def mask():
    h, w = 1 + choose("height", 3 + 2 * BIG), 1 + choose("width", 3 + 2 * BIG); cut = choose("view", 4); x, y = integer("x", -500, 500), integer("y", -500, 500)
    a = (pixels((h, w), np.uint8) & 1).astype(np.uint8)
    if cut == 1: a = (pixels((h, w * 2), np.uint8) & 1)[:, ::2]
    if cut == 2: a = np.flip(a, 1)
    if cut == 3: a = (pixels((w, h), np.uint8) & 1).T
    m = R.Mask.create(a, x, y); o = lib.r(m.reference); same((o.w, o.h), (w, h), "size of the mask"); same(o.x, x, "stored x"); same(o.y, y, "stored y")
    same(o.data.raw[:w * h], np.ascontiguousarray(a).tobytes(), "stored pixels"); same(o.data.raw[w * h:], b"\x07" * 64, "memory after the pixels")
    s = m.size(); same(s[0], w, "width"); same(s[1], h, "height"); s = m.offset(); same(s[0], x, "x"); same(s[1], y, "y"); same(m.array().tobytes(), np.ascontiguousarray(a).tobytes(), "pixels"); same(m.array().shape, (h, w), "shape")
def normalized():
    h, w, x, y = 1 + choose("height", 2), 1 + choose("width", 2), choose("x", 3), choose("y", 3); a = np.ones((h, w), np.uint8); b = R.Mask.create(a, x, y).array(normalize=True); same(b.shape, (h + y, w + x), "shape"); same(int(b.sum()), h * w, "set pixels"); same(int(b[y:, x:].sum()), h * w, "place of the pixels")
def names():
    s = ("", "a", "a b", "\u017e\u00e4.png")[choose("text", 4)]; k = choose("kind", 2)
    im = (I.FileImage, I.URLImage)[k].create(s); o = lib.i(im.reference); same(o.text, s.encode("utf8"), "stored text"); same(im.path() if k == 0 else im.url(), s, "text")
KEYS = ("a", "key.b", "\u017e")
def properties():
    n = choose("entries", 4); d = {}; p = trax.Properties(dict(zip(KEYS[:n], ("v", 5, "")[:n]))); d = {k: str(v) for k, v in zip(KEYS[:n], ("v", 5, ""))}
    for i in range(2 + BIG):
        op = choose("operation", 5); k = KEYS[choose("key", 3)]
        if op == 0: p[k] = "new"; d[k] = "new"
        elif op == 1: p.set(k, 7); d[k] = "7"
        elif op == 2:
            v = p[k]; v = v.decode("utf8") if isinstance(v, bytes) else v; same(v, d.get(k), "value read with brackets")
        elif op == 3: same(p.get(k), d.get(k), "value"); same(p.get(k, "none"), d.get(k, "none"), "value with default")
        else: q = trax.Properties({"a": "x"}); q.copy(p); e = dict(a="x"); e.update(d); same(q.dict(), e, "copied properties")
    same(p.dict(), d, "properties")
    same({k.decode("utf8"): v.decode("utf8") for k, v in lib.q(p.reference).kv.items()}, d, "stored properties")
# regions and images made by the library
def make_region(tag): return (lambda L: L.trax_region_create_special(tag), lambda L: L.trax_region_create_rectangle(tag, 1, 2, 3))[tag % 2]
def make_image(tag): return (lambda L: L.trax_image_create_path(b"p%d" % tag), lambda L: L.trax_image_create_url(b"u%d" % tag), lambda L: L.trax_image_create_buffer(5, b"%05d" % tag))[tag % 3]
def some_objects(n, base): return [(make_region(base + i), {} if i == 1 else {b"k": b"v%d" % (base + i)}) for i in range(n)]
def got_objects(l, n, base, what):
    same(len(l), n, "number of " + what)
    for i, (r, p) in enumerate(l):
        t = base + i; same(kindof(r), ("special", "rectangle")[t % 2], "kind of region %d" % i); same(r.code if t % 2 == 0 else r.bounds()[0], t, "value of region %d" % i); same(dict(p), {} if i == 1 else {"k": "v%d" % t}, "properties of region %d" % i)
def own_objects(n, base): return [(R.Special.create(base + i) if (base + i) % 2 == 0 else R.Rectangle.create(base + i, 1, 2, 3), {} if i == 1 else {"k": "v%d" % (base + i)}) for i in range(n)]
def sent_objects(l, n, base):
    same(len(l), n, "number of objects sent")
    for i, (r, kv) in enumerate(l): t = base + i; same(r.type, (1, 2)[t % 2], "kind of object sent"); same(r.code if t % 2 == 0 else r.rect[0], t, "value of object sent"); same(kv, {} if i == 1 else {b"k": b"v%d" % t}, "properties of object sent")
SUB = [["color"], ["color", "depth"], ["depth", "ir"], ["color", "depth", "ir"]]
def own_images(s): return {c: I.FileImage.create("%s.png" % c) for c in s}
def sent_images(d, s): same({c: o.text for c, o in d.items()}, {CHN[c]: ("%s.png" % c).encode() for c in s}, "images sent")
def outcome(f):
    """('ok', result) or ('error', message)"""
    try: return "ok", f()
    except trax.TraxException as e: return "error", str(e)
def server(): return S.Server([trax.Region.RECTANGLE], [trax.Image.PATH], ["color"], "n", "d", "f")
def server_new():
    rf = sorted(REG)[choose("region", 4):]; im = sorted(IMG)[choose("image", 4):]; ch = sorted(CHN)[choose("channel", 3):]; mo = choose("multi", 2); md = (None, {}, {"q": "1", "w": "x y"})[choose("metadata", 3)]; how = ("ok", "fail", "dead")[choose("how", 3)]
    lib.script = [how]; k, s = outcome(lambda: S.Server(rf, im, ch, "na\u017e", "descr", "fam", metadata=md, multiobject=bool(mo)))
    same(k, "ok" if how == "ok" else "error", "outcome")
    if k == "ok":
        o = [x for x in lib.objs.values() if x.kind == "handle"][0]; a = o.md.args; same(a[0], sum(REG[x] for x in rf), "region formats"); same(a[1], sum(IMG[x] for x in im), "image formats"); same(a[2], sum(CHN[x] for x in ch), "channels"); same(tuple(a[3:6]), ("na\u017e".encode("utf8"), b"descr", b"fam"), "descriptions"); same(a[6], C["TRAX_METADATA_MULTI_OBJECT"] if mo else 0, "flags"); same(o.md.props.kv, {k.encode(): v.encode() for k, v in (md or {}).items()}, "custom properties")
    del s
def server_wait():
    s = server(); n = choose("requests", 2 + BIG) + 1
    for i in range(n):
        c = integer("status", -1, 5)
        if c == STA["ok"] or c == STA["hello"] or c == STA["state"]: return
        ini, fr = bool(c == STA["initialize"]), bool(c == STA["frame"]); sub = (SUB[choose("channels", 4)] if i == 0 else SUB[1]) if ini or fr else None; k = (1 + choose("objects", 2) if ini else choose("objects", 3)) if ini or fr else 0; given = ini or (fr and choose("given", 2) == 1)
        lib.script = [dict(code=c, images={CHN[x]: make_image(CHN[x]) for x in sub} if sub else None, objects=some_objects(k, 4 * i) if given else None, kv={b"p": b"q%d" % i} if i or choose("props", 2) else {})]
        kv = {a.decode(): b.decode() for a, b in lib.script[0]["kv"].items()}
        k2, q = outcome(s.wait)
        if c == STA["error"]: same(k2, "error", "outcome of a failed wait"); ensure("broken" in q, "the error is not named"); continue
        same(k2, "ok", "outcome"); same(STA[q.type], c, "kind of request"); same(q.properties.dict(), kv, "properties")
        if ini or fr:
            same(set(q.image), set(sub), "channels")
            for x, im in q.image.items(): t = CHN[x]; same(im.path() if t % 3 == 0 else im.url() if t % 3 == 1 else bytes(im.buffer()), ("p%d" % t, "u%d" % t, b"%05d" % t)[t % 3], "image")
            if given: got_objects(q.objects, k, 4 * i, "objects")
            elif not q.objects: pass
            else: ensure(False, "objects that were not sent are delivered")
        del q
    del s
def server_status():
    s = server(); n = choose("objects", 4); l = own_objects(n, 2); c = integer("result", -1, 0); lib.script = [c]; pr = choose("props", 3); k, r = outcome((lambda: s.status(l), lambda: s.status(l, {"a": "1", "k": "z"}), lambda: s.status(l, properties={}))[pr])
    for o, kv in lib.sent[-1][1]:
        if pr == 1: same(kv.pop(b"a", None), b"1", "property of the reply"); (kv.get(b"k") == b"z") and kv.pop(b"k")
    sent_objects(lib.sent[-1][1], n, 2); ensure(len(lib.sent) == 1, "the state is not sent once")
    same(k == "error", bool(c == -1), "outcome")
    for i, (g, p) in enumerate(l): lib.r(g.reference)
def server_quit():
    s = server(); k = choose("reason", 3); c = integer("result", -1, 0); lib.script = [c]; r = (None, "no \u017e", "")[k]; o, _ = outcome(lambda: s.quit(r) if choose("named", 2) else s.quit(reason=r)); same(o == "error", bool(c == -1), "outcome"); same(lib.sent, [("quit", None if r is None else r.encode("utf8"))], "messages sent")
def server_with():
    how = choose("how", 2)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            with server() as s:
                if how: raise ValueError("oops")
    except ValueError: pass
    same(len(lib.sent), 1, "messages sent"); same(lib.sent[0][0], "quit", "message"); same(lib.sent[0][1], b"oops" if how else None, "reason"); s = None
def remote(rf=2, im=1, ch=1, d=(b"na\xc5\xbe", b"descr", b"fam"), kv={}):
    def f():
        m = lib.trax_metadata_create(rf, im, ch, *d, 0); m.props.kv = dict(kv); return m
    return f
def client(how="ok", **k):
    lib.remote = remote(**k); lib.params = {C["TRAX_PARAMETER_MULTIOBJECT"]: lib.mo}; lib.script = [how]; return CL.Client(stream=9090 if lib.port else (5, 6))
def client_new():
    lib.port = choose("port", 2); lib.mo = choose("multi", 2); how = ("ok", "fail", "dead")[choose("how", 3)]; vary = choose("varied", 3); rf = choose("regions", 16) if vary == 0 else 2; im = 1 + choose("images", 15) if vary == 1 else 1; ch = 1 + choose("channels", 7) if vary == 2 else 1
    none = choose("described", 2); kv = {b"q": b"1"} if choose("custom", 2) else {}
    k, c = outcome(lambda: client(how, rf=rf, im=im, ch=ch, d=(None, None, None) if none else (b"na\xc5\xbe", b"descr", b"fam"), kv=kv)); same(k, "ok" if how == "ok" else "error", "outcome")
    if k != "ok": return
    same(sum(REG[x] for x in c.region_formats), rf, "region formats"); same(sum(IMG[x] for x in c.image_formats), im, "image formats"); same(sum(CHN[x] for x in c.channels), ch, "channels")
    same((c.tracker_name, c.tracker_description, c.tracker_family), ("", "", "") if none else ("na\u017e", "descr", "fam"), "descriptions"); same(c.get("q"), "1" if kv else None, "custom property"); same(c.get("w"), None, "missing property"); same(bool(c.get("multiobject")), bool(lib.mo), "multiple objects")
    del c
def dialog(first):
    def run():
        lib.port = 0; lib.mo = 1; c = client(); lib.sent.clear(); s = SUB[choose("channels", 4)]; im = own_images(s); n = choose("objects", 3); given = first or choose("given", 2) == 1; l = own_objects(n, 2); kv = {"a": "1", "b": 2} if choose("props", 2) else {}
        a, b = integer("sent", -1, 0), integer("answer", -1, 5)
        if b == STA["ok"] or b == STA["hello"] or b == STA["initialize"] or b == STA["frame"]: return
        m = choose("answers", 3) if b == STA["state"] else 0; why = choose("reason", 2) if b == STA["quit"] else 0
        lib.script = [a, dict(code=b, objects=some_objects(m, 4) if b == STA["state"] else None, kv={b"trax.reason": b"tired"} if why else {})]
        if first: k, r = outcome(lambda: c.initialize(im, l, kv))
        elif given: k, r = outcome(lambda: c.frame(im, kv, l))
        elif kv: k, r = outcome(lambda: c.frame(im, kv))
        else: k, r = outcome(lambda: c.frame(im))
        same(len(lib.sent), 1, "requests sent"); q = lib.sent[0]; same(q[0], "initialize" if first else "frame", "request"); sent_images(q[1], s); same(q[3], {x.encode(): str(y).encode() for x, y in kv.items()}, "properties sent")
        if given: sent_objects(q[2], n, 2)
        else: ensure(not q[2], "objects are made up")
        if a == -1: same(k, "error", "outcome of a refused request"); ensure(len(lib.script) == 1, "an answer is awaited after a refused request"); return
        if b != STA["state"]:
            same(k, "error", "outcome")
            if why: ensure("tired" in r, "the reason is lost")
            return
        same(k, "ok", "outcome"); got_objects(r[0], m, 4, "answers"); ensure(r[1] >= 0, "elapsed time")
        for x in list(im.values()): lib.i(x.reference)
        for g, p in l: lib.r(g.reference)
        del r, c
    return run
def exports():
    for m in (trax, R, I, S, CL):
        for n in getattr(m, "__all__", []): ensure(hasattr(m, n), "%s does not have the exported name %s" % (m.__name__, n))
def client_quit():
    lib.port = 0; lib.mo = 0; c = client(); r = (None, "b\u017e", "")[choose("reason", 3)]; lib.script = [0]; c.quit(r); same(lib.sent, [("quit", None if r is None else r.encode("utf8"))], "messages sent")
Y02 = {"special": special, "rectangle": rectangle, "polygon": polygon, "mask": mask, "mask_normalized": normalized, "names": names, "properties": properties, "server_new": server_new, "server_wait": server_wait, "server_status": server_status, "server_quit": server_quit, "server_with": server_with, "client_new": client_new, "client_initialize": dialog(True), "client_frame": dialog(False), "client_quit": client_quit, "exports": exports}
SC = {"Y01": Y01, "Y02": Y02}

# ---------------------------------------------------------------- driver
def one(f, values=None, prefix=()):
    """runs one path; returns a description of the violation or None"""
    E = pysym.E; lib.reset(); lib.mo = 0; lib.port = 0; E.reset(list(prefix), values); E.viol = None; r = None; cells(values is None)
    try:
        with contextlib.redirect_stdout(io.StringIO()): f()
    except Cut: return "cut"
    except Violation as e: r = str(e)
    except Exception as e:
        tb = e.__traceback__; last = None
        while tb: last = tb.tb_frame.f_code.co_filename if REPO in tb.tb_frame.f_code.co_filename else last; tb = tb.tb_next
        r = "unexpected %s: %s" % (type(e).__name__, str(e)[:160])
        e.__traceback__ = None
    gc.collect()
    if r is None and E.viol: r = E.viol
    if r is None:
        l = lib.leaked()
        if l: r = "never released: " + ", ".join(sorted(l))
    return r
_v = pysym.Violation.__init__
def _init(self, *a): pysym.E.viol = pysym.E.viol or a[0]; Exception.__init__(self, *a)
pysym.Violation.__init__ = _init
# violations inside finalizers are remembered above; their traces are no output
sys.unraisablehook = lambda *a: None
def explore(name, f, limit):
    E = pysym.E; t0 = time.time(); stack = [[]]; bad = []; n = 0; cut = 0; wit = None
    while stack:
        if time.time() - t0 > limit: return dict(name=name, complete=False, paths=n, cut=cut, bad=bad, wit=wit, wall=time.time() - t0)
        p = stack.pop(); r = one(f, None, p); stack += E.pending; n += 1
        if r == "cut": cut += 1; continue
        if n % 7 == 1 and r is None: wit = E.model(); w = one(f, list(wit)); (w is None or w == "cut") or bad.append((w, wit, "witness"))
        elif r is not None and not any(b[0] == r for b in bad) and len(bad) < 8: bad.append((r, E.model(), "path"))
    return dict(name=name, complete=cut == 0 and E.unknown == 0, paths=n, cut=cut, bad=bad, wit=wit, wall=time.time() - t0)
def main():
    prop, out, tier = sys.argv[2:5]
    if prop == "replay":
        r = json.load(open(out)); print("scenario", r["scenario"], "values", r["values"]); v = one(SC[r["prop"]][r["scenario"]], [tuple(x) for x in r["values"]]); print("violation:" if v and v != "cut" else "holds", v or ""); sys.exit(1 if v and v != "cut" else 0)
    E = pysym.E; res = []
    only = sys.argv[5] if len(sys.argv) > 5 else None
    for n, f in SC[prop].items():
        if only and only != n: continue
        r = explore(n, f, 600 if BIG else 150); conf = []
        for msg, vals, how in r["bad"]:
            v = one(f, list(vals)); conf.append(dict(msg=msg, values=vals, how=how, replay=v))
        r["bad"] = conf; res.append(r)
    import inspect
    fn = sorted({"%s.%s" % (m.__name__, k) for m in (trax, R, I, S, CL) for k, v in vars(m).items() if (inspect.isfunction(v) or inspect.isclass(v)) and getattr(v, "__module__", "") == m.__name__})
    json.dump(dict(results=res, queries=E.queries, solver_s=E.solver_s, forks=E.forks, asserts=E.asserts, unknown=E.unknown, functions=fn), open(out, "w"))
main()
