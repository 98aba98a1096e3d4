"""A model of the C library behind the Python bindings: it keeps what it is given (symbolic numbers too), counts references and
complains about the use of released objects. Pointers are real ctypes pointers to dummy memory, so that ctypes' own rules apply."""
import ctypes, re
from pysym import *

class Obj:
    def __init__(self, kind, **k): self.kind = kind; self.alive = True; self.owner = None; self.__dict__.update(k)

class Lib:
    def __init__(self): self.reset()
    def reset(self): self.objs = {}; self.keep = []; self.script = []; self.sent = []; self.last = None; self.log = []; self.error = b"broken"; self.open = True
    # memory
    def new(self, kind, mem=None, **k):
        m = mem if mem is not None else ctypes.create_string_buffer(16); self.keep.append(m); o = Obj(kind, **k); o.p = ctypes.addressof(m); o.mem = m; self.objs[o.p] = o; return o
    def addr(self, p):
        if p is None: return 0
        if type(p) is int: return p
        if hasattr(p, "_obj"): p = p._obj
        if isinstance(p, ctypes.c_void_p): return p.value or 0
        return ctypes.cast(p, ctypes.c_void_p).value or 0
    def get(self, p, kind, what="used"):
        o = self.objs.get(self.addr(p)); ensure(o is not None and o.kind == kind, "something that is no %s is %s" % (kind, what)); ensure(o.alive, "a released %s is %s" % (kind, what)); return o
    def release(self, pp, kind):
        p = pp._obj if hasattr(pp, "_obj") else pp.contents
        if not self.addr(p): return
        o = self.get(p, kind, "released"); ensure(o.owner is None, "a %s that belongs to something else is released" % kind); o.alive = False
        for c in self.objs.values():
            if c.owner is o: c.alive = False
        if isinstance(p, ctypes.c_void_p): p.value = None
        else: ctypes.memset(ctypes.addressof(p), 0, ctypes.sizeof(ctypes.c_void_p))
    def put(self, cell, v):
        if cell is None: return
        c = cell._obj if hasattr(cell, "_obj") else cell
        if isinstance(c, Cell): c.value = v
        elif hasattr(c, "contents"): c.contents.value = v if not opaque(v) else (int(v) if v.__class__ is int else float(v))
        else: c.value = v if not opaque(v) else (int(v) if v.__class__ is int else float(v))
    def leaked(self): return [o.kind for o in self.objs.values() if o.alive and o.owner is None and o.kind != "static"]
    # regions
    def r(self, p): return self.get(p, "region")
    def trax_region_create_special(self, code): return self.new("region", type=1, code=code)
    def trax_region_get_special(self, r): o = self.r(r); ensure(o.type == 1, "the code of a region that is not special is read"); return o.code
    def trax_region_set_special(self, r, c): self.r(r).code = c
    def trax_region_create_rectangle(self, x, y, w, h): return self.new("region", type=2, rect=(x, y, w, h))
    def trax_region_set_rectangle(self, r, x, y, w, h): self.r(r).rect = (x, y, w, h)
    def trax_region_get_rectangle(self, r, x, y, w, h):
        o = self.r(r); ensure(o.type == 2, "the rectangle of another region is read")
        for c, v in zip((x, y, w, h), o.rect): self.put(c, v)
    def trax_region_create_polygon(self, n): n = int(n); return self.new("region", type=4, pts=[None] * n)
    def trax_region_set_polygon_point(self, r, i, x, y): o = self.r(r); i = int(i); ensure(0 <= i < len(o.pts), "a point outside of the polygon is set"); o.pts[i] = (x, y)
    def trax_region_get_polygon_point(self, r, i, x, y):
        o = self.r(r); i = int(i); ensure(o.type == 4, "a point of a region that is no polygon is read"); ensure(0 <= i < len(o.pts), "a point outside of the polygon is read"); self.put(x, o.pts[i][0]); self.put(y, o.pts[i][1])
    def trax_region_get_polygon_count(self, r): o = self.r(r); return len(o.pts) if o.type == 4 else 0
    def trax_region_create_mask(self, x, y, w, h): w, h = int(w), int(h); b = ctypes.create_string_buffer(b"\x07" * (w * h + 64), w * h + 64); return self.new("region", type=8, x=x, y=y, w=w, h=h, data=b, size=w * h)
    def trax_region_get_mask_header(self, r, x, y, w, h):
        o = self.r(r); ensure(o.type == 8, "the header of a region that is no mask is read")
        for c, v in ((x, o.x), (y, o.y), (w, o.w), (h, o.h)): self.put(c, v)
    def row(self, o, row, stride): ensure(0 <= row and row * stride < max(1, o.size), "a row outside is accessed"); return ctypes.addressof(o.data) + row * stride
    def trax_region_write_mask_row(self, r, row): o = self.r(r); ensure(o.type == 8, "a row of a region that is no mask"); return self.row(o, row, o.w)
    trax_region_get_mask_row = trax_region_write_mask_row
    def trax_region_get_type(self, r): return self.r(r).type
    def trax_region_clone(self, r): return self.copy(self.r(r))
    def copy(self, o): n = self.new("region"); d = dict(o.__dict__); [d.pop(k) for k in ("p", "mem", "alive", "owner")]; n.__dict__.update(d); n.origin = o; return n
    def trax_region_release(self, pp): self.release(pp, "region")
    # images
    def i(self, p): return self.get(p, "image")
    def trax_image_create_path(self, s): return self.new("image", type=1, text=s)
    def trax_image_create_url(self, s): return self.new("image", type=2, text=s)
    def trax_image_create_memory(self, w, h, f):
        w, h, f = int(w), int(h), int(f)
        if f not in (1, 2, 3): return None
        n = w * h * {1: 1, 2: 2, 3: 3}[f]; return self.new("image", type=4, w=w, h=h, f=f, size=n, data=ctypes.create_string_buffer(b"\x07" * (n + 64), n + 64))
    def trax_image_create_buffer(self, n, d):
        d = bytes(d)[:n] if not isinstance(d, ctypes.Array) else d.raw[:n]; ensure(len(d) == n, "an image buffer is read beyond its end"); return self.new("image", type=8, size=n, f=1, data=ctypes.create_string_buffer(d, n + 1))
    def trax_image_get_type(self, p): return self.i(p).type
    def trax_image_get_path(self, p): o = self.i(p); ensure(o.type == 1, "the path of another image is read"); return o.text
    def trax_image_get_url(self, p): o = self.i(p); ensure(o.type == 2, "the url of another image is read"); return o.text
    def trax_image_get_memory_header(self, p, w, h, f):
        o = self.i(p); ensure(o.type == 4, "the header of another image is read")
        for c, v in ((w, o.w), (h, o.h), (f, o.f)): self.put(c, v)
    def trax_image_write_memory_row(self, p, row): o = self.i(p); return self.row(o, row, o.size // max(1, o.h))
    trax_image_get_memory_row = trax_image_write_memory_row
    def trax_image_get_buffer(self, p, n, f):
        o = self.i(p); ensure(o.type == 8, "the buffer of another image is read"); self.put(n, o.size); self.put(f, o.f); return ctypes.addressof(o.data)
    def trax_image_release(self, pp): self.release(pp, "image")
    # image lists
    def trax_image_list_create(self): return self.new("imagelist", img={})
    def trax_image_list_release(self, pp): self.release(pp, "imagelist")
    def trax_image_list_clear(self, p):
        o = self.get(p, "imagelist")
        for c in o.img.values(): ensure(c.alive, "a released image is released"); c.alive = False
        o.img = {}
    def ch(self, c): c = int(c); ensure(c in (1, 2, 4), "an image is stored or read under a code that is no channel"); return c
    def trax_image_list_get(self, p, c): o = self.get(p, "imagelist"); return o.img.get(self.ch(c))
    def trax_image_list_set(self, p, im, c):
        o = self.get(p, "imagelist"); c = self.ch(c)
        if not self.addr(im): o.img.pop(c, None)
        else: o.img[c] = self.i(im)
    def trax_image_list_count(self, c): return bin(int(c) & 7).count("1")
    # properties
    def q(self, p): return self.get(p, "properties")
    def trax_properties_create(self): return self.new("properties", kv={})
    def trax_properties_release(self, pp): self.release(pp, "properties")
    def trax_properties_copy(self, p): return self.new("properties", kv=dict(self.q(p).kv))
    def trax_properties_clear(self, p): self.q(p).kv.clear()
    def trax_properties_set(self, p, k, v): self.q(p).kv[k] = v
    def trax_properties_get(self, p, k): return self.q(p).kv.get(k)
    def trax_properties_has(self, p, k): return int(k in self.q(p).kv)
    def trax_properties_count(self, p): return len(self.q(p).kv)
    def trax_properties_append(self, a, b, over):
        a, b = self.q(a), self.q(b)
        for k, v in a.kv.items():
            if over or k not in b.kv: b.kv[k] = v
    def trax_properties_enumerate(self, p, fun, obj):
        a = ctypes.c_void_p.from_buffer(obj).value if isinstance(obj, ctypes.py_object) else self.addr(obj)
        for k, v in list(self.q(p).kv.items()): fun(k, v, a)
    # object lists
    def l(self, p): return self.get(p, "objectlist")
    def make_list(self, n):
        o = self.new("objectlist"); o.reg = []; o.prop = []
        for i in range(n):
            r = self.trax_region_create_special(0); r.owner = o; o.reg.append(r)
            q = self.trax_properties_create(); q.owner = o; o.prop.append(q)
        return o
    def trax_object_list_create(self, n): return self.make_list(int(n))
    def trax_object_list_release(self, pp): self.release(pp, "objectlist")
    def trax_object_list_set(self, p, i, r):
        o = self.l(p); i = int(i)
        if 0 <= i < len(o.reg): c = self.copy(self.r(r)); c.owner = o; o.reg[i].alive = False; o.reg[i] = c
    def trax_object_list_get(self, p, i): o = self.l(p); i = int(i); return o.reg[i] if 0 <= i < len(o.reg) else None
    def trax_object_list_properties(self, p, i): o = self.l(p); i = int(i); return o.prop[i] if 0 <= i < len(o.prop) else None
    def trax_object_list_count(self, p): return len(self.l(p).reg)
    # sessions
    def trax_metadata_create(self, rf, imf, ch, name, desc, fam, flags):
        m = self.types["struct_trax_metadata"](); q = self.trax_properties_create()
        o = self.new("metadata", mem=m, args=(rf, imf, ch, name, desc, fam, flags), props=q); q.owner = o
        m.format_region, m.format_image, m.channels, m.flags = int(rf), int(imf), int(ch), int(flags)
        m.tracker_name, m.tracker_description, m.tracker_family = name, desc, fam
        m.custom = ctypes.cast(q.p, type(m.custom)); return o
    def trax_metadata_release(self, pp): self.release(pp, "metadata")
    def trax_logger_setup(self, cb, data, flags): return self.types["struct_trax_logging"](int(flags))
    def handle(self, md, args):
        h = self.types["struct_trax_handle"](); h.flags = 1; h.version = 4; o = self.new("handle", mem=h, md=md, args=args)
        if md is not None: md.owner = o; h.metadata = ctypes.cast(md.p, type(h.metadata))
        return o
    def trax_client_setup_file(self, i, o, log): return self.connect((i, o))
    def trax_client_setup_socket(self, s, t, log): return self.connect((s, t))
    def connect(self, args):
        a = self.script.pop(0) if self.script else "ok"
        if a == "fail": return None
        h = self.handle(self.remote(), args); self.open = a != "dead"; return h
    def trax_server_setup_v(self, md, log, v):
        o = self.get(md, "metadata"); a = self.script.pop(0) if self.script else "ok"
        if a == "fail": return None
        # the library keeps a copy of the metadata
        n = self.trax_metadata_create(*o.args); n.props.kv = dict(o.props.kv); h = self.handle(n, v); self.open = a != "dead"; return h
    def h(self, p): return self.get(p, "handle")
    def trax_is_alive(self, p): self.h(p); return int(self.open)
    def trax_get_error(self, p): self.h(p); return self.error
    def trax_cleanup(self, pp): self.release(pp, "handle"); return 0
    def trax_get_parameter(self, p, i, v): self.h(p); self.put(v, self.params[int(i)]); return 1
    def trax_terminate(self, p, reason): self.h(p); self.sent.append(("quit", reason)); return self.script.pop(0) if self.script else 0
    def objects(self, l): o = self.l(l); return [(r, dict(q.kv)) for r, q in zip(o.reg, o.prop)]
    def request(self, name, p, im, ob, q):
        self.h(p); i = self.get(im, "imagelist")
        for x in i.img.values(): ensure(x.alive, "a released image is sent")
        self.sent.append((name, {c: x for c, x in i.img.items()}, self.objects(ob) if self.addr(ob) else None, dict(self.q(q).kv) if self.addr(q) else {})); return self.script.pop(0)
    def trax_client_initialize(self, p, im, ob, q): return self.request("initialize", p, im, ob, q)
    def trax_client_frame(self, p, im, ob, q): return self.request("frame", p, im, ob, q)
    def fill(self, pp, o):
        p = pp._obj if hasattr(pp, "_obj") else pp.contents
        ctypes.memmove(ctypes.addressof(p), ctypes.byref(ctypes.c_void_p(o.p if o else None)), ctypes.sizeof(ctypes.c_void_p))
    def answer(self, q, objs, kv):
        if self.addr(q): self.q(q).kv.update(kv)
        if objs is None: return None
        o = self.make_list(len(objs))
        for i, (make, pk) in enumerate(objs): r = make(self); r.owner = o; o.reg[i].alive = False; o.reg[i] = r; o.prop[i].kv.update(pk)
        return o
    def trax_client_wait(self, p, ol, q):
        self.h(p); a = self.script.pop(0); l = self.answer(q, a["objects"], a["kv"]); self.fill(ol, l); return a["code"]
    def trax_server_wait_mot(self, p, il, ol, q):
        self.h(p); a = self.script.pop(0); l = self.answer(q, a["objects"], a["kv"]); self.fill(ol, l); i = None
        if a["images"] is not None:
            i = self.trax_image_list_create(); i.img = {c: m(self) for c, m in a["images"].items()}
        self.fill(il, i); self.received = i; return a["code"]
    def trax_server_reply_mot(self, p, ol, *more): self.h(p); self.sent.append(("state", self.objects(ol))); return self.script.pop(0)

class Cell:
    """stands for c_int and c_float where a value may be symbolic"""
    def __init__(self, value=0): self.value = value

class Fn:
    def __init__(self, lib, name): self.lib = lib; self.name = name; self.argtypes = None; self.restype = ctypes.c_int
    def __call__(self, *a):
        f = getattr(self.lib, self.name, None)
        if f is None: raise Cut()
        if self.argtypes is not None:
            if len(a) < len(self.argtypes): raise TypeError("this function takes at least %d arguments" % len(self.argtypes))
            for x, t in zip(a, self.argtypes):
                if opaque(x) or isinstance(getattr(x, "_obj", x), Cell): continue
                if t in (ctypes.c_int, ctypes.c_float, ctypes.c_double):
                    # as ctypes: integers are no floats' business and the other way round
                    if t is ctypes.c_int and not isinstance(x, (int, ctypes.c_int)): raise ctypes.ArgumentError("%s: wrong type %s" % (self.name, type(x)))
                    if t is not ctypes.c_int and not isinstance(x, (int, float, ctypes.c_float, ctypes.c_double)): raise ctypes.ArgumentError("%s: wrong type %s" % (self.name, type(x)))
                else:
                    if type(x) is int and isinstance(t, type) and t is ctypes.c_char_p: raise ctypes.ArgumentError(self.name)
                    t.from_param(x)
        a = [x.value if isinstance(x, (ctypes.c_int, ctypes.c_float, ctypes.c_char_p)) else x for x in a]
        r = f(*a); t = self.restype
        if isinstance(r, Obj): r = r.p
        if t is None: return None
        if t is ctypes.c_void_p or t is ctypes.c_int or t is ctypes.c_char_p or t is ctypes.c_float: return r
        if isinstance(r, ctypes.Structure): return r
        return ctypes.cast(r or 0, t)

class DLL:
    def __init__(self, lib, names): self.__dict__["_l"] = lib; self.__dict__["_n"] = names; self.__dict__["_f"] = {}
    def __getattr__(self, n):
        if n not in self._n: raise AttributeError(n)
        if n not in self._f: self._f[n] = Fn(self._l, n)
        return self._f[n]
    __getitem__ = __getattr__
