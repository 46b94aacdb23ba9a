"""Independent writer of htdump streams (docs/design/htdump_format.md) and random stream generator."""
import random

CODES = {"uint": 99, "int": 3, "string": 2, "struct": 1}   # wire codes of the data types


class Field:
    def __init__(self, name, kind, size=8):
        self.name, self.kind, self.size = name, kind, size   # kind: uint int string struct(type name)
        self.type = {"string": "const char*", "uint": "uint%d_t" % (size * 8), "int": "int%d_t" % (size * 8)}.get(kind, kind)


class Klass:
    def __init__(self, kid, name, fields, base=None):
        self.id, self.name, self.own, self.base = kid, name, fields, base

    def flat(self):
        return (self.base.flat() if self.base else []) + self.own


class Writer:
    def __init__(self, big=False):
        self.out, self.big, self.n = bytearray(), big, 0

    def num(self, v, size):
        self.out += (v & ((1 << (8 * size)) - 1)).to_bytes(size, "big" if self.big else "little")

    def str(self, s):
        self.out += (s if isinstance(s, bytes) else s.encode()) + b"\0"

    def head(self, k, ts, i):
        self.num(k, 4)
        self.num(ts, 8)
        self.num(i, 8)

    def endianness(self):
        self.head(0, 0, 0)
        self.num(1 if self.big else 0, 1)

    def klass(self, k):
        self.n += 1
        self.head(2, 1, self.n)
        self.num(k.id, 4)
        self.str(k.name)
        self.num(len(k.own) + (0 if k.name == "HT_Event" else 1), 1)
        if k.name != "HT_Event":
            self.field(k.id, k.base.name if k.base else "HT_Event", "base", 24, CODES["struct"])
            for f in k.own:
                self.field(k.id, f.type, f.name, f.size, CODES[f.kind])

    def field(self, kid, typ, name, size, dt):
        self.n += 1
        self.head(3, 1, self.n)
        self.num(kid, 4)
        self.str(typ)
        self.str(name)
        self.num(size, 8)
        self.num(dt, 1)

    def event(self, k, ts, i, values):
        """values: name -> int/bytes for every flattened field."""
        self.head(k.id, ts, i)
        for f in k.flat():
            v = values[f.name]
            if f.kind == "string":
                self.str(v)
            else:
                self.num(v, f.size)


def boundary_int(r, kind, size):
    bits = 8 * size
    v = r.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, r.getrandbits(bits), r.getrandbits(max(1, bits // 2)), r.randrange(100)])
    if kind == "int" and v >> (bits - 1):
        v -= 1 << bits
    return v


NASTY = ['"', '\\', '\n', '\r', '\t', '\b', '\f', '\x01', '\x1f', '\x7f', '/', '</script>', 'é', '日本', '\U0001F600', '\u2028', "'", '{', '}', '[', ']', ',', ':', ' ', '%s', '%n', '\\u0041', '\\"', '()', 'x', 'a1']


def text(r, nasty=True, maxlen=12):
    """A random label: (bytes, valid utf-8?)"""
    if nasty and r.random() < 0.1:
        b = bytes(r.randrange(1, 256) for _ in range(r.randrange(1, maxlen + 1)))
        return b
    n = r.randrange(1, maxlen + 1) if r.random() < 0.97 else r.randrange(100, 3000)
    if nasty and r.random() < 0.6:
        return "".join(r.choice(NASTY) for _ in range(n)).encode()
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABC_:0123456789<>~") for _ in range(n)).encode()


def core_klasses(r=None, shift=0):
    """The classes the library describes at the start of every stream (besides the well-known 0-3)."""
    base = Klass(4 + shift, "HT_CallstackBaseEvent", [Field("duration", "uint", 8), Field("thread_id", "uint", 4)])
    ci = Klass(5 + shift, "HT_CallstackIntEvent", [Field("label", "uint", 8)], base)
    cs = Klass(6 + shift, "HT_CallstackStringEvent", [Field("label", "string")], base)
    mp = Klass(7 + shift, "HT_StringMappingEvent", [Field("identifier", "uint", 8), Field("label", "string")])
    si = Klass(8 + shift, "HT_SystemInfoEvent", [Field("version_major", "uint", 1), Field("version_minor", "uint", 1), Field("version_patch", "uint", 1)])
    return base, ci, cs, mp, si


def rng(seed, *x):
    return random.Random("%s-%s" % (seed, "-".join(map(str, x))))
