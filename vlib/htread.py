"""Independent reader of htdump streams (docs/design/htdump_format.md)."""

UINT, INT, STRING, STRUCT = 99, 3, 2, 1


class Malformed(Exception):
    pass


class Reader:
    def __init__(self, data):
        self.d, self.p, self.order = data, 0, "little"
        self.names = {1: "HT_Event", 0: "HT_EndiannessInfoEvent", 2: "HT_EventKlassInfoEvent", 3: "HT_EventKlassFieldInfoEvent"}
        self.fields = {0: [("endianness", "uint8_t", UINT, 1)],
                       2: [("info_klass_id", "uint32_t", UINT, 4), ("event_klass_name", "const char*", STRING, 8), ("field_count", "uint8_t", UINT, 1)],
                       3: [("info_klass_id", "uint32_t", UINT, 4), ("field_type", "const char*", STRING, 8), ("field_name", "const char*", STRING, 8),
                           ("size", "uint64_t", UINT, 8), ("data_type", "uint8_t", UINT, 1)]}
        self.fixed = set(self.fields)
        self.left = {}

    def num(self, size, signed=False):
        if self.p + size > len(self.d):
            raise Malformed("ends inside a number at %d of %d" % (self.p, len(self.d)))
        v = int.from_bytes(self.d[self.p:self.p + size], self.order, signed=signed)
        self.p += size
        return v

    def str(self):
        e = self.d.find(b"\0", self.p)
        if e < 0:
            raise Malformed("ends inside a string")
        s = self.d[self.p:e]
        self.p = e + 1
        return s

    def body(self, kid, out):
        if kid not in self.fields:
            raise Malformed("class %d is not described" % kid)
        for name, typ, dt, size in self.fields[kid]:
            if dt == STRUCT:
                if typ == "HT_Event":
                    continue
                sub = [k for k, n in self.names.items() if n == typ]
                if not sub:
                    raise Malformed("type %s is not described" % typ)
                self.body(sub[-1], out)
            elif dt == STRING:
                out[name] = self.str()
            else:
                out[name] = self.num(size, dt == INT)

    def events(self):
        """Yields (class name, fields); raises Malformed when the data ends inside an event."""
        while self.p < len(self.d):
            out = {}
            out["klass_id"], out["timestamp"], out["id"] = self.num(4), self.num(8), self.num(8)
            kid = out["klass_id"]
            self.body(kid, out)
            if kid == 0:
                self.order = "big" if out["endianness"] else "little"
            elif kid == 2:
                k = out["info_klass_id"]
                self.names[k] = out["event_klass_name"].decode()
                if k not in self.fixed:
                    self.fields[k] = []
            elif kid == 3:
                k = out["info_klass_id"]
                if k not in self.fixed:
                    if k not in self.fields:
                        raise Malformed("field of a class that is not described")
                    self.fields[k].append((out["field_name"].decode(), out["field_type"].decode(), out["data_type"], out["size"]))
            yield self.names[kid], out


def decode(data):
    return list(Reader(data).events())
