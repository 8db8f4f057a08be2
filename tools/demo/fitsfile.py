"""Minimal FITS writer / reader / checksum verifier (independent of CFITSIO)."""
import struct, gzip, io

BLK = 2880


def _sum32(b):
    n = len(b) // 4
    s = sum(struct.unpack(">%dI" % n, b[:n * 4]))
    while s >> 32:
        s = (s & 0xFFFFFFFF) + (s >> 32)
    return s


def _encode(value, complement=True):
    ex = [0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f, 0x40, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x60]
    if complement:
        value = 0xFFFFFFFF - value
    asc = [0] * 16
    for i in range(4):
        byte = (value >> (24 - 8 * i)) & 0xff
        q = byte // 4 + 0x30
        ch = [q, q, q, q]
        ch[0] += byte % 4
        check = True
        while check:
            check = False
            for e in ex:
                for j in (0, 2):
                    if ch[j] == e or ch[j + 1] == e:
                        ch[j] += 1
                        ch[j + 1] -= 1
                        check = True
        for j in range(4):
            asc[4 * j + i] = ch[j]
    s = bytes(asc)
    return (s[15:] + s[:15]).decode("ascii")


def card(k, v=None, c=""):
    if v is None:
        s = k
    elif isinstance(v, bool):
        s = "%-8s= %20s" % (k, "T" if v else "F")
    elif isinstance(v, int):
        s = "%-8s= %20d" % (k, v)
    elif isinstance(v, float):
        s = "%-8s= %20s" % (k, repr(v).upper())
    else:
        s = "%-8s= '%-8s'" % (k, str(v).replace("'", "''"))
    if c:
        s += " / " + c
    return s[:80].ljust(80)


FMT = {8: "B", 16: "h", 32: "i", 64: "q", -32: "f", -64: "d"}


def make(w, h, bitpix, values, keys=(), checksum=True, gz=False):
    """One-HDU image; values is a flat list in FITS order."""
    data = struct.pack(">%d%s" % (len(values), FMT[bitpix]), *values)
    data += b"\0" * (-len(data) % BLK)
    hd = [card("SIMPLE", True), card("BITPIX", bitpix), card("NAXIS", 2),
          card("NAXIS1", w), card("NAXIS2", h)]
    hd += [card(k, v) for k, v in keys]
    ds = _sum32(data)

    def header(chk):
        x = list(hd)
        if checksum:
            x.append(card("CHECKSUM", chk))
            x.append(card("DATASUM", str(ds)))
        x.append(card("END"))
        b = "".join(x).encode("ascii")
        return b + b" " * (-len(b) % BLK)
    b = header("0" * 16)
    if checksum:
        s = _sum32(b) + ds
        s = (s & 0xFFFFFFFF) + (s >> 32)
        b = header(_encode(s))
        t = _sum32(b) + ds
        t = (t & 0xFFFFFFFF) + (t >> 32)
        assert t in (0, 0xFFFFFFFF), hex(t)
    out = b + data
    if gz:
        o = io.BytesIO()
        with gzip.GzipFile(fileobj=o, mode="wb", mtime=0, compresslevel=6) as g:
            g.write(out)
        out = o.getvalue()
    return out


class HDU:
    __slots__ = ("cards", "raw", "data", "datasum_ok", "checksum_ok", "complete", "kv")

    @property
    def certified(self):
        return bool(self.datasum_ok and self.checksum_ok)


def _value(c):
    if c[8:10] != "= ":
        return None
    v = c[10:]
    s = v.lstrip()
    if s.startswith("'"):
        out, i = "", 1
        while i < len(s):
            if s[i] == "'":
                if i + 1 < len(s) and s[i + 1] == "'":
                    out += "'"
                    i += 2
                    continue
                break
            out += s[i]
            i += 1
        return out.rstrip()
    s = s.split("/")[0].strip()
    if s in ("T", "F"):
        return s == "T"
    try:
        return int(s)
    except ValueError:
        pass
    try:
        return float(s.replace("D", "E"))
    except ValueError:
        return s


def parse(b):
    """List of HDUs, stopping at the first structure that is not FITS."""
    pos, out = 0, []
    while pos < len(b):
        cards, p, end = [], pos, False
        while p + 80 <= len(b):
            c = b[p:p + 80]
            p += 80
            try:
                c = c.decode("ascii")
            except UnicodeDecodeError:
                return out
            if not c.isprintable() or (not cards and c[:9] != ("XTENSION=" if pos else "SIMPLE  =")):
                return out
            if c[:8] == "END     ":
                end = True
                break
            cards.append(c)
        if not end:
            return out
        hend = pos + -(-(p - pos) // BLK) * BLK
        kv = {}
        for c in cards:
            k = c[:8].strip()
            if c[8:10] == "= " and k not in kv:
                kv[k] = _value(c)
        try:
            n = 1 if kv["NAXIS"] else 0
            for i in range(kv["NAXIS"]):
                n *= kv["NAXIS%d" % (i + 1)]
            size = n * abs(kv["BITPIX"]) // 8
        except (KeyError, TypeError):
            return out
        dend = hend + -(-size // BLK) * BLK
        h = HDU()
        h.cards, h.kv = cards, kv
        h.raw = b[pos:dend]
        h.data = b[hend:hend + size]
        h.complete = len(b) >= dend
        h.datasum_ok = h.checksum_ok = None
        if h.complete:
            if "DATASUM" in kv:
                try:
                    h.datasum_ok = _sum32(b[hend:dend]) == int(kv["DATASUM"])
                except (TypeError, ValueError):
                    h.datasum_ok = False
            if "CHECKSUM" in kv:
                h.checksum_ok = _sum32(h.raw) in (0, 0xFFFFFFFF)
        else:
            if "DATASUM" in kv:
                h.datasum_ok = False
            if "CHECKSUM" in kv:
                h.checksum_ok = False
        out.append(h)
        pos = dend
    return out


VOLATILE = ("DATE", "CHECKSUM", "DATASUM")


def norm_hdu(h):
    """What must be reproducible: every card but time stamps, and the data."""
    return (tuple(c for c in h.cards if c[:8].strip() not in VOLATILE), h.data, h.complete)


def norm(b):
    hs = parse(b)
    used = sum(len(h.raw) for h in hs)
    return tuple(norm_hdu(h) for h in hs), len(b) - used


def values(h):
    bp = h.kv["BITPIX"]
    n = len(h.data) // (abs(bp) // 8)
    return struct.unpack(">%d%s" % (n, FMT[bp]), h.data)
