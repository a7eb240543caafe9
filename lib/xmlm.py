"""Independent reader of exported XML and comparison with the logical model."""
import base64
import re
import xml.etree.ElementTree as ET

from db1cd import DELETED

PT = {"B": "binary", "L": "bool", "N": "number", "NC": "fixed string", "NVC": "string", "RV": "version",
      "NT": "memo", "T": "text", "I": "image", "DT": "datetime", "V8": "hidden version", "VB": "var binary"}


class XmlError(Exception):
    pass


ENT = {"amp": "&", "lt": "<", "gt": ">", "apos": "'", "quot": '"'}


def unescape(s):
    def rep(m):
        e = m.group(1)
        if e.startswith("#x"):
            return chr(int(e[2:], 16))
        if e.startswith("#"):
            return chr(int(e[1:]))
        if e not in ENT:
            raise XmlError("unknown entity " + e)
        return ENT[e]
    if "&" not in s:
        return s
    return re.sub(r"&([^;\s]*);", rep, s)


def parse(data):
    """bytes -> (table name, [field attr dict], [[(field, text or None)]]).  Texts are the raw character data
    (no newline normalisation); well-formedness is checked with expat."""
    if not data.startswith(b"\xef\xbb\xbf"):
        raise XmlError("no BOM")
    try:
        ET.fromstring(data)
    except ET.ParseError as e:
        raise XmlError("not well-formed: %s" % e)
    s = data[3:].decode("utf-8")
    tok = re.compile(r"<!--.*?-->|<\?.*?\?>|<[^>]*>|[^<]+", re.S)
    name = None
    fields = []
    records = []
    stack = []
    cur = None
    text = None
    for m in tok.finditer(s):
        t = m.group(0)
        if t.startswith("<!--") or t.startswith("<?"):
            continue
        if t.startswith("</"):
            n = t[2:-1].strip()
            if stack.pop() != n:
                raise XmlError("mismatched tag " + n)
            if len(stack) == 3 and stack[1] == "Records":
                cur.append((n, unescape("".join(text))))
                text = None
            elif len(stack) == 2 and n == "Record":
                records.append(cur)
                cur = None
            continue
        if t.startswith("<"):
            empty = t.endswith("/>")
            body = t[1:-2] if empty else t[1:-1]
            m2 = re.match(r"(\S+)(.*)", body, re.S)
            n = m2.group(1)
            attrs = {k: unescape(v) for k, v in re.findall(r'(\w+)\s*=\s*"([^"]*)"', m2.group(2))}
            path = stack + [n]
            if path == ["Table"]:
                name = attrs.get("Name")
            elif path[:2] == ["Table", "Fields"] and len(path) == 3:
                if n != "Field":
                    raise XmlError("unexpected " + n)
                fields.append(attrs)
            elif path[:2] == ["Table", "Records"] and len(path) == 3:
                if n != "Record":
                    raise XmlError("unexpected " + n)
                cur = []
            elif path[:2] == ["Table", "Records"] and len(path) == 4:
                if empty:
                    cur.append((n, None))
                else:
                    text = []
            elif len(path) > 4:
                raise XmlError("unexpected nesting " + "/".join(path))
            if not empty:
                stack.append(n)
            elif path[-1] == "Record":
                records.append(cur)
                cur = None
            continue
        if text is not None:
            text.append(t)
        elif t.strip():
            raise XmlError("unexpected text %r" % t[:40])
    return name, fields, records


def guid_1c(b):
    h = b.hex()
    return "%s-%s-%s-%s-%s" % (h[24:32], h[20:24], h[16:20], h[0:4], h[4:16])


def norm_number(v):
    neg = v.startswith("-")
    ip, _, fp = v.lstrip("-").partition(".")
    ip = ip.lstrip("0") or "0"
    fp = fp.rstrip("0")
    s = ip + ("." + fp if fp else "")
    return ("-" if neg else "") + s


def is_guid_field(f):
    n = f.name.upper()
    return f.type == "B" and f.length == 16 and (n.endswith("REF") or n.endswith("ID"))


def field_matches(f, v, text):
    """does the exported text denote the stored value?"""
    t = f.type
    if v is None:
        return text is None
    if text is None:
        return False
    if t == "B":
        if is_guid_field(f):
            return text == guid_1c(v)
        return text == v.hex()
    if t == "VB":
        return text == v.hex()
    if t == "L":
        return text == ("true" if v else "false")
    if t == "N":
        return text == norm_number(v)
    if t == "NC":
        e = v.encode("utf-16-le")
        want = (e + b" \0" * (f.length - len(e) // 2)).decode("utf-16-le")
        return text == want
    if t in ("NVC", "NT", "T"):
        return text == v
    if t in ("RV", "V8"):
        return text == ":".join(str(x) for x in v)
    if t == "I":
        try:
            return base64.b64decode(re.sub(r"\s", "", text), validate=True) == v
        except Exception:
            return False
    if t == "DT":
        m = re.fullmatch(r"(\d+)-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)", text)
        return bool(m) and tuple(int(x) for x in m.groups()) == tuple(v)
    raise ValueError(t)


def expected_order(t):
    prim = [i for i in t.indexes if i.primary]
    if prim:
        return prim[0].order if prim[0].order is not None else t.live()
    return t.live()


def compare(t, data, order=None, skip_types=()):
    """None when the file equals the model, otherwise a message"""
    try:
        name, fields, records = parse(data)
    except (XmlError, UnicodeDecodeError) as e:
        return "XML of table %s: %s" % (t.name, e)
    if name != t.name:
        return "table name %r instead of %r" % (name, t.name)
    fs = t.all_fields()
    if [a.get("Name") for a in fields] != [f.name for f in fs]:
        return "%s: field list %r instead of %r" % (t.name, [a.get("Name") for a in fields], [f.name for f in fs])
    for a, f in zip(fields, fs):
        want = {"Name": f.name, "Type": PT[f.type], "Length": str(f.length), "Precision": str(f.prec),
                "NotNull": "false" if f.null else "true"}
        if a != want:
            return "%s.%s: described as %r instead of %r" % (t.name, f.name, a, want)
    order = expected_order(t) if order is None else order
    if len(records) != len(order):
        return "%s: %d records exported, %d are stored" % (t.name, len(records), len(order))
    for k, (recno, rec) in enumerate(zip(order, records)):
        if [n for n, _ in rec] != [f.name for f in fs]:
            return "%s record %d: elements %r" % (t.name, recno, [n for n, _ in rec])
        row = t.rows[recno]
        for f, (n, text) in zip(fs, rec):
            if f.type in skip_types:
                continue
            if not field_matches(f, row[f.name], text):
                return "%s position %d (record %d) field %s %s(%d,%d): exported %r, stored %r" % (
                    t.name, k, recno, f.name, f.type, f.length, f.prec,
                    None if text is None else text[:200], repr(row[f.name])[:200])
    return None
