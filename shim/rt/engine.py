"""An SQL engine behind a pipe: sqlite with MySQL's INSERT ... SET and NOW()."""
import json, re, sqlite3, sys
from decimal import Decimal

OFF = 10**15


def enc(v):
    if v is None:
        return None
    if isinstance(v, bool):
        return {"i": str(int(v))}
    if isinstance(v, int):
        return {"i": str(v)}
    if isinstance(v, float):
        return {"f": repr(v)}
    if isinstance(v, bytes):
        return {"b": v.hex()}
    if v.startswith("\x01D"):
        return {"d": str(int(v[2:]) - OFF)}
    return {"s": v}


def dec(a):
    if a is None:
        return None
    (k, v), = a.items()
    if k == "i":
        return int(v)
    if k == "f":
        return float(v)
    if k == "d":
        return "\x01D%020d" % (int(v) + OFF)
    if k == "b":
        return bytes.fromhex(v)
    return v


def num(a, b):
    try:
        x, y = Decimal(a), Decimal(b)
    except Exception:
        x, y = a, b
    return (x > y) - (x < y)


def parts(s, sep):
    """Splits at sep outside quotes and brackets."""
    out, cur, depth, q = [], "", 0, ""
    for ch in s:
        if q:
            if ch == q:
                q = ""
        elif ch in "'\"`":
            q = ch
        elif ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
        elif ch == sep and depth == 0:
            out.append(cur)
            cur = ""
            continue
        cur += ch
    return out + [cur]


def translate(q):
    m = re.match(r"\s*INSERT\s+INTO\s+(\S+)\s+SET\s+(.*)$", q, re.S | re.I)
    if not m:
        return q
    names, exprs = [], []
    for p in parts(m.group(2), ","):
        l = parts(p, "=")
        if len(l) < 2:
            raise sqlite3.OperationalError("bad assignment in INSERT: " + p)
        names.append(l[0].strip())
        exprs.append("=".join(l[1:]))
    return "INSERT INTO %s (%s) VALUES (%s)" % (m.group(1), ", ".join(names), ", ".join(exprs))


db = None
now = 0


def NOW():
    global now
    now += 1
    return "\x01D%020d" % (1800000000000 + now + OFF)


def reset():
    global db, now
    if db is not None:
        db.close()
    now = 0
    db = sqlite3.connect(":memory:", isolation_level=None)
    db.execute("PRAGMA case_sensitive_like=ON")
    db.create_collation("NUM", num)
    db.create_function("NOW", 0, NOW)


def run(o):
    if o["op"] == "reset":
        reset()
        return {}
    a = [dec(x) for x in o.get("a") or []]
    q = translate(o["q"])
    cur = db.execute(q, a)
    if cur.description is None:
        return {"n": cur.rowcount, "id": cur.lastrowid or 0}
    return {"cols": [d[0] for d in cur.description], "rows": [[enc(v) for v in r] for r in cur.fetchall()]}


for line in sys.stdin:
    try:
        res = run(json.loads(line))
    except Exception as e:
        res = {"err": "%s: %s" % (type(e).__name__, e)}
    sys.stdout.write(json.dumps(res) + "\n")
    sys.stdout.flush()
