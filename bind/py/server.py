# Serves calls into the built ms_toollib module, one JSON batch per line. Argument 1: the directory holding ms_toollib.so.
import json, os, struct, sys, time
sys.path.insert(0, sys.argv[1])
import ms_toollib as m

def enc(v):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return {"f": struct.pack(">d", v).hex()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    return {"o": type(v).__name__}

def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if "t" in v:
            return tuple(dec(x) for x in v["t"])
        return struct.unpack(">d", bytes.fromhex(v["f"]))[0]
    return v

out = os.fdopen(os.dup(1), "w")
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)  # the library may print
os.dup2(null, 2)
for line in sys.stdin:
    objs = {}
    res = []
    for op, *r in json.loads(line):
        try:
            if op == "fn":
                v = getattr(m, r[0])(*dec(r[1]), **(r[2] if len(r) > 2 else {}))
            elif op == "sleep":
                time.sleep(r[0] / 1000)
                v = None
            elif op == "new":
                objs[r[1]] = getattr(m, r[0])(*dec(r[2]))
                v = None
            elif op == "call":
                v = getattr(objs[r[0]], r[1])(*dec(r[2]))
            elif op == "get":
                v = getattr(objs[r[0]], r[1])
            elif op == "set":
                setattr(objs[r[0]], r[1], dec(r[2]))
                v = None
            elif op == "sub":  # keep the object a call returns
                objs[r[3]] = getattr(objs[r[0]], r[1])(*dec(r[2]))
                v = None
            elif op == "subget":  # keep the object a property returns
                objs[r[2]] = getattr(objs[r[0]], r[1])
                v = None
            elif op == "item":
                v = objs[r[0]][r[1]]
                for k in r[2:]:
                    v = v[k]
            else:
                raise SystemError(op)
            res.append([0, enc(v)])
        except BaseException as e:
            res.append([1, type(e).__name__ + ": " + str(e)])
    objs = None
    out.write(json.dumps(res) + "\n")
    out.flush()
