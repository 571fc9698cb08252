"""Drives the memory caches."""


def drive(jobs):
    """jobs: [{kind, size, ops: [[op, k, v]]}]; values are objects of their own, results are their names"""
    from booktest.cache import LruCache, NoCache
    rv = []
    for a in jobs:
        cache = NoCache() if a["kind"] == "none" else LruCache(a["size"])
        values, names = {}, {}

        def read(k):
            try:
                x = cache[k]
            except KeyError:
                return "none"
            return "none" if x is None else names.get(id(x), "?")
        ops = []
        for op, k, v in a["ops"]:
            got = ""
            if op == "set":
                values[v] = [v] if a.get("full", True) else []
                names[id(values[v])] = v
                cache[k] = values[v]
            else:
                got = read(k)
            ops.append([got, len(cache)])
        keys = sorted({o[1] for o in a["ops"]})
        held = [k for k in keys if k in cache]
        rv.append({"ops": ops, "held": [[k, read(k)] for k in held], "extra": [k for k in keys if k not in held and read(k) != "none"]})
    return rv
