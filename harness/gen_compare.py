"""Generates test programs and their variations; maps calls to the specification's operations."""
import copy, json, random

EXTRA = ["é", "ß", "中", "½", "²", "٣", "ø", "¤", "€", "…", "\u00a0", "\u2028", "É", "Ø"]
ALNUM = [c for c in EXTRA if c.isalnum()]
NUMERIC = [c for c in EXTRA if c.isnumeric()]

WORDS = ["a", "b", "ab", "foo", "x1", "1a", "Zed", "key", "value"]
NUMS = ["0", "1", "2", "12", "-3", "+2", "1.5", "0.50", "007", "3.125", "-0.5", "1."]
SYMS = [".", "-", "+", "*", "#", "|", "_", "?", "!", ":", "=", "(", ")", "+-", "--", "..", ".5", "-.5",
        "é", "½", "²", "中", "¤", "€", "\u00a0", "\u2028", "\x0b", "\x00", "\\", "\"", "'", "$x", "%d", "{y}", "\ud800", "\udc80", "\udcff"]
BLANKS = [" ", "  ", "\t", " \t "]
TITLES = ["one", "one", "\udc80", "\udc81 x", "two", "three", "a b", "one 2", "One", "one two", "1", "1.0", "one "]
KEYS = ["key", "k", "a=", "foo:", "# x", "Key", "key a", "  key", "# one"]
PREFIXES = [" * ", "- ", "", "+"]


def text(r, n=None, nl=0.0):
    n = n if n is not None else r.choice([1, 1, 2, 3, 4])
    out = []
    if r.random() < 0.2:
        # dense in token borders
        out = [r.choice("11..--+aa _") for _ in range(r.choice([2, 4, 6, 8]))]
        n = 0
    for k in range(n):
        q = r.random()
        if q < 0.45:
            out.append(r.choice(WORDS))
        elif q < 0.65:
            out.append(r.choice(NUMS))
        elif q < 0.8:
            out.append(r.choice(SYMS))
        else:
            out.append(r.choice(BLANKS))
        if r.random() < 0.6 and k + 1 < n:
            out.append(" ")
    if r.random() < nl:
        out.insert(r.randrange(len(out) + 1), "\n")
    return "".join(out)


def items(r):
    return [r.choice(["a", "b", "c", "1", "2", "a b", "x-1", "", "a", "b", "\udc80", "\udcff.txt"]) if r.random() < 0.9 else text(r)
            for _ in range(r.choice([0, 1, 2, 3, 3, 4]))]


def cols(r):
    n = r.choice([0, 1, 2, 3])
    k = r.choice([1, 2, 3])
    rv = []
    for c in range(k):
        kind = r.random()
        if kind < 0.5:
            cells = [r.choice(["a", "bb", "foo bar", "", "1.5", "x|y", " pad ", "n\nl", "w" * 70 + str(r.randrange(3)), "lo ng " * 8 + r.choice("ab")]) for _ in range(n)]
        else:
            cells = [r.choice([1, 22, 333, -4]) for _ in range(n)]
        rv.append({"name": ["x", "name", "col 2"][c], "cells": cells})
    return rv


def op(r, focus=None):
    q = r.random()
    if focus == "section" and q < 0.5:
        return section_op(r)
    if focus == "set" and q < 0.5:
        return set_op(r)
    if focus == "fail" and q < 0.4:
        return fail_op(r)
    k = r.choice(["t", "t", "tln", "tln", "tln", "i", "iln", "iln", "section", "section", "set", "set",
                  "fail", "float", "ms"])
    if k == "t":
        return {"op": "t", "x": text(r, nl=0.08)}
    if k == "tln":
        return {"op": "tln", "x": text(r, nl=0.05) if r.random() < 0.85 else "", "noarg": r.random() < 0.5}
    if k == "i":
        return {"op": "i", "x": text(r, nl=0.08)}
    if k == "iln":
        return {"op": "iln", "x": text(r, nl=0.05) if r.random() < 0.85 else ""}
    if k == "section":
        return section_op(r)
    if k == "set":
        return set_op(r)
    if k == "fail":
        return fail_op(r)
    if k == "float" and r.random() < 0.15:
        return {"op": "image", "file": r.choice(["x.png", "a b.jpg", "plot.2.png"]), "alt": r.choice([None, None, "a plot", ""]),
                "shared": r.random() < 0.7}
    if k == "float":
        return {"op": "ifloat", "value": r.choice([0, 1.5, -2.25, 1000.125, 7, 0.001]),
                "unit": r.choice([None, "ms", "%"])}
    took = r.choice([0.25, 1.5, 0.0, 3.0])
    return {"op": "tms", "took": took, "max": r.choice([None, 1000, 2000.0, 1e9, 0, 0.25])} if r.random() < .8 else {"op": "tms", "took": r.choice([0.0005, 0.0001]), "max": r.choice([0, 0.05, 0.3, 0.75])}


def section_op(r):
    k = r.choice(["h", "h", "h", "header", "anchor", "anchorln", "kv"])
    if k == "h":
        return {"op": "h", "level": r.choice([1, 2, 3, 4]), "x": r.choice(TITLES), "short": r.random() < 0.5}
    if k == "header":
        return {"op": "header", "x": r.choice(TITLES)}
    if k == "anchor":
        return {"op": "anchor", "x": r.choice(KEYS)}
    if k == "anchorln":
        return {"op": "anchorln", "x": r.choice(KEYS + TITLES)}
    return {"op": "kv", "x": r.choice(KEYS), "v": r.choice(WORDS + NUMS)}


def set_op(r):
    k = r.choice(["tset", "tset", "tlist", "tdf"])
    if k == "tset":
        return {"op": "tset", "items": items(r), "prefix": r.choice(PREFIXES[:1] * 4 + PREFIXES),
                "kind": r.choice(["list", "tuple", "gen"])}
    if k == "tlist":
        return {"op": "tlist", "items": items(r), "prefix": r.choice(PREFIXES[:1] * 3 + PREFIXES)}
    return {"op": "tdf", "cols": cols(r), "via": r.choice(["tdf", "ttable"])}


OBJS = [1, "a", [1, 2], [1, 2], 0, "", [], True, False, None, 1.0, 1.5, "1", "ab", {"a": 1}, {}, [[1], "a"]]
TYPES = {"int": int, "str": str, "list": list, "bool": bool, "float": float, "dict": dict, "NoneType": type(None), "object": object}


def truth(r, v):
    """what is taken for true, or for false"""
    return r.choice([True, True, 1, "x", [0], -0.5, "False", {"a": 0}] if v else [False, False, 0, "", [], None, 0.0, {}])


def members(r, obj):
    if isinstance(obj, str):
        return r.choice(["a", "b", "", "A", "ab", "ba"])
    return r.choice([1, 3, "a", "1", True, None, 2.0])


def must(r, obj):
    kind = r.choice(["equal", "be_a", "apply"] + (["contain"] if isinstance(obj, (list, str, dict)) else []))
    if kind == "equal":
        return {"kind": kind, "arg": r.choice(OBJS) if r.random() < 0.6 else obj}
    if kind == "contain":
        return {"kind": kind, "arg": members(r, obj)}
    if kind == "be_a":
        return {"kind": kind, "arg": r.choice(list(TYPES)) if r.random() < 0.6 else type(obj).__name__}
    return {"kind": kind, "arg": "be fine", "cond": truth(r, r.random() < 0.7)}


def fail_op(r):
    k = r.choice(["assertln", "assertln", "fail", "diff", "it", "tformat", "raise"])
    if k == "assertln":
        return {"op": "assertln", "cond": truth(r, r.random() < 0.6), "msg": r.choice(["", "", "bad", "not ok"])}
    if k == "it":
        obj = r.choice(OBJS)
        musts = [must(r, obj) for _ in range(r.choice([1, 2]))]
        rv = {"op": "it", "x": r.choice(TITLES), "obj": obj, "musts": musts}
        if obj == [1, 2] and r.random() < 0.5:
            rv["sub"] = {"title": r.choice(["first", "x y"]), "arg": r.choice([1, 1, 2])}
        return rv
    if k == "tformat":
        return {"op": "tformat", "value": r.choice([1, "x", [1, "a"], {"a": 1, "b": [2.5, None]}, {}, [], [True, None], None, {"x": {}}, [[]], list(range(12)) + ["z"], list(range(13))])}
    if k == "raise":
        if r.random() < 0.5:
            return {"op": "raise", "kind": r.choice(["value", "key", "exit"]), "x": r.choice(["boom", "no 1"])}
        return {"op": "fail"}
    return {"op": k}


def program(r, focus=None, n=None):
    n = n if n is not None else r.choice([1, 2, 3, 4, 5, 6, 8])
    if r.random() < 0.01:
        return []
    ops = [op(r, focus) for _ in range(n)]
    for k, o in enumerate(ops):
        if o["op"] == "raise":
            ops = ops[:k + 1]
            break
    return ops


def near(r, x):
    """almost the same text: another spelling of one of its words, numbers, blanks or symbols"""
    import re
    toks = [t for t in re.split(r"([+-]?\d+(?:\.\d+)?|[A-Za-z]+|[ \t]+)", x) if t]
    if not toks:
        return r.choice([" ", "0", "\t"])
    k = r.randrange(len(toks))
    t = toks[k]
    if re.fullmatch(r"[+-]?\d+(\.\d+)?", t):
        num = t.lstrip("+-")
        sign = t[:len(t) - len(num)]
        c = [sign + "0" + num, num if sign else "+" + num, "-" + num, t + "0" if "." in t else t + ".0",
             t[:-1] + str((int(t[-1]) + 1) % 10), t + "0000001" if "." in t else t + "0"]
        t = r.choice(c)
    elif t.isalpha() and t.isascii():
        t = r.choice([t.swapcase(), t.capitalize(), t + t[-1], t[:-1], t[::-1], t + "s", t.replace("a", "é")])
    elif t.strip() == "":
        t = r.choice([t + " ", t[:-1], "\t", "\u00a0", ""])
    else:
        t = r.choice([t + t, "", t[::-1], t + " ", " " + t])
    toks[k] = t
    rv = "".join(toks)
    if r.random() < 0.12:
        rv = r.choice([rv + " ", " " + rv, rv.strip(), rv + "\n"])
    return rv


def sections(r):
    """sections whose titles are easily mistaken for each other: [[calls of a section]]"""
    base = r.choice(TITLES)
    pool = [base, near(r, base).replace("\n", ""), base.swapcase(), base + " x", " " + base, "other", base]
    kind = r.choice(["h", "h", "header", "anchorln", "kv", "anchor"])
    rv = []
    for k in range(r.choice([2, 2, 3, 4])):
        t = r.choice(pool)
        if kind == "h":
            sec = [{"op": "h", "level": r.choice([1, 1, 2]), "x": t, "short": False}]
        elif kind == "kv":
            sec = [{"op": "kv", "x": t + "=", "v": r.choice(WORDS + NUMS)}]
        elif kind == "anchor":
            sec = [{"op": "anchor", "x": t}, {"op": "tln", "x": r.choice(["", " v", ":" + str(k)]), "noarg": False}]
        else:
            sec = [{"op": kind, "x": t}]
        for _ in range(r.choice([0, 1, 1, 2])):
            sec.append({"op": r.choice(["tln", "tln", "iln"]), "x": f"{r.choice(WORDS)} {k}", "noarg": False})
        rv.append(sec)
    return rv


def rearranged(r, secs):
    secs = copy.deepcopy(secs)
    r.shuffle(secs)
    q = r.random()
    if q < 0.25:
        secs.pop()
    elif q < 0.35:
        secs.append(copy.deepcopy(r.choice(secs)))
    ops = [o for s in secs for o in s]
    for k, o in list(enumerate(ops))[::-1]:
        if o["op"] == "iln" and r.random() < 0.4:
            o["x"] = "w " + o["x"][-1]
        elif o["op"] == "iln" and k + 1 < len(ops) and ops[k + 1]["op"] != "tln" and r.random() < 0.3:
            ops[k:k] = [copy.deepcopy(o)]
    if ops and r.random() < 0.4:
        k = r.randrange(len(ops))
        ops[k] = mutate_op(r, ops[k])
    return ops


def mutate_op(r, o):
    """a variation of one call"""
    o = copy.deepcopy(o)
    k = o["op"]
    if k in ("t", "tln", "i", "iln", "header", "anchor", "anchorln"):
        q = r.random()
        if q < 0.3:
            o["x"] = near(r, o["x"])
        elif q < 0.4:
            o["x"] = text(r)
        elif q < 0.45 and o["x"]:
            c = r.randrange(len(o["x"]))
            o["x"] = o["x"][:c] + o["x"][c + 1:]
        elif q < 0.6:
            c = r.randrange(len(o["x"]) + 1)
            o["x"] = o["x"][:c] + r.choice(["a", "1", ".", " ", "\n", "-"]) + o["x"][c:]
        elif q < 0.7:
            o["x"] = o["x"] + r.choice(["a", " b", "1", ".5", " "])
        elif q < 0.8:
            o["x"] = o["x"].swapcase()
        elif k in ("t", "tln", "i", "iln"):
            o["op"] = {"t": "i", "i": "t", "tln": "iln", "iln": "tln"}[k]
        else:
            o["x"] = r.choice(TITLES + KEYS)
    elif k == "h":
        if r.random() < 0.5:
            o["x"] = r.choice(TITLES)
        else:
            o["level"] = r.choice([1, 2, 3, 4])
    elif k == "kv":
        if r.random() < 0.6:
            o["v"] = r.choice(WORDS + NUMS)
        else:
            o["x"] = r.choice(KEYS)
    elif k in ("tset", "tlist"):
        q = r.random()
        if q < 0.35:
            r.shuffle(o["items"])
        elif q < 0.55 and o["items"]:
            o["items"].pop(r.randrange(len(o["items"])))
        elif q < 0.75:
            o["items"].insert(r.randrange(len(o["items"]) + 1), r.choice(["a", "d", "1", "new"]))
        elif q < 0.85:
            o["items"] = []
        elif o["items"] and q < 0.95:
            j = r.randrange(len(o["items"]))
            o["items"][j] = r.choice([near(r, o["items"][j]).replace("\n", " "), r.choice(o["items"])])
        else:
            o["items"] = items(r)
    elif k == "tdf":
        cs = o["cols"]
        c = r.choice(cs)
        if c["cells"] and r.random() < 0.7:
            j = r.randrange(len(c["cells"]))
            c["cells"][j] = r.choice(["a", "bb", "zz", ""]) if isinstance(c["cells"][j], str) else r.choice([1, 9, 44])
        elif r.random() < 0.5:
            for c in cs:
                c["cells"] = c["cells"][:-1]
        else:
            o["cols"] = cols(r)
    elif k == "assertln":
        o["cond"] = truth(r, not o["cond"])
    elif k == "ifloat":
        o["value"] = r.choice([0, 2.5, -7.125, 10.0])
    elif k == "tms":
        o["took"] = r.choice([0.5, 2.0, 4.0])
    elif k == "it":
        o["obj"] = r.choice(OBJS)
        o["musts"] = [must(r, o["obj"]) if m["kind"] == "contain" else m for m in o["musts"]]
        if o["obj"] != [1, 2]:
            o.pop("sub", None)
    elif k == "raise":
        o["x"] = "other"
    elif k == "tformat":
        o["value"] = r.choice([1, "x", [1.5, "a"], {"a": "1", "b": [2.5, None]}, [1, "a"], {"x": []}, {}, True, list(range(13)), {"b": [2.5, None], "a": 1}])
    return o


def variation(r, ops, focus=None):
    ops = copy.deepcopy(ops)
    q = r.random()
    if q < 0.12:
        return ops
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        q = r.random()
        n = len(ops)
        if n and q < 0.5:
            k = r.randrange(n)
            ops[k] = mutate_op(r, ops[k])
        elif n and q < 0.62:
            ops.pop(r.randrange(n))
        elif q < 0.74:
            ops.insert(r.randrange(n + 1), op(r, focus))
        elif n > 1 and q < 0.84:
            a = r.randrange(n - 1)
            ops[a], ops[a + 1] = ops[a + 1], ops[a]
        elif n > 2:
            # move a block (e.g. a section) elsewhere
            a = r.randrange(n)
            b = r.randrange(a, n) + 1
            blk = ops[a:b]
            del ops[a:b]
            p = r.randrange(len(ops) + 1)
            ops[p:p] = blk
    for k, o in enumerate(ops):
        if o["op"] == "raise":
            ops = ops[:k + 1]
            break
    return ops


def same_shape(r, x):
    """another ignored text with as many tokens as x: words and numbers are replaced in place"""
    out = []
    k = 0
    while k < len(x):
        c = x[k]
        if c.isascii() and c.isalpha() and (k == 0 or not x[k - 1].isalnum()):
            e = k
            while e < len(x) and x[e].isascii() and x[e].isalpha():
                e += 1
            if e == len(x) or not x[e].isalnum():
                out.append(r.choice(["q", "other", "Zz"]))
            else:
                out.append(x[k:e])
            k = e
        elif c in "0123456789" and (k == 0 or (not x[k - 1].isalnum() and x[k - 1] not in "+-.")):
            e = k
            while e < len(x) and x[e] in "0123456789":
                e += 1
            out.append(r.choice(["5", "81", "900"]))
            k = e
        else:
            out.append(c)
            k += 1
    return "".join(out)


def ignored_variation(r, ops):
    """changes only ignored text, without shifting tested text"""
    ops = copy.deepcopy(ops)
    for o in ops:
        if o["op"] in ("i", "iln"):
            o["x"] = same_shape(r, o["x"])
        elif o["op"] == "tms" and not over(o):
            o["took"] = r.choice([0.25, 0.5, 0.75])
        elif o["op"] == "ifloat":
            o["value"] = r.choice([1, 5.5, 22.125])
    return ops


def over(o):
    return o["max"] is not None and 1000 * o["took"] > o["max"]


def edit_snapshot(r, snap):
    ls = snap.split("\n")[:-1]
    q = r.random()
    if q < 0.04:
        return ""
    if q < 0.08:
        return snap[:-1]
    for _ in range(r.choice([1, 1, 2])):
        q = r.random()
        n = len(ls)
        if n and q < 0.25:
            ls.pop(r.randrange(n))
        elif q < 0.45:
            ls.insert(r.randrange(n + 1), r.choice(ls + ["", "# one", " * a", "key a", text(r)]).replace("\n", " "))
        elif n > 1 and q < 0.6:
            a, b = r.randrange(n), r.randrange(n)
            ls[a], ls[b] = ls[b], ls[a]
        elif n:
            k = r.randrange(n)
            c = r.randrange(len(ls[k]) + 1)
            if r.random() < 0.4:
                ls[k] = near(r, ls[k]).replace("\n", " ")
            elif r.random() < 0.5 and ls[k]:
                ls[k] = ls[k][:c] + ls[k][c + 1:]
            else:
                ls[k] = ls[k][:c] + r.choice(["a", "1", ".", " ", "x"]) + ls[k][c:]
    return written("".join(l + "\n" for l in ls))


def big(r, kind):
    """a long line, many lines, a large set or table, and the same with a difference far behind: [snapshot, calls]"""
    tln = lambda x: {"op": "tln", "x": x, "noarg": False}
    at = lambda n: r.randrange(max(0, n - 4), n) if r.random() < 0.7 else r.randrange(n)
    if kind == "line":
        toks = [r.choice(WORDS + NUMS) or "a" for _ in range(r.choice([30, 60, 120]))]
        if r.random() < 0.3:
            toks = [r.choice("ab") * r.choice([100, 300, 1100])]
        new = list(toks)
        k = at(len(new))
        q = r.random()
        if q < 0.4:
            new[k] = new[k][:-1] + ("b" if new[k][-1:] != "b" else "c")
        elif q < 0.5:
            new.pop(k)
        elif q < 0.6:
            new.append("x")
        old, ops = [" ".join(toks), "end"], [tln(" ".join(new)), tln("end")]
        if r.random() < 0.3:
            # not all of it is tested
            ops[0:1] = [{"op": "t", "x": " ".join(new)}, {"op": "iln", "x": " 12 s"}]
            old[0] += " 9 s"
        return "".join(x + "\n" for x in old), ops
    if kind == "set":
        items = [f"item {k}" for k in range(r.choice([20, 45, 70]))]
        new = r.sample(items, len(items))
        if r.random() < 0.5:
            new[at(len(new))] = r.choice(["item 1", "item 2", "other"])
        return "".join(f" * {x}\n" for x in items) + "end\n", [
            {"op": "tset", "items": new, "prefix": " * ", "kind": "list"}, tln("end")]
    n = r.choice([60, 120, 200])
    old = [f"# part {k // 10}" if k % 10 == 0 else r.choice(["a", "b 1", ""]) + f" {k}" for k in range(n)]
    new = list(old)
    q = r.random()
    k = at(n)
    if q < 0.3:
        new[k] = new[k] + "1"
    elif q < 0.4:
        new.pop(k)
    elif q < 0.5:
        new.insert(k, "new")
    elif q < 0.7 and kind == "sections":
        parts = [new[k:k + 10] for k in range(0, n, 10)]
        new = [x for p in r.sample(parts, len(parts)) for x in p]
    return "".join(x + "\n" for x in old), [
        {"op": "header", "x": x} if x.startswith("# ") and kind == "sections" else tln(x) for x in new]


def written(v):
    """what the output can hold of a text"""
    if isinstance(v, str):
        return v.encode("utf-8", "backslashreplace").decode()
    if isinstance(v, list):
        return [written(x) for x in v]
    if isinstance(v, dict):
        return {k: written(x) for k, x in v.items()}
    return v


def spec_ops(o, case):
    """the operations of the specification that a call amounts to, in what can be written"""
    return [written(x) for x in spec_ops_(o, case)]


def spec_ops_(o, case):
    """the operations of the specification that a call amounts to"""
    if o["op"] == "it" and o.get("sub"):
        u = o["sub"]
        return [spec_op(o), spec_op({"op": "it", "x": o["x"] + "." + u["title"], "obj": o["obj"][0],
                                     "musts": [{"kind": "equal", "arg": u["arg"]}]})]
    if o["op"] == "image":
        alt = o["file"].rsplit(".", 1)[0] if o["alt"] is None else o["alt"]
        return [{"op": "tln", "x": f"![{alt}]({'shared' if o['shared'] else case}/{o['file']})"}]
    return [spec_op(o)]


def spec_op(o):
    """the call as an operation of the specification"""
    k = o["op"]
    if k in ("t", "tln", "i", "iln", "header", "anchor", "anchorln"):
        return {"op": k, "x": o["x"]}
    if k == "h":
        return {"op": k, "x": o["x"], "level": o["level"]}
    if k == "kv":
        return {"op": k, "x": o["x"], "v": o["v"]}
    if k in ("tset", "tlist"):
        return {"op": k, "items": o["items"], "prefix": o["prefix"]}
    if k == "tdf":
        return {"op": k, "cols": [{"name": c["name"], "cells": [str(x) for x in c["cells"]]} for c in o["cols"]]}
    if k == "assertln":
        return {"op": k, "cond": bool(o["cond"]), "msg": o["msg"]}
    if k == "ifloat":
        return {"op": k, "x": f"{o['value']:.3f}", "post": "" if o["unit"] is None else " " + o["unit"]}
    if k == "tms":
        ms = 1000 * o["took"]
        mx = o["max"] if o["max"] is not None else 0
        return {"op": k, "over": over(o), "ms": f"{ms:.3f}",
                "x": f"{ms:.2f} ms > max {mx:.2f} ms! (failed)"}
    if k == "it":
        ms = []
        for m in o["musts"]:
            obj = o["obj"]
            if m["kind"] == "equal":
                ms.append({"title": f"equal {m['arg']}", "cond": obj == m["arg"], "msg": ""})
            elif m["kind"] == "contain":
                ms.append({"title": f"have {m['arg']}", "cond": m["arg"] in obj, "msg": ""})
            elif m["kind"] == "be_a":
                typ = TYPES[m["arg"]]
                ms.append({"title": f"be a {typ}", "cond": type(obj) == typ, "msg": f"was {type(obj)}"})
            else:
                ms.append({"title": m["arg"], "cond": bool(m["cond"]), "msg": ""})
        return {"op": k, "x": o["x"], "musts": ms}
    if k == "tformat":
        return {"op": "tln", "x": json.dumps(value_format(o["value"]), indent=2)}
    if k == "raise":
        return {"op": k, "x": o["x"]}
    return {"op": k}


def value_format(v):
    if type(v) is list:
        return [value_format(x) for x in v]
    if type(v) is dict:
        return {k: value_format(x) for k, x in v.items()}
    return type(v).__name__


def snap_lines(snap):
    """the lines of a snapshot text"""
    ls = snap.split("\n")
    return ls[:-1] if ls[-1] == "" else ls
