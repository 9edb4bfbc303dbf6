"""Runs recorded steps with the Python module and writes one result line per step.
usage: driver.py <directory of the package> <steps> <results>"""
import os, sys, threading
from types import SimpleNamespace

pkg, steps, results = sys.argv[1:]
sys.path.insert(0, pkg)
import chanoma
from chanoma import characters_set

h = lambda s: bytes.fromhex(s).decode("utf-8")
opt = lambda s: None if s == "-" else h(s)
flag = lambda s: {"0": False, "1": True}[s]
objs = {}
out = open(results, "w")


def hexs(s):
    assert type(s) is str, type(s)
    return s.encode("utf-8").hex()


def corr(spec):
    """set:Name | items:from=to,from=to | duck:..."""
    kind, _, rest = spec.partition(":")
    if kind == "set":
        return getattr(characters_set, rest)(), None
    if kind == "part":
        n, lo, hi = rest.split(":")
        return chanoma.Correspondence(getattr(characters_set, n)().items[int(lo):int(hi)]), None
    items = [chanoma.Item(*map(h, p.split("="))) for p in rest.split(",") if p]
    if kind == "duck":
        return SimpleNamespace(items=items), items
    return chanoma.Correspondence(items), items


def step(f):
    op = f[0]
    if op == "env":
        os.environ["HOME"] = h(f[1])
        os.chdir(h(f[2]))
        if f[3] == "-":
            os.environ.pop("CHANOMARC", None)
        else:
            os.environ["CHANOMARC"] = h(f[3])
        objs.clear()
        return "ok"
    if op == "table":
        _, name, style, preset, csv, yaml = f
        if style == "pos":
            t = chanoma.Table(flag(preset), opt(csv), opt(yaml))
        else:
            k = {}
            if style == "all" or preset == "1":
                k["preset"] = flag(preset)
            if style == "all" or csv != "-":
                k["csv"] = opt(csv)
            if style == "all" or yaml != "-":
                k["yaml"] = opt(yaml)
            t = chanoma.Table(**k)
        objs[name] = t
        return "ok"
    if op == "add":
        _, name, spec, mutate = f
        c, items = corr(spec)
        objs[name].add(c)
        if mutate == "1" and items is not None:
            items.clear()
            items.append(chanoma.Item("a", "!"))
        return "ok"
    if op == "new":
        _, name, style, table, neologdn, preset, rc, config = f
        t = None if table == "-" else objs[table]
        if style == "pos":
            c = chanoma.Chanoma(t, flag(neologdn), flag(preset), flag(rc), opt(config))
        else:
            k = {}
            if style == "all" or t is not None:
                k["table"] = t
            for n, v in (("neologdn", neologdn), ("preset", preset), ("rc", rc)):
                if style == "all" or v == "1":
                    k[n] = flag(v)
            if style == "all" or config != "-":
                k["configfile"] = opt(config)
            c = chanoma.Chanoma(**k)
        objs[name] = c
        return "ok"
    if op == "norm":
        return "ok " + hexs(objs[f[1]].normalize(h(f[2])))
    if op == "bad":
        what = [None, 5, SimpleNamespace(things=[]), SimpleNamespace(items=[chanoma.Item("a", "!"), ("b", "!")]), SimpleNamespace(items=[chanoma.Item("a", "!"), None])]
        try:
            objs[f[1]].add(what[int(f[2])])
        except Exception:
            return "refused"
        return "accepted"
    if op == "wrong":
        try:
            objs[f[1]].normalize([None, 5, b"a", "a\ud800", ["a"]][int(f[2])])
        except Exception:
            pass
        return "done"
    if op == "threads":
        cs = [objs[n] for n in f[1].split(",")]
        texts = [h(t) for t in f[2].split(",")]
        results = [None] * 4

        def work(k):
            results[k] = [[hexs(c.normalize(t)) for t in texts] for _ in range(20) for c in cs]

        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(results))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        first = results[0][: len(cs)]
        for r in results:
            if r is None or r != first * 20:
                return "results of threads differ: %s" % str(r)[:200]
        return "ok " + ",".join(x for r in first for x in r)
    if op == "len":
        return "ok %d" % len(corr(f[1])[0].items)
    raise AssertionError(op)


for line in open(steps):
    f = line.rstrip("\n").split("\t")
    try:
        r = step(f)
    except OSError as e:
        r = "OSError"
    except Exception as e:
        r = "exception %s %s" % (type(e).__name__, str(e).replace("\n", " ")[:200])
    except BaseException as e:
        r = "exception %s %s" % (type(e).__name__, str(e).replace("\n", " ")[:200])
    out.write(r + "\n")
    out.flush()
out.close()
