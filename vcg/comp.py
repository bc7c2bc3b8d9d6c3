"""comprehensions over sequences of unknown length, written out as loops"""


def list_loop(it, f, cond):
    out = []
    for x in it:
        if cond is None or cond(x):
            out.append(f(x))
    return out


def dict_loop(it, f, cond):
    out = {}
    for x in it:
        if cond is None or cond(x):
            key, val = f(x)
            out[key] = val
    return out
