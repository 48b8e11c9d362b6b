"""Encodings of input sequences (spec/Battery.tla), shared by driver and recorder."""


def raw(bits):
    return {"k": "raw", "b": [int(b) for b in bits]}


def rle(runs):
    return {"k": "rle", "r": [[int(b), int(n)] for b, n in runs]}


def blk(dictionary, indices, tail=()):
    """dictionary: blocks of one size, indices: from 1"""
    return {"k": "blk", "s": len(dictionary[0]), "d": [list(d) for d in dictionary],
            "i": list(indices), "t": list(tail)}


def decode(enc):
    if enc["k"] == "raw":
        return list(enc["b"])
    if enc["k"] == "rle":
        out = []
        for b, n in enc["r"]:
            out += [b] * n
        return out
    out = []
    for i in enc["i"]:
        out += enc["d"][i - 1]
    return out + list(enc["t"])


def length(enc):
    if enc["k"] == "raw":
        return len(enc["b"])
    if enc["k"] == "rle":
        return sum(n for _, n in enc["r"])
    return len(enc["i"]) * enc["s"] + len(enc["t"])


def make_sequence(bits, rep):
    """The sequence to pass for bits, and its heads face"""
    if not rep:
        return list(bits), 1
    import represent
    return represent.make(bits, rep)
