"""Names of the representations in represent.py."""

LABELS = ['01', '12', '-11', '-5-3', 'big', 'huge', '10_9', '0_-1', 'f01', 'f', 'fneg', 'inf', '-inf', 'tiny', 'bool', 'mixed', 'boolint', 'ab', 'HT', 's01', 's10_9', 'empty', 'prefix', 'case', 'uni', 'space', 'nanstr', 'bytes', 'ts', 'tz', 'td', 'date', 'dec', 'frac', 'tuple', 'markup', 'emoji', 'html']
GENERIC = ["list", "tuple", "objarray", "series", "objseries", "named", "from1", "revindex",
           "strindex", "dupindex", "negindex", "floatindex", "dateindex", "multiindex", "sliced",
           "sorted", "deque"]
NUMPY = ["ndarray", "strided", "reversedview", "readonly"]
CATS = ["category", "catrev", "categorical"]
# what each family of labels can be put into
FITS = {
    "01": GENERIC + NUMPY + CATS + ["Int64", "Int64arr", "UInt8", "boolean_", "sparse", "int8",
                                    "uint8", "uint64", "array", "index", "float32", "float16"],
    "12": GENERIC + NUMPY + CATS + ["Int64", "UInt8", "sparse", "uint8", "float32", "index"],
    "-11": GENERIC + NUMPY + CATS + ["Int64", "int8", "array", "sparse", "Float64"],
    "bool": GENERIC + NUMPY + CATS + ["boolean", "npbool", "sparse"],
    "f01": GENERIC + NUMPY + CATS + ["Float64", "float32", "float16", "sparse"],
    "f": GENERIC + NUMPY + CATS + ["Float64", "float32", "float16"],
    "ab": GENERIC + NUMPY + CATS + ["string", "index"],
    "s01": GENERIC + NUMPY + CATS + ["string"], "HT": GENERIC + CATS + ["string"],
    "ts": GENERIC + CATS + ["index"], "tz": GENERIC + CATS, "td": GENERIC + CATS,
    "tuple": ["objarray", "objseries", "series", "list"],
}


def containers_of(label):
    return [c for c in FITS.get(label, GENERIC) if not c.endswith("_")]


def all_reps():
    return [f"{la}/{c}" for la in LABELS for c in containers_of(la)]


