"""Python definitions of the standard-library helpers the engine executes rather than treats as opaque: their calls are
analysed as calls of these functions (the file is parsed, never imported)."""


def count(start=0, step=1):
    n = start
    while True:
        yield n
        n = n + step


def cycle(it):
    items = list(it)
    while items:
        for x in items:
            yield x


def repeat(x, times=None):
    if times is None:
        while True:
            yield x
    for _ in range(times):
        yield x


def chain(*its):
    for it in its:
        for x in it:
            yield x


def chain_from_iterable(its):
    for it in its:
        for x in it:
            yield x


def islice(it, *bounds):
    start, stop, step = 0, None, 1
    if len(bounds) == 1:
        stop = bounds[0]
    else:
        start = bounds[0] or 0
        stop = bounds[1]
        if len(bounds) == 3:
            step = bounds[2] or 1
    if stop is not None and stop <= start:
        return
    n = 0
    for x in it:
        if n >= start and (n - start) % step == 0:
            yield x
        n = n + 1
        if stop is not None and n >= stop:
            return


def takewhile(pred, it):
    for x in it:
        if not pred(x):
            return
        yield x


def dropwhile(pred, it):
    dropping = True
    for x in it:
        if dropping and pred(x):
            continue
        dropping = False
        yield x


def filterfalse(pred, it):
    for x in it:
        if not (pred(x) if pred is not None else x):
            yield x


def filter_(pred, it):
    for x in it:
        if pred(x) if pred is not None else x:
            yield x


def map_(f, it, *more):
    if more:
        for xs in zip(it, *more):
            yield f(*xs)
    else:
        for x in it:
            yield f(x)


def starmap(f, it):
    for xs in it:
        yield f(*xs)


def accumulate(it, func=None, initial=None):
    total = initial
    first = initial is None
    if not first:
        yield total
    for x in it:
        if first:
            total = x
            first = False
        elif func is None:
            total = total + x
        else:
            total = func(total, x)
        yield total


def pairwise(it):
    prev = None
    first = True
    for x in it:
        if not first:
            yield (prev, x)
        first = False
        prev = x


def zip_longest(*its, fillvalue=None):
    lists = [list(it) for it in its]
    for i in range(max([len(x) for x in lists])):
        yield tuple([x[i] if i < len(x) else fillvalue for x in lists])


def product(*its):
    rows = [()]
    for it in its:
        items = list(it)
        rows = [row + (x,) for row in rows for x in items]
    for row in rows:
        yield row


def groupby(it, key=None):
    cur = None
    group = []
    for x in it:
        k = x if key is None else key(x)
        if group and k != cur:
            yield cur, group
            group = []
        cur = k
        group.append(x)
    if group:
        yield cur, group


def reduce(f, it, *initial):
    first = not initial
    acc = initial[0] if initial else None
    for x in it:
        if first:
            acc = x
            first = False
        else:
            acc = f(acc, x)
    if first:
        raise TypeError("reduce() of empty iterable with no initial value")
    return acc


def nullcontext(enter_result=None):
    yield enter_result


def closing(thing):
    try:
        yield thing
    finally:
        thing.close()


class ExitStack:
    def __init__(self):
        self.cbs = []

    def callback(self, cb, *args, **kwds):
        self.cbs.append((cb, args, kwds))
        return cb

    def enter_context(self, cm):
        r = cm.__enter__()
        self.cbs.append((cm.__exit__, (None, None, None), {}))
        return r

    def push(self, cm):
        self.cbs.append((cm.__exit__, (None, None, None), {}))

    def close(self):
        cbs = self.cbs
        self.cbs = []
        for cb, args, kwds in reversed(cbs):
            cb(*args, **kwds)

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()


def op_eq(a, b): return a == b
def op_ne(a, b): return a != b
def op_lt(a, b): return a < b
def op_le(a, b): return a <= b
def op_gt(a, b): return a > b
def op_ge(a, b): return a >= b
def op_add(a, b): return a + b
def op_sub(a, b): return a - b
def op_mul(a, b): return a * b
def op_mod(a, b): return a % b
def op_floordiv(a, b): return a // b
def op_truediv(a, b): return a / b
def op_and(a, b): return a & b
def op_or(a, b): return a | b
def op_xor(a, b): return a ^ b
def op_lshift(a, b): return a << b
def op_rshift(a, b): return a >> b
def op_neg(a): return -a
def op_not(a): return not a
def op_truth(a): return bool(a)
def op_is(a, b): return a is b
def op_is_not(a, b): return a is not b
def op_contains(a, b): return b in a
def op_getitem(a, b): return a[b]


def op_setitem(a, b, c):
    a[b] = c


def op_delitem(a, b):
    del a[b]


def op_itemgetter(*keys):
    if len(keys) == 1:
        return lambda o: o[keys[0]]
    return lambda o: tuple([o[k] for k in keys])


def _dotted(o, name):
    for part in name.split("."):
        o = getattr(o, part)
    return o


def op_attrgetter(*names):
    if len(names) == 1:
        return lambda o: _dotted(o, names[0])
    return lambda o: tuple([_dotted(o, n) for n in names])


def op_methodcaller(name, *args, **kwds):
    return lambda o: getattr(o, name)(*args, **kwds)


EXTERNAL = {
    "itertools.count": count, "itertools.cycle": cycle, "itertools.repeat": repeat, "itertools.chain": chain,
    "itertools.chain.from_iterable": chain_from_iterable, "itertools.islice": islice, "itertools.takewhile": takewhile,
    "itertools.dropwhile": dropwhile, "itertools.filterfalse": filterfalse, "itertools.starmap": starmap,
    "itertools.accumulate": accumulate, "itertools.pairwise": pairwise, "itertools.zip_longest": zip_longest,
    "itertools.product": product, "itertools.groupby": groupby, "builtins.map": map_, "builtins.filter": filter_,
    "functools.reduce": reduce, "contextlib.nullcontext": nullcontext, "contextlib.closing": closing,
    "contextlib.ExitStack": ExitStack,
    "operator.eq": op_eq, "operator.ne": op_ne, "operator.lt": op_lt, "operator.le": op_le, "operator.gt": op_gt,
    "operator.ge": op_ge, "operator.add": op_add, "operator.concat": op_add, "operator.iadd": op_add, "operator.sub": op_sub,
    "operator.mul": op_mul, "operator.mod": op_mod, "operator.floordiv": op_floordiv, "operator.truediv": op_truediv,
    "operator.and_": op_and, "operator.or_": op_or, "operator.ior": op_or, "operator.xor": op_xor, "operator.lshift": op_lshift,
    "operator.rshift": op_rshift, "operator.neg": op_neg, "operator.not_": op_not, "operator.truth": op_truth,
    "operator.is_": op_is, "operator.is_not": op_is_not, "operator.contains": op_contains, "operator.getitem": op_getitem,
    "operator.setitem": op_setitem, "operator.delitem": op_delitem, "operator.itemgetter": op_itemgetter,
    "operator.attrgetter": op_attrgetter, "operator.methodcaller": op_methodcaller,
}
