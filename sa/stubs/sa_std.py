"""standard library pieces written in the analysed subset"""


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return cached(maxsize)
    return cached


def cached(f):
    memo = {}

    def g(*a, **k):
        key = (a, tuple(sorted(k.items())))
        if key in memo:
            return memo[key]
        r = f(*a, **k)
        memo[key] = r
        return r
    return g


def cached_property(f):
    name = "_cached_" + f.__name__

    def g(self):
        if not hasattr(self, name):
            setattr(self, name, f(self))
        return getattr(self, name)
    return property(g)


class suppress(object):
    def __init__(self, *exc):
        self.exc = exc

    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.exc)


class nullcontext(object):
    def __init__(self, value=None):
        self.value = value

    def __enter__(self):
        return self.value

    def __exit__(self, *a):
        return False


class closing(object):
    def __init__(self, value):
        self.value = value

    def __enter__(self):
        return self.value

    def __exit__(self, *a):
        self.value.close()
        return False


class ExitStack(object):
    def __init__(self):
        self.todo = []

    def __enter__(self):
        return self

    def callback(self, f, *a, **k):
        self.todo.append((0, f, a, k))
        return f

    def push(self, f):
        self.todo.append((1, f, (), {}))
        return f

    def enter_context(self, c):
        v = c.__enter__()
        self.todo.append((1, c.__exit__, (), {}))
        return v

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, t, v, tb):
        todo, self.todo = self.todo, []
        for kind, f, a, k in todo[::-1]:
            if kind:
                if f(t, v, tb):
                    t = v = tb = None
            else:
                f(*a, **k)
        return False


class deque(list):
    def popleft(self):
        return self.pop(0)

    def appendleft(self, x):
        self.insert(0, x)

    def extendleft(self, xs):
        for x in xs:
            self.insert(0, x)

    def rotate(self, n=1):
        for _ in range(n % len(self)):
            self.insert(0, self.pop())


def namedtuple(typename, fields, rename=False, defaults=(), module=None):
    names = fields.replace(",", " ").split() if isinstance(fields, str) else list(fields)
    defaults = tuple(defaults or ())

    class NT(object):
        _fields = tuple(names)

        def __init__(self, *a, **k):
            if len(a) > len(names):
                raise TypeError("too many arguments")
            for i in range(len(names)):
                if i < len(a):
                    setattr(self, names[i], a[i])
                elif names[i] in k:
                    setattr(self, names[i], k[names[i]])
                elif i >= len(names) - len(defaults):
                    setattr(self, names[i], defaults[i - len(names) + len(defaults)])
                else:
                    raise TypeError("missing argument")

        def _tuple(self):
            return tuple([getattr(self, n) for n in names])

        def __iter__(self):
            return iter(self._tuple())

        def __len__(self):
            return len(names)

        def __getitem__(self, i):
            return self._tuple()[i]

        def __eq__(self, o):
            return self._tuple() == tuple(o)

        def _asdict(self):
            return dict(zip(names, self._tuple()))

        def _replace(self, **k):
            d = self._asdict()
            d.update(k)
            return NT(**d)

        @classmethod
        def _make(cls, it):
            return NT(*it)
    return NT


def tee(it, n=2):
    l = list(it)
    return tuple([iter(list(l)) for _ in range(n)])


def pairwise(it):
    l = list(it)
    return iter(list(zip(l[:-1], l[1:])))


def filterfalse(f, it):
    return iter([x for x in it if not (f(x) if f is not None else x)])


def takewhile(f, it):
    out = []
    for x in it:
        if not f(x):
            break
        out.append(x)
    return iter(out)


def dropwhile(f, it):
    out = []
    go = True
    for x in it:
        if go and f(x):
            continue
        go = False
        out.append(x)
    return iter(out)


def compress(it, sel):
    return iter([x for x, s in zip(it, sel) if s])


def groupby(it, key=None):
    out = []
    for x in it:
        k = key(x) if key is not None else x
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(l)) for k, l in out])


def methodcaller(name, *a, **k):
    return lambda o: getattr(o, name)(*a, **k)


def m_prod(it, *, start=1):
    for x in it:
        start = start * x
    return start


def m_fsum(it):
    s = 0.
    for x in it:
        s = s + x
    return s


def m_dist(p, q):
    s = 0.
    for x, y in zip(p, q):
        s = s + (x - y)**2
    return s**.5


def m_perm(n, k=None):
    k = n if k is None else k
    r = 1
    for i in range(k):
        r = r * (n - i)
    return r


def m_comb(n, k):
    r = 1
    for i in range(min(k, n - k)):
        r = r * (n - i) // (i + 1)
    return r if k <= n else 0


def m_gcd(a, b):
    a, b = abs(a), abs(b)
    while b:
        a, b = b, a % b
    return a


def m_copysign(x, y):
    return abs(x) if y >= 0 else -abs(x)


def m_trunc(x):
    return int(x)


def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.):
    if a == b:
        return True
    return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)
