"""Any non-empty name: a string of arbitrary length under trimming and per-character maps.

Its text carries a mark that built-in string operations which are not modelled here destroy
(it begins and ends with a space and holds letters of both cases, dots and blanks); a text
whose mark is destroyed is Unknown, never taken for a name.
"""
import re

A, Z = " \ue000.A.a _-\t/", "/.A.a _-\ue001 "
MARK = re.compile(re.escape(A) + r"(\d+)" + re.escape(Z))
TOKENS = []


class Unknown(BaseException):
    """The operation is outside of what is modelled."""


class Tok:
    """The name trimmed (whitespace, at the sides given) and then mapped character-wise."""

    def __init__(self, sides=frozenset(), chars=()):
        self.sides, self.chars = frozenset(sides), tuple(sorted(chars))

    def text(self):
        i = next((i for i, t in enumerate(TOKENS) if t.same(self)), len(TOKENS))
        if i == len(TOKENS):
            TOKENS.append(self)
        return A + str(i) + Z

    def same(self, o):
        f = lambda t: {k: v for k, v in t.chars if k != v}
        return isinstance(o, Tok) and o.sides == self.sides and f(o) == f(self)

    def mapped(self, f, chars):
        d = dict(self.chars)
        for c in chars:
            d.setdefault(c, c)
        return Tok(self.sides, {c: f(v) for c, v in d.items()}.items())

    def trim(self, side):
        if side in self.sides:      # begins (ends) with the image of no space, or is empty
            if all(c.isspace() or v and not v[0 if side == "l" else -1].isspace()
                   for c, v in self.chars):
                return self
        elif all((not v.strip()) if c.isspace() else
                 v and not v[0 if side == "l" else -1].isspace() for c, v in self.chars):
            return Tok(self.sides | {side}, self.chars)
        raise Unknown("trimming after replacing")


def parse(text):
    """Literal pieces and tokens."""
    text = str.__str__(text)
    out, at = [], 0
    for m in MARK.finditer(text):
        out += [text[at:m.start()], TOKENS[int(m.group(1))]]
        at = m.end()
    out.append(text[at:])
    if any(isinstance(p, str) and ("\ue000" in p or "\ue001" in p) for p in out):
        raise Unknown("a string operation that is not modelled")
    return [p for p in out if not isinstance(p, str) or p]


def make(pieces):
    return Name("".join(p if isinstance(p, str) else p.text() for p in pieces))


def wrap(text):
    """The result of a formatted string."""
    return Name(text) if "\ue000" in text or "\ue001" in text else text


class Name(str):
    def __str__(self):
        return self

    def __repr__(self):
        raise Unknown("repr")

    def __format__(self, spec):
        if spec:
            raise Unknown("format")
        return self

    def __add__(self, o):
        return Name(str.__add__(self, o))

    def __radd__(self, o):
        return Name(str.__add__(o, self))

    def __bool__(self):
        ps = parse(self)
        if any(isinstance(p, str) or not p.sides and all(v for _, v in p.chars) for p in ps):
            return True
        raise Unknown("an empty name")

    def replace(self, a, b, *n):
        if len(a) != 1 or n:
            raise Unknown("replace")
        return make([p.replace(a, b) if isinstance(p, str) else
                     p.mapped(lambda v: v.replace(a, b), a) for p in parse(self)])

    def translate(self, table):
        if not isinstance(table, dict):
            raise Unknown("translate")
        return make([p.translate(table) if isinstance(p, str) else
                     p.mapped(lambda v: v.translate(table), [chr(k) for k in table])
                     for p in parse(self)])

    def trimmed(self, side):
        ps = parse(self)
        if side == "r":
            ps.reverse()
        cut = str.lstrip if side == "l" else str.rstrip
        while ps and isinstance(ps[0], str):
            ps[0] = cut(ps[0])
            if ps[0]:
                break
            ps.pop(0)
        if ps and isinstance(ps[0], Tok):
            ps[0] = ps[0].trim(side)
            if len(ps) > 1 and not (isinstance(ps[1], str) and
                                    not ps[1][0 if side == "l" else -1].isspace()):
                raise Unknown("trimming more than a name")
        return make(ps if side == "l" else ps[::-1])

    def lstrip(self, *a):
        if a and a[0] is not None:
            raise Unknown("strip of given characters")
        return self.trimmed("l")

    def rstrip(self, *a):
        if a and a[0] is not None:
            raise Unknown("strip of given characters")
        return self.trimmed("r")

    def strip(self, *a):
        return self.lstrip(*a).rstrip(*a)


def refuse(n):
    def f(self, *a, **k):
        raise Unknown(n)
    return f


for _n in ("__eq__ __ne__ __lt__ __le__ __gt__ __ge__ __len__ __getitem__ __iter__ __contains__ "
           "__mul__ __rmul__ __mod__ __rmod__ capitalize casefold center count encode endswith "
           "expandtabs find format format_map index isalnum isalpha isascii isdecimal isdigit "
           "isidentifier islower isnumeric isprintable isspace istitle isupper join ljust lower "
           "partition removeprefix removesuffix rfind rindex rjust rpartition rsplit split "
           "splitlines startswith swapcase title upper zfill").split():
    setattr(Name, _n, refuse(_n))
Name.__hash__ = str.__hash__


def any_name():
    return make([Tok()])


def is_file(text):
    """Is it the name trimmed, with spaces replaced, and the ending?"""
    ps = parse(str.__str__(text))
    want = Tok("lr", {" ": "_"}.items())
    return len(ps) == 2 and want.same(ps[0]) and ps[1] == ".h5"
