"""Languages of regular expressions: a canonical name for the set of strings that a pattern accepts.

A pattern is parsed, turned into an automaton over a sample of representative
characters, made deterministic, minimised and numbered; two patterns with the
same name accept the same strings over the sample.  Nothing is matched.
"""
import hashlib
import warnings

try:
    from re import _parser as sre, _constants as C
except ImportError:     # older interpreters
    import sre_parse as sre
    import sre_constants as C

SAMPLE = [chr(i) for i in range(128)] + ["\x85", "\xa0", "\xb2", "\xe9", "\u0663", "\u2003", "\u4e00"]
_names = {}
TEXT = {}


class Unsupported(Exception):
    pass


def category(c, ch):
    n = str(c)
    neg = "NOT_" in n
    if "DIGIT" in n:
        r = ch.isdigit() and ch.isdecimal()
    elif "WORD" in n:
        r = ch.isalnum() or ch == "_"
    elif "SPACE" in n:
        r = ch.isspace()
    else:
        raise Unsupported(n)
    return r != neg


def member(items, ch):
    neg, hit = False, False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            hit |= ord(ch) == av
        elif op is C.RANGE:
            hit |= av[0] <= ord(ch) <= av[1]
        elif op is C.CATEGORY:
            hit |= category(av, ch)
        else:
            raise Unsupported(str(op))
    return hit != neg


class NFA:
    def __init__(self):
        self.n = 0
        self.eps = {}           # state -> [(target, assertion)]
        self.step = {}          # state -> [(set of characters, target)]

    def new(self):
        self.n += 1
        return self.n - 1

    def link(self, a, b, what=None):
        self.eps.setdefault(a, []).append((b, what))

    def consume(self, a, chars, b):
        self.step.setdefault(a, []).append((frozenset(chars), b))

    def seq(self, items, a):
        for op, av in items:
            a = self.one(op, av, a)
        return a

    def one(self, op, av, a):
        if op is C.LITERAL:
            if av > 127:
                raise Unsupported("character outside ASCII")
            b = self.new()
            self.consume(a, [chr(av)], b)
            return b
        if op is C.NOT_LITERAL:
            b = self.new()
            self.consume(a, [c for c in SAMPLE if ord(c) != av], b)
            return b
        if op is C.ANY:
            b = self.new()
            self.consume(a, [c for c in SAMPLE if c != "\n"], b)
            return b
        if op is C.IN:
            b = self.new()
            self.consume(a, [c for c in SAMPLE if member(av, c)], b)
            return b
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 20 or hi is not C.MAXREPEAT and hi > 20:
                raise Unsupported("long repetition")
            for _ in range(lo):
                a = self.seq(sub, a)
            if hi is C.MAXREPEAT:
                s, e = self.new(), self.new()
                self.link(a, s)
                x = self.seq(sub, s)
                self.link(x, s)
                self.link(s, e)
                return e
            e = self.new()
            self.link(a, e)
            for _ in range(hi - lo):
                a = self.seq(sub, a)
                self.link(a, e)
            return e
        if op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("flags")
            return self.seq(av[3], a)
        if op is C.BRANCH:
            e = self.new()
            for alt in av[1]:
                s = self.new()
                self.link(a, s)
                self.link(self.seq(alt, s), e)
            return e
        if op is C.AT:
            n = str(av)
            kind = {"AT_BEGINNING": "bos", "AT_BEGINNING_STRING": "bos", "AT_END": "eol", "AT_END_STRING": "eos"}.get(n)
            if kind is None:
                raise Unsupported(n)
            b = self.new()
            self.link(a, b, kind)
            return b
        raise Unsupported(str(op))


def close(nfa, states):
    """configurations (state, at the start, what must follow) reachable without input; what must follow: 0 anything, 1 nothing, 2 one newline"""
    out, todo = set(states), list(states)
    while todo:
        q, b, m = todo.pop()
        for r, what in nfa.eps.get(q, ()):
            nxt = []
            if what is None or what == "bos" and b:
                nxt = [m]
            elif what == "eos":
                nxt = [1] if m in (0, 1) else []
            elif what == "eol":
                nxt = [1, 2] if m == 0 else [m]
            for k in nxt:
                c = (r, b, k)
                if c not in out:
                    out.add(c)
                    todo.append(c)
    return frozenset(out)


def language(pattern, how):
    """name of the set of strings s with re.<how>(pattern, s); None when not supported"""
    k = (pattern, how)
    if k not in _names:
        try:
            r = _names[k] = build(pattern, how, SAMPLE)
            if r not in TEXT:
                TEXT[r] = (f"{how} of {pattern!r}", build(pattern, how, [c for c in SAMPLE if c != "\n"]))
        except Exception:
            _names[k] = None
    return _names[k]


def one_line(a, b):
    """the languages differ at most in strings with a newline"""
    return a in TEXT and b in TEXT and TEXT[a][1] == TEXT[b][1]


def text(a):
    return TEXT[a][0] if a in TEXT else a


def build(pattern, how, sample):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = sre.parse(pattern)
    if p.state.flags & ~32:
        raise Unsupported("flags")
    nfa = NFA()
    start = nfa.new()
    acc = nfa.seq(p, start)
    tail = nfa.new()            # the rest of the string after a match
    if how in ("match", "search"):
        nfa.link(acc, tail)
        nfa.consume(tail, SAMPLE, tail)
    head = None
    init = {(start, True, 0)}
    if how == "search":
        head = nfa.new()
        nfa.link(head, start)
        nfa.consume(head, SAMPLE, head)
        init = {(head, True, 0)}

    def move(S, ch):
        out = set()
        for q, b, m in S:
            if m == 1 or m == 2 and ch != "\n":
                continue
            for chars, r in nfa.step.get(q, ()):
                if ch in chars:
                    out.add((r, False, 1 if m == 2 else 0))
        return close(nfa, out)

    def final(S):
        return any(q in (acc, tail) and m in (0, 1) for q, b, m in S)
    s0 = close(nfa, init)
    num, order, delta = {s0: 0}, [s0], []
    i = 0
    while i < len(order):
        row = []
        for ch in sample:
            t = move(order[i], ch)
            if t not in num:
                if len(num) > 3000:
                    raise Unsupported("too large")
                num[t] = len(order)
                order.append(t)
            row.append(num[t])
        delta.append(row)
        i += 1
    cls = [int(final(s)) for s in order]
    while True:
        sig = [(cls[i],) + tuple(cls[t] for t in delta[i]) for i in range(len(order))]
        names = {}
        new = [names.setdefault(x, len(names)) for x in sig]
        if len(set(new)) == len(set(cls)):
            break
        cls = new
    # number the classes in the order of first visit
    ren, todo, out = {cls[0]: 0}, [0], []
    rep = {}
    for i, c in enumerate(cls):
        rep.setdefault(c, i)
    todo = [cls[0]]
    while todo:
        c = todo.pop(0)
        row = []
        for t in delta[rep[c]]:
            d = cls[t]
            if d not in ren:
                ren[d] = len(ren)
                todo.append(d)
            row.append(ren[d])
        out.append((final(order[rep[c]]), tuple(row)))
    return "L" + hashlib.sha256(repr(out).encode()).hexdigest()[:12]
