"""Regular expressions as languages: inclusion and newline questions decided on the automaton of a pattern (nothing is matched)."""
import re
from re import _constants as K
from re import _parser as parser

ALPHABET = [chr(i) for i in range(32, 127)] + ["\t", "\n", "\r", "\x0b", "\x0c", "\xe9", "\u0663", "\u2028"]


class Unsupported(Exception):
    pass


def _category(av, c):
    t = {K.CATEGORY_DIGIT: c.isdecimal(), K.CATEGORY_SPACE: c.isspace(), K.CATEGORY_WORD: c.isalnum() or c == "_",
         K.CATEGORY_NOT_DIGIT: not c.isdecimal(), K.CATEGORY_NOT_SPACE: not c.isspace(), K.CATEGORY_NOT_WORD: not (c.isalnum() or c == "_")}
    if av not in t:
        raise Unsupported(str(av))
    return t[av]


def _charset(op, av, flags):
    ic = flags & re.IGNORECASE

    def eq(c, o):
        return c == chr(o) or ic and c.lower() == chr(o).lower()
    if op is K.LITERAL:
        return frozenset(c for c in ALPHABET if eq(c, av))
    if op is K.NOT_LITERAL:
        return frozenset(c for c in ALPHABET if not eq(c, av))
    if op is K.ANY:
        return frozenset(c for c in ALPHABET if c != "\n" or flags & re.DOTALL)
    if op is K.IN:
        neg, out = False, set()
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                out |= {c for c in ALPHABET if eq(c, a)}
            elif o is K.RANGE:
                out |= {c for c in ALPHABET if a[0] <= ord(c) <= a[1] or ic and (a[0] <= ord(c.lower()) <= a[1] or a[0] <= ord(c.upper()) <= a[1])}
            elif o is K.CATEGORY:
                out |= {c for c in ALPHABET if _category(a, c)}
            else:
                raise Unsupported(str(o))
        return frozenset(set(ALPHABET) - out if neg else out)
    return None


class NFA:
    def __init__(self, pattern, flags=0):
        p = parser.parse(pattern, flags)
        self.flags = p.state.flags
        self.eps, self.step = [], []      # state -> [(assertion or None, target)], [(charset, target)]
        self.start, self.end = self.new(), None
        self.end = self.seq(p, self.start)

    def new(self):
        self.eps.append([])
        self.step.append([])
        return len(self.eps) - 1

    def seq(self, items, s):
        for op, av in items:
            s = self.item(op, av, s)
        return s

    def item(self, op, av, s):
        cs = _charset(op, av, self.flags)
        if cs is not None:
            t = self.new()
            self.step[s].append((cs, t))
            return t
        if op is K.AT:
            t = self.new()
            self.eps[s].append((av, t))
            return t
        if op is K.SUBPATTERN:
            _, add, dele, sub = av
            if add or dele:
                raise Unsupported("inline flags")
            return self.seq(sub, s)
        if op is K.BRANCH:
            t = self.new()
            for alt in av[1]:
                self.eps[self.seq(alt, self.split(s))].append((None, t))
            return t
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(min(lo, 20)):
                s = self.seq(sub, s)
            if hi is K.MAXREPEAT:
                a = self.split(s)
                self.eps[self.seq(sub, a)].append((None, a))
                t = self.new()
                self.eps[a].append((None, t))
                return t
            if hi - lo > 40:
                raise Unsupported("large repetition")
            t = self.new()
            self.eps[s].append((None, t))
            for _ in range(hi - lo):
                s = self.seq(sub, s)
                self.eps[s].append((None, t))
            return t
        raise Unsupported(str(op))

    def split(self, s):
        t = self.new()
        self.eps[s].append((None, t))
        return t

    def holds(self, at, prev, nxt):
        ml = self.flags & re.MULTILINE
        if at in (K.AT_BEGINNING, K.AT_BEGINNING_LINE):
            return prev is None or (bool(ml) and prev == "\n")
        if at is K.AT_BEGINNING_STRING:
            return prev is None
        if at in (K.AT_END, K.AT_END_LINE):
            return nxt is None or nxt == "\n"      # without MULTILINE: only a last newline; both are taken as an end
        if at is K.AT_END_STRING:
            return nxt is None
        if at in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = lambda c: c is not None and (c.isalnum() or c == "_")
            return (w(prev) != w(nxt)) == (at is K.AT_BOUNDARY)
        raise Unsupported(str(at))

    def closure(self, states, prev, nxt):
        out, todo = set(states), list(states)
        while todo:
            s = todo.pop()
            for a, t in self.eps[s]:
                if t not in out and (a is None or self.holds(a, prev, nxt)):
                    out.add(t)
                    todo.append(t)
        return frozenset(out)

    def move(self, states, prev, c):
        out = set()
        for s in self.closure(states, prev, c):
            for cs, t in self.step[s]:
                if c in cs:
                    out.add(t)
        return frozenset(out)

    def accepts_at(self, states, prev, nxt):
        return self.end in self.closure(states, prev, nxt)


def find(nfa, pred, others=(), start_prev=(None,), ends=(None,), alphabet=ALPHABET):
    """A string w (with the character before it and after it) for which pred([nfa accepts w, other1 accepts w, ...], w info) is true, or
    None. pred gets (accept flags, saw newline)."""
    ns = [nfa] + list(others)
    from collections import deque
    for sp in start_prev:
        init = (tuple(frozenset([n.start]) for n in ns), sp, False)
        seen, q = {init}, deque([(init, "")])
        while q:
            (sets, prev, nl), w = q.popleft()
            for e in ends:
                if pred([n.accepts_at(s, prev, e) for n, s in zip(ns, sets)], nl):
                    return sp, w, e
            for ch in alphabet:
                nx = tuple(n.move(s, prev, ch) for n, s in zip(ns, sets))
                if not any(nx):
                    continue
                st = (nx, ch if ch == "\n" or ch == "\r" else "w" if ch.isalnum() else " ", nl or ch == "\n")
                if st not in seen:
                    seen.add(st)
                    if len(seen) > 200000:
                        raise Unsupported("too many states")
                    q.append((st, w + ch))
    return None


def stops_short(nfa):
    """A string accepted although the line goes on with a character no match can take: (string, next character), or None."""
    from collections import deque
    init = (frozenset([nfa.start]), None)
    seen, q = {init}, deque([(init, "")])
    while q:
        (s, prev), w = q.popleft()
        for ch in ALPHABET:
            nx = nfa.move(s, prev, ch)
            if not nx:
                if ch != "\n" and w and nfa.accepts_at(s, prev, ch):
                    return w, ch
                continue
            st = (nx, ch if ch in "\r\n" else "w" if ch.isalnum() else " ")
            if st not in seen:
                seen.add(st)
                q.append((st, w + ch))
    return None
