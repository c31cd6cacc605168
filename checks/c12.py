"""C12: comparing, searching and number-parsing calls keep results and provenance."""
from hypothesis import strategies as st

import tdag
from checks import rt
from checks.rt import build  # noqa: F401
from vlib import Sub, Violation, check, eq, hx

ASSUMPTIONS = ["labels: with strict_data_dependencies=0, the setting PolyTracker's images use; results: with either setting",
               "defined C only: strings terminated within what the call may read; bases 0 and 2..36",
               "parsing: the bytes are the characters consumed, with the terminator if the number ends the string"]
NF = 400          # tainted bytes available
P1, P2 = 1000, 4000
COMPARE = ["memcmp", "bcmp", "strcmp", "strcasecmp", "strncmp", "strncasecmp"]
SEARCH = ["strlen", "strchr", "memchr", "strrchr", "strstr", "strpbrk"]
PARSE = ["strtol", "strtoll", "strtoul", "strtoull", "strtod"]


def low(c):
    return c + 32 if 65 <= c <= 90 else c


def compared(op, x, y, n):
    """Number of bytes read of each operand."""
    if op in ("memcmp", "bcmp"):
        for i in range(n):
            if x[i] != y[i]:
                return i + 1
        return n
    if "n" in op and n == 0:
        return 0
    f = low if "case" in op else lambda c: c
    i = 0
    while True:
        if f(x[i]) != f(y[i]) or x[i] == 0 or ("n" in op and i == n - 1):
            return i + 1
        i += 1


def run(case, ctx):
    strict = case["strict"]
    lines = ["start", "open 0 %s 0 0 -" % hx(b"in"), "read 0 a6000 %d" % NF]
    mem = {}
    lab = {}
    todo = []
    tags = set()

    def place(off, data, spec):
        lines.append("poke %d %s" % (off, hx(data)))
        for i, c in enumerate(data):
            mem[off + i] = c
        kind, l, gap, u = spec
        n = len(data)
        l = l % (NF - 200) + 1
        if kind == 0:
            lines.append("lab %d %d 0 0" % (off, n))
            for i in range(n):
                lab[off + i] = frozenset()
        elif kind == 1:
            lines.append("lab %d %d %d 1" % (off, n, l))
            for i in range(n):
                lab[off + i] = frozenset([l + i])
        elif kind == 2:
            lines.append("lab %d %d %d 0" % (off, n, l))
            for i in range(n):
                lab[off + i] = frozenset([l])
        else:  # every gap-th byte
            lines.append("lab %d %d 0 0" % (off, n))
            for i in range(n):
                lab[off + i] = frozenset()
            for i in range(u % (gap + 1), n, gap + 1):
                lines.append("lab %d 1 %d 0" % (off + i, l + i))
                lab[off + i] = frozenset([l + i])
        if u % 5 == 0 and n > 1:  # one byte derived from two inputs
            i = u // 5 % n
            a, b = l, l + 7
            lines.append("lab 3900 1 %d 0" % a)
            lines.append("lab 3901 1 %d 0" % b)
            lines.append("comb %d 3900 3901" % (off + i))
            lines.append("poke %d %02x" % (off + i, data[i]))
            lab[off + i] = frozenset([a, b])
            tags.add("union-bytes")

    def of(off, n):
        r = set()
        for i in range(off, off + n):
            r |= lab[i]
        return r

    def args(spec, n):
        return [(k % NF + 1 if k % 3 == 0 else 0) for k in spec[:n]]

    for op, s, t, n, c, s1, s2, al, pad in case["calls"]:
        s, t = bytes(s), bytes(t)
        l1, l2, l3 = args(al, 3)
        lset = [set([v]) if v else set() for v in (l1, l2, l3)]
        # operands are followed by labelled bytes the call must not look at
        tail = bytes([90 + pad, 49, 90]) * 3
        if op in COMPARE:
            counted = "n" in op or op in ("memcmp", "bcmp")
            if op in ("memcmp", "bcmp"):
                n = min(n, len(s), len(t))
                x, y = s, t
            else:
                x, y = s + b"\0", t + b"\0"
                if counted and n <= len(s) and n <= len(t) and pad & 1:
                    x, y = s, t  # not terminated: the limit is what ends the comparison
            place(P1, x + tail, s1)
            place(P2, y + tail, s2)
            k = compared(op, x, y, n)
            want = of(P1, k) | of(P2, k)
            lines.append("%s a%d a%d %d %d %d %d" % (op, P1, P2, n if counted else 0, l1, l2, l3))
            todo.append((len(lines) - 1, "sign", want))
            tags.add("differ" if k and x[:k] != y[:k] else "equal")
        elif op in SEARCH:
            if op == "memchr":
                x = s
                place(P1, x + tail, s1)
                n = min(n, len(x))
                i = x[:n].find(bytes([c & 255]))
                want = of(P1, i + 1 if i >= 0 else n) | lset[0] | lset[1]
                lines.append("memchr a%d %d %d %d %d %d" % (P1, c, n, l1, l2, l3))
            else:
                x = s + b"\0"
                place(P1, x + tail, s1)
                if op in ("strchr", "strrchr"):
                    i = x.find(bytes([c & 255]))
                    k = i + 1 if i >= 0 and op == "strchr" else len(x)
                    want = of(P1, k) | lset[0] | lset[1]
                    lines.append("%s a%d %d 0 %d %d" % (op, P1, c, l1, l2))
                elif op == "strlen":
                    want = of(P1, len(x))
                    lines.append("strlen a%d 0 0 %d" % (P1, l1))
                else:
                    if op == "strstr" and pad & 2 and s:
                        i = n % len(s)
                        t = s[i:i + 1 + c % 3]
                    y = t + b"\0"
                    place(P2, y + tail, s2)
                    if op == "strstr":
                        i = s.find(t)
                        k = i + len(t) if i >= 0 else len(x)
                    else:
                        i = next((j for j, v in enumerate(s) if v in t), -1)
                        k = i + 1 if i >= 0 else len(x)
                    want = of(P1, k) | of(P2, len(y)) | lset[0] | lset[1]
                    lines.append("%s a%d a%d 0 %d %d" % (op, P1, P2, l1, l2))
                    tags.add("found" if i >= 0 else "absent")
            todo.append((len(lines) - 1, "same", want))
        elif op in PARSE:
            x = s + b"\0"
            place(P1, x + tail, s1)
            want = (P1, {i: of(P1, i + (1 if x[i] == 0 else 0)) for i in range(1, len(x))}, lset[2] if op != "strtod" else set())
            base = [0, 2, 8, 10, 16, 36, 10, 16, 0, 3, 35, 11][c % 12]
            if op == "strtod":
                lines.append("strtod a%d 0 %d %d %d" % (P1, pad & 1, l1, l2))
            else:
                lines.append("%s a%d %d %d %d %d %d" % (op, P1, base, pad & 1, l1, l2, l3))
            todo.append((len(lines) - 1, "parse", want))
            # where a parse of this text ends
            if op == "strtod":
                lines.append("strtod a%d 0 1 0 0" % P1)
            else:
                lines.append("%s a%d %d 1 0 0 0" % (op, P1, base))
        else:  # inet_pton
            x = s + b"\0"
            place(P1, x + tail, s1)
            place(P2, bytes(20), s2)
            af = 2 if c & 1 else 10
            w = of(P1, len(x))
            before = {P2 + i: lab[P2 + i] for i in range(20)}
            lines.append("inet_pton %d a%d a%d" % (af, P1, P2))
            todo.append((len(lines) - 1, "pton", (w, before, 4 if c & 1 else 16)))
            lines.append("lab %d 20 0 0" % P2)
            for i in range(20):
                lab[P2 + i] = frozenset()
        tags.add(op)

    d = ctx.mkdir()
    try:
        rt.paint(d, "in", bytes((i * 7 + 1) & 255 for i in range(NF)))
        p = rt.Run(ctx, d, ["poke 0 -"] + lines[1:], plain=True, strict=strict).require()
        q = rt.Run(ctx, d, lines, strict=strict).require()
        reach = tdag.reach_all(q.trace().labels)
    finally:
        ctx.rm(d)


    back = {}
    for k in range(1, NF + 1):
        r = set(reach[k])
        check(len(r) == 1, "label %d of an input byte stands for %r", k, r)
        back[next(iter(r))] = k

    def named(v):
        return {back[e] for e in reach[v]} if v else set()

    # memory and labels, step by step
    L = {}
    hit = False
    where = {i: (kind, want) for i, kind, want in todo}
    for i, line in enumerate(lines):
        a, b = p.ans[i], q.ans[i]
        L.update(b.L)
        if i < 3:
            continue
        eq(b.D, a.D, "memory changed by call %d (%s)" % (i, line))
        if i not in where:
            continue
        kind, want = where[i]
        if kind == "sign":
            x, y = int(a.r), int(b.r)
            if line.startswith("bcmp"):
                eq(y != 0, x != 0, "result of %s (%d: %s)" % (line.split()[0], i, line))
            else:
                eq((y > 0) - (y < 0), (x > 0) - (x < 0), "sign of the result of %s (%d: %s)" % (line.split()[0], i, line))
        else:
            eq(b.r, a.r, "result of call %d (%s)" % (i, line))
        if kind == "parse":
            eq(b.E, a.E, "end of the parse of call %d (%s)" % (i, line))
            eq(b.e, a.e, "error code of call %d (%s)" % (i, line))
        if kind == "pton":
            eq(b.e, a.e, "error code of call %d (%s)" % (i, line))
            w, before, n = want
            for o in range(20):
                exp = w if o < n and a.r == "1" else before[P2 + o]
                g = named(L.get(P2 + o, 0))
                if g != exp:
                    raise Violation("call %d (%s -> %s): byte %d of the result stands for input bytes %s, want %s" % (
                        i, line, a.r, o, sorted(g), sorted(exp)))
            eq({k: v for k, v in b.L.items() if not P2 <= k < P2 + n}, {}, "labels of other memory changed by call %d (%s)" % (i, line))
            eq(b.rl, 0, "label of the result of call %d (%s)" % (i, line))
            hit = hit or bool(w)
            continue
        eq(b.L, {}, "labels of memory changed by call %d (%s)" % (i, line))
        if strict and kind != "parse":
            continue
        if kind == "parse":
            off, ends, bl = want
            e = int(p.ans[i + 1].E[1:]) - off
            want = (ends[e] | bl) if e > 0 else set()
        got = named(b.rl)
        if got != want:
            raise Violation("call %d (%s, answer %s): the result stands for input bytes %s, want %s" % (
                i, line, a.r, sorted(got), sorted(want)))
        hit = hit or bool(want)
    return hit, sorted(tags)


BYTE = st.sampled_from([97, 98, 65, 66, 0x80, 0xff, 0xe1, 0xc1, 91, 64, 123, 96, 49])
ANY = st.integers(1, 255)
TXT = st.one_of(st.lists(BYTE, max_size=8), st.lists(st.sampled_from([97, 98]), max_size=12), st.lists(ANY, max_size=20))
MEMB = st.lists(st.one_of(BYTE, st.just(0), st.integers(0, 255)), max_size=24)
LABS = st.tuples(st.integers(0, 3), st.integers(0, 199), st.integers(0, 4), st.integers(0, 60)).map(list)
AL = st.lists(st.integers(0, 300), min_size=3, max_size=3)


def flip(t):
    """A second operand that agrees with the first for a while."""
    s, i, c, k = t
    s = list(s)
    if k == 0:
        return s, list(s)
    if k == 1:
        return s, s[:i]
    if k == 2 and s:
        j = i % len(s)
        return s, s[:j] + [c] + s[j + 1:]
    if k == 3:
        return s, [x ^ 32 if (65 <= x <= 90 or 97 <= x <= 122) else x for x in s]
    if k == 4:
        return s[:i], s
    return s, s + [c]


def pair(base, ch):
    return st.one_of(st.tuples(base, base).map(list), st.tuples(base, st.integers(0, 20), ch, st.integers(0, 5)).map(flip))


NUM = st.one_of(
    st.tuples(st.sampled_from(["", " ", "\t\n ", "+", "-", " -", "0x", "-0X", "0", "+-", "- "]), st.integers(0, 2 ** 70),
              st.sampled_from(["d", "x", "o"]), st.sampled_from(["", "z", " 1", ".5", "e5", "e", "\xff", "-"])).map(
        lambda t: t[0] + format(t[1], t[2]) + t[3]),
    st.sampled_from(["", " ", "-", "0x", "0xg", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
                     "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-1", "nan", "NAN(12)", "inf",
                     "-infinity", "1e400", "1e-400", "0x1p-3", "1.5e+", ".5", ".", "e5", "zz", "7fffffff", "08"]),
    st.integers(-9, 300).map(str),
    st.floats(allow_nan=False).map(repr),
    st.text("0123456789 +-xXaAzZ.e", max_size=12)).map(lambda s: [c for c in s.encode("latin-1") if c][:90])
IP = st.one_of(st.lists(st.integers(0, 300).map(str), min_size=3, max_size=5).map(".".join),
               st.lists(st.integers(0, 65536).map(lambda v: format(v, "x")), min_size=1, max_size=8).map(":".join),
               st.sampled_from(["::1", "::", "fe80::1:2", "1.2.3.4", "::ffff:1.2.3.4", "1.2.3", "", "1.2.3.4 "])).map(lambda s: list(s.encode()))


def call(op):
    one = st.just([])
    if op in ("memcmp", "bcmp"):
        st2 = pair(MEMB, st.integers(0, 255))
    elif op in COMPARE:
        st2 = pair(TXT, ANY)
    elif op == "memchr":
        st2 = st.tuples(MEMB, one)
    elif op in SEARCH:
        st2 = pair(TXT, ANY) if op == "strpbrk" else st.tuples(TXT, st.one_of(st.lists(st.sampled_from([97, 98]), max_size=3), TXT))
    elif op == "inet_pton":
        st2 = st.tuples(IP, one)
    else:
        st2 = st.tuples(NUM, one)
    c = st.one_of(BYTE, st.sampled_from([0, 97, 98, -1, -128, 256, 353, 1000]), st.integers(0, 255))
    return st.tuples(st.just(op), st2, st.integers(0, 24), c, LABS, LABS, AL, st.integers(0, 3)).map(
        lambda t: [t[0], list(t[1][0]), list(t[1][1])] + list(t[2:]))


CALLS = st.lists(st.sampled_from(COMPARE + SEARCH + PARSE + COMPARE + SEARCH + PARSE + ["inet_pton"]).flatmap(call), min_size=1, max_size=12)
CASE = st.fixed_dictionaries({"strict": st.sampled_from([False, False, False, True]), "calls": CALLS})

SUBS = [Sub("calls", CASE, run, 6000, 250000, "calls of the comparing, searching, length and number-parsing functions on strings and "
            "blocks of any byte values, against the plain functions (result, end pointer, error code) and a model of the bytes read "
            "(label); operands are surrounded by labelled bytes the call must not look at; non-trivial: some result carried a label")]
