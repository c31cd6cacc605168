"""C11: copying functions move taint together with the bytes."""
from hypothesis import strategies as st

from checks import rt
from checks.rt import build  # noqa: F401
from vlib import Sub, Violation, check, eq, hx

ASSUMPTIONS = ["defined C only: no overlap except for memmove, strings terminated, buffers large enough",
               "sprintf: directives without a field width on %s, at most one '*' per directive, no %n, no positional arguments",
               "what malloc returns, and what realloc adds, is uninitialised: nothing is promised about its labels"]
SZ = rt.ASIZE
NL = 400  # labels that exist
CLASSES = [8, 24, 40, 100, 200, 350, 500, 1100, 2000, 3000]


class Model:
    def __init__(self):
        self.mem = bytearray(SZ)
        self.lab = [0] * SZ
        self.heap = {}  # slot -> [bytearray, labels], None: unknown

    def cstr(self, p):
        return self.mem.index(0, p) - p

    def copy(self, dst, src, n):
        self.mem[dst:dst + n], self.lab[dst:dst + n] = self.mem[src:src + n], self.lab[src:src + n]


def build_ops(case):
    """Returns (lines, expectations): the lines do not depend on execution."""
    m = Model()
    L, X = ["start"], [None]

    def emit(line, fn=None):
        if fn and fn[0] == "heap":
            fn = ("heap", fn[1], list(fn[2]), list(fn[3]), fn[4])
        L.append(line)
        X.append(fn)

    def string_at(off, s, labs):
        n = len(s) + 1
        emit("poke %d %s" % (off, hx(s + b"\0")))
        m.mem[off:off + n] = s + b"\0"
        set_labels(off, n, labs)

    def set_labels(off, n, labs):
        l, step = labs
        l = l % (NL - n) + 1 if step else l % NL
        emit("lab %d %d %d %d" % (off, n, l, step))
        m.lab[off:off + n] = [l + i * step for i in range(n)]

    rl = {}
    tags = set()
    uses = 0
    for k, x, y, z, w in case:
        labs = (x * 37 + y * 3 + 1, 1) if w % 3 else (y % 7, 0)
        src = 4000 + y % 3000
        dst = x % 3500
        n = z
        if k == 0:
            data = bytes((x + i * (w + 1)) & 255 or 1 for i in range(n))
            off = y * 5 % (SZ - 1000)
            emit("poke %d %s" % (off, hx(data)))
            m.mem[off:off + n] = data
        elif k == 1:
            off = y * 5 % (SZ - 1000)
            set_labels(off, min(n, 300), labs)
        elif k == 2:
            a, b = (dst, src) if w % 2 else (src, dst)
            if w % 7 == 6:  # adjacent
                b = a + n
            n = min(n, 500)
            emit("memcpy a%d a%d %d %d %d %d" % (a, b, n, x % 5, y % 5, z % 5), ("rl", x % 5, "a%d" % a))
            m.copy(a, b, n)
            tags.add("memcpy")
            uses += any(m.lab[a:a + n])
        elif k == 3:
            a = src
            b = max(0, a + [1, -1, n // 2, -(n // 2), 7, -64, 0, 300][w % 8])
            n = min(n, 700)
            emit("memmove a%d a%d %d %d %d %d" % (a, b, n, x % 5, y % 5, z % 5), ("rl", x % 5, "a%d" % a))
            m.copy(a, b, n)
            tags.add("memmove")
            uses += any(m.lab[a:a + n])
        elif k == 4:
            n = min(n, 900)
            c = [0, 65, 255, -1, 256, 0x141][w % 6]
            emit("memset a%d %d %d %d" % (dst, c, n, x % 9), ("rl", 0, "a%d" % dst))
            m.mem[dst:dst + n] = bytes([c & 255]) * n
            m.lab[dst:dst + n] = [x % 9] * n
            tags.add("memset")
        elif k in (5, 6, 7):  # string functions
            s = bytes((65 + (x + i) % 26) if (x + i) % 11 else 200 for i in range(z % 60))
            string_at(src, s, labs)
            if k == 5:
                emit("strcpy a%d a%d %d %d" % (dst, src, x % 5, y % 5), ("rl", x % 5, "a%d" % dst))
                m.copy(dst, src, len(s) + 1)
                tags.add("strcpy")
            elif k == 6:
                n = [0, 1, len(s), len(s) + 1, len(s) + 9, max(0, len(s) - 3), 3][w % 7]
                if w % 2 and n <= len(s):
                    # not terminated within n: the function must not look further
                    emit("poke %d 41" % (src + len(s)))
                    m.mem[src + len(s)] = 65
                emit("strncpy a%d a%d %d %d %d" % (dst, src, n, x % 5, y % 5), ("rl", x % 5, "a%d" % dst))
                c = min(n, len(s) + 1)
                m.copy(dst, src, c)
                m.mem[dst + c:dst + n] = bytes(max(0, n - c))
                m.lab[dst + c:dst + n] = [0] * max(0, n - c)
                if c < n:
                    m.mem[dst + c:dst + n] = bytes(n - c)
                tags.add("strncpy")
            else:
                t = bytes(97 + i % 26 for i in range(y % 30))
                string_at(dst, t, (x * 11 + 5, w % 2))
                emit("strcat a%d a%d %d %d" % (dst, src, x % 5, y % 5), ("rl", x % 5, "a%d" % dst))
                m.copy(dst + len(t), src, len(s) + 1)
                tags.add("strcat")
            uses += 1
        elif k == 8:  # heap
            h = x % 8
            b = m.heap.get(h)
            what = y % 9
            if b is None and what > 3 and what != 8:
                what = y % 4
            if b is not None and what in (0, 1, 2, 8):
                emit("free %d" % h)
                m.heap[h] = None
            if what == 0:
                emit("malloc %d %d" % (h, n), ("heap", h, [None] * n, [None] * n, "ok"))
                m.heap[h] = [[None] * n, [None] * n]
            elif what == 1:
                c, s = [(n, 1), (3, n), (1, n), (0, 5), (2 ** 40, 2 ** 40), (2 ** 62, 8)][w % 6]
                if c * s > 10000:
                    emit("calloc %d %d %d" % (h, c, s), ("heap", h, [], [], "null"))
                    m.heap[h] = None
                else:
                    emit("calloc %d %d %d" % (h, c, s), ("heap", h, [0] * (c * s), [0] * (c * s), "ok"))
                    m.heap[h] = [[0] * (c * s), [0] * (c * s)]
                tags.add("calloc")
            elif what == 2:
                s = bytes((65 + (x + i) % 26) for i in range(z % 80))
                string_at(src, s, labs)
                emit("strdup %d a%d" % (h, src), ("heap", h, list(s + b"\0"), m.lab[src:src + len(s) + 1], "ok"))
                m.heap[h] = [list(s + b"\0"), m.lab[src:src + len(s) + 1]]
                tags.add("strdup")
                uses += 1
            elif what in (3, 4, 5):
                old = b or [[], []]
                if w % 9 == 8:
                    emit("realloc %d %d" % (h, 2 ** 62), ("heap", h, old[0], old[1], "null"))
                else:
                    n = [n, n * 40, len(old[0]) + 1, max(1, len(old[0]) - 1), n + 1][w % 5] + 1
                    c = old[0][:n] + [None] * (n - len(old[0]))
                    l = old[1][:n] + [None] * (n - len(old[0]))
                    emit("realloc %d %d" % (h, n), ("heap", h, c, l, "ok"))
                    m.heap[h] = [c, l]
                    uses += any(old[1])
                tags.add("realloc")
            elif what in (6, 7) and b[0]:
                off = z % len(b[0])
                n = min(len(b[0]) - off, 1 + w * 20)
                if what == 6:
                    emit("hput %d %d a%d %d" % (h, off, src, n))
                    b[0][off:off + n] = m.mem[src:src + n]
                    b[1][off:off + n] = m.lab[src:src + n]
                elif None not in b[0][off:off + n]:
                    emit("hget %d %d a%d %d" % (h, off, dst, n))
                    m.mem[dst:dst + n] = bytes(b[0][off:off + n])
                    m.lab[dst:dst + n] = b[1][off:off + n]
        elif k == 10:  # a whole block of one of a few sizes: allocated and filled, released, or resized
            h = x % 8
            b = m.heap.get(h)
            n = CLASSES[z % len(CLASSES)]
            if b is None and w % 3 == 1:  # cleared, whatever was there before
                c, e = [(1, n), (n, 1), (2, n // 2), (n // 4, 4)][w // 3 % 4]
                n = c * e
                emit("calloc %d %d %d" % (h, c, e), ("heap", h, [0] * n, [0] * n, "ok"))
                m.heap[h] = b = [[0] * n, [0] * n]
                tags.add("block-cleared")
                uses += 1
            elif b is None:
                emit("malloc %d %d" % (h, n), ("heap", h, [None] * n, [None] * n, "ok"))
                m.heap[h] = b = [[None] * n, [None] * n]
            elif w % 3 == 0:
                emit("free %d" % h)
                m.heap[h] = None
                continue
            else:
                c, l = b[0][:n] + [None] * (n - len(b[0])), b[1][:n] + [None] * (n - len(b[0]))
                emit("realloc %d %d" % (h, n), ("heap", h, c, l, "ok"))
                uses += any(b[1])
                m.heap[h] = b = [c, l]
                tags.add("block-resized")
            if y % 2:  # fill: labelled all over, in places, or not at all
                n = min(n, 350)
                set_labels(4000, n, ((0, 0), (y % 300 + 1, 0), (y % 90 + 1, 1), (y % 300 + 1, 0))[y // 2 % 4])
                if y // 2 % 4 == 3:
                    set_labels(4000 + n // 3, n // 3, (0, 0))
                emit("hput %d 0 a4000 %d" % (h, n))
                b[0][:n] = m.mem[4000:4000 + n]
                b[1][:n] = m.lab[4000:4000 + n]
        elif k == 9:  # formatting
            pieces, labels, iv, dv = [], [], [], []
            sstr = []
            for j, (pk, pa, pb) in enumerate(z):
                if pk == 0:
                    pieces.append(("L" + "lit %s" % ("abc" * (pa % 4)), [], [], None, 0))
                elif pk == 1:
                    pieces.append(("%%", [], [], None, 0))
                elif pk in (2, 3, 4) and len(iv) < 3:
                    fl = ["", "-", "0", "+", "#", " ", "-+"][pa % 7]
                    wd = ["", "5", "12", "1"][pb % 4]
                    pr = ["", "", ".3", ".0", "."][(pa + pb) % 5]
                    ln = ["", "h", "hh", "l", "ll", "j", "z", "t", "q"][(pa * 3 + pb) % 9]
                    cv = "diouxX"[(pa + pb * 5) % 6]
                    v = [0, 1, -1, 255, 65536, -2 ** 31, 2 ** 31 - 1, 2 ** 62, -2 ** 63, 1234567][(pa + pb) % 10]
                    star = pk == 4 and len(iv) < 2
                    if star:
                        wd = "*"
                    args = ([pb % 15] if star else []) + [v]
                    pieces.append(("%" + fl + wd + pr + ln + cv, args, [], ("arg", 1 + (pa * 7 + pb) % NL), star))
                    iv += args
                elif pk == 5 and len(iv) < 3:
                    v = [65, 0, 255, 10][pa % 4]
                    pieces.append(("%" + ["", "3", "-4"][pb % 3] + "c", [v], [], ("arg", 1 + pa), 0))
                    iv.append(v)
                elif pk in (6, 7) and len(iv) < 3:
                    s = bytes(97 + (pa + i) % 26 for i in range(pb % 40))
                    at = 4500 + j * 100
                    string_at(at, s, (pa * 13 + j, pb % 3 > 0))
                    pr = ["", "", ".3", ".0", ".100", ".*"][(pa + pb) % 6] if pk == 7 else ""
                    if pr == ".*" and len(iv) > 1:
                        pr = ""
                    args = ([pb % 9] if pr == ".*" else []) + ["a%d" % at]
                    pieces.append(("%" + pr + "s", args, [], ("str", at), pr == ".*"))
                    iv += args
                elif pk == 8 and len(dv) < 3:
                    v = [0.0, 1.5, -2.25, 1e10, 3.14159, 1e-7, 1e300][pa % 7]
                    fl = ["", "-", "0", "+", "#"][pb % 5]
                    pieces.append(("%" + fl + ["", "10", "3"][pa % 3] + ["", ".2", ".0"][pb % 3] + "eEfFgGaA"[(pa + pb) % 8],
                                   [], [v], ("arg", 1 + (pa + pb) % NL), 0))
                    dv.append(v)
                elif pk == 9 and len(iv) < 3:
                    pieces.append(("%p", [0], [], ("arg", 1 + pa), 0))
                    iv.append(0)
            pieces = [(f[1:] if f[0] == "L" else f, a, d, o, st_) for f, a, d, o, st_ in pieces]
            merged = []
            for f, a, d, o, st_ in pieces:  # neighbouring literals belong together
                if o is None and merged and merged[-1][3] is None and f != "%%" and merged[-1][0] != "%%":
                    merged[-1] = (merged[-1][0] + f, [], [], None, 0)
                elif f:
                    merged.append((f, a, d, o, st_))
            pieces = merged
            vl = []
            for f, a, d, o, st_ in pieces:
                if st_:
                    vl.append(77)
                if o:
                    vl.append(o[1] if o[0] == "arg" else 55)
            fmt = "".join(p[0] for p in pieces)

            def args(ia, da):
                ia = [str(v) for v in ia] + ["0"] * 3
                da = [repr(v) for v in da] + ["0"] * 3
                return " ".join(ia[:3] + da[:3])

            for f, a, d, o, st_ in pieces:
                emit("snprintf n 0 %s - %s" % (hx(f.encode()), args(a, d)), ("len",))
            size = [0, 1, 2, 5, 10, 20, 50, 4000][w % 8] if w % 3 else None
            nl = ",".join(str(v) for v in vl) or "-"
            if size is None:
                emit("sprintf a%d 0 %s %s %s" % (dst, hx(fmt.encode()), nl, args(iv, dv)),
                     ("fmt", dst, SZ, pieces, [m.lab[o[1]:o[1] + 50] if o and o[0] == "str" else None for _, _, _, o, _ in pieces]))
            else:
                emit("snprintf a%d %d %s %s %s" % (dst, size, hx(fmt.encode()), nl, args(iv, dv)),
                     ("fmt", dst, size, pieces, [m.lab[o[1]:o[1] + 50] if o and o[0] == "str" else None for _, _, _, o, _ in pieces]))
            # the model follows at run time: the text comes from the plain run
            m_after = ("sync", dst)
            L.append("poke %d %s" % (dst, hx(bytes(3000))))
            X.append(None)
            m.mem[dst:dst + 3000] = bytes(3000)
            L.append("lab %d 3000 0 0" % dst)
            X.append(None)
            m.lab[dst:dst + 3000] = [0] * 3000
            del m_after
            tags.add("sprintf" if size is None else "snprintf")
            uses += len(vl) > 0
        # the arena after this step
        emit("poke 0 -", ("arena", bytes(m.mem), list(m.lab)))
    for h, b in sorted(m.heap.items()):
        if b is not None:
            emit("hlab %d" % h, ("heap", h, b[0], b[1], "ok"))
    return L, X, tags, uses


def run(case, ctx):
    L, X, tags, uses = build_ops(case["ops"])
    d = ctx.mkdir()
    try:
        p = rt.Run(ctx, d, ["poke 0 -"] + L[1:], plain=True).require()
        q = rt.Run(ctx, d, L).require()
    finally:
        ctx.rm(d)
    mem, lab = bytearray(SZ), [0] * SZ
    lens = []
    for i, (x, a, b) in enumerate(zip(X, p.ans, q.ans)):
        if i == 0:
            continue
        line = L[i]
        before = list(lab)
        for o, v in b.D.items():
            mem[o] = v
        for o, v in b.L.items():
            lab[o] = v
        if x is None or x[0] != "heap":
            eq(b.D, a.D, "memory changed by operation %d (%s)" % (i, line))
            eq(b.r, a.r, "result of operation %d (%s)" % (i, line))
        if x is None:
            continue
        if x[0] == "rl":
            eq(b.r, x[2], "result of operation %d (%s)" % (i, line))
            eq(b.rl, x[1], "label of the pointer returned by operation %d (%s)" % (i, line))
        elif x[0] == "arena":
            eq(bytes(mem), x[1], "contents of memory after operation %d (%s)" % (i - 1, L[i - 1]))
            if lab != x[2]:
                j = next(j for j in range(SZ) if lab[j] != x[2][j])
                raise Violation("after operation %d (%s) byte %d is labelled %d, want %d" % (i - 1, L[i - 1], j, lab[j], x[2][j]))
        elif x[0] == "heap":
            _, h, c, l, r = x
            eq(b.r, r, "result of operation %d (%s)" % (i, line))
            eq(b.L, {}, "labels of other memory changed by operation %d (%s)" % (i, line))
            eq(b.rl, 0, "label of the result of operation %d (%s)" % (i, line))
            if r == "ok" or line.startswith("realloc"):
                eq(len(b.B), len(c), "size of the block after operation %d (%s)" % (i, line))
                for j in range(len(c)):
                    if c[j] is not None and b.B[j] != c[j]:
                        raise Violation("operation %d (%s): byte %d of the block is %d, want %d" % (i, line, j, b.B[j], c[j]))
                    if l[j] is not None and b.BL[j] != l[j]:
                        raise Violation("operation %d (%s): byte %d of the block is labelled %d, want %d" % (i, line, j, b.BL[j], l[j]))
        elif x[0] == "len":
            lens.append(int(a.r))
        elif x[0] == "fmt":
            _, dst, size, pieces, strs = x
            want = list(before)
            pos = 0
            end = max(0, size - 1)
            total = sum(lens)
            for (f, _, _, o, _), n, sl in zip(pieces, lens, strs):
                for j in range(n):
                    if pos + j < end:
                        want[dst + pos + j] = 0 if o is None else o[1] if o[0] == "arg" else sl[j]
                pos += n
            if size > 0:
                want[dst + min(total, end)] = 0
            eq(int(b.r), total, "result of operation %d (%s)" % (i, line))
            eq(b.rl, 0, "label of the result of operation %d (%s)" % (i, line))
            if lab != want:
                j = next(j for j in range(SZ) if lab[j] != want[j])
                raise Violation("operation %d (format %r into %d bytes): output byte %d is labelled %d, want %d" % (
                    i, "".join(q[0] for q in pieces), size, j - dst, lab[j], want[j]))
            lens = []
        if x[0] not in ("len",):
            lens = []
    return uses > 0, sorted(tags)


def known_findings(ctx):
    """%s with a field width labels the padding and shifts the labels."""
    d = ctx.mkdir()
    try:
        q = rt.Run(ctx, d, ["start", "poke 4000 %s" % hx(b"ab\0"), "lab 4000 2 5 1",
                            "sprintf a0 0 %s 0 a4000 0 0 0 0 0" % hx(b"%4s")]).require()
        if q.ans[3].L == {0: 5, 1: 6}:
            yield "sprintf(\"%4s\", \"ab\") labels the two padding bytes with the labels of the two characters"
    finally:
        ctx.rm(d)


SMALL = st.integers(0, 60)
N = st.one_of(st.integers(0, 40), st.integers(0, 300), st.sampled_from([0, 1, 4, 8, 64, 255]))
PIECE = st.tuples(st.integers(0, 9), st.integers(0, 40), st.integers(0, 40)).map(list)


def op(k):
    return st.tuples(st.just(k), st.integers(0, 3500), st.integers(0, 3500), st.lists(PIECE, max_size=6) if k == 9 else N, SMALL).map(list)


WEIGHTS = [0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7, 8, 8, 8, 8, 8, 9, 9, 9]
CASE = st.fixed_dictionaries({"ops": st.lists(st.sampled_from(WEIGHTS).flatmap(op), min_size=1, max_size=16)})

HEAP = st.tuples(st.just(10), st.integers(0, 7), st.integers(0, 300), st.integers(0, 9), SMALL).map(list)
HEAPCASE = st.fixed_dictionaries({"ops": st.lists(HEAP, min_size=4, max_size=40)})

SUBS = [Sub("heap", HEAPCASE, run, 3000, 120000, "sequences that allocate, fill (fully, partly or not labelled), resize and release "
            "blocks of a few sizes so that memory is reused and moves; non-trivial: a labelled block was resized"),
        Sub("copies", CASE, run, 5000, 200000, "sequences of memcpy, memmove (overlapping), memset, strcpy, strncpy, strcat, "
            "malloc/calloc/realloc/strdup/free and sprintf/snprintf (flags, width, precision, length modifiers, truncation) on "
            "labelled memory, against a byte and label model and the plain functions; all 8 KiB of memory and every live heap "
            "block are compared; non-trivial: a labelled byte was copied or formatted")]
