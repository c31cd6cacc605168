"""Generated LLVM IR programs with a reference interpreter.

A case is a tree of small integer lists (JSON); `Program` resolves it into a typed
program (every tree is valid), `emit` prints it as LLVM IR and `Interp` executes it
on concrete values together with, for each value and memory byte, the set of input
offsets it is computed from. The interpreter also records the branches taken and the
functions entered and left. Nothing here uses the repository's code.
"""
import math
import random
import struct

SCALAR = ["i8", "i16", "i32", "i64", "i24", "i128"]
VEC = {"<4 x i8>": ("i8", 4), "<2 x i32>": ("i32", 2), "<4 x i16>": ("i16", 4), "<8 x i32>": ("i32", 8)}
AGG = {"<{ i8, i32 }>": ["i8", "i32"], "[3 x i16]": ["i16"] * 3, "<{ i64, [2 x i8] }>": ["i64", "[2 x i8]"],
       "[2 x i8]": ["i8", "i8"], "[5 x i64]": ["i64"] * 5}
TOPAGG = ["<{ i8, i32 }>", "[3 x i16]", "<{ i64, [2 x i8] }>", "[5 x i64]"]
MEMT = SCALAR + list(VEC) + TOPAGG + ["double"]
LOADT = SCALAR + list(VEC) + TOPAGG     # arbitrary bytes may be a NaN, whose payload is not fixed
ALLT = MEMT + ["i1", "ptr"]
NONE = frozenset()
OBJ = 128           # bytes per memory object
ROOM = 40           # bytes every pointer value may touch
INLEN = 48
OUT = 2048           # size of the output buffer
OUTLIM = OUT - 3 * OBJ - 64


def bits(t):
    return int(t[1:])


def size(t):
    if t == "double" or t == "ptr":
        return 8
    if t == "i1":
        return 1
    if t in VEC:
        e, n = VEC[t]
        return size(e) * n
    if t in AGG:
        return sum(size(e) for e in AGG[t])
    return bits(t) // 8


def to_bytes(t, v):
    if t == "double":
        return struct.pack("<d", v)
    if t in VEC:
        return b"".join(to_bytes(VEC[t][0], x) for x in v)
    if t in AGG:
        return b"".join(to_bytes(e, x) for e, x in zip(AGG[t], v))
    return v.to_bytes(size(t), "little")


def from_bytes(t, b):
    if t == "double":
        return struct.unpack("<d", b)[0]
    parts = [VEC[t][0]] * VEC[t][1] if t in VEC else AGG.get(t)
    if parts is None:
        return int.from_bytes(b, "little")
    r, o = [], 0
    for e in parts:
        r.append(from_bytes(e, b[o:o + size(e)]))
        o += size(e)
    return tuple(r)


def zero(t):
    if t == "double":
        return 0.0
    if t in VEC:
        return (0,) * VEC[t][1]
    if t in AGG:
        return tuple(zero(e) for e in AGG[t])
    return 0


def text(t, v):
    """A constant as written in IR."""
    if t == "double":
        return "0x%016X" % struct.unpack("<Q", struct.pack("<d", v))[0]
    if t in VEC:
        return "<" + ", ".join(VEC[t][0] + " " + text(VEC[t][0], x) for x in v) + ">"
    if t in AGG:
        s = ", ".join(e + " " + text(e, x) for e, x in zip(AGG[t], v))
        return ("[%s]" if t.startswith("[") else "<{ %s }>") % s
    if t == "i1":
        return "true" if v else "false"
    return str(v)


def quoted(name):
    """A symbol as written in IR."""
    if name.replace("_", "a").replace(".", "a").isalnum():
        return name
    return '"' + "".join(c if c.isalnum() or c in "_. " else "\\%02X" % ord(c) for c in name) + '"'


class V:
    """A value: an SSA variable or a constant."""
    __slots__ = ("t", "name", "const")

    def __init__(self, t, name=None, const=None):
        self.t, self.name, self.const = t, name, const

    def __str__(self):
        return self.name if self.name else text(self.t, self.const)


BIN = ["add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem"]
CMP = ["eq", "ne", "ult", "ugt", "slt", "sge"]
INTR = ["bswap", "ctpop", "umin", "smax", "fshl", "bitreverse", "uadd.sat", "umax", "smin", "usub.sat", "ctlz", "cttz", "abs"]
OVF = ["uadd", "umul", "usub"]
LIBF = ["toupper", "tolower", "isdigit", "isalpha", "abs", "isspace", "isxdigit", "isprint", "isalnum", "ispunct"]      # functions whose result depends on their argument only
LIBM = ["fabs", "floor", "round", "fmod", "modf", "sqrt"]
LIBM2 = ["fmod"]
RMW = ["add", "sub", "and", "or", "xor", "nand", "xchg", "umax", "umin", "max", "min"]
VZ = "<i32 1, i32 2>"
NGLOBAL = 3
NSLOT = 2


class Fn:
    pass


class Program:
    """case = [functions, statements of main, input bytes (hex), I/O ints];
    function = [signature ints, statements]"""

    def __init__(self, case, atomics=False, exact=False, helper=False):
        """exact: nothing in it may be optimised; helper: it uses a library of its own"""
        self.atomics = atomics
        self.exact = exact
        self.helper = helper
        fns, main, data, io = case
        # types used more than others
        self.hot = random.Random(io[0] * 256 + io[1]).sample(ALLT, 4)
        self.input = bytes.fromhex(data).ljust(INLEN, b"\x5a")[:INLEN]
        self.plan_reads(io)
        self.outpos = 0
        self.features = set()
        self.pending = []
        self.fns = []
        for i, (sig, body) in enumerate(fns):
            f = Fn()
            f.name = ["f%d", "fn.%d", "a_rather_long_function_name_%d", "x%d"][sig[0] % 4] % i
            if sig[0] % 32 == 20:
                f.name = ['\x01asm%d', 'we"ird\\%d', "sp ace%d"][sig[0] // 32 % 3] % i
            if sig[0] % 32 == 21:
                f.name = f.name + "_" + "long" * [13, 16, 24, 70, 400][sig[0] // 32 % 5] + "%d" % i
            f.index = i
            f.params = [self.ty(x, ALLT) for x in sig[3:3 + sig[1] % 9]]
            f.ret = self.ty(sig[2], ALLT + ["void"])
            f.linkage = ["", "", "internal ", "weak ", "linkonce_odr ", "hidden "][sig[11] % 6]
            f.attrs = ["", "", " noinline", " nounwind", " optsize"][sig[11] // 6 % 5]
            if exact:
                f.linkage, f.attrs = "", " noinline optnone"
            f.rec = sig[0] % 8 == 7
            if f.rec:
                f.params = ["i32"] + f.params[:4]
            f.raw = body
            self.fns.append(f)
        # a function calls only functions after it
        for f in reversed(self.fns):
            self.resolve_fn(f)
        m = Fn()
        m.name, m.params, m.ret, m.raw, m.index, m.rec = "main", [], "i32", main, -1, False
        self.resolve_fn(m)
        self.main = m
        # the memory is part of the output
        self.mempos = self.outpos
        self.outpos += NGLOBAL * OBJ + helper
        self.fns_in_order = self.fns + [m]

    def ty(self, n, allowed):
        h = [t for t in self.hot if t in allowed]
        if n % 4 and h:
            return h[n // 4 % len(h)]
        return allowed[n // 4 % len(allowed)]

    # ---- input and output -------------------------------------------------------
    def plan_reads(self, io):
        """self.mode, self.reads: (kind, position, length, size argument); simulates the stream position."""
        self.mode = ["fd", "fd", "stream", "stream", "mmap", "stdin", "argv"][io[0] % 7]
        if self.mode == "argv":
            self.input = self.input.replace(b"\0", b"\1")
        self.sig = ["i32 %argc, ptr %argv", "", "i32 %argc", "i32 %argc, ptr %argv, ptr %envp"][io[1] // 4 % 4]
        if self.mode == "argv" and "argv" not in self.sig:
            self.sig = "i32 %argc, ptr %argv"
        self.opener = io[1]
        self.reads = []
        self.inmem = bytearray(OBJ)
        self.inlab = [NONE] * OBJ
        pos, i, fdpos = 0, 2, 0
        while pos < INLEN and i + 1 < len(io):
            k, n = io[i], 1 + io[i + 1] % 16
            i += 2
            n = min(n, INLEN - pos)
            end = pos + n
            if self.mode == "fd":
                kind = ["read", "pread", "pread64"][k % 3] if io[0] // 7 % 2 else "read"
                if kind == "read":      # reads where the descriptor stands
                    pos = fdpos
                    n = min(n, INLEN - pos)
                    fdpos += n
            elif self.mode == "stream":
                kind = ["fread", "fread_unlocked", "fgetc", "getc", "getc_unlocked", "fgetc_unlocked", "fgets",
                        "getdelim", "__getdelim", "_IO_getc"][k % 10]
            elif self.mode in ("mmap", "argv"):
                kind, n = self.mode, INLEN
            else:
                kind = ["getchar", "getchar_unlocked", "fread"][k % 3]
            arg = n
            if kind in ("fgetc", "getc", "getc_unlocked", "fgetc_unlocked", "getchar", "getchar_unlocked", "_IO_getc"):
                n = arg = 1
            elif kind == "fgets":
                arg = n + 1
                nl = self.input.find(b"\n", pos, pos + n)
                if nl >= 0:
                    n = nl + 1 - pos
                if b"\0" in self.input[pos:pos + n]:
                    kind, n, arg = "fgetc", 1, 1
            elif kind in ("getdelim", "__getdelim"):
                arg = self.input[(pos + n - 1)]
                n = self.input.index(arg, pos) + 1 - pos
            self.reads.append((kind, pos, n, arg))
            self.inmem[pos:pos + n] = self.input[pos:pos + n]
            self.inlab[pos:pos + n] = [frozenset((j,)) for j in range(pos, pos + n)]
            if kind == "fgets":
                self.inmem[pos + n] = 0
                self.inlab[pos + n] = NONE
            pos = max(pos + n, end if self.mode == "fd" else 0)
        self.wio = io[-2:]

    def plan_writes(self):
        """(kind, position, length)"""
        n = max(self.outpos, 1)
        a, b = (list(self.wio) + [0, 0])[:2]
        res = []
        pos = 0
        self.wmode = "stream" if a % 2 else "fd"
        while pos < n:
            k = 1 + (b * (pos + 7) % 61)
            if len(res) > 20:
                k = n
            k = min(k, n - pos)
            kind = "write" if self.wmode == "fd" else ["fwrite", "fputc", "putc"][(a // 2 + pos) % 3]
            if kind != "write" and kind != "fwrite":
                k = 1
            res.append((kind, pos, k))
            pos += k
        return res

    def emit_reads(self):
        w = self.o.append
        m = self.mode
        if m in ("fd", "mmap"):
            k = self.opener % 4
            if k == 0:
                w("  %ifd = call i32 (ptr, i32, ...) @open(ptr @inpath, i32 0)")
            elif k == 1:
                w("  %ifd = call i32 (ptr, i32, ...) @open64(ptr @inpath, i32 0)")
            elif k == 2:
                w("  %ifd = call i32 (i32, ptr, i32, ...) @openat(i32 -100, ptr @inpath, i32 0)")
            else:
                w("  %ifd = call i32 (ptr, i32, ...) @open(ptr @inpath, i32 2, i32 384)")
        elif m == "argv":
            w("  %ip = getelementptr ptr, ptr %argv, i64 1")
            w("  %arg = load ptr, ptr %ip")
        elif m == "stream":
            w("  %%ifp = call ptr @%s(ptr @inpath, ptr @mode_r)" % ("fopen" if self.opener % 2 else "fopen64"))
        else:
            w("  %ifp = load ptr, ptr @stdin")
        for kind, pos, n, arg in self.reads:
            p = self.tmp()
            w("  %s = getelementptr i8, ptr @in, i64 %d" % (p, pos))
            if kind == "read":
                w("  %s = call i64 @read(i32 %%ifd, ptr %s, i64 %d)" % (self.tmp(), p, arg))
            elif kind in ("pread", "pread64"):
                w("  %s = call i64 @%s(i32 %%ifd, ptr %s, i64 %d, i64 %d)" % (self.tmp(), kind, p, arg, pos))
            elif kind in ("fread", "fread_unlocked"):
                w("  %s = call i64 @%s(ptr %s, i64 1, i64 %d, ptr %%ifp)" % (self.tmp(), kind, p, arg))
            elif kind == "fgets":
                w("  %s = call ptr @fgets(ptr %s, i32 %d, ptr %%ifp)" % (self.tmp(), p, arg))
            elif kind == "argv":
                w("  call void @llvm.memcpy.p0.p0.i64(ptr %s, ptr %%arg, i64 %d, i1 false)" % (p, n))
            elif kind == "mmap":
                q = self.tmp()
                w("  %s = call ptr @mmap(ptr null, i64 %d, i32 1, i32 2, i32 %%ifd, i64 0)" % (q, n))
                w("  call void @llvm.memcpy.p0.p0.i64(ptr %s, ptr %s, i64 %d, i1 false)" % (p, q, n))
            elif kind in ("getdelim", "__getdelim"):
                q = self.tmp()
                w("  %s = call i64 @%s(ptr @line, ptr @linen, i32 %d, ptr %%ifp)" % (self.tmp(), kind, arg))
                w("  %s = load ptr, ptr @line" % q)
                w("  call void @llvm.memcpy.p0.p0.i64(ptr %s, ptr %s, i64 %d, i1 false)" % (p, q, n))
            else:
                q, b = self.tmp(), self.tmp()
                w("  %s = call i32 @%s(%s)" % (q, kind, "ptr %ifp" if not kind.startswith("getchar") else ""))
                w("  %s = trunc i32 %s to i8" % (b, q))
                w("  store i8 %s, ptr %s" % (b, p))

    def emit_writes(self):
        w = self.o.append
        plan = self.plan_writes()
        if self.wmode == "fd":
            w("  %ofd = call i32 (ptr, i32, ...) @open(ptr @outpath, i32 577, i32 384)")
        else:
            w("  %ofp = call ptr @fopen(ptr @outpath, ptr @mode_w)")
        for kind, pos, n in plan:
            p = self.tmp()
            w("  %s = getelementptr i8, ptr @out, i64 %d" % (p, pos))
            if kind == "write":
                w("  %s = call i64 @write(i32 %%ofd, ptr %s, i64 %d)" % (self.tmp(), p, n))
            elif kind == "fwrite":
                w("  %s = call i64 @fwrite(ptr %s, i64 1, i64 %d, ptr %%ofp)" % (self.tmp(), p, n))
            else:
                b, q = self.tmp(), self.tmp()
                w("  %s = load i8, ptr %s" % (b, p))
                w("  %s = zext i8 %s to i32" % (q, b))
                w("  %s = call i32 @%s(i32 %s, ptr %%ofp)" % (self.tmp(), kind, q))
        if self.wmode == "fd":
            w("  %oc = call i32 @close(i32 %ofd)")
        else:
            w("  %oc = call i32 @fclose(ptr %ofp)")

    # ---- resolution -------------------------------------------------------------
    def resolve_fn(self, f):
        self.f = f
        self.n = 0
        env = {}
        f.args = []
        for i, t in enumerate(f.params):
            v = V(t, "%%a%d" % i)
            f.args.append(v)
            env.setdefault(t, []).append(v)
        f.locals = []     # names of stack and heap objects
        f.heap = []       # the heap objects among them; only these may be pointed at
        f.scal = []       # scalar stack variables (only loaded and stored directly)
        f.body = self.block(f.raw, env, 0)
        self.dump(f, env)
        if f.rec:
            f.recargs = [self.pick(env, t, 3 + k) for k, t in enumerate(f.params[1:])]
        if f.ret != "void":
            f.retval = self.pick(env, f.ret, f.raw[-1][1] if f.raw and isinstance(f.raw[-1][1], int) else 1)
        f.nvar = self.n

    def dump(self, f, env):
        """Writes out what was computed last."""
        end = self.outpos + (400 if f.index < 0 else 80)
        for t in ALLT:
            for v in env.get(t, ())[-4 if f.index < 0 else -2:]:
                r = v
                if t == "i1":
                    r = self.new("i8")
                    f.body.append(("conv", r, "zext", v))
                elif t == "ptr":
                    r = self.new("i8")
                    f.body.append(("load", r, ("ptr", v)))
                if self.outpos + size(r.t) > min(end, OUTLIM):
                    break
                f.body.append(("out", self.outpos, r))
                self.outpos += size(r.t)

    def new(self, t):
        self.n += 1
        return V(t, "%%v%d" % self.n)

    def pick(self, env, t, n):
        vs = env.get(t, ())
        if vs and n % 7:
            # prefer recent values
            k = n % 16
            return vs[-1 - k % len(vs)] if k < 10 else vs[k % len(vs)]
        return self.const(t, n)

    def const(self, t, n):
        if t == "ptr":
            g = n % (NGLOBAL + 1)
            return V(t, "@g%d" % g) if g < NGLOBAL else V(t, "@k")
        if t == "double":
            return V(t, const=float(n))
        if t == "i1":
            return V(t, const=n & 1)
        if t in VEC:
            return V(t, const=tuple((n + i) & 0xff for i in range(VEC[t][1])))
        if t in AGG:
            return V(t, const=zero(t))
        return V(t, const=(n * 0x9E3779B97F4A7C15F39CC0605CEDC835 >> 3) % (1 << bits(t)) if n % 3 else n % 256)

    def block(self, stmts, env, depth):
        out = []
        for s in stmts:
            node = getattr(self, "r_" + s[0])(env, depth, *s[1:])
            for e, v in self.pending:
                e.setdefault(v.t, []).append(v)
            del self.pending[:]
            if node:
                self.features.add(s[0])
                out.append(node)
        return out

    def define(self, env, v):
        """Makes v available to the statements after the current one."""
        self.pending.append((env, v))
        return v

    def r_bin(self, env, d, o, t, x, y):
        op, t = BIN[o % len(BIN)], self.ty(t, SCALAR + list(VEC))
        if t in VEC:
            op = BIN[o % 6]
        a, b = self.pick(env, t, x), self.pick(env, t, y)
        return ("bin", self.define(env, self.new(t)), op, a, b)

    def r_cmp(self, env, d, o, t, x, y):
        t = self.ty(t, SCALAR)
        return ("cmp", self.define(env, self.new("i1")), CMP[o % len(CMP)], self.pick(env, t, x), self.pick(env, t, y))

    def r_fp(self, env, d, o, x, y):
        k = o % 8
        if k == 0:
            return ("conv", self.define(env, self.new("double")), "uitofp", self.pick(env, ["i16", "i8", "i32"][y % 3], x))
        if k == 1:
            return ("conv", self.define(env, self.new("double")), "sitofp", self.pick(env, ["i16", "i8", "i32"][y % 3], x))
        a = self.pick(env, "double", x)
        if k == 2:
            return ("fadd", self.define(env, self.new("double")), a, self.pick(env, "double", y),
                    ["fadd", "fsub", "fmul"][o // 8 % 3])
        if k == 3:
            return ("fcmp", self.define(env, self.new("i1")), a, self.pick(env, "double", y))
        if k == 4:
            return ("conv", self.define(env, self.new("i64")), "bitcast", a)
        if k == 5:
            return ("conv", self.define(env, self.new("i64")), "fptosi", a)
        if k == 6:
            return ("conv", self.define(env, self.new("i64")), "fptoui", a)
        return ("fround", self.define(env, self.new("double")), a)

    def r_select(self, env, d, t, c, x, y):
        t = self.ty(t, ALLT)
        c, a, b = self.pick(env, "i1", c), self.pick(env, t, x), self.pick(env, t, y)
        return ("select", self.define(env, self.new(t)), c, a, b)

    def r_cast(self, env, d, f, t, x):
        T = SCALAR + ["i1"]
        f, t = T[f % len(T)], T[t % len(T)]
        if bits(f) == bits(t):
            f = "i8" if t != "i8" else "i32"
        op = "trunc" if bits(f) > bits(t) else ("zext" if x % 2 else "sext")
        return ("conv", self.define(env, self.new(t)), op, self.pick(env, f, x))

    def r_intr(self, env, d, o, t, x, y):
        op, t = INTR[o % len(INTR)], ["i16", "i32", "i64"][t % 3]
        return ("intr", self.define(env, self.new(t)), op, self.pick(env, t, x), self.pick(env, t, y))

    def r_vec(self, env, d, o, t, x, y):
        t = self.ty(t, list(VEC))
        e, n = VEC[t]
        v, k = self.pick(env, t, x), o // 4 % n
        if o % 4 == 0:
            return ("vins", self.define(env, self.new(t)), v, self.pick(env, e, y), k)
        if o % 4 == 1:
            return ("vext", self.define(env, self.new(e)), v, k)
        if o % 4 == 2:
            return ("vextv", self.define(env, self.new(e)), v, self.pick(env, "i32", y))
        m = [(o // 4 + i * 3 + y) % (2 * n) for i in range(n)]
        return ("shuf", self.define(env, self.new(t)), v, self.pick(env, t, y), m)

    def r_agg(self, env, d, o, t, x, y):
        t = self.ty(t, TOPAGG)
        idx = [o // 2 % len(AGG[t])]
        e = AGG[t][idx[0]]
        if e in AGG:
            idx.append(y % len(AGG[e]))
            e = AGG[e][idx[1]]
        v = self.pick(env, t, x)
        if o % 2:
            return ("ext", self.define(env, self.new(e)), v, idx)
        return ("ins", self.define(env, self.new(t)), v, self.pick(env, e, y), idx)

    def addr(self, env, n, x, objs=None):
        """An address with at least ROOM bytes: (base, constant offset, index or None)."""
        if n % 3 == 0:
            return ("const", self.base(env, n // 3, objs), n // 5 % (OBJ - ROOM))
        if n % 3 == 1 and n // 3 % 4 == 0:
            return ("neg", self.base(env, n // 12, objs), self.pick(env, ["i32", "i64", "i8", "i16"][n // 7 % 4], x), n // 5 % 2)
        if n % 3 == 1:
            return ("idx", self.base(env, n // 3, objs), self.pick(env, ["i32", "i64", "i8"][n // 7 % 3], x), n // 5 % 2)
        return ("ptr", self.pick(env, "ptr", x))

    def base(self, env, n, objs=None):
        objs = self.f.locals if objs is None else objs
        if not objs or n % 3 == 0:
            k = n // 3 % (NGLOBAL + 2)
            return "@g%d" % k if k < NGLOBAL else ("@k" if k == NGLOBAL else "@in")
        return objs[n % len(objs)]

    def r_local(self, env, d, x):
        if d:
            return None
        name = "%%m%d" % len(self.f.locals)
        self.f.locals.append(name)
        if x % 2:
            self.f.heap.append(name)
        return ("local", name, x % 2)

    def r_in(self, env, d, t, off):
        t = self.ty(t, LOADT)
        return ("load", self.define(env, self.new(t)), ("const", "@in", off % (INLEN - size(t) + 1)))

    def r_scal(self, env, d, t, x):
        if d:
            return None
        name = "%%s%d" % len(self.f.scal)
        t = self.ty(t, MEMT)
        self.f.scal.append((name, t))
        return ("scal", name, t, self.pick(env, t, x))

    def r_scalop(self, env, d, o, n, x):
        if not self.f.scal:
            return None
        name, t = self.f.scal[n % len(self.f.scal)]
        if o % 2:
            return ("sload", self.define(env, self.new(t)), name)
        return ("sstore", name, self.pick(env, t, x))

    def r_load(self, env, d, t, a, x):
        ad = self.addr(env, a, x)
        t = self.ty(t, LOADT)
        return ("load", self.define(env, self.new(t)), ad)

    def writable(self, ad):
        if ad[0] == "ptr":
            return None
        return (ad[0], "@g0") + tuple(ad[2:]) if ad[1] in ("@k", "@in") else ad

    def r_store(self, env, d, t, a, x, y):
        ad = self.addr(env, a, x)
        w = self.writable(ad)
        if w is None:
            # through a pointer value: must not be the constant object
            w = ("wptr", ad[1])
        return ("store", self.pick(env, self.ty(t, MEMT), y), w)

    def r_ptr(self, env, d, a, x):
        ad = self.addr(env, a, x, self.f.heap)
        return ("gep", self.define(env, self.new("ptr")), ad)

    def r_slot(self, env, d, o, x):
        k = o // 2 % NSLOT
        if o % 2:
            return ("slotst", k, self.pick(env, "ptr", x))
        return ("slotld", self.define(env, self.new("ptr")), k)

    def r_mem(self, env, d, o, a, b, x, y):
        dst = self.addr(env, a, x)
        dst = self.writable(dst) or ("wptr", dst[1])
        n = y % (ROOM + 1)
        lib = o // 3 % 3 == 0
        length = V("i64", const=n) if y % 3 else ("mask", self.pick(env, "i64", y))
        if o % 3 == 2:
            return ("memset", dst, self.pick(env, "i8", b), length, lib)
        return ("memcpy" if o % 3 == 0 else "memmove", dst, self.addr(env, b, y), length, lib)

    def r_out(self, env, d, t, x):
        t = self.ty(t, MEMT)
        if self.outpos + size(t) > 600:
            return None
        pos = self.outpos
        self.outpos += size(t)
        return ("out", pos, self.pick(env, t, x))

    def r_call(self, env, d, n, x, y):
        later = [g for g in self.fns if g.index > self.f.index]
        if not later:
            return None
        g = later[n % len(later)]
        args = [self.pick(env, t, x + 3 * i) for i, t in enumerate(g.params)]
        r = self.define(env, self.new(g.ret)) if g.ret != "void" else None
        return ("call", r, g, args, y % 3 == 0, ["call", "call", "tail call", "invoke"][y // 3 % 4])

    def r_freeze(self, env, d, t, x):
        t = self.ty(t, ALLT)
        return ("freeze", self.define(env, self.new(t)), self.pick(env, t, x))

    def r_fneg(self, env, d, x):
        return ("fneg", self.define(env, self.new("double")), self.pick(env, "double", x))

    def r_vsel(self, env, d, o, t, x, y):
        """lane-wise comparison and selection"""
        t = self.ty(t, list(VEC))
        return ("vsel", self.define(env, self.new(t)), CMP[o % 4], self.pick(env, t, x), self.pick(env, t, y),
                self.pick(env, t, x + o // 4), self.pick(env, t, y + o // 8))

    def r_vgep(self, env, d, o, x, y):
        """a vector of pointers"""
        return ("vgep", self.define(env, self.new("i8")), self.base(env, o), self.pick(env, "<2 x i32>", x),
                self.pick(env, "i32", y), y % 2, y // 2 % 3)

    def r_exit(self, env, d, c, x):
        c = self.pick(env, "i1", c)
        return ("exit", c, self.pick(env, "i32", x)) if c.name else None

    def r_ret(self, env, d, c, x):
        """return in the middle"""
        c = self.pick(env, "i1", c)
        if not c.name:
            return None
        return ("ret", c, self.pick(env, self.f.ret, x) if self.f.ret != "void" else None)

    def r_ovf(self, env, d, o, t, x, y):
        """arithmetic that tells about overflow"""
        t = self.ty(t, ["i16", "i32", "i64"])
        r, b = self.define(env, self.new(t)), self.define(env, self.new("i1"))
        return ("ovf", r, b, OVF[o % 3], self.pick(env, t, x), self.pick(env, t, y))

    def r_red(self, env, d, o, t, x):
        """all lanes of a vector combined"""
        t = self.ty(t, list(VEC))
        return ("red", self.define(env, self.new(VEC[t][0])), ["add", "or", "xor", "umax"][o % 4], self.pick(env, t, x))

    def r_lib(self, env, d, o, x):
        op = LIBM[o // 3 % len(LIBM)] if o % 3 == 0 else LIBF[o % len(LIBF)]
        t = "double" if op in LIBM else "i32"
        return ("lib", self.define(env, self.new(t)), op, self.pick(env, t, x), self.pick(env, t, x // 3 + o))

    def r_atomic(self, env, d, o, t, x, y):
        if not self.atomics:
            return None
        t = ["i8", "i16", "i32", "i64"][t % 4]
        k = o // 4 % NGLOBAL
        op = ["load", "store", "cas", RMW[o // 4 % len(RMW)], RMW[y % len(RMW)]][o % 5]
        off = y % 6 * 8
        return ("atomic", self.define(env, self.new(t)) if op != "store" else None, op, t, k, off, self.pick(env, t, x),
                self.pick(env, t, y))

    def sub(self, env, body, d):
        e = {k: list(v) for k, v in env.items()}
        return self.block(body, e, d + 1), e

    def r_if(self, env, d, c, t, x, y, a, b):
        if d >= 3:
            return None
        c = self.pick(env, "i1", c)
        A, ea = self.sub(env, a, d)
        B, eb = self.sub(env, b, d)
        phis = []
        for k in range(t % 3):
            ty = self.ty(t // 3 + 5 * k, ALLT)
            phis.append((self.new(ty), self.pick(ea, ty, x + k), self.pick(eb, ty, y + k)))
        for p in phis:
            self.define(env, p[0])
        return ("if", c, A, B, phis)

    def r_loop(self, env, d, c, t, x, y, a):
        if d >= 2:
            return None
        n = ("mask", self.pick(env, "i32", c)) if c % 2 else V("i32", const=c % 5)
        ty = self.ty(t, ALLT)
        acc = self.new(ty)
        i = self.new("i32")
        init = self.pick(env, ty, x)
        e = {k: list(v) for k, v in env.items()}
        e.setdefault(ty, []).append(acc)
        e.setdefault("i32", []).append(i)
        body = self.block(a, e, d + 1)
        nxt = self.pick(e, ty, y)
        self.define(env, acc)
        return ("loop", n, i, acc, init, body, nxt)

    def r_switch(self, env, d, c, t, x, arms):
        if d >= 3 or not arms:
            return None
        arms = arms if len(arms) > 1 else arms * 2
        ct = ["i8", "i32", "i64", "i128", "i24"][c % 5]
        v = self.pick(env, ct, c)
        ty = self.ty(t, ALLT)
        res = []
        for k, a in enumerate(arms[:4]):
            A, e = self.sub(env, a, d)
            res.append((A, self.pick(e, ty, x + k)))
        return ("switch", v, res, self.define(env, self.new(ty)))

    # ---- IR ---------------------------------------------------------------------
    def personality(self, at):
        if self.invokes:
            self.o[at] = self.o[at][:-1] + "personality ptr @__gcc_personality_v0 {"

    def emit(self):
        self.o = []
        self.decl = set()
        w = self.o.append
        w('target triple = "x86_64-pc-linux-gnu"')
        w('target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"')
        for i in range(NGLOBAL):
            w("@g%d = global [%d x i8] zeroinitializer, align 16" % (i, OBJ))
        w("@in = global [%d x i8] zeroinitializer, align 16" % OBJ)
        w("@k = constant [%d x i8] [%s], align 16" % (OBJ, ", ".join("i8 %d" % b for b in KDATA)))
        for i in range(NSLOT):
            w("@slot%d = global ptr @g%d" % (i, i % NGLOBAL))
        w("@fslot = global ptr null")
        w("@dtmp = global double 0.0")
        w("@out = global [%d x i8] zeroinitializer, align 16" % OUT)
        for n in ("i16", "i32", "i64"):
            w("declare %s @llvm.bswap.%s(%s)" % (n, n, n))
            w("declare %s @llvm.ctpop.%s(%s)" % (n, n, n))
            w("declare %s @llvm.bitreverse.%s(%s)" % (n, n, n))
            for f in ("ctlz", "cttz", "abs"):
                w("declare %s @llvm.%s.%s(%s, i1)" % (n, f, n, n))
            for f in ("umin", "smax", "uadd.sat", "umax", "smin", "usub.sat"):
                w("declare %s @llvm.%s.%s(%s, %s)" % (n, f, n, n, n))
            w("declare %s @llvm.fshl.%s(%s, %s, %s)" % (n, n, n, n, n))
        w("declare void @llvm.memcpy.p0.p0.i64(ptr, ptr, i64, i1)")
        w("declare void @llvm.memmove.p0.p0.i64(ptr, ptr, i64, i1)")
        w("declare void @llvm.memset.p0.i64(ptr, i8, i64, i1)")
        for d in DECL:
            w("declare " + d)
        w("@stdin = external global ptr")
        w('@mode_r = constant [2 x i8] c"r\\00"')
        w('@inpath = constant [5 x i8] c"x.in\\00"')
        w('@outpath = constant [6 x i8] c"x.out\\00"')
        w('@mode_w = constant [2 x i8] c"w\\00"')
        w("@line = global ptr null")
        w("@linen = global i64 0")
        for f in self.fns:
            w("define %s%s @%s(%s)%s {" % (f.linkage, f.ret, quoted(f.name), ", ".join("%s %s" % (v.t, v) for v in f.args), f.attrs))
            at = len(self.o) - 1
            self.prologue(f)
            self.emit_block(f.body)
            self.personality(at)
            if f.rec:
                n = f.args[0]
                c, m, k = self.tmp(), self.tmp(), self.tmp()
                w("  %s = and i32 %s, 3" % (m, n))
                w("  %s = icmp ne i32 %s, 0" % (c, m))
                l1, l2 = self.lab(), self.lab()
                w("  br i1 %s, label %%%s, label %%%s" % (c, l1, l2))
                pre = self.cur
                self.label(l1)
                w("  %s = sub i32 %s, 1" % (k, m))
                args = ", ".join(["i32 " + k] + ["%s %s" % (v.t, v) for v in f.recargs])
                if f.ret == "void":
                    w("  call void @%s(%s)" % (quoted(f.name), args))
                    w("  br label %%%s" % l2)
                    self.label(l2)
                    w("  ret void")
                else:
                    r, p = self.tmp(), self.tmp()
                    w("  %s = call %s @%s(%s)" % (r, f.ret, quoted(f.name), args))
                    w("  br label %%%s" % l2)
                    self.label(l2)
                    w("  %s = phi %s [ %s, %%%s ], [ %s, %%%s ]" % (p, f.ret, f.retval, pre, r, l1))
                    w("  ret %s %s" % (f.ret, p))
            elif f.ret == "void":
                w("  ret void")
            else:
                w("  ret %s %s" % (f.ret, f.retval))
            w("}")
        w("define void @finish()%s {" % (" noinline optnone" if self.exact else ""))
        self.prologue(None)
        if self.helper:
            w("  %h = call i32 @helper(i32 5)")
            w("  %h8 = trunc i32 %h to i8")
            w("  store i8 %%h8, ptr getelementptr (i8, ptr @out, i64 %d)" % (self.outpos - 1))
            self.decl.add("i32 @helper(i32)")
        for i in range(NGLOBAL):
            w("  call void @llvm.memcpy.p0.p0.i64(ptr getelementptr (i8, ptr @out, i64 %d), ptr @g%d, i64 %d, i1 false)" % (
                self.mempos + i * OBJ, i, OBJ))
        self.emit_writes()
        w("  ret void")
        w("}")
        w("define i32 @main(%s)%s {" % (self.sig, " noinline optnone" if self.exact else ""))
        at = len(self.o) - 1
        self.prologue(self.main)
        self.emit_reads()
        self.emit_block(self.main.body)
        self.personality(at)
        w("  call void @finish()")
        c = self.tmp()
        w("  %s = and i32 %s, 127" % (c, self.main.retval))
        w("  ret i32 %s" % c)
        w("}")
        for d in sorted(self.decl):
            w("declare " + d)
        return "\n".join(self.o) + "\n"

    def prologue(self, f):
        self.f = f
        self.invokes = 0
        self.nt = 0
        self.nl = 0
        self.label("entry")

    def tmp(self):
        self.nt += 1
        return "%%t%d" % self.nt

    def lab(self):
        self.nl += 1
        return "l%d" % self.nl

    def label(self, n):
        self.cur = n
        self.o.append("%s:" % n)

    def emit_addr(self, ad):
        w = self.o.append
        if ad[0] in ("ptr", "wptr"):
            return str(ad[1])
        p = self.tmp()
        if ad[0] == "const":
            w("  %s = getelementptr i8, ptr %s, i64 %d" % (p, ad[1], ad[2]))
            return p
        v = ad[2]
        m = self.tmp()
        w("  %s = and %s %s, 31" % (m, v.t, v))
        if ad[0] == "neg":
            mid = self.tmp()
            self.o[-1] = "  %s = or %s %s, -32" % (m, v.t, v)
            w("  %s = getelementptr i8, ptr %s, i64 %d" % (mid, ad[1], OBJ // 2))
            w("  %s = getelementptr i8, ptr %s, %s %s" % (p, mid, v.t, m))
        elif ad[3]:
            w("  %s = getelementptr [%d x i8], ptr %s, i64 0, %s %s" % (p, OBJ, ad[1], v.t, m))
        else:
            w("  %s = getelementptr i8, ptr %s, %s %s" % (p, ad[1], v.t, m))
        return p

    def emit_len(self, n):
        if isinstance(n, V):
            return str(n)
        m = self.tmp()
        self.o.append("  %s = and %s %s, %d" % (m, n[1].t, n[1], 31 if n[1].t == "i64" else 3))
        return m

    def emit_block(self, nodes):
        for n in nodes:
            getattr(self, "e_" + n[0])(*n[1:])

    def e_bin(self, r, op, a, b):
        w = self.o.append
        bb = str(b)
        if op in ("shl", "lshr", "ashr"):
            bb = self.tmp()
            w("  %s = and %s %s, %d" % (bb, r.t, b, 7))
        elif op in ("udiv", "urem"):
            bb = self.tmp()
            w("  %s = or %s %s, 1" % (bb, r.t, b))
        w("  %s = %s %s %s, %s" % (r, op, r.t, a, bb))

    def e_cmp(self, r, op, a, b):
        self.o.append("  %s = icmp %s %s %s, %s" % (r, op, a.t, a, b))

    def e_conv(self, r, op, a):
        self.o.append("  %s = %s %s %s to %s" % (r, op, a.t, a, r.t))

    def e_fadd(self, r, a, b, op):
        self.o.append("  %s = %s double %s, %s" % (r, op, a, b))

    def e_fround(self, r, a):
        t = self.tmp()
        self.o.append("  %s = fptrunc double %s to float" % (t, a))
        self.o.append("  %s = fpext float %s to double" % (r, t))

    def e_fcmp(self, r, a, b):
        self.o.append("  %s = fcmp olt double %s, %s" % (r, a, b))

    def e_select(self, r, c, a, b):
        self.o.append("  %s = select i1 %s, %s %s, %s %s" % (r, c, r.t, a, r.t, b))

    def e_intr(self, r, op, a, b):
        t = r.t
        if op in ("bswap", "ctpop", "bitreverse"):
            self.o.append("  %s = call %s @llvm.%s.%s(%s %s)" % (r, t, op, t, t, a))
        elif op in ("ctlz", "cttz", "abs"):
            self.o.append("  %s = call %s @llvm.%s.%s(%s %s, i1 false)" % (r, t, op, t, t, a))
        elif op == "fshl":
            self.o.append("  %s = call %s @llvm.fshl.%s(%s %s, %s %s, %s 5)" % (r, t, t, t, a, t, b, t))
        else:
            self.o.append("  %s = call %s @llvm.%s.%s(%s %s, %s %s)" % (r, t, op, t, t, a, t, b))

    def e_vins(self, r, v, e, k):
        self.o.append("  %s = insertelement %s %s, %s %s, i32 %d" % (r, r.t, v, e.t, e, k))

    def e_vext(self, r, v, k):
        self.o.append("  %s = extractelement %s %s, i32 %d" % (r, v.t, v, k))

    def e_vextv(self, r, v, i):
        m = self.tmp()
        self.o.append("  %s = and i32 %s, %d" % (m, i, VEC[v.t][1] - 1))
        self.o.append("  %s = extractelement %s %s, i32 %s" % (r, v.t, v, m))

    def e_shuf(self, r, a, b, m):
        self.o.append("  %s = shufflevector %s %s, %s %s, <%d x i32> <%s>" % (
            r, r.t, a, r.t, b, len(m), ", ".join("i32 %d" % i for i in m)))

    def e_ins(self, r, v, e, idx):
        self.o.append("  %s = insertvalue %s %s, %s %s, %s" % (r, r.t, v, e.t, e, ", ".join(map(str, idx))))

    def e_ext(self, r, v, idx):
        self.o.append("  %s = extractvalue %s %s, %s" % (r, v.t, v, ", ".join(map(str, idx))))

    def e_local(self, name, heap):
        if heap:
            self.o.append("  %s = call ptr @malloc(i64 %d)" % (name, OBJ))
        else:
            self.o.append("  %s = alloca [%d x i8], align 16" % (name, OBJ))
        self.o.append("  call void @llvm.memset.p0.i64(ptr %s, i8 0, i64 %d, i1 false)" % (name, OBJ))

    def e_scal(self, name, t, v):
        self.o.append("  %s = alloca %s" % (name, t))
        self.o.append("  store %s %s, ptr %s" % (t, v, name))

    def e_sload(self, r, name):
        self.o.append("  %s = load %s, ptr %s" % (r, r.t, name))

    def e_sstore(self, name, v):
        self.o.append("  store %s %s, ptr %s" % (v.t, v, name))

    def e_load(self, r, ad):
        p = self.emit_addr(ad)
        self.o.append("  %s = load %s, ptr %s, align 1" % (r, r.t, p))

    def guard(self, ad):
        """A store through a pointer value goes elsewhere when it points at read-only memory."""
        if ad[0] != "wptr":
            return self.emit_addr(ad)
        w = self.o.append
        a, b, c, d, p = (self.tmp() for _ in range(5))
        w("  %s = ptrtoint ptr %s to i64" % (a, ad[1]))
        w("  %s = sub i64 %s, ptrtoint (ptr @k to i64)" % (b, a))
        w("  %s = icmp ult i64 %s, %d" % (c, b, OBJ))
        w("  %s = select i1 %s, ptr @g1, ptr %s" % (p, c, ad[1]))
        return p

    def e_store(self, v, ad):
        p = self.guard(ad)
        self.o.append("  store %s %s, ptr %s, align 1" % (v.t, v, p))

    def e_gep(self, r, ad):
        if ad[0] == "ptr":
            self.o.append("  %s = getelementptr i8, ptr %s, i64 0" % (r, ad[1]))
            return
        p = self.emit_addr(ad)
        self.o.append("  %s = getelementptr i8, ptr %s, i64 0" % (r, p))

    def e_slotst(self, k, p):
        self.o.append("  store ptr %s, ptr @slot%d" % (p, k))

    def e_slotld(self, r, k):
        self.o.append("  %s = load ptr, ptr @slot%d" % (r, k))

    def e_memset(self, dst, v, n, lib):
        p = self.guard(dst)
        n = self.emit_len(n)
        if lib:
            x = self.tmp()
            self.o.append("  %s = zext i8 %s to i32" % (x, v))
            self.o.append("  %s = call ptr @memset(ptr %s, i32 %s, i64 %s)" % (self.tmp(), p, x, n))
            return
        self.o.append("  call void @llvm.memset.p0.i64(ptr %s, i8 %s, i64 %s, i1 false)" % (p, v, n))

    def e_memcpy(self, dst, src, n, lib, op="memmove"):
        # overlapping memcpy is undefined, so both kinds are emitted as memmove unless they cannot overlap
        p, q = self.guard(dst), self.emit_addr(src)
        n = self.emit_len(n)
        if dst[0] != "wptr" and src[0] != "ptr" and dst[1] != src[1]:
            op = "memcpy"
        if lib:
            self.o.append("  %s = call ptr @%s(ptr %s, ptr %s, i64 %s)" % (self.tmp(), op, p, q, n))
            return
        self.o.append("  call void @llvm.%s.p0.p0.i64(ptr %s, ptr %s, i64 %s, i1 false)" % (op, p, q, n))

    e_memmove = e_memcpy

    def e_out(self, pos, v):
        p = self.tmp()
        self.o.append("  %s = getelementptr i8, ptr @out, i64 %d" % (p, pos))
        self.o.append("  store %s %s, ptr %s, align 1" % (v.t, v, p))

    def e_call(self, r, g, args, indirect, how):
        a = ", ".join("%s %s" % (v.t, v) for v in args)
        fn = "@" + quoted(g.name)
        if indirect:
            self.o.append("  store ptr %s, ptr @fslot" % fn)
            fn = self.tmp()
            self.o.append("  %s = load ptr, ptr @fslot" % fn)
        line = "  %s%s %s %s(%s)" % ("%s = " % r if r else "", how, g.ret, fn, a)
        if how != "invoke":
            self.o.append(line)
            return
        self.invokes += 1
        ok, bad, lp = self.lab(), self.lab(), self.tmp()
        self.o.append(line + " to label %%%s unwind label %%%s" % (ok, bad))
        self.label(bad)
        self.o.append("  %s = landingpad { ptr, i32 } cleanup" % lp)
        self.o.append("  resume { ptr, i32 } %s" % lp)
        self.label(ok)

    def e_freeze(self, r, x):
        self.o.append("  %s = freeze %s %s" % (r, x.t, x))

    def e_fneg(self, r, x):
        self.o.append("  %s = fneg double %s" % (r, x))

    def e_vsel(self, r, op, a, b, x, y):
        c = self.tmp()
        n = VEC[r.t][1]
        self.o.append("  %s = icmp %s %s %s, %s" % (c, op, a.t, a, b))
        self.o.append("  %s = select <%d x i1> %s, %s %s, %s %s" % (r, n, c, r.t, x, r.t, y))

    def e_vgep(self, r, base, v, i, lane, kind):
        w = self.o.append
        m, n, p, q, e = (self.tmp() for _ in range(5))
        w("  %s = and <2 x i32> %s, <i32 31, i32 31>" % (m, v))
        w("  %s = and i32 %s, 15" % (n, i))
        if kind == 0:           # scalar base, vector index
            w("  %s = getelementptr i8, ptr %s, <2 x i32> %s" % (q, base, m))
        elif kind == 1:         # vector base, scalar index
            w("  %s = getelementptr i8, ptr %s, <2 x i32> %s" % (p, base, m))
            w("  %s = getelementptr i8, <2 x ptr> %s, i32 %s" % (q, p, n))
        else:                   # both
            w("  %s = getelementptr [16 x i8], ptr %s, <2 x i32> %s, i32 %s" % (q, base, VZ, n))
        w("  %s = extractelement <2 x ptr> %s, i32 %d" % (e, q, lane))
        w("  %s = load i8, ptr %s" % (r, e))

    def e_exit(self, c, x):
        w = self.o.append
        a, b, t = self.lab(), self.lab(), self.tmp()
        w("  br i1 %s, label %%%s, label %%%s" % (c, a, b))
        self.label(a)
        w("  call void @finish()")
        w("  %s = and i32 %s, 127" % (t, x))
        w("  call void @exit(i32 %s)" % t)
        w("  unreachable")
        self.label(b)

    def e_ret(self, c, x):
        w = self.o.append
        a, b = self.lab(), self.lab()
        w("  br i1 %s, label %%%s, label %%%s" % (c, a, b))
        self.label(a)
        if self.f.index < 0:
            w("  call void @finish()")
            t = self.tmp()
            w("  %s = and i32 %s, 127" % (t, x))
            w("  ret i32 %s" % t)
        elif x is None:
            w("  ret void")
        else:
            w("  ret %s %s" % (x.t, x))
        self.label(b)

    def e_ovf(self, r, b, op, x, y):
        w = self.o.append
        q, t = self.tmp(), r.t
        self.decl.add("{ %s, i1 } @llvm.%s.with.overflow.%s(%s, %s)" % (t, op, t, t, t))
        w("  %s = call { %s, i1 } @llvm.%s.with.overflow.%s(%s %s, %s %s)" % (q, t, op, t, t, x, t, y))
        w("  %s = extractvalue { %s, i1 } %s, 0" % (r, t, q))
        w("  %s = extractvalue { %s, i1 } %s, 1" % (b, t, q))

    def e_red(self, r, op, x):
        e, n = VEC[x.t]
        name = "llvm.vector.reduce.%s.v%d%s" % (op, n, e)
        self.decl.add("%s @%s(%s)" % (e, name, x.t))
        self.o.append("  %s = call %s @%s(%s %s)" % (r, e, name, x.t, x))

    def e_lib(self, r, op, x, y):
        w = self.o.append
        if op in LIBM2:
            w("  %s = call double @%s(double %s, double %s)" % (r, op, x, y))
            return
        if op == "modf":
            w("  %s = call double @%s(double %s, ptr @dtmp)" % (r, op, x))
            return
        if op in LIBM:
            w("  %s = call double @%s(double %s)" % (r, op, x))
            return
        a, b = self.tmp(), self.tmp()
        w("  %s = and i32 %s, 127" % (a, x))
        if op == "abs":
            w("  %s = sub i32 0, %s" % (b, a))
            a = b
        if op.startswith("is"):
            b, c = self.tmp(), self.tmp()
            w("  %s = call i32 @%s(i32 %s)" % (b, op, a))
            w("  %s = icmp ne i32 %s, 0" % (c, b))
            w("  %s = zext i1 %s to i32" % (r, c))
        else:
            w("  %s = call i32 @%s(i32 %s)" % (r, op, a))

    def e_atomic(self, r, op, t, k, off, a, b):
        p = self.tmp()
        w = self.o.append
        w("  %s = getelementptr i8, ptr @g%d, i64 %d" % (p, k, off))
        if op == "load":
            w("  %s = load atomic %s, ptr %s seq_cst, align %d" % (r, t, p, size(t)))
        elif op == "store":
            w("  store atomic %s %s, ptr %s release, align %d" % (t, a, p, size(t)))
        elif op != "cas":
            w("  %s = atomicrmw %s ptr %s, %s %s %s" % (r, op, p, t, a, ["monotonic", "acquire", "acq_rel", "seq_cst", "release"][off // 8 % 5]))
        else:
            q = self.tmp()
            w("  %s = cmpxchg ptr %s, %s %s, %s %s seq_cst monotonic" % (q, p, t, a, t, b))
            w("  %s = extractvalue { %s, i1 } %s, 0" % (r, t, q))

    def e_if(self, c, A, B, phis):
        w = self.o.append
        l1, l2, l3 = self.lab(), self.lab(), self.lab()
        w("  br i1 %s, label %%%s, label %%%s" % (c, l1, l2))
        self.label(l1)
        self.emit_block(A)
        w("  br label %%%s" % l3)
        ea = self.cur
        self.label(l2)
        self.emit_block(B)
        w("  br label %%%s" % l3)
        eb = self.cur
        self.label(l3)
        for r, a, b in phis:
            w("  %s = phi %s [ %s, %%%s ], [ %s, %%%s ]" % (r, r.t, a, ea, b, eb))

    def e_loop(self, n, i, acc, init, body, nxt):
        w = self.o.append
        m = self.emit_len(n)
        pre = self.cur
        h, b, x = self.lab(), self.lab(), self.lab()
        i2, c = self.tmp(), self.tmp()
        w("  br label %%%s" % h)
        self.label(h)
        at = len(self.o)
        w("")
        w("")
        w("  %s = icmp ult i32 %s, %s" % (c, i, m))
        w("  br i1 %s, label %%%s, label %%%s" % (c, b, x))
        self.label(b)
        self.emit_block(body)
        w("  %s = add i32 %s, 1" % (i2, i))
        w("  br label %%%s" % h)
        latch = self.cur
        self.o[at] = "  %s = phi i32 [ 0, %%%s ], [ %s, %%%s ]" % (i, pre, i2, latch)
        self.o[at + 1] = "  %s = phi %s [ %s, %%%s ], [ %s, %%%s ]" % (acc, acc.t, init, pre, nxt, latch)
        self.label(x)

    def e_switch(self, v, arms, r):
        w = self.o.append
        end = self.lab()
        labs = [self.lab() for _ in arms]
        # the last arm is the default
        m = self.tmp()
        sh = bits(v.t) - 3
        w("  %s = and %s %s, %d" % (m, v.t, v, 3 << sh | 3))
        cases = [(hi << sh | k, l) for k, l in enumerate(labs[:-1]) for hi in (0, 3 if k % 2 else 1)]
        w("  switch %s %s, label %%%s [ %s ]" % (v.t, m, labs[-1], " ".join("%s %d, label %%%s" % (v.t, c, l) for c, l in cases)))
        inc = []
        for (A, val), l in zip(arms, labs):
            self.label(l)
            self.emit_block(A)
            inc.append("[ %s, %%%s ]" % (val, self.cur))
            w("  br label %%%s" % end)
        self.label(end)
        w("  %s = phi %s %s" % (r, r.t, ", ".join(inc)))


DECL = ["i32 @open(ptr, i32, ...)", "i32 @open64(ptr, i32, ...)", "i32 @openat(i32, ptr, i32, ...)",
        "i64 @read(i32, ptr, i64)", "i64 @pread(i32, ptr, i64, i64)", "i64 @pread64(i32, ptr, i64, i64)",
        "i64 @write(i32, ptr, i64)", "i32 @close(i32)", "ptr @malloc(i64)", "ptr @fopen(ptr, ptr)", "ptr @fopen64(ptr, ptr)",
        "i32 @fclose(ptr)", "i64 @fread(ptr, i64, i64, ptr)", "i64 @fread_unlocked(ptr, i64, i64, ptr)",
        "i64 @fwrite(ptr, i64, i64, ptr)", "i32 @fputc(i32, ptr)", "i32 @putc(i32, ptr)", "i32 @fgetc(ptr)", "i32 @getc(ptr)",
        "i32 @getc_unlocked(ptr)", "i32 @fgetc_unlocked(ptr)", "i32 @_IO_getc(ptr)", "i32 @getchar()", "i32 @getchar_unlocked()",
        "ptr @fgets(ptr, i32, ptr)", "i64 @getdelim(ptr, ptr, i32, ptr)", "i64 @__getdelim(ptr, ptr, i32, ptr)",
        "ptr @mmap(ptr, i64, i32, i32, i32, i64)", "i32 @__gcc_personality_v0(...)", "void @exit(i32)", "ptr @memcpy(ptr, ptr, i64)", "ptr @memmove(ptr, ptr, i64)",
        "ptr @memset(ptr, i32, i64)"] + ["i32 @%s(i32)" % f for f in LIBF] + ["double @%s(double)" % f for f in LIBM if f not in ("fmod", "modf")] + [
            "double @fmod(double, double)", "double @modf(double, ptr)"]
HELPER = lambda x: 3 * x + 1
HELPER_C = "int helper(int x) { return 3 * x + 1; }\n"
KDATA = bytes((i * 37 + 11) & 255 for i in range(OBJ))


class TooLong(Exception):
    pass


class Exit(Exception):
    pass


class Return(Exception):
    pass


class Interp:
    """Executes a Program; every value is (concrete, frozenset of input offsets)."""

    def __init__(self, prog, limit=40000, uninstrumented=()):
        self.p = prog
        self.uninst = uninstrumented    # functions whose arguments and result carry no taint
        self.steps = limit
        self.mem = {}
        self.lab = {}
        for i in range(NGLOBAL):
            self.obj("@g%d" % i, OBJ)
        self.obj("@in", OBJ)
        self.obj("@k", OBJ)
        self.mem["@k"][:] = KDATA
        self.obj("@out", OUT)
        self.mem["@in"][:] = prog.inmem
        self.lab["@in"][:] = prog.inlab
        self.slots = [(("@g%d" % (i % NGLOBAL), 0), NONE) for i in range(NSLOT)]
        self.nobj = 0
        self.events = []        # ("enter", f) ("leave", f) ("branch", f, labels, kind)
        self.code = None        # exit status
        try:
            r = self.call(prog.main, [])[0]
        except Exit as e:
            r = e.args[0]
        self.code = r & 127

    def finish(self):
        if self.p.helper:
            self.mem["@out"][self.p.outpos - 1] = HELPER(5)
        for i in range(NGLOBAL):
            self.wr(("@out", self.p.mempos + i * OBJ), bytes(self.mem["@g%d" % i]), list(self.lab["@g%d" % i]))
        self.events += [("enter", "finish"), ("leave", "finish")]

    def obj(self, name, n):
        self.mem[name] = bytearray(n)
        self.lab[name] = [NONE] * n

    def val(self, v):
        if v.name is None:
            return v.const, NONE
        if v.name[0] == "@":
            return (v.name, 0), NONE
        return self.env[v.name]

    def set(self, r, v, l):
        self.env[r.name] = (v, l)

    def branch(self, kind, l):
        if l:
            self.events.append(("branch", self.fn.name, l, kind))

    def call(self, f, args):
        saved = getattr(self, "env", None), getattr(self, "fn", None), getattr(self, "loc", None)
        if f.name in self.uninst:
            args = [(a[0], NONE) for a in args]
        self.env = {v.name: a for v, a in zip(f.args, args)}
        self.fn = f
        self.loc = {}
        self.events.append(("enter", f.name))
        r = None
        try:
            self.block(f.body)
            early = False
        except Return as e:
            r, early = e.args[0], True
        if early:
            pass
        elif f.rec:
            n, l = self.val(f.args[0])
            m = n & 3
            r = self.val(f.retval) if f.ret != "void" else None
            self.branch("br", l)
            if m:
                r2 = self.call(f, [(m - 1, l)] + [self.val(v) for v in f.recargs])
                r = r2
        elif f.ret != "void":
            r = self.val(f.retval)
        if f.index == -1:
            self.finish()
        self.events.append(("leave", f.name))
        if r and f.name in self.uninst:
            r = (r[0], NONE)
        self.env, self.fn, self.loc = saved
        return r

    def block(self, nodes):
        for n in nodes:
            self.steps -= 1
            if self.steps < 0:
                raise TooLong()
            getattr(self, "i_" + n[0])(*n[1:])

    def resolve(self, b):
        return b if b[0] == "@" else self.loc[b]

    def address(self, ad):
        """((object, offset), label of the pointer)"""
        if ad[0] == "const":
            return (self.resolve(ad[1]), ad[2]), NONE
        if ad[0] == "idx":
            v, l = self.val(ad[2])
            self.branch("gep", l)
            return (self.resolve(ad[1]), v & 31), l
        if ad[0] == "neg":
            v, l = self.val(ad[2])
            self.branch("gep", l)
            return (self.resolve(ad[1]), OBJ // 2 - 32 + (v & 31)), l
        v, l = self.val(ad[1])
        if ad[0] == "wptr":
            # the comparison guarding the store is a select on the pointer
            self.branch("select", l)
            if v[0] == "@k":
                return ("@g1", 0), l
        return v, l

    def rd(self, a, n):
        o, k = a
        return bytes(self.mem[o][k:k + n]), frozenset().union(*self.lab[o][k:k + n])

    def wr(self, a, b, labs):
        o, k = a
        self.mem[o][k:k + len(b)] = b
        self.lab[o][k:k + len(b)] = labs

    def length(self, n):
        if isinstance(n, V):
            return n.const, NONE
        v, l = self.val(n[1])
        return (v & (31 if n[1].t == "i64" else 3)), l

    @staticmethod
    def arith(op, t, a, b):
        w = bits(t)
        m = (1 << w) - 1
        if op == "add":
            return a + b & m
        if op == "sub":
            return a - b & m
        if op == "mul":
            return a * b & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return a << (b & 7) & m
        if op == "lshr":
            return a >> (b & 7)
        if op == "ashr":
            return ((a - (1 << w) if a >> (w - 1) else a) >> (b & 7)) & m
        if op == "udiv":
            return a // (b | 1)
        return a % (b | 1)

    def i_bin(self, r, op, a, b):
        (x, lx), (y, ly) = self.val(a), self.val(b)
        if r.t in VEC:
            e = VEC[r.t][0]
            v = tuple(self.arith(op, e, p, q) for p, q in zip(x, y))
        else:
            v = self.arith(op, r.t, x, y)
        self.set(r, v, lx | ly)

    def i_cmp(self, r, op, a, b):
        (x, lx), (y, ly) = self.val(a), self.val(b)
        if op in ("slt", "sge"):
            h = 1 << (bits(a.t) - 1)
            x, y = (x ^ h), (y ^ h)
        v = {"eq": x == y, "ne": x != y, "ult": x < y, "ugt": x > y, "slt": x < y, "sge": x >= y}[op]
        self.set(r, int(v), lx | ly)

    def i_conv(self, r, op, a):
        x, l = self.val(a)
        if op == "uitofp":
            v = float(x)
        elif op == "sitofp":
            v = float(x - (1 << bits(a.t)) if x >> (bits(a.t) - 1) else x)
        elif op in ("fptosi", "fptoui"):
            if op == "fptoui" and x <= -1:
                raise TooLong()
            v = int(x) & ((1 << 64) - 1)
        elif op == "bitcast":
            v = struct.unpack("<Q", struct.pack("<d", x))[0]
        elif op == "sext" and x >> (bits(a.t) - 1):
            v = (x - (1 << bits(a.t))) & ((1 << bits(r.t)) - 1)
        else:
            v = x & ((1 << bits(r.t)) - 1)
        self.set(r, v, l)

    def i_fadd(self, r, a, b, op):
        (x, lx), (y, ly) = self.val(a), self.val(b)
        v = x + y if op == "fadd" else x - y if op == "fsub" else x * y
        if abs(v) > 1e15 or 0 < abs(v) < 1e-5:
            raise TooLong()
        self.set(r, v, lx | ly)

    def i_fround(self, r, a):
        x, l = self.val(a)
        self.set(r, struct.unpack("<f", struct.pack("<f", x))[0], l)

    def i_fcmp(self, r, a, b):
        (x, lx), (y, ly) = self.val(a), self.val(b)
        self.set(r, int(x < y), lx | ly)

    def i_select(self, r, c, a, b):
        (x, lx) = self.val(c)
        if r.t not in VEC:
            self.branch("select", lx)
        v, l = self.val(a if x else b)
        self.set(r, v, l | lx)

    def i_intr(self, r, op, a, b):
        (x, lx), (y, ly) = self.val(a), self.val(b)
        w = bits(r.t)
        l = lx | ly
        if op == "bswap":
            v, l = int.from_bytes(x.to_bytes(w // 8, "little"), "big"), lx
        elif op == "ctpop":
            v, l = bin(x).count("1"), lx
        elif op == "bitreverse":
            v, l = int(format(x, "0%db" % w)[::-1], 2), lx
        elif op == "umin":
            v = min(x, y)
        elif op == "smax":
            h = 1 << (w - 1)
            v = max(x ^ h, y ^ h) ^ h
        elif op == "umax":
            v = max(x, y)
        elif op == "smin":
            h = 1 << (w - 1)
            v = min(x ^ h, y ^ h) ^ h
        elif op == "usub.sat":
            v = max(x - y, 0)
        elif op == "ctlz":
            v, l = w - x.bit_length(), lx
        elif op == "cttz":
            v, l = (w if not x else (x & -x).bit_length() - 1), lx
        elif op == "abs":
            v, l = (-x) & ((1 << w) - 1) if x >> (w - 1) else x, lx
        elif op == "uadd.sat":
            v = min(x + y, (1 << w) - 1)
        else:
            v = ((x << 5) | (y >> (w - 5))) & ((1 << w) - 1)
        self.set(r, v, l)

    def i_vins(self, r, v, e, k):
        (x, lx), (y, ly) = self.val(v), self.val(e)
        self.set(r, x[:k] + (y,) + x[k + 1:], lx | ly)

    def i_vext(self, r, v, k):
        x, l = self.val(v)
        self.set(r, x[k], l)

    def i_vextv(self, r, v, i):
        (x, lx), (y, ly) = self.val(v), self.val(i)
        self.set(r, x[y & (len(x) - 1)], lx | ly)

    def i_shuf(self, r, a, b, m):
        (x, lx), (y, ly) = self.val(a), self.val(b)
        self.set(r, tuple((x + y)[i] for i in m), lx | ly)

    def i_ins(self, r, v, e, idx):
        (x, lx), (y, ly) = self.val(v), self.val(e)

        def put(t, i):
            if not i:
                return y
            return t[:i[0]] + (put(t[i[0]], i[1:]),) + t[i[0] + 1:]
        self.set(r, put(x, idx), lx | ly)

    def i_ext(self, r, v, idx):
        x, l = self.val(v)
        for i in idx:
            x = x[i]
        self.set(r, x, l)

    def i_local(self, name, heap):
        self.nobj += 1
        o = "obj%d" % self.nobj
        self.obj(o, OBJ)
        self.loc[name] = o
        self.env[name] = ((o, 0), NONE)

    def i_scal(self, name, t, v):
        self.loc[name] = self.val(v)

    def i_sload(self, r, name):
        self.set(r, *self.loc[name])

    def i_sstore(self, name, v):
        self.loc[name] = self.val(v)

    def i_load(self, r, ad):
        a, la = self.address(ad)
        b, l = self.rd(a, size(r.t))
        self.set(r, from_bytes(r.t, b), l | la)

    def i_store(self, v, ad):
        a, _ = self.address(ad)
        x, l = self.val(v)
        b = to_bytes(v.t, x)
        self.wr(a, b, [l] * len(b))

    def i_gep(self, r, ad):
        a, l = self.address(ad)
        self.set(r, a, l)

    def i_slotst(self, k, p):
        self.slots[k] = self.val(p)

    def i_slotld(self, r, k):
        self.set(r, *self.slots[k])

    def i_memset(self, dst, v, n, lib):
        a, _ = self.address(dst)
        n, _ = self.length(n)
        x, l = self.val(v)
        self.wr(a, bytes([x]) * n, [l] * n)

    def i_memcpy(self, dst, src, n, lib):
        a, _ = self.address(dst)
        s, _ = self.address(src)
        n, _ = self.length(n)
        o, k = s
        b, l = bytes(self.mem[o][k:k + n]), list(self.lab[o][k:k + n])
        self.wr(a, b, l)

    i_memmove = i_memcpy

    def i_out(self, pos, v):
        x, l = self.val(v)
        b = to_bytes(v.t, x)
        self.wr(("@out", pos), b, [l] * len(b))

    def i_call(self, r, g, args, indirect, how):
        v = self.call(g, [self.val(a) for a in args])
        if r:
            self.set(r, *v)

    def i_freeze(self, r, x):
        self.set(r, *self.val(x))

    def i_fneg(self, r, x):
        v, l = self.val(x)
        self.set(r, -v, l)

    def i_vsel(self, r, op, a, b, x, y):
        vs = [self.val(v) for v in (a, b, x, y)]
        f = {"eq": lambda p, q: p == q, "ne": lambda p, q: p != q, "ult": lambda p, q: p < q, "ugt": lambda p, q: p > q}[op]
        self.set(r, tuple(u if f(p, q) else v for p, q, u, v in zip(*[v[0] for v in vs])), NONE.union(*[v[1] for v in vs]))

    def i_vgep(self, r, base, v, i, lane, kind):
        (x, lx), (y, ly) = self.val(v), self.val(i)
        l = NONE
        off = 0
        if kind < 2:
            self.branch("vgep", lx)
            l |= lx
            off += x[lane] & 31
        if kind > 0:
            self.branch("gep", ly)
            l |= ly
            off += y & 15
        if kind == 2:
            off += 16 * (lane + 1)
        b, lm = self.rd((self.resolve(base), off), 1)
        self.set(r, b[0], l | lm)

    def i_exit(self, c, x):
        v, l = self.val(c)
        self.branch("br", l)
        if v:
            self.finish()
            raise Exit(self.val(x)[0])

    def i_ret(self, c, x):
        v, l = self.val(c)
        self.branch("br", l)
        if v:
            raise Return(self.val(x) if x is not None else None)

    def i_ovf(self, r, b, op, x, y):
        (p, lp), (q, lq) = self.val(x), self.val(y)
        v = {"uadd": p + q, "umul": p * q, "usub": p - q}[op]
        m = (1 << bits(r.t)) - 1
        self.set(r, v & m, lp | lq)
        self.set(b, int(v & m != v), lp | lq)

    def i_red(self, r, op, x):
        v, l = self.val(x)
        m = (1 << bits(r.t)) - 1
        a = v[0]
        for y in v[1:]:
            a = {"add": a + y & m, "or": a | y, "xor": a ^ y, "umax": max(a, y)}[op]
        self.set(r, a, l)

    def i_lib(self, r, op, x, y):
        v, l = self.val(x)
        if op in LIBM2:
            z, m = self.val(y)
            if z == 0:
                raise TooLong()
            v, l = math.fmod(v, z), l | m
        elif op == "sqrt":
            if v < 0:
                raise TooLong()
            v = math.sqrt(v)
        elif op == "round":
            v = math.copysign(math.floor(abs(v) + .5), v)
        elif op == "modf":
            v = math.modf(v)[0]
        elif op in LIBM:
            v = abs(v) if op == "fabs" else math.copysign(float(math.floor(v)), v) if v == 0 else float(math.floor(v))
        else:
            v &= 127
            ch = chr(v)
            pr = 32 <= v < 127
            v = {"toupper": ord(ch.upper()), "tolower": ord(ch.lower()), "isdigit": int(ch.isdigit()),
                 "isalpha": int(ch.isalpha()), "abs": v, "isspace": int(ch in " \t\n\r\v\f"), "isxdigit": int(ch in "0123456789abcdefABCDEF"),
                 "isprint": int(pr), "isalnum": int(ch.isalnum()), "ispunct": int(pr and ch != " " and not ch.isalnum())}[op]
        self.set(r, v, l)

    def i_atomic(self, r, op, t, k, off, a, b):
        # atomics carry no taint
        p = ("@g%d" % k, off)
        n = size(t)
        cur, l = self.rd(p, n)
        cur = int.from_bytes(cur, "little")
        x, y = self.val(a)[0], self.val(b)[0]
        if op == "load":
            self.set(r, cur, l)
            return
        if op == "store":
            self.wr(p, x.to_bytes(n, "little"), [NONE] * n)
            return
        h, m = 1 << (8 * n - 1), (1 << 8 * n) - 1
        new = {"add": cur + x, "sub": cur - x, "and": cur & x, "or": cur | x, "xor": cur ^ x, "nand": ~(cur & x), "xchg": x,
               "umax": max(cur, x), "umin": min(cur, x), "max": max(cur ^ h, x ^ h) ^ h, "min": min(cur ^ h, x ^ h) ^ h,
               "cas": y if cur == x else cur}[op] & m
        self.wr(p, new.to_bytes(n, "little"), [NONE] * n)
        self.set(r, cur, NONE)

    def i_if(self, c, A, B, phis):
        x, l = self.val(c)
        self.branch("br", l)
        self.block(A if x else B)
        vals = [self.val(a if x else b) for _, a, b in phis]
        for (r, _, _), v in zip(phis, vals):
            self.set(r, *v)

    def i_loop(self, n, i, acc, init, body, nxt):
        m, l = self.length(n)
        self.set(acc, *self.val(init))
        k = 0
        while True:
            self.set(i, k, NONE)
            self.branch("br", l)
            if k >= m:
                break
            self.block(body)
            self.set(acc, *self.val(nxt))
            k += 1

    def i_switch(self, v, arms, r):
        x, l = self.val(v)
        self.branch("switch", l)
        k = min(x & 3, len(arms) - 1)
        if x >> (bits(v.t) - 3) & 3 not in (0, 3 if k % 2 else 1):
            k = len(arms) - 1
        self.block(arms[k][0])
        self.set(r, *self.val(arms[k][1]))
