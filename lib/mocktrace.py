"""Traces built from a generated call tree, for the analyses that work on any ProgramTrace.

A frame is ["f", name, items, returned]; an item is ["b", block, bytes] (entering a basic block and touching some
input bytes), ["c", frame] (a call) or ["n"] (an event that is not about control flow). A frame starts with a block
and every call is followed by the block returned to, unless the trace ends inside the call."""
from hypothesis import strategies as st


def frames(nbytes, depth=3, names=4, extra=True, bytes_=None):
    byt = st.one_of(st.just([]), st.lists(st.integers(0, max(0, nbytes - 1)), max_size=4),
                    st.tuples(st.integers(0, max(0, nbytes - 1)), st.integers(1, 6)).map(lambda t: list(range(t[0], min(nbytes, t[0] + t[1])))))
    if bytes_ is not None:
        byt = bytes_
    block = st.tuples(st.just("b"), st.integers(0, 3), byt if nbytes else st.just([])).map(list)
    none = st.just(["n"])

    def level(sub):
        item = [block.map(lambda b: [b])]
        if extra:
            item.append(none.map(lambda n: [n]))
        if sub is not None:
            item.append(st.tuples(sub, block).map(lambda t: [["c", t[0]], t[1]]))
            item.append(st.tuples(sub, block).map(lambda t: [["c", t[0]], t[1]]))
        return st.tuples(st.integers(0, names - 1), block, st.lists(st.one_of(*item), max_size=5)).map(
            lambda t: ["f", t[0], [t[1]] + [x for i in t[2] for x in i], True])
    cur = level(None)
    for _ in range(depth):
        cur = level(cur)
    return cur


def truncate(frame, n):
    """The trace after its first n events (the program was cut short)."""
    left = [n]

    def go(f):
        out = ["f", f[1], [], False]
        left[0] -= 1
        for it in f[2]:
            if left[0] <= 0:
                return out
            if it[0] == "c":
                out[2].append(["c", go(it[1])])
            else:
                left[0] -= 1
                out[2].append(it)
        if left[0] > 0 and f[3]:
            left[0] -= 1
            out[3] = True
        return out
    return go(frame)


class Ev:
    """What the model knows about one event."""
    __slots__ = ("kind", "frame", "block", "bytes", "uid", "obj", "sub", "thread", "entry", "ret", "events", "parent", "caller")


class FrameInfo:
    def __init__(self, name, parent, caller):
        self.name, self.parent, self.caller = name, parent, caller
        self.items = []           # block events and FrameInfo of calls, in order
        self.entry = self.ret = None

    def all_bytes(self):
        s = set()
        for i in self.items:
            s |= i.all_bytes() if isinstance(i, FrameInfo) else set(i.bytes)
        return s


def flatten(frame, parent=None, caller=None):
    """(FrameInfo, [Ev]) of a frame."""
    fi = FrameInfo("f%d" % frame[1], parent, caller)
    evs = []

    def ev(kind, **kw):
        e = Ev()
        e.kind, e.frame, e.block, e.bytes, e.uid, e.obj, e.thread = kind, fi, None, [], None, None, 0
        for k, v in kw.items():
            setattr(e, k, v)
        evs.append(e)
        return e
    fi.entry = ev("entry")
    last = None
    for it in frame[2]:
        if it[0] == "b":
            last = ev("block", block=it[1], bytes=it[2])
            fi.items.append(last)
        elif it[0] == "n":
            ev("note")
        else:
            sub, sevs = flatten(it[1], fi, last)
            evs += sevs
            fi.items.append(sub)
    if frame[3]:
        fi.ret = ev("return")
    return fi, evs


def make(threads, order, content, uid=1, path="input", accesses=()):
    """A ProgramTrace of the interleaved threads; returns (trace, [Ev in global order], [FrameInfo of the threads])."""
    from polytracker.inputs import Input
    from polytracker.tracing import (BasicBlock, BasicBlockEntry, ByteAccessType, ByteOffset, Function, FunctionEntry,
                                     FunctionReturn, ProgramTrace, TaintAccess, Taints, TraceEvent)
    source = Input(uid=uid, path=path, size=len(content), content=content)
    flat = [flatten(t) for t in threads]
    queues = [list(evs) for _, evs in flat]
    seq = []
    k = 0
    while any(queues):
        live = [i for i, q in enumerate(queues) if q]
        i = live[(order[k % len(order)] if order else 0) % len(live)]
        k += 1
        e = queues[i].pop(0)
        e.thread = i
        seq.append(e)
    per = {}
    for n, e in enumerate(seq):
        e.uid = n
        per.setdefault(e.thread, []).append(e)
    pos = {e.uid: j for q in per.values() for j, e in enumerate(q)}

    def at(lst, j):
        return lst[j].obj if 0 <= j < len(lst) else None

    other = Input(uid=uid + 1, path="other", size=len(content), content=bytes(len(content)))

    def offsets(bs):
        """Bytes from the size of the input on are bytes of another input."""
        return Taints(ByteOffset(source, b) if b < len(content) else ByteOffset(other, b - len(content)) for b in bs)

    class F(Function):
        def __init__(self, name, index):
            super().__init__(name, index)
            self.bytes, self.callees, self.callers = set(), set(), set()

        def taints(self):
            return offsets(self.bytes)

        def calls_to(self):
            return set(self.callees)

        def called_from(self):
            return set(self.callers)

    class B(BasicBlock):
        def entries(self):
            return (e.obj for e in seq if e.kind == "block" and e.obj.basic_block == self)

        def taints(self):
            return offsets(b for e in seq if e.kind == "block" and e.obj.basic_block == self for b in e.bytes)

    class Common:
        @property
        def previous_event(self):
            return at(per[self.ev.thread], pos[self.uid] - 1)

        @property
        def next_event(self):
            return at(per[self.ev.thread], pos[self.uid] + 1)

        @property
        def next_global_event(self):
            return at(seq, self.uid + 1)

        @property
        def previous_global_event(self):
            return at(seq, self.uid - 1)

        @property
        def function_entry(self):
            return self.ev.frame.entry.obj

        def taints(self):
            return offsets(self.ev.bytes)

    class EntryEv(Common, FunctionEntry):
        @property
        def function_return(self):
            return self.ev.frame.ret.obj if self.ev.frame.ret else None

        def taints(self):
            return offsets(self.ev.frame.all_bytes())

    class BlockEv(Common, BasicBlockEntry):
        @property
        def basic_block(self):
            return blocks[(self.ev.frame.name, self.ev.block)]

    class ReturnEv(Common, FunctionReturn):
        @property
        def basic_block(self):
            return [i for i in self.ev.frame.items if not isinstance(i, FrameInfo)][-1].obj.basic_block

    class NoteEv(Common, TraceEvent):
        @property
        def basic_block(self):
            return blocks[(self.ev.frame.name, 0)]

    funcs, blocks = {}, {}
    for e in seq:
        if e.frame.name not in funcs:
            funcs[e.frame.name] = F(e.frame.name, int(e.frame.name[1:]))
        if e.kind == "block" and (e.frame.name, e.block) not in blocks:
            blocks[(e.frame.name, e.block)] = B(funcs[e.frame.name], e.block)
    for e in seq:
        funcs[e.frame.name].bytes |= set(e.bytes)
        if e.kind == "entry" and e.frame.parent:
            funcs[e.frame.parent.name].callees.add(funcs[e.frame.name])
            funcs[e.frame.name].callers.add(funcs[e.frame.parent.name])
        e.obj = {"entry": EntryEv, "block": BlockEv, "return": ReturnEv, "note": NoteEv}[e.kind](e.uid)
        e.obj.ev = e

    class Access(TaintAccess):
        def taints(self):
            return offsets(self.offs)

    accs = []
    for n, offs in enumerate(accesses):
        a = Access(n, seq[0].obj if seq else None, n + 1, ByteAccessType.INPUT_ACCESS)
        a.offs = offs
        accs.append(a)

    class T(ProgramTrace):
        def __len__(self):
            return len(seq)

        def __iter__(self):
            return iter([e.obj for e in seq])

        functions = property(lambda self: list(funcs.values()))
        basic_blocks = property(lambda self: list(blocks.values()))
        inputs = property(lambda self: (source,))
        outputs = property(lambda self: None)
        output_taints = property(lambda self: ())
        num_accesses = property(lambda self: len(accs))
        taint_forest = property(lambda self: None)

        def has_event(self, uid):
            return 0 <= uid < len(seq)

        def get_event(self, uid):
            return seq[uid].obj

        def get_function(self, name):
            return funcs[name]

        def has_function(self, name):
            return name in funcs

        def access_sequence(self):
            return iter(accs)

        def file_offset(self, node):
            raise KeyError(node)

        def __getitem__(self, uid):
            return seq[uid].obj

        def __contains__(self, uid):
            return 0 <= uid < len(seq)
    t = T()
    t.blocks_by_key = blocks
    return t, seq, [f for f, _ in flat], source
