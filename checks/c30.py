"""C30: navigating a trace reconstructs the calls and blocks that ran."""
import os

from hypothesis import strategies as st

import mocktrace as mt
from vlib import Sub, check, eq

os.environ.setdefault("TQDM_DISABLE", "1")
ASSUMPTIONS = ["a trace implementation supplies its events with their neighbours, the entry of their frame and the return of an entry; "
               "the analyses of polytracker.tracing are what is checked",
               "a function starts with a basic block and a call is followed by the block returned to, as the instrumentation emits them"]
N = 12
CASE = st.fixed_dictionaries({
    "threads": st.lists(mt.frames(N, depth=2), min_size=1, max_size=2), "order": st.lists(st.integers(0, 1), max_size=8),
    "cut": st.one_of(st.none(), st.integers(1, 40)),
    "acc": st.lists(st.lists(st.one_of(st.integers(0, N - 1), st.integers(0, N - 1), st.integers(N, 2 * N - 1)), max_size=3), max_size=14),
    "edges": st.lists(st.tuples(st.integers(0, 20), st.integers(0, 20)).map(list), max_size=10)})


def build():
    return {}


def uid(o):
    return None if o is None else o.uid


def bks(t):
    return sorted(o.offset for o in t)


def bounded(it, n=10000):
    out = []
    for x in it:
        out.append(x)
        check(len(out) < n, "endless iteration")
    return out


def run(case, ctx):
    from polytracker.tracing import FunctionInvocation
    threads = list(case["threads"])
    if case["cut"] is not None:
        threads[0] = mt.truncate(threads[0], case["cut"])
    content = bytes(range(97, 97 + N))
    tr, seq, roots, source = mt.make(threads, case["order"], content, accesses=case["acc"])
    Fr = mt.FrameInfo
    per = {}
    for e in seq:
        per.setdefault(e.thread, []).append(e)
    pos = {e.uid: j for q in per.values() for j, e in enumerate(q)}
    eq(uid(tr.next_function_entry()), next(e.uid for e in seq if e.kind == "entry"), "first call")
    for th, q in per.items():
        for j, e in enumerate(q):
            nxt = next((x.uid for x in q[j + 1:] if x.kind != "note"), None)
            prv = next((x.uid for x in reversed(q[:j]) if x.kind != "note"), None)
            eq(uid(e.obj.next_control_flow_event), nxt, "next control flow event of event %d" % e.uid)
            eq(uid(e.obj.previous_control_flow_event), prv, "previous control flow event of event %d" % e.uid)
            if e.kind == "entry":
                eq(uid(e.obj.caller), uid(e.frame.caller), "caller of the call at event %d" % e.uid)
                first = e.frame.items[0] if e.frame.items else None
                eq(uid(e.obj.entrypoint), uid(first), "first block of the call at event %d" % e.uid)
                if first is not None:
                    eq(e.obj.function.name, e.frame.name, "function of the call at event %d" % e.uid)
                    eq(e.obj.basic_block.index_in_function, first.block, "entry block")
                else:
                    for what in ("function", "basic_block"):
                        try:
                            getattr(e.obj, what)
                            check(False, "the %s of a call without blocks is known", what)
                        except ValueError:
                            pass
                inv = FunctionInvocation(e.obj)
                blocks = [i for i in e.frame.items if not isinstance(i, Fr)]
                calls = [i for i in e.frame.items if isinstance(i, Fr)]
                eq([x.uid for x in bounded(inv.calls())], [c.entry.uid for c in calls], "calls made by the invocation at event %d" % e.uid)
                eq([x.uid for x in bounded(inv.basic_blocks())], [b.uid for b in blocks], "blocks of the invocation at event %d" % e.uid)
                want = [(i.entry.uid, True) if isinstance(i, Fr) else (i.uid, False) for i in e.frame.items]
                eq([(x.uid, isinstance(x, FunctionInvocation)) for x in bounded(iter(inv))], want, "blocks and calls of the invocation at event %d" % e.uid)
                eq(bks(inv.taints()), sorted(e.frame.all_bytes()), "bytes touched by the invocation at event %d" % e.uid)
                eq(inv.touched_taint, bool(e.frame.all_bytes()), "whether the invocation touched taint")
                start = pos[e.frame.ret.uid] if e.frame.ret else j
                eq(uid(tr.next_function_entry(e.obj)), next((x.uid for x in q[start + 1:] if x.kind == "entry"), None), "next call after the call at event %d" % e.uid)
                eq(uid(inv.function_return), uid(e.frame.ret), "return of the invocation at event %d" % e.uid)
            elif e.kind == "block":
                i = e.frame.items.index(e)
                blocks = [x for x in e.frame.items if not isinstance(x, Fr)]
                bi = blocks.index(e)
                eq(e.obj.entry_count(), sum(1 for x in blocks[:bi] if x.block == e.block), "entry count of event %d" % e.uid)
                eq(str(e.obj), "%s@%d#%d" % (e.frame.name, e.block, sum(1 for x in blocks[:bi] if x.block == e.block)), "name of event %d" % e.uid)
                sub = e.frame.items[i + 1] if i + 1 < len(e.frame.items) else None
                eq(uid(e.obj.called_function), sub.entry.uid if isinstance(sub, Fr) else None, "function called from event %d" % e.uid)
                eq(uid(e.obj.next_basic_block_in_function()), uid(blocks[bi + 1]) if bi + 1 < len(blocks) else None, "next block in the function after event %d" % e.uid)
                eq(uid(e.obj.next_basic_block_in_function_that_touched_taint()), next((x.uid for x in blocks[bi + 1:] if x.bytes), None),
                   "next tainted block in the function after event %d" % e.uid)
                toks, last = [], None
                for b in sorted(set(e.bytes)):
                    if last is not None and b == last + 1:
                        toks[-1] += content[b:b + 1]
                    else:
                        toks.append(content[b:b + 1])
                    last = b
                eq(list(e.obj.consumed_tokens), toks, "tokens of event %d" % e.uid)
                eq(e.obj.touched_taint, bool(e.bytes), "whether event %d touched taint" % e.uid)
            elif e.kind == "return":
                par = e.frame.parent
                back = None
                if par:
                    k = par.items.index(e.frame)
                    back = par.items[k + 1] if k + 1 < len(par.items) else None
                eq(uid(e.obj.returning_to), uid(back), "block returned to at event %d" % e.uid)
                eq(e.obj.returning_from.name, e.frame.name, "function returned from at event %d" % e.uid)
    entries = [e for e in seq if e.kind == "entry"]
    eq([x.uid for x in tr.function_trace()], [e.uid for e in entries], "function trace")
    eq(tr.num_function_calls(), len(entries), "number of calls")
    eq(tr.num_function_calls_that_touched_taint(), sum(1 for e in entries if e.frame.all_bytes()), "number of calls that touched taint")
    eq(tr.num_basic_block_entries(), sum(1 for e in seq if e.kind == "block"), "number of block entries")
    eq(uid(tr.entrypoint), entries[0].uid, "entry point")
    # the static graphs
    bb = sorted(tr.blocks_by_key)
    edges = set()
    if bb:
        for a, b in case["edges"]:
            x, y = bb[a % len(bb)], bb[b % len(bb)]
            edges.add((x, y))
            tr.blocks_by_key[x].children.add(tr.blocks_by_key[y])
            tr.blocks_by_key[y].predecessors.add(tr.blocks_by_key[x])

    def bk(b):
        return (b.function.name, b.index_in_function)
    eq(sorted(map(bk, tr.cfg.nodes)), bb, "blocks of the control flow graph")
    eq(sorted((bk(a), bk(b)) for a, b in tr.cfg.edges), sorted(edges), "edges of the control flow graph")
    rts = [x for x in bb if not any(y == x for _, y in edges)]
    eq(sorted(map(bk, tr.cfg_roots())), rts, "roots of the control flow graph")
    eq(tr.is_cfg_connected(), len(rts) == 1, "whether the control flow graph has one root")
    eq(sorted(f.name for f in tr.function_cfg.nodes), sorted({e.frame.name for e in seq}), "functions of the call graph")
    eq(sorted((a.name, b.name) for a, b in tr.function_cfg.edges),
       sorted({(e.frame.parent.name, e.frame.name) for e in entries if e.frame.parent}), "edges of the call graph")
    # how the input was accessed
    p = tr.input_properties(source)
    first, seeks, last = {}, [], None
    for i, offs in enumerate(case["acc"]):
        for o in sorted(set(offs)):
            if o >= N:
                continue
            first.setdefault(o, i)
            if last is not None and o < last:
                seeks.append((i - 1, last, o))
            last = o
    eq(list(p.unused_byte_offsets), [o for o in range(N) if o not in first], "unused bytes")
    eq(list(p.out_of_order_byte_offsets), [o for o in range(1, N) if o in first and o - 1 in first and first[o - 1] > first[o]],
       "bytes read before their predecessor")
    eq(list(p.file_seeks), seeks, "backward seeks")
    tags = ["%d-threads" % len(threads)]
    if case["cut"] is not None:
        tags.append("cut")
    if any(e.frame.parent and e.frame.parent.name == e.frame.name for e in entries):
        tags.append("recursive")
    if any(e.kind == "note" for e in seq):
        tags.append("other-events")
    return len(entries) > 1 and len(seq) > 5, tags


SUBS = [Sub("navigate", CASE, run, 2500, 100000, "generated call trees, interleaved in one or two threads, possibly cut short; non-trivial: more than one call and five events")]
