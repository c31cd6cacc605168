"""Textual port of the repository's LLVM 13 pass sources to the LLVM 18 installed here.

Only names that changed between the two releases are rewritten; harness/pass18 holds
the headers LLVM 18 dropped. What a pass does is not touched.
"""
import re

RULES = [
    (r"\bgetParamAttributes\b", "getParamAttrs"), (r"\bgetFnAttributes\b", "getFnAttrs"),
    (r"\bgetRetAttributes\b", "getRetAttrs"),
    (r"\bType::getInt8PtrTy\(", "PointerType::getUnqual("), (r"(\.|->)getInt8PtrTy\(", r"\1getPtrTy("),
    (r"\bAttrBuilder\(\)", "AttributeMask()"),
    (r"\bAttrBuilder (\w+);", r"PtMemMask \1;"),
    (r"(->|\.)getPointerElementType\(\)", r"\1getScalarType()"),
    (r"->getBaseObject\(\)", "->getAliaseeObject()"),
    (r"(\w+)(->|\.)getBasicBlockList\(\)\.splice\(\s*([^,;]+),\s*(\w+)\.getBasicBlockList\(\)\)", r"\1\2splice(\3, &\4)"),
    (r"(\w+)(->|\.)getBasicBlockList\(\)\.splice\(\s*([^,;]+),\s*(\w+)->getBasicBlockList\(\)\)", r"\1\2splice(\3, \4)"),
    (r"\bAttribute::Read(None|Only)\b", "Attribute::NoUnwind"),
    (r"\bAttribute::InaccessibleMem(OrArgMem)?Only\b", "Attribute::Memory"),
]


def args_at(s, i):
    """(arguments, end) of the call whose opening parenthesis is at i."""
    depth, out, b, j, quote = 0, [], i + 1, i, None
    while j < len(s):
        c = s[j]
        if quote:
            if c == "\\":
                j += 1
            elif c == quote:
                quote = None
        elif c in "\"'":
            quote = c
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth == 0:
                out.append(s[b:j])
                return out, j + 1
        elif c == "," and depth == 1:
            out.append(s[b:j])
            b = j + 1
        j += 1
    return None, len(s)


def attributes(s):
    """Calls that add or remove attributes at an index, which got names of their own."""
    out, p = [], 0
    for m in re.finditer(r"(\.|->)(add|remove)(Attributes?)\(", s):
        if m.start() < p:
            continue
        a, e = args_at(s, m.end() - 1)
        if not a:
            continue
        idx = a[1] if len(a) == 3 else a[0]
        builder = len(a) == 1 or (len(a) == 2 and a[0].strip().startswith('"'))
        if builder:
            continue
        name = m.group(2) + m.group(3)
        if m.group(3) == "Attribute":
            new, rest = name + "AtIndex", a
        elif "ReturnIndex" in idx:
            new = name[:-len("Attributes")] + ("RetAttributes" if len(a) == 3 else "RetAttrs")
            rest = [a[0], a[2]] if len(a) == 3 else [a[1]]
        elif "FunctionIndex" in idx:
            new = name[:-len("Attributes")] + ("FnAttributes" if len(a) == 3 else "FnAttrs")
            rest = [a[0], a[2]] if len(a) == 3 else [a[1]]
        else:
            new, rest = name + "AtIndex", a
        out.append(s[p:m.start()] + m.group(1) + new + "(" + ",".join(map(attributes, rest)) + ")")
        p = e
    return "".join(out) + s[p:]


def port(s):
    for a, b in RULES:
        s = re.sub(a, b, s)
    return attributes(s)
