"""Writes harness/uni15.h: what the utf8 tokenizer's documentation makes of each code point, from
Python's own Unicode 15.0 database (not from the repository's tables).
0 separator, 1 part of a word, 2 a token by itself, 3 not assigned in 15.0 (nothing is claimed)."""
import os
import unicodedata

TOK = {"Lu", "Ll", "Lt", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Lm", "Lo"}


def cls(i):
    c = unicodedata.category(chr(i))
    if 0xFDD0 <= i <= 0xFDEF or (i & 0xFFFE) == 0xFFFE and i < 0x110000:
        return 2
    if c == "Cn":
        return 3
    n = unicodedata.name(chr(i), "")
    if n.startswith("CJK UNIFIED IDEOGRAPH-") or (c == "Lo" and (0x17000 <= i <= 0x187F7 or 0x18D00 <= i <= 0x18D08)):  # Tangut ideographs
        return 2
    if c in TOK:
        return 1
    return 2 if c == "So" else 0


def fold(i):
    # simple case folding (C and S); three S mappings that Unicode added after 15.0
    late = {0x1FD3: 0x390, 0x1FE3: 0x3B0, 0xFB05: 0xFB06}
    if i in late:
        return late[i]
    f = chr(i).casefold()
    if len(f) == 1:
        return ord(f)
    l = chr(i).lower()
    return ord(l) if len(l) == 1 else i


def main():
    runs, folds = [], []
    for i in range(0x110000):
        c = cls(i)
        if runs and runs[-1][1] == c:
            runs[-1][0] += 1
        else:
            runs.append([1, c])
        if c == 1 and fold(i) != i:
            folds.append((i, fold(i)))
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "uni15.h")
    with open(out, "w") as f:
        f.write("// generated by tools/gen_unicode.py from Unicode %s\n#pragma once\n#include <cstdint>\n" % unicodedata.unidata_version)
        f.write("static const uint32_t UNI_RUNS[][2] = {\n")
        for k in range(0, len(runs), 10):
            f.write("".join("{%d,%d}," % tuple(r) for r in runs[k:k + 10]) + "\n")
        f.write("};\nstatic const uint32_t UNI_FOLDS[][2] = {\n")
        for k in range(0, len(folds), 10):
            f.write("".join("{%d,%d}," % r for r in folds[k:k + 10]) + "\n")
        f.write("};\n")


main()
