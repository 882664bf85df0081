#!/usr/bin/env python3
"""Writes spec/Tables.tla: logarithms and related constants in fixed point."""
import math, os
from decimal import Decimal, getcontext
getcontext().prec = 60
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Tables.tla")
def seq(name, xs, note):
    s = "\\* %s\n%s == <<" % (note, name)
    line = ""
    for i, x in enumerate(xs):
        t = str(x) + ("" if i == len(xs) - 1 else ", ")
        if len(line) + len(t) > 100:
            s += line + "\n    "
            line = ""
        line += t
    return s + line + ">>\n\n"
G = Decimal(10) ** 9
def nano(d): return int((d * G).to_integral_value())
body = ""
S, L = [], []
for fb in range(2, 65):
    x = Decimal(1) / (Decimal(2) ** fb - 1)
    S.append(nano(1 - x)); L.append(nano(-(1 - x).ln()))
body += seq("MissG", S, "1 - 1/(2^b - 1) in 10^-9, for b = 2, 3, ..., 64")
body += seq("MissLnG", L, "-ln(1 - 1/(2^b - 1)) in 10^-9, for b = 2, 3, ..., 64")
ln2 = Decimal(2).ln()
M = [-((Decimal(1) / (1 - Decimal(1) / (Decimal(2) ** fb - 1))).ln().ln() / ln2) for fb in range(2, 65)]
body += seq("MissLog2I", [int(x) for x in M], "integer part of -log2(-ln(1 - 1/(2^b - 1))), for b = 2, 3, ..., 64")
body += seq("MissLog2F", [int((x - int(x)) * G) for x in M], "its fraction in 10^-9")
def one(p):
    m = Decimal(2) ** p
    return nano(m * (m / (m - 1)).ln())
body += seq("OneG", [one(p) for p in range(1, 25)], "m ln(m/(m-1)) in 10^-9 for m = 2^p, p = 1, ..., 24: the estimate of a HyperLogLog of m registers for one item")
body += seq("LnMicro", [nano(Decimal(n).ln()) // 1000 for n in range(1, 4097)], "floor(ln(n) * 10^6) for n = 1, ..., 4096")
open(out, "w").write("------------------------------ MODULE Tables ------------------------------\n"
 "(* Constants in fixed point, written by tools/gen_tables.py.                *)\n\n" + body +
 "===========================================================================\n")
