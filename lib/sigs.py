"""Turns signatures drawn from Sigs.tla into real functions for the driver."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "driver"))
import gen_targets

DECODABLE = {"int", "int64", "MyInt", "string", "MyStr", "float64", "Small", "Small2", "Big", "Big2", "[3]float64", "[2]string",
             "struct{ A bool; B int }", "struct{ A [2]int; B string }", "[1]struct{ A string; B float64 }", "struct{ A [1]int; B struct{} }"}


def kinds(lines):
    ks = []
    for i, l in enumerate(lines):
        s = json.loads(l)
        ins, outs, style, o = list(s["ins"]), list(s["outs"]), s["style"], {}
        sub = lambda t: s["targ"] if t == "T" else t
        if style in ("gen", "genm"):
            if "T" not in ins:
                ins.insert(len(ins) // 2 if ins and not ins[-1].startswith("...") else 0, "T")
            o["T"] = s["targ"]
        if style in ("ptr", "val", "gmp", "gmv", "gmpriv"):
            o["recv"] = s["recv"]
        if not any(sub(t) in DECODABLE for t in outs):
            outs.append("int" if len(outs) % 2 else "string")
        if not any(sub(t) in DECODABLE for t in ins):
            o["amb"] = 1
        ks.append(("s%d" % i, style, ins, outs, o))
    return ks


def write(lines, path):
    ks = kinds(lines)
    gen_targets.emit(ks, path)
    return ks
