#!/usr/bin/env python3
"""Writes targets_gen.go: for every target kind four mockable functions (the abstract f1..f4) and a direct call of each."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))

# name, style, params, results, options
# style: fn | ptr | val | gen | genm | gmp (GetMethod, pointer receiver) | gmv | gmpriv | gmfield | gmnest | lit
KINDS = [
 ("plain",   "fn",  ["int"], ["int"], {}),
 ("str2",    "fn",  ["string", "int"], ["string", "error"], {}),
 ("unsafe",  "fn",  ["int64", "bool"], ["int64"], {"unsafe": 1}),
 ("ptrm",    "ptr", ["int"], ["int"], {}),
 ("ptrm2",   "ptr", ["bool", "string", "[]int"], ["error", "string"], {}),
 ("valm",    "val", ["int"], ["int", "string"], {}),
 ("variad",  "fn",  ["int", "...string"], ["int"], {}),
 ("variad2", "ptr", ["...string"], ["string"], {}),
 ("variad3", "val", ["float64", "...interface{}"], ["float64", "[]string"], {}),
 ("many",    "fn",  ["int", "float64", "string", "int8", "uint16", "float32", "int64", "bool", "[]byte", "error", "uint64", "int32", "string", "float64"],
                    ["string", "int", "float64", "bool", "error", "[]string", "int8", "uint32", "float32", "int64", "string"], {}),
 ("big",     "fn",  ["Big", "int"], ["Big", "int"], {}),
 ("bigm",    "val", ["Big"], ["int", "Big"], {"recv": "Big2"}),
 ("refs",    "fn",  ["interface{}", "func(int) int", "map[string]int", "chan int", "*Small", "[]string", "int"], ["*Small", "interface{}", "map[string]int", "int", "func(int) int", "chan int"], {}),
 ("gen",     "gen", ["int", "T"], ["T", "int"], {"T": "string"}),
 ("genp",    "gen", ["T", "int"], ["int"], {"T": "*Small"}),
 ("genm",    "genm",["int", "T"], ["int", "T"], {"T": "float64"}),
 ("zero",    "fn",  [], ["int"], {"amb": 1}),
 ("gmp",     "gmp", ["int"], ["int"], {}),
 ("gmv",     "gmv", ["string"], ["int", "error"], {}),
 ("gmpriv",  "gmpriv", ["int"], ["int"], {}),
 ("gmnest",  "gmnest", ["int", "string"], ["int"], {}),
 ("gmiface", "gmiface", ["int"], ["string"], {}),
 ("gmfield", "gmfield", ["int"], ["int"], {}),
 ("lit",     "lit", ["int", "interface{}"], ["int"], {}),
 ("small",   "fn",  ["int8", "bool", "uint8", "[3]int16", "struct{ A bool; B int }", "int"], ["int8", "bool", "int"], {}),
 ("fp",      "fn",  ["float64", "complex128", "float32"], ["complex128", "float64"], {}),
 ("named",   "fn",  ["MyInt", "MyStr", "MyErr"], ["MyStr", "MyInt"], {}),
]

def emit(KINDS, path):
    out = ["// Code generated by gen_targets.py. DO NOT EDIT.", "package main", "", 'import "github.com/bytedance/mockey"', 'import "unsafe"', "", "var _ = mockey.GetMethod", "var _ unsafe.Pointer", ""]
    W = out.append

    def ty(t, T=None):
        if T: t = T if t == "T" else t
        return t

    tab = []
    for (name, style, params, results, o) in KINDS:
        P = "T_" + name
        T = o.get("T")
        gen = style in ("gen", "genm")
        if style in ("ptr", "val", "gmp", "gmv", "gmpriv"):
            recv = o.get("recv", "Small")
            W(f"type {P} {recv}")
            W(f"var {P}_recv = EV[{P}](77, 50)")
        elif style == "genm":
            W(f"type {P}[T any] struct {{ A int; B T }}")
            W(f"var {P}_recv = &{P}[{T}]{{A: 7}}")
        elif style == "gmnest":
            W(f"type {P}_in struct {{ A int; B string }}\ntype {P}_mid struct {{ C int; *{P}_in }}\ntype {P} struct {{ D string; {P}_mid }}")
            W(f"var {P}_recv = &{P}_in{{1, \"in\"}}\nvar {P}_outer = &{P}{{\"o\", {P}_mid{{3, {P}_recv}}}}")
        elif style == "gmiface":
            W(f"type {P}_if interface {{ M1(int) string; M2(int) string; M3(int) string; M4(int) string }}")
            W(f"type {P}_in struct {{ A int }}\ntype {P} struct {{ {P}_if }}")
            W(f"var {P}_recv = {P}_in{{5}}\nvar {P}_outer = {P}{{{P}_recv}}")
        elif style == "gmfield":
            fl = "; ".join(f"f{i}, F{i} func(int) int" for i in range(1, 5))
            W(f"type {P} struct {{ {fl} }}")
            W(f"var {P}_recv = &{P}{{}}")
        for i in range(1, 5):
            plist = ", ".join(f"a{k} {t}" for k, t in enumerate(params))
            rlist = ", ".join(results)
            ptrs = "".join(f", &a{k}" for k in range(len(params)))
            def rets(sub):
                return ", ".join(f"EV[{ty(t, sub)}](v, {k})" for k, t in enumerate(results))
            def body(r=None, sub=None):
                rp = "&r" if r else "nil"
                if gen:  # the dictionary must begin with the type arguments: no generic calls, and a use of T first
                    pre = f"\tuse(any(a{params.index('T')}))\n"
                    outs = "".join(f"\tvar r{k} {t}\n\tencOut(&r{k}, v, {k})\n" for k, t in enumerate(results))
                    if r: pre += f"\tp := unsafe.Pointer(r)\n"; rp = "&p"
                    return f"{pre}\tv := body({i}, false, {rp}{ptrs})\n{outs}\treturn " + ", ".join(f"r{k}" for k in range(len(results)))
                return f"\tv := body({i}, {'true' if params and params[-1].startswith('...') else 'false'}, {rp}{ptrs})\n\treturn {rets(sub)}"
            def args(sub=None):
                a = []
                for k, t in enumerate(params):
                    t = ty(t, sub)
                    if t.startswith("..."): a.append(f"EV[[]{t[3:]}](x, {k})...")
                    else: a.append(f"EV[{t}](x, {k})")
                return ", ".join(a)
            rv = ", ".join(f"r{k}" for k in range(len(results)))
            rp = ", ".join(f"&r{k}" for k in range(len(results)))
            def call(expr, sub=None):
                return f"func(x int) int {{ {rv} := {expr}({args(sub)}); return dres({rp}) }}"
            recvv = "nil"; generic = "false"; targs = "nil"; hasrecv = "false"
            if style == "fn":
                W(f"func {P}_{i}({plist}) ({rlist}) {{\n{body()}\n}}")
                fn = f"{P}_{i}"; c = call(fn)
            elif style == "lit":
                W(f"var {P}_{i} = func({plist}) ({rlist}) {{\n{body()}\n}}")
                fn = f"{P}_{i}"; c = call(fn)
            elif style in ("ptr", "gmp"):
                W(f"func (r *{P}) M{i}({plist}) ({rlist}) {{\n{body('r')}\n}}")
                fn = f"(*{P}).M{i}" if style == "ptr" else f"mockey.GetMethod(&{P}_recv, \"M{i}\")"
                c = call(f"{P}_recv.M{i}"); recvv = f"&{P}_recv"; hasrecv = "true"
            elif style in ("val", "gmv"):
                W(f"func (r {P}) M{i}({plist}) ({rlist}) {{\n{body('r')}\n}}")
                fn = f"{P}.M{i}" if style == "val" else f"mockey.GetMethod({P}_recv, \"M{i}\")"
                c = call(f"{P}_recv.M{i}"); recvv = f"{P}_recv"; hasrecv = "true"
            elif style == "gmpriv":
                W(f"func init() {{ use((func({plist}) ({rlist}))(nil)) }}")  # else the linker drops the type
                W(f"func (r *{P}) m{i}({plist}) ({rlist}) {{\n{body('r')}\n}}")
                fn = f"mockey.GetMethod(&{P}_recv, \"m{i}\")"
                c = call(f"{P}_recv.m{i}"); recvv = f"&{P}_recv"; hasrecv = "true"
            elif style == "gmnest":
                W(f"func (r *{P}_in) M{i}({plist}) ({rlist}) {{\n{body('r')}\n}}")
                fn = f"mockey.GetMethod({P}_outer, \"M{i}\")"
                c = call(f"{P}_outer.M{i}"); recvv = f"{P}_recv"; hasrecv = "true"
            elif style == "gmiface":
                W(f"func (r {P}_in) M{i}({plist}) ({rlist}) {{\n{body('r')}\n}}")
                fn = f"mockey.GetMethod({P}_outer, \"M{i}\")"
                c = call(f"{P}_recv.M{i}"); recvv = f"{P}_recv"; hasrecv = "true"
            elif style == "gmfield":
                fld = ("f" if i % 2 else "F") + str(i)
                W(f"func init() {{ {P}_recv.{fld} = func({plist}) int {{\n{body()}\n}} }}")
                fn = f"mockey.GetMethod({P}_recv, \"{fld}\")"; c = call(f"{P}_recv.{fld}")
            elif style == "gen":
                W(f"func {P}_{i}[T any]({plist}) ({rlist}) {{\n{body()}\n}}")
                fn = f"{P}_{i}[{T}]"; c = call(fn, T); generic = "true"; targs = f"typs(TY[{T}]())"
            elif style == "genm":
                W(f"func (r *{P}[T]) M{i}({plist}) ({rlist}) {{\n{body('r')}\n}}")
                fn = f"(*{P}[{T}]).M{i}"; c = call(f"{P}_recv.M{i}", T); generic = "true"; recvv = f"{P}_recv"; hasrecv = "true"
            tab.append(f"\tadd(&Target{{Kind: \"{name}\", Idx: {i}, Mk: func() interface{{}} {{ return {fn} }}, Call: {c}, Generic: {generic}, Unsafe: {'true' if o.get('unsafe') else 'false'}, HasRecv: {hasrecv}, Recv: rv({recvv}), TArgs: {targs}, Amb: {'true' if o.get('amb') else 'false'}}})")
    W("func init() {"); out += tab; W("}")
    open(path, "w").write("\n".join(out) + "\n")

def main():
    emit(KINDS, os.path.join(HERE, "targets_gen.go"))
    # distinct call sites, so that the location in a re-mock message can be told apart: in functions, methods, closures
    # and closures of package variables of this package, and of another one
    N = 16
    s = ["// Code generated by gen_targets.py. DO NOT EDIT.", "package main", "",
         'import (', '\t"github.com/bytedance/mockey"', '\t"github.com/bytedance/mockey/zverif/at.v2"', ")", "",
         "type siteV struct{}", "type siteP struct{ _ int }", "type siteG[T any] struct{ _ T }", ""]
    o = ["// Code generated by gen_targets.py. DO NOT EDIT.", "", "// Package at uses mockey from outside of the main package.",
         "package at", "", 'import "github.com/bytedance/mockey"', "", "type V struct{}", "type P struct{ _ int }", "type G[T any] struct{ _ T }", ""]
    def site(fname, args, ret, expr):
        names = ", ".join(x.split()[0] for x in args.split(","))
        up = fname[0].upper() + fname[1:]
        body = f"{{\n\there(); return {expr}\n}}"
        s.append(f"func (siteV) {fname}({args}) {ret} {body}")
        s.append(f"func (*siteP) {fname}({args}) {ret} {body}")
        s.append(f"func (*siteG[T]) {fname}({args}) {ret} {body}")
        s.append(f"func {fname}Gen[T any]({args}) {ret} {body}")
        s.append(f"var {fname}Var = func({args}) {ret} {body}")
        for recv, n in (("(V) ", up), ("(*P) ", up), ("(*G[T]) ", up), ("", up)):
            o.append(f"func {recv}{n}(here func(), {args}) {ret} {body}")
        o.append(f"var {up}Var = func(here func(), {args}) {ret} {body}")
        s.append(f"func {fname}(k int, {args}) (r {ret}) {{\n\tswitch k % {N} {{")
        cases = [None] * 4 + [f"siteV{{}}.{fname}({names})", f"(&siteP{{}}).{fname}({names})", f"(&siteG[int]{{}}).{fname}({names})",
                 f"{fname}Gen[string]({names})", f"{fname}Var({names})", "func",
                 f"at.V{{}}.{up}(here, {names})", f"(&at.P{{}}).{up}(here, {names})", f"(&at.G[string]{{}}).{up}(here, {names})",
                 f"at.{up}(here, {names})", f"at.{up}Var(here, {names})", None]
        for k, c in enumerate(cases):
            s.append(f"\tcase {k}:")
            if c is None: s.append(f"\t\there(); r = {expr}")
            elif c == "func": s.append(f"\t\tfunc() {{\n\t\t\there(); r = {expr}\n\t\t}}()")
            else: s.append(f"\t\tr = {c}")
        s.append("\t}\n\treturn\n}")
    site("siteBuild", "b *mockey.MockBuilder", "*mockey.Mocker", "b.Build()")
    site("sitePatch", "m *mockey.Mocker", "*mockey.Mocker", "m.Patch()")
    site("siteTo", "m *mockey.Mocker, h interface{}", "*mockey.Mocker", "m.To(h)")
    site("siteReturn", "m *mockey.Mocker, h []interface{}", "*mockey.Mocker", "m.Return(h...)")
    site("siteWhen", "m *mockey.Mocker, h interface{}", "*mockey.Mocker", "m.When(h)")
    site("siteOrigin", "m *mockey.Mocker, h interface{}", "*mockey.Mocker", "m.Origin(h)")
    site("siteFilter", "m *mockey.Mocker, t mockey.FilterGoroutineType, g int64", "*mockey.Mocker", "m.FilterGoRoutine(t, g)")
    site("siteInc", "m *mockey.Mocker", "*mockey.Mocker", "m.IncludeCurrentGoRoutine()")
    site("siteExc", "m *mockey.Mocker", "*mockey.Mocker", "m.ExcludeCurrentGoRoutine()")
    site("siteVTo", "m *mockey.MockerVar, x interface{}", "*mockey.MockerVar", "m.To(x)")
    site("siteVPatch", "m *mockey.MockerVar", "*mockey.MockerVar", "m.Patch()")
    open(os.path.join(HERE, "sites_gen.go"), "w").write("\n".join(s) + "\n")
    os.makedirs(os.path.join(HERE, "at.v2"), exist_ok=True)
    open(os.path.join(HERE, "at.v2", "sites_gen.go"), "w").write("\n".join(o) + "\n")

if __name__ == "__main__":
    main()
