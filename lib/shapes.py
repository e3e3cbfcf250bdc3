"""Writes the generic functions and methods of Shapes.tla, and the calls of their instantiations."""
import json

# item: type parameters, receiver, parameters, results
ITEMS = {
    "fany": (["T any"], None, ["T", "int"], ["T", "int"]),
    "fcmp": (["T comparable"], None, ["int", "T"], ["int", "T"]),
    "fstr": (["T shStringer"], None, ["T", "int"], ["T"]),
    "fnum": (["T shNumber"], None, ["T", "T"], ["T", "string"]),
    "fres": (["T any"], None, ["int"], ["T"]),
    "fnone": (["T any"], None, ["int"], ["int"]),
    "fvar": (["T any"], None, ["int", "...T"], ["int", "T"]),
    "ftwo": (["T any", "U comparable"], None, ["T", "U"], ["U", "T"]),
    "mptr": (["T any"], "*shMP", ["T", "int"], ["T", "int"]),
    "mval": (["T any"], "shMV", ["int", "T"], ["int", "T"]),
    "mmap": (["T comparable", "U any"], "*shMM", ["T", "U"], ["U", "int"]),
}


def go(t):
    k = t["k"]
    if k in ("basic", "named"):
        return t["n"]
    if k == "ptr":
        return "*" + go(t["e"])
    if k == "slice":
        return "[]" + go(t["e"])
    if k == "array":
        return "[%s]%s" % (t["n"], go(t["e"]))
    if k == "map":
        return "map[%s]%s" % (go(t["a"]), go(t["e"]))
    if k == "chan":
        return {"both": "chan ", "recv": "<-chan "}[t["n"]] + go(t["e"])
    if k == "func":
        ins = [go(i) for i in t["i"]]
        if t["v"]:
            ins[-1] = "..." + ins[-1][2:]
        return "func(%s) (%s)" % (", ".join(ins), ", ".join(go(o) for o in t["o"]))
    if k == "struct":
        return "struct { %s }" % "; ".join(go(f["e"]) if f["emb"] else "%s %s%s" % (f["n"], go(f["e"]), " `%s`" % f["tag"] if f["tag"] else "") for f in t["f"])
    if k == "iface":
        return "interface { %s }" % "; ".join(sorted(t["m"]))
    if k == "inst":
        return "%s[%s]" % (t["n"], ", ".join(go(a) for a in t["a"]))
    raise ValueError(t)


def write(lines, path):
    W = ['//go:build go1.21\n\npackage main\n\nimport (\n\t"reflect"\n\t"unsafe"\n\n\t"github.com/bytedance/mockey"\n\tnear1 "github.com/bytedance/mockey/zverif/n1/near"\n\tnear2 "github.com/bytedance/mockey/zverif/n2/near"\n)\n',
         "var _ near1.T\nvar _ near2.T\nvar _ unsafe.Pointer\nvar _ = mockey.GetMethod\n",
         "type shMP[T any] struct {\n\tA int\n\tB T\n}\ntype shMV[T any] struct {\n\tB T\n\tC string\n}\ntype shMM[T comparable, U any] map[T]U\n"]
    sub = lambda t, names, ts: t if not ts else ("..." if t.startswith("...") else "") + dict(zip(names, ts)).get(t.lstrip("."), t.lstrip("."))

    def calls(it, ts):
        """the calls with type arguments ts (texts)"""
        tps, recv, ps, rs = ITEMS[it]
        names = [p.split()[0] for p in tps]
        inst = "[%s]" % ", ".join(ts)
        ps = [sub(p, names, ts) for p in ps]
        rs = [sub(p, names, ts) for p in rs]
        args = ", ".join(("EV[[]%s](x, %d)..." % (p[3:], i)) if p.startswith("...") else "EV[%s](x, %d)" % (p, i) for i, p in enumerate(ps))
        rv = ", ".join("r%d" % i for i in range(len(rs)))
        ret = "; return adRes(%s)" % ", ".join("&r%d" % i for i in range(len(rs)))
        r = "\tvar r %s%s = EV[%s%s](x, shRecvSalt); use(&r)\n" % (recv, inst, recv, inst) if recv else ""
        if not recv:
            cs = ["%s := sh_%s%s(%s)" % (rv, it, inst, args), "f := sh_%s%s; %s := f(%s)" % (it, inst, rv, args),
                  "var %s; func() { defer func() { %s = sh_%s%s(%s) }() }()" % ("; var ".join("r%d %s" % (i, t) for i, t in enumerate(rs)), rv, it, inst, args)]
        else:
            me = ("(%s%s).M" if recv[0] == "*" else "%s%s.M") % (recv, inst)
            cs = ["%s := r.M(%s)" % (rv, args), "%s := %s(r, %s)" % (rv, me, args), "f := r.M; %s := f(%s)" % (rv, args),
                  "var i interface { M(%s) (%s) } = r; %s := i.M(%s)" % (", ".join(ps), ", ".join(rs), rv, args), "f := %s; %s := f(r, %s)" % (me, rv, args)]
        return r + "\tswitch k {\n" + "".join("\tcase %d:\n\t\t%s%s\n" % (i, c, ret) for i, c in enumerate(cs)) + "\t}\n\treturn nil\n", len(cs)

    for it, (tps, recv, ps, rs) in ITEMS.items():
        names = [p.split()[0] for p in tps]
        tpl = "[%s]" % ", ".join(tps)
        plist = ", ".join("a%d %s" % (i, p) for i, p in enumerate(ps))
        rlist = ", ".join("r%d %s" % (i, p) for i, p in enumerate(rs))
        pre = "".join("\tvar z%s %s\n\tuse(any(z%s))\n" % (n, n, n) for n in names)
        body = pre + "\tshBody(ptrs(%s), %s)\n\treturn\n" % (", ".join((["&r"] if recv else []) + ["&a%d" % i for i in range(len(ps))]), ", ".join("&r%d" % i for i in range(len(rs))))
        if recv:
            W.append("func (r %s[%s]) M(%s) (%s) {\n%s}" % (recv, ", ".join(names), plist, rlist, body))
        else:
            W.append("func sh_%s%s(%s) (%s) {\n%s}" % (it, tpl, plist, rlist, body))
        W.append("func out_%s%s(x, k int) []reflect.Value {\n%s}" % (it, tpl, calls(it, names)[0]))
        if len(names) == 1 and tps[0] == "T any":
            W.append("func el_%s%s(x, k int) []reflect.Value {\n%s}" % (it, tpl, calls(it, ["[]T"])[0]))
    W.append("type shPromote[T any] struct { *shMP[T] }")
    cur = None
    for l in lines:
        j = json.loads(l)
        it, n = j["it"], j["n"]
        tps, recv, ps, rs = ITEMS[it]
        names = [p.split()[0] for p in tps]
        ts = [go(t) for t in j["ts"]]
        inst = "[%s]" % ", ".join(ts)
        real = ["[]" + ts[0]] if j["path"] == "elem" else ts
        rinst = "[%s]" % ", ".join(real)
        if cur != it:
            W.append('func init() { addShItem("%s") }' % it)
            cur = it
        fns, rej = [], []
        if j["path"] == "direct":
            c, nf = calls(it, ts)
            W.append("func dir_%d(x, k int) []reflect.Value {\n%s}" % (n, c))
            call = "dir_%d" % n
            if not recv:
                fns = ["sh_" + it + inst]
            elif recv[0] == "*":
                fns = ["(%s%s).M" % (recv, inst), 'mockey.GetMethod(new(%s%s), "M")' % (recv[1:], inst)]
                if it == "mptr":
                    rej = ["shPromote%s.M" % inst, "(*shPromote%s).M" % inst]
            else:
                fns = ["%s%s.M" % (recv, inst), 'mockey.GetMethod(%s%s{}, "M")' % (recv, inst), 'mockey.GetMethod(&%s%s{}, "M")' % (recv, inst)]
                rej = ["(*%s%s).M" % (recv, inst)]
        else:
            nf = calls(it, ts)[1]
            call = "%s_%s%s" % ("out" if j["path"] == "outer" else "el", it, inst)
        ty = lambda q: "typs(%s)" % ", ".join("TY[%s]()" % (("[]" if t.startswith("...") else "") + sub(t, names, real).lstrip(".")) for t in q)
        W.append("func init() {\n\taddSh(%d, %s, %d, %s, %s, %s, %s, %s, %s, ptrs(%s), ptrs(%s))\n}" % (
            n, json.dumps("%s%s (%s)" % (it, rinst, j["path"])), nf, "true" if ps and ps[-1].startswith("...") else "false",
            "TY[%s%s]()" % (recv, rinst) if recv else "nil", "typs(%s)" % ", ".join("TY[%s]()" % t for t in real), ty(ps), ty(rs), call, ", ".join(fns), ", ".join(rej)))
    with open(path, "w") as f:
        f.write("\n".join(W) + "\n")
