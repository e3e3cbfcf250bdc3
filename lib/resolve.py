"""Writes the families of types drawn from Resolve.tla as Go types."""
import json

SIGS = {1: ("a int", "(r int)", "int", "int", "7"),
        2: ("a string, b ...int", "(r int, s string)", "string, ...int", "int, string", '"x", 1, 2'),
        3: ("", "(r int)", "", "int", "")}


def fn(sig):
    return "func(%s) (%s)" % (SIGS[sig][2], SIGS[sig][3])


def ftype(f, nodes, i):
    """the type of a function field: a named one for some"""
    return "rsFn%d" % nodes[i]["sig"] if (f + i) % 3 == 0 else fn(nodes[i]["sig"])


def first(call, sig):
    return "r0, _ := %s; return r0" % call if sig == 2 else "return " + call


def names(f):
    """what M and u are called in family f: a name's length and letters matter where names are read from memory"""
    m, u = ["M", "M", "M\u00dfes", "\u00dcber", "M" * 127, "M_" * 64, "M", "Mlong" * 60][f % 8], ["u", "u", "_u", "\u00fc", "u", "u" * 127, "u" * 128, "ulong" * 60, "\u540d\u524d", "u" * 256][f % 10]
    if f == 13:
        u = "u" * 16500
    if f == 14:
        m = "M" * 16500
    return {"M": m, "u": u}


def write(lines, path):
    W = ["package main\n\nimport \"reflect\"\n\nvar _ reflect.Type\n"]
    for s in SIGS:
        W.append("type rsFn%d %s" % (s, fn(s)))
    ident = 0
    for f, l in enumerate(lines):
        j = json.loads(l)
        nodes = [None] + j["nodes"]
        T = lambda i: "rs%d_%d" % (f, i)
        NM = names(f)
        impls, fields, types = [], [], []

        def value(i):
            n = nodes[i]
            if n["base"] == "int":
                return "%s(%d)" % (T(i), i)
            fs = []
            for nm in "mu":
                g = "M" if nm == "m" else "u"
                if n[nm] == "func":
                    fs.append("%s: %s_%s" % (NM[g], T(i), g))
                elif n[nm] == "data":
                    fs.append("%s: %d" % (NM[g], i))
            for k, li in enumerate(n["links"]):
                c = li["c"]
                if li["k"] == "s":
                    fs.append("%s: %s" % (T(c), value(c)))
                elif li["k"] == "p":
                    fs.append("%s: %s" % (T(c), pointer(c)))
                elif li["k"] == "iv":
                    fs.append("%s_I%d: %s" % (T(i), k, value(c)))
                elif li["k"] == "ip":
                    fs.append("%s_I%d: %s" % (T(i), k, pointer(c)))
                elif li["k"] == "nv":
                    fs.append("Nam%d: %s" % (k, value(c)))
            return "%s{%s}" % (T(i), ", ".join(fs))

        def pointer(i):
            return "func() *%s { v := %s; return &v }()" % (T(i), value(i)) if nodes[i]["base"] == "int" else "&" + value(i)
        for i in range(1, len(nodes)):
            n = nodes[i]
            sg = SIGS[n["sig"]]
            if n["base"] == "int":
                W.append("type %s int" % T(i))
            else:
                fs = ["Pad%d [%d]int" % (i, i % 3)]
                for nm in "mu":
                    g = "M" if nm == "m" else "u"
                    if n[nm] in ("func", "nilfunc"):
                        fs.append("%s %s" % (NM[g], ftype(f, nodes, i)))
                    elif n[nm] == "data":
                        fs.append("%s int" % NM[g])
                for k, li in enumerate(n["links"]):
                    c = li["c"]
                    if li["k"] == "s":
                        fs.append(T(c))
                    elif li["k"] in ("p", "pn"):
                        fs.append("*" + T(c))
                    elif li["k"] in ("iv", "ip", "in"):
                        m = ""
                        if li["meth"]:
                            s = sel_sig(nodes, c, li["k"]) if li["k"] != "in" else nodes[c]["sig"]
                            m = NM["M"] + "(%s) (%s)" % (SIGS[s][2], SIGS[s][3])
                        W.append("type %s_I%d interface { %s }" % (T(i), k, m))
                        fs.append("%s_I%d" % (T(i), k))
                    else:
                        fs.append("Nam%d %s" % (k, T(c)))
                if i % 2:
                    fs = fs[1:] + fs[:1]
                W.append("type %s struct {\n\t%s\n}" % (T(i), "\n\t".join(fs)))
            for nm in "mu":
                g = "M" if nm == "m" else "u"
                a = n[nm]
                if a in ("val", "ptr"):
                    ident += 1
                    W.append("func (_ %s%s) %s(%s) %s {\n\tr = rsBody(%d)\n\treturn\n}" % ("*" if a == "ptr" else "", T(i), NM[g], sg[0], sg[1], ident))
                    call = "%s.%s(%s)" % ("(*%s)" % T(i) if a == "ptr" else T(i), NM[g], "&v" + (", " if sg[4] else "") + sg[4] if a == "ptr" else "v" + (", " if sg[4] else "") + sg[4])
                    impls.append('{%d, "%s", %s, %d, func() int { var v %s; %s }}' % (i, g, "true" if a == "ptr" else "false", ident, T(i), first(call, n["sig"])))
                elif a == "func":
                    ident += 1
                    W.append("func %s_%s(%s) %s {\n\tr = rsBody(%d)\n\treturn\n}" % (T(i), g, sg[0], sg[1], ident))
                    fields.append('{%d, "%s", false, %d, func() int { %s }}' % (i, g, ident, first("%s_%s(%s)" % (T(i), g, sg[4]), n["sig"])))
            if n["base"] == "struct":
                more = [NM["M"] + "0", NM["M"][0] * 2, "N", "t", NM["u"] + NM["u"][0]][(f + i) % 2::2]
                if f % 16 == 3 and i == len(nodes) - 1:  # more than can be counted in a byte
                    more += ["%s%d_" % (x, k) for x in ("a", "z", "A", "Z", NM["u"]) for k in range(60)]
                for d in more:
                    W.append('func (_ %s%s) %s(%s) %s {\n\tstray("%s.%s")\n\treturn\n}' % ("*" if (f + i) % 3 == 0 else "", T(i), d + str(i), sg[0], sg[1], T(i), d + str(i)))
            types.append("TY[%s]()" % T(i))
        sigs = ["TY[%s]()" % fn(nodes[i]["sig"]) for i in range(1, len(nodes))]
        fty = ["TY[%s]()" % ftype(f, nodes, i) for i in range(1, len(nodes))]
        r = len(nodes) - 1
        W.append("func init() {\n\taddRs(%d, %s, %s, []rsImpl{\n\t\t%s}, []rsImpl{\n\t\t%s},\n\t\ttyps(%s), typs(%s), typs(%s),\n\t\tfunc(k string) interface{} {\n\t\t\tswitch k {\n\t\t\tcase \"val\":\n\t\t\t\treturn %s\n\t\t\tcase \"ptr\":\n\t\t\t\treturn %s\n\t\t\t}\n\t\t\treturn (*%s)(nil)\n\t\t})\n}" % (
            f, json.dumps(NM["M"]), json.dumps(NM["u"]), "".join(x + ",\n\t\t" for x in impls), "".join(x + ",\n\t\t" for x in fields), ", ".join(types), ", ".join(sigs), ", ".join(fty), value(r), pointer(r), T(r)))
    with open(path, "w") as o:
        o.write("\n".join(W) + "\n")


def sel_sig(nodes, c, k):
    """the signature of the method M of node c: by Go's selector rule"""
    level, seen = [c], set()
    while level:
        hit = [s for n in level for s in ([n[1]] if isinstance(n, tuple) else [nodes[n]["sig"]] if nodes[n]["m"] != "none" else [])]
        if hit:
            assert len(hit) == 1
            return hit[0]
        seen |= {n for n in level if not isinstance(n, tuple)}
        nxt = []
        for n in level:
            if isinstance(n, tuple):
                continue
            for li in nodes[n]["links"]:
                if li["k"] in ("s", "p", "pn"):
                    if li["c"] not in seen:
                        nxt.append(li["c"])
                elif li["k"] in ("iv", "ip", "in") and li["meth"]:
                    nxt.append((n, nodes[li["c"]]["sig"] if li["k"] == "in" else sel_sig(nodes, li["c"], li["k"])))
        level = nxt
    raise ValueError
