"""Writes families of four instantiations of a generic function or method, some of which share their code."""
import random

# types that share code as arguments for a constraint without types (the first class only then), and others
CLASSES = [
    ["*int", "*string", "*Small", "shP", "**int", "*shS1"],
    ["int", "MyInt", "shInt", "shSt1", "shN[string]"],
    ["string", "MyStr"],
    ["shS1", "shS2"],
    ["near1.T", "near2.T"],
    ["error", "shErr"],
    ["[]int", "shSl", "shL[int]"],
    ["func(int) int", "shFn"],
    ["float64", "adFloat"],
    ["shG[int]", "struct { A int }"],
]
INCOMPARABLE = {5, 6, 7}
# parameters' constraints, receiver, parameters, results
TEMPLATES = [
    (["any"], None, ["T", "int"], ["int", "T"]),
    (["any"], None, ["int", "T", "string"], ["int"]),
    (["comparable"], None, ["string", "T"], ["T", "string"]),
    (["any", "any"], None, ["T", "U", "int"], ["U", "int"]),
    (["any"], None, ["int", "...T"], ["int"]),
    (["any"], None, ["int"], ["T", "int"]),
    (["any"], "*", ["int", "T"], ["int", "T"]),
    (["any"], "", ["string", "T"], ["string"]),
    (["comparable", "any"], "*", ["T", "U", "int"], ["string", "U"]),
    (["any", "any"], "", ["int", "float64", "T"], ["int", "int8", "T"]),
]


def choose(rnd, cons, sharing):
    """type arguments for f1..f4, for one parameter"""
    ok = [i for i in range(len(CLASSES)) if not (cons == "comparable" and (i == 0 or i in INCOMPARABLE))]
    n = 3 if sharing == "trio" else 2
    a = rnd.choice([i for i in ok if len(CLASSES[i]) >= n])
    b = rnd.choice([i for i in ok if i != a])
    c = rnd.choice([i for i in ok if i not in (a, b)])
    A, B, C = (rnd.sample(CLASSES[i], len(CLASSES[i])) for i in (a, b, c))
    return [A[0], A[1], B[0], A[2] if sharing == "trio" else B[1] if sharing == "pairs" else C[0]]


def write(sharing, n, seed, path):
    rnd = random.Random("share/%s/%s" % (seed, sharing))
    W = ['package main\n\nimport (\n\t"reflect"\n\n\t"github.com/bytedance/mockey"\n\tnear1 "github.com/bytedance/mockey/zverif/n1/near"\n\tnear2 "github.com/bytedance/mockey/zverif/n2/near"\n)\n',
         "var _ near1.T\nvar _ near2.T\nvar _ = mockey.GetMethod\nvar _ reflect.Type\n"]
    kinds = []
    for k in range(n):
        cons, recv, ps, rs = TEMPLATES[k % len(TEMPLATES)]
        names = ["T", "U"][:len(cons)]
        P = "fam%d" % k
        kinds.append(P)
        args = [choose(rnd, c, sharing) for c in cons]
        if len(cons) == 2 and rnd.random() < 0.5:  # the functions that share code may differ in one argument only
            j = rnd.randrange(2)
            for group in {"pair": [(0, 1)], "pairs": [(0, 1), (2, 3)], "trio": [(0, 1, 3)]}[sharing]:
                for g in group:
                    args[j][g] = args[j][group[0]]
        tpl = "[%s]" % ", ".join("%s %s" % z for z in zip(names, cons))
        gi = "[%s]" % ", ".join(names)
        plist = ", ".join("a%d %s" % z for z in enumerate(ps))
        rlist = ", ".join("r%d %s" % z for z in enumerate(rs))
        pre = "".join("\tvar z%s %s\n\tuse(any(z%s))\n" % (t, t, t) for t in names)
        v = "true" if ps[-1].startswith("...") else "false"
        body = pre + "\tv := shareBody(\"%s\", (func(%s))(nil), %s, %s%s)\n" % (P, ", ".join(names), v, "&r" if recv is not None else "nil", "".join(", &a%d" % i for i in range(len(ps))))
        body += "".join("\tencOut(&r%d, v, %d)\n" % (i, i) for i in range(len(rs))) + "\treturn\n"
        if recv is None:
            W.append("func %s%s(%s) (%s) {\n%s}" % (P, tpl, plist, rlist, body))
        else:
            W.append("type %s%s struct {\n\tA int\n\tB %s\n}" % (P, tpl, names[-1]))
            W.append("func (r %s%s%s) M(%s) (%s) {\n%s}" % (recv, P, gi, plist, rlist, body))
        for f in range(4):
            ts = [a[f] for a in args]
            sub = dict(zip(names, ts))
            ty = lambda p: ("[]" if p.startswith("...") else "") + sub.get(p.lstrip("."), p.lstrip("."))
            inst = "%s[%s]" % (P, ", ".join(ts))
            al = ", ".join("EV[%s](x, %d)%s" % (ty(p), i, "..." if p.startswith("...") else "") for i, p in enumerate(ps))
            rv, rp = ", ".join("r%d" % i for i in range(len(rs))), ", ".join("&r%d" % i for i in range(len(rs)))
            key = "TY[func(%s)]()" % ", ".join(ts)
            if recv is None:
                fn, call, rec = inst, inst, "nil"
            else:
                W.append("var %s_r%d = %s" % (P, f + 1, "&%s{A: %d}" % (inst, 70 + f) if recv else "EV[%s](%d, 50)" % (inst, 70 + f)))
                rec = "%s_r%d" % (P, f + 1)
                fn = "(%s%s).M" % (recv, inst) if rnd.random() < 0.5 else 'mockey.GetMethod(%s, "M")' % rec
                call = rec + ".M"
            W.append("func init() {\n\taddShare(%s, &Target{Kind: \"%s\", Idx: %d, Mk: func() interface{} { return %s }, Call: func(x int) int { %s := %s(%s); return dres(%s) }, Generic: true, HasRecv: %s, Recv: rv(%s), TArgs: %s})\n}" % (
                key, P, f + 1, fn, rv, call, al, rp, "true" if recv is not None else "false", rec, "typs(%s)" % ", ".join("TY[%s]()" % t for t in ts) if recv is None and v == "false" else "nil"))
    with open(path, "w") as o:
        o.write("\n".join(W) + "\n")
    return kinds
