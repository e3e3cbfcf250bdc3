"""Writes the real functions that play the targets of Adapt.tla."""
import itertools, random

# two types that are easily confused, and a slice type (element type)
PAIRS = [
    ("int", "MyInt", "int"), ("error", "*xErr", "interface{}"), ("interface{}", "error", "interface{}"),
    ("near1.T", "near2.T", "near1.T"), ("near1.I", "near2.I", "near2.I"), ("func(int) int", "adFunc", "func(int) int"), ("[]int", "adSlice", "string"),
    ("chan int", "<-chan int", "chan int"), ("adTag1", "struct{ A int `x:\"2\"` }", "string"), ("int64", "int", "int64"),
    ("*Small", "Small", "*Small"), ("uintptr", "unsafe.Pointer0", "uintptr"), ("map[string]int", "map[string]int64", "string"),
    ("MyStr", "string", "MyStr"), ("[2]int", "[3]int", "[2]int"), ("*near1.T", "*near2.T", "*near2.T"), ("bool", "adBool", "bool"),
    ("Big", "Big2", "Big"), ("float64", "float32", "float64"), ("func(...int)", "func([]int)", "func(...int)"), ("int32", "uint32", "uint32"),
    ("adGen[int]", "adGen[MyInt]", "adGen[string]"),
]
PAIRS = [p for p in PAIRS if "Pointer0" not in p[1]]


def write(path, n, seed, npairs):
    rnd = random.Random("adapt/%s" % seed)
    idx = [i for i, p in enumerate(PAIRS) if p[0] in ("int", "near1.T", "near1.I")]
    rest = [i for i in range(len(PAIRS)) if i not in idx]
    idx += rnd.sample(rest, min(npairs, len(PAIRS)) - len(idx))
    W = []
    for p in idx:
        a, b, s = PAIRS[p]
        ty = {"a": a, "b": b, "s": "[]" + s}
        for k in range(n + 1):
            for ins in itertools.product("abs", repeat=k):
                for v in ([False, True] if ins and ins[-1] == "s" else [False]):
                    for g in (False, True):
                        key = "".join(ins) + ("V" if v else "") + ("G" if g else "")
                        name = "ad_%d_%s" % (p, key)
                        def t(i, gen):
                            x = ty[ins[i]]
                            if v and i == k - 1:
                                x = "..." + s
                            return "T" if gen and ins[i] == "a" else x
                        args = ", ".join("EV[%s](x, %d)%s" % (ty[ins[i]], i, "..." if v and i == k - 1 else "") for i in range(k))
                        W.append("func %s%s(%s) (%s, int16) {\n\tadRec(%s)\n\treturn EV[%s](adOrigVal, 0), EV[int16](adOrigVal, 1)\n}" % (
                            name, "[T any]" if g else "", ", ".join("a%d %s" % (i, t(i, g)) for i in range(k)), b,
                            ", ".join("&a%d" % i for i in range(k)), b))
                        inst = name + ("[%s]" % a if g else "")
                        W.append("func init() {\n\taddAd(%s, %d, TY[%s](), TY[%s](), TY[[]%s](), %s, func(x int) []reflect.Value { r0, r1 := %s(%s); return adRes(&r0, &r1) })\n}" % (
                            '"%s"' % key, p, a, b, s, inst, inst, args))
    with open(path, "w") as f:
        f.write('package main\n\nimport (\n\t"reflect"\n\n\tnear1 "github.com/bytedance/mockey/zverif/n1/near"\n\tnear2 "github.com/bytedance/mockey/zverif/n2/near"\n)\n\n'
                'var _ near1.T\nvar _ near2.T\n\n' + "\n".join(W) + "\n")
    return [PAIRS[i] for i in idx]
