"""Writes the real functions for Returns.tla, and Go's own conversions."""
import json

GO = {"bytes": "[]byte", "runes": "[]rune", "ints": "[]int", "myints": "[]MyInt", "arr2": "[2]int", "arr1": "[1]int", "parr1": "*[1]int", "barr": "[1]byte",
      "xErr": "*xErr", "Small": "*Small", "rtSmall": "*rtSmall", "nearT": "near1.T", "near2T": "near2.T", "anonT": "struct{ A, B int }",
      "tag1": "adTag1", "tag2": 'struct{ A int `x:"2"` }', "fn": "func(int) int", "fn2": "func(MyInt) int", "chanb": "chan int", "chanr": "<-chan int",
      "map": "map[string]int", "map2": "map[string]MyInt", "any": "interface{}", "stringer": "rtStringer", "nearI": "near1.I",
      "both": "interface { Error() string; M(int) string }"}


def go(t):
    return GO.get(t, t)


def write(lines, path):
    W = ['package main\n\nimport (\n\t"reflect"\n\n\t"github.com/bytedance/mockey"\n\tnear1 "github.com/bytedance/mockey/zverif/n1/near"\n\tnear2 "github.com/bytedance/mockey/zverif/n2/near"\n)\n',
         "var _ near1.T\nvar _ near2.T\n"]
    types = set()
    for k, l in enumerate(lines):
        j = json.loads(l)
        outs = [go(t) for t in j["outs"]]
        types |= set(j["outs"])
        for c in j["cs"]:
            types |= set(c["vs"])
        rs = ", ".join(outs)
        zero = "\n".join("\tvar r%d %s" % (i, t) for i, t in enumerate(outs))
        ret = ", ".join("r%d" % i for i in range(len(outs)))
        body = "\trtOrig()\n%s\n\treturn %s" % (zero, ret)
        W.append("func rt%d(x int) (%s) {\n%s\n}" % (k, rs, body))
        W.append("func (r *rtRecv) M%d(xs ...string) (%s) {\n%s\n}" % (k, rs, body))
        W.append("func rg%d[T any](x T) (%s) {\n%s\n}" % (k, rs, body))
        key = '"%s"' % " ".join(j["outs"])
        asg = (ret + " := ") if outs else ""
        res = "return adRes(%s)" % ", ".join("&r%d" % i for i in range(len(outs)))
        for fn, call, gen in (("rt%d" % k, "rt%d(1)" % k, "false"), ("(*rtRecv).M%d" % k, "rtR.M%d()" % k, "false"), ("rg%d[string]" % k, 'rg%d("a")' % k, "true")):
            W.append("func init() { addRt(%s, %s, %s, func() []reflect.Value { %s%s; %s }) }" % (key, gen, fn, asg, call, res))
        if len(outs) == 1:
            for v in j["conv"]:
                o = outs[0]
                conv = "*(*%s)" % o if o.startswith("[") and not o.startswith("[]") and go(v) != o else "(%s)" % o  # go1.18 has no conversion of slices to arrays
                W.append("func init() { rtConv[[2]string{\"%s\", \"%s\"}] = func(x interface{}) reflect.Value { r := %s(x.(%s)); return reflect.ValueOf(&r).Elem() } }" % (v, j["outs"][0], conv, go(v)))
    for t in sorted(types - {"nil", "seq"}):
        W.append("func init() { rtTypes[\"%s\"] = TY[%s]() }" % (t, go(t)))
    W.append("var _ = mockey.Mock")
    with open(path, "w") as f:
        f.write("\n".join(W) + "\n")
