"""Renders drivers/string.alusus for one character type, with the literal table of spec/StrSpec.tla."""
from histcheck import *

# mirrors LitTable, IntTable, FloatTable of StrSpec.tla (read from there)
_spec = open(SPEC + "/StrSpec.tla").read()


def table(name):
    m = re.search(r"^%s == <<(.*?)>>$" % name, _spec, re.M | re.S)
    return [eval(x) for x in re.findall(r'"[^"]*"', m.group(1))]


def codes(name):
    body = re.search(r"^%s == <<\n(.*?)\n\s*>>" % name, _spec, re.M | re.S).group(1)
    return [[int(v) for v in re.findall(r"\d+", row)] for row in re.findall(r"<<([^<>]*)>>", body)]


LITS = codes("LitTable")
INTS = ["".join(map(chr, r)) for r in codes("IntTable")]
FLOATS = [("1.5", "1.500000"), ("0.25", "0.250000"), ("-2.75", "-2.750000"), ("0.9999999", "1.000000"),
          ("0.0", "0.000000"), ("1000000.5", "1000000.500000"), ("-7.0", "-7.000000"), ("3.9999998", "4.000000")]
assert ["".join(map(chr, r)) for r in codes("FloatTable")] == [f[1] for f in FLOATS]


def intexpr(s):
    n = int(s)
    if n == -2 ** 63:
        return "(0i64 - 9223372036854775807i64 - 1i64)"
    return "(0i64 - %di64)" % -n if n < 0 else "%di64" % n


def fexpr(s):
    return "(0.0f64 - %sf64)" % s[1:] if s[0] == "-" else s + "f64"


EXTRA = """else if o == 15 { a += num(x); }
        else if o == 27 { return String.parseInt(a.buf)~cast[Int]; }
        else if o == 28 { a = String.format("x%s%i%c%%", b.buf, x, 'c'); }
        else if o == 29 { a += flt(x); }"""
EXTRAB = """
        else if o == 30 { bq(q, j - #NS#).append(lit(l)); }
        else if o == 31 { bq(q, j - #NS#).append(a.buf); }
        else if o == 32 { a = bq(q, j - #NS#)~cast[ref[String]]; }
        else if o == 34 { bq(q, j - #NS#).clear(); }
        else if o == 35 { bq(q, j - #NS#).init(a, n); }
        else if o == 36 { bq(q, j - #NS#) += num(x); }
        else if o == 37 { bq(q, j - #NS#) += x~cast[Char]; }
        else if o == 38 { return bq(q, j - #NS#).getLength()~cast[Int]; }
        else if o == 39 { bq(q, j - #NS#).format("%s-%i%%%c", a.buf, x, 'c'); }
        else if o == 40 { bq(q, j - #NS#).append(bq(q, j - #NS#)~cast[ref[String]].buf); }
        else if o == 41 { bq(q, j - #NS#).init(x, n); }
        else if o == 42 { bq(q, j - #NS#) += flt(x); }
        else if o == 43 { bq(q, j - #NS#).append(a.buf~cnt(x)~ptr~cast[CP], n); }"""


def source(kind, ns, nb):
    t = open(VERIF + "/drivers/string.alusus").read()
    ty = "def Ch: alias Char; def Str: alias String;" if kind == "char" else "def Ch: alias Word; def Str: alias WString;"
    if kind == "char":
        ty += "\n    func num(i: Int): Int[64] {\n" + "".join("        if i == %d return %s;\n" % (k + 1, intexpr(s)) for k, s in enumerate(INTS)) + \
              "        return 0;\n    };\n    func flt(i: Int): Float[64] {\n" + \
              "".join("        if i == %d return %s;\n" % (k + 1, fexpr(f[0])) for k, f in enumerate(FLOATS)) + "        return 0.0f64;\n    };\n"
    lits = "\n        ".join("lits(%d)(%d) = %d;" % (i + 1, p, v) for i, r in enumerate(LITS) for p, v in enumerate(r + [0]))
    extra = EXTRA if kind == "char" else ""
    if nb:
        extra += EXTRAB.replace("#NS#", str(ns))
    t = t.replace("#TYPE#", ty).replace("#LITS#", lits).replace("#EXTRA#", extra)
    t = t.replace("#IMPORT#", 'import "Srl/StringBuilder";' if nb else "")
    t = t.replace("#BUILDERS#", "def b1: StringBuilder; def b2: StringBuilder;" if nb else "")
    t = t.replace("#BQ#", "func bq(q: ref[Q], i: Int): ref[StringBuilder] { if i == 1 { return q.b1; }; return q.b2; };" if nb else "")
    t = t.replace("#INITB#", "for k = 1, k <= nb, ++k bq(q, k).init(0, 4);" if nb else "")
    t = t.replace("#SHOWB#", "for k = 1, k <= nb, ++k { def sb: ref[String](bq(q, k)~cast[ref[String]]); show(sb.buf); };" if nb else "")
    return t
