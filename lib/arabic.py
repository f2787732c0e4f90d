"""Source texts in the Arabic spelling of the language: every keyword, modifier, basic type, operator word, punctuation
mark, literal prefix or suffix and escape that has an Arabic form is replaced by one of its forms (with a given
probability), and the program's own identifiers may be replaced by Arabic ones."""
import json, os, re

WORDS = {
    "if": ["إذا"], "else": ["وإلا"], "while": ["بينما"], "for": ["لكل"], "continue": ["أكمل"], "break": ["اقطع"],
    "return": ["أرجع", "ارجع"], "module": ["وحدة"], "class": ["صنف"], "type": ["صنف"], "func": ["دالة", "دالّة"],
    "function": ["دالة", "دالّة"], "macro": ["ماكرو"], "preprocess": ["تمهيد"], "this_type": ["هذا_الصنف"],
    "handler": ["عملية"], "this": ["هذا"], "value": ["قيمة"], "integer": ["صحيح"], "string": ["محارف"], "any": ["أيما"],
    "as_ptr": ["كمؤشر"], "set_ptr": ["حدد_مؤشر"], "no_injection": ["بلا_حقن"],
    "def": ["عرّف", "عرف"], "use": ["استخدم"], "alias": ["لقب"], "import": ["اشمل"], "ast": ["شبم"],
    "or": ["أو"], "nor": ["وليس"], "xor": ["أو_حصرا"], "xnor": ["وليس_حصرا"], "and": ["و"], "nand": ["أو_ليس"], "not": ["ليس"],
    "Int": ["صحيح", "صـحيح"], "Word": ["طبيعي", "طـبيعي"], "Float": ["عائم", "عـائم"], "Char": ["محرف", "مـحرف"],
    "Void": ["فراغ", "فـراغ"], "ptr": ["مؤشر"], "array": ["مصفوفة"], "ref": ["سند"], "temp_ref": ["سند_مؤقت"],
    "Bool": ["ثنائي", "ثـنائي"], "CharsPtr": ["مـؤشر_محارف"], "ArchInt": ["صـحيح_متكيف"], "ArchWord": ["طـبيعي_متكيف"],
}
TILDE = {"ptr": ["مؤشر"], "cnt": ["محتوى"], "deref": ["تتبع"], "no_deref": ["عطل_التتبع"], "cast": ["مثّل", "مثل"],
         "size": ["حجم"], "type": ["صنف"], "ast": ["شبم"], "ast_ref": ["سند_شبم"], "init": ["هيئ"],
         "terminate": ["اتلف", "أتلف"], "next_arg": ["المعطى_التالي"], "use_in": ["استخدم_في"]}
MODS = {"shared": ["مشترك"], "no_bind": ["دون_ربط"], "injection": ["حقنة"], "operation": ["عملية"], "priority": ["أولوية"],
        "merge": ["دمج"], "expname": ["تصدير"], "member": ["عضو"], "no_preprocess": ["بلا_تمهيد"]}
PUNCT = {";": "؛", ",": "،", "?": "؟", "/": "÷", "/=": "÷="}
ESC = {"n": "ج", "t": "ت", "r": "ر"}
NEEDS = {"Bool", "CharsPtr", "ArchInt", "ArchWord", "Int", "Word", "Float", "Char", "Void", "ptr", "array", "ref", "temp_ref"}

TOKEN = re.compile(r'(?P<sp>\s+)|(?P<com>//[^\n]*|#[^\n]*|/\*.*?\*/)|(?P<str>"(?:\\.|[^"\\])*")|(?P<chr>\'(?:\\.|[^\'\\])*\')'
                   r'|(?P<num>0[xXhH][0-9a-fA-F]+(?:[uU]?[iI]?[0-9]*)?|0[bB][01]+[uUiI0-9]*|0[oO][0-7]+[uUiI0-9]*'
                   r'|[0-9]+\.[0-9]+(?:[eE][+-]?[0-9]+)?(?:[fF][0-9]*)?|[0-9]+(?:[eE][+-]?[0-9]+)?(?:[uUiIfF][uUiI0-9]*)?)'
                   r'|(?P<id>[A-Za-z_\u0620-\u065f\u066e-\u06dc][A-Za-z0-9_\u0620-\u065f\u066e-\u06dc]*)|(?P<op>/=|[^\sA-Za-z0-9_])', re.S)
LETTERS = "ابتثجحخدذرزسشصضطظعغفقكلمنهوي"


def letters(n, rng):
    return "".join(rng.choice(LETTERS) for _ in range(n))


def library(files):
    """the Arabic names of the given library files -> {English name: [Arabic names]}; of a name that several of the
    files translate, the translations they share"""
    g = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "glossary.json")))
    res = {}
    for f in files:
        own = {}
        for a, e in g[f]["names"]:
            if e not in WORDS:
                own.setdefault(e, []).append(a)
        for e in own:
            res[e] = [a for a in res[e] if a in own[e]] if e in res else own[e]
    return {e: a for e, a in res.items() if a}


def arabic(text, rng, p=1.0, rename=(), keep=(), lib=None):
    """the text with its translatable tokens spelled in Arabic, each with probability p; identifiers matching the
    regular expressions in rename get Arabic names (the same everywhere), but for those in keep"""
    names, used, out, prev, i, expname = {}, set(), [], "", 0, 0
    ren = [re.compile(r + r"\Z") for r in rename]
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise ValueError("cannot divide: " + text[i:i + 40])
        i = m.end()
        t, k = m.group(0), m.lastgroup
        yes = rng.random() < p
        r = t
        if k == "id":
            if expname == 2:
                pass
            elif prev == "~":
                r = rng.choice(TILDE[t]) if yes and t in TILDE else t
                if t not in TILDE and t in names:
                    r = names[t]
            elif prev == "@":
                r = rng.choice(MODS[t]) if yes and t in MODS else t
                if t == "expname":
                    expname = 1
            elif lib and t in lib and t not in keep and (prev == "." or t[0].isupper()):
                r = rng.choice(lib[t]) if yes else t
            elif t in WORDS:
                r = rng.choice(WORDS[t]) if yes else t
            elif t not in keep and any(e.match(t) for e in ren):
                if t not in names:
                    while True:
                        n = letters(rng.randint(2, 5), rng) + rng.choice(["", "_", "1"])
                        if n not in used and n not in ("في", "لا") and not any(n in v for v in WORDS.values()):
                            break
                    used.add(n)
                    names[t] = n
                r = names[t]
        elif k == "num" and yes:
            if t[:2] in ("0b", "0B"):
                r = "0ن" + t[2:]
            elif t[:2] in ("0o", "0O"):
                r = "0م" + t[2:]
            b = r[2:] if r[:2] in ("0x", "0X", "0h", "0H") else None
            if b is not None:
                r = r[:2] + b.replace("u", "ط").replace("i", "ص")
            else:
                r = r.replace("u", "ط").replace("i", "ص").replace("f", "ع")
        elif k == "str" and yes:
            r = re.sub(r"\\(.)", lambda e: "\\" + ESC.get(e.group(1), e.group(1)), t, flags=re.S)
        elif k == "op" and yes:
            r = PUNCT.get(t, t)
        if t == "[" and expname == 1:
            expname = 2
        elif t == "]" and expname == 2:
            expname = 0
        if k not in ("sp", "com"):
            prev = t
        out.append(r)
    return "".join(out)
