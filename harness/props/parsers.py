"""T01, T02: the text parsers."""
import string

import numpy as np

from core import Skip, Violation, prop, short
from lpio import num

from pytimize.parsers import GraphParser, LinearParser

WORD = set(string.ascii_letters + string.digits + "_")
DIGITS = set(string.digits)


def decimal(text):
    """Digits with an optional fraction, or None."""
    head, dot, tail = text.partition(".")
    if not head or not set(head) <= DIGITS or (dot and (not tail or not set(tail) <= DIGITS)):
        return None
    return float(text)


# -------------------------------------------------------------------- T01
def read_graph(text):
    """Independent reading of the four notations; None when the text is not one of them."""
    kinds, out = set(), []
    for term in text.split(" "):
        name, colon, w = term.partition(":")
        weight = 0.0
        if colon:
            weight = decimal(w)
            if weight is None:
                return None
        a, hyphen, b = name.partition("-")
        if hyphen:
            if not a or not b or not set(a + b) <= WORD:
                return None
        else:
            if len(name) != 2 or not set(name) <= WORD:
                return None
            a, b = name
        kinds.add((bool(hyphen), bool(colon)))
        out.append((a, b, weight))
    return out if len(kinds) == 1 else None


def graph_text(rng):
    hyphen, weighted = rng.random() < 0.6, rng.random() < 0.5
    alpha = rng.choice(["abc", "abcXYZ", string.ascii_letters, string.ascii_letters + string.digits + "_", "0123", "x_1"])
    terms = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        k = (lambda: rng.choice([1, 1, 2, 3, 7])) if hyphen else (lambda: 1)
        a = "".join(rng.choice(alpha) for _ in range(k()))
        b = "".join(rng.choice(alpha) for _ in range(k()))
        t = a + ("-" if hyphen else "") + b
        if weighted:
            t += ":" + rng.choice(["0", "1", "7", "10", "3.5", "0.25", "12.0", "007", "1000000", "2.125", str(rng.randint(0, 999)),
                                   f"{rng.randint(0, 99)}.{rng.randint(0, 999):03d}",
                                   f"{rng.randint(0, 9)}.{rng.randint(0, 10 ** 9):0{rng.randint(7, 12)}d}",
                                   f"0.{'0' * rng.randint(3, 9)}{rng.randint(1, 99)}", str(10 ** rng.randint(7, 20) + 1)])
        terms.append(t)
    return " ".join(terms)


DIRECTED_GRAPH_TEXT = ["ab", "a-b", "ab:1", "a-b:1", "ab bc ca", "a-b b-c", "ab:0.5 bc:10", "a1-b_2:3.25 b_2-c:0",
                       "ab a-b", "ab ab:1", "a-b a-b:1", "ab:1 a-b:1", "a-b ab", "ab:1 ab", "", " ", "a", "abc", "a-b-c",
                       "a--b", "-ab", "ab:", "ab:-1", "ab:1.", "ab:.5", "ab:1.2.3", "ab  bc", " ab", "ab ", "ab,bc",
                       "a-b:1 b-c", "ab:x", "a-:1", "-b:1", "a-b:1:2", "ab;bc", "a b", "ab:1e5", "a.b", "a-b:1-2", "11 22",
                       "11-22", "11:22", "1-1:1", "ab\n", "a-b\n", "ab:1\n", "a-b:1.5\n", "ab bc\n", "\nab", "ab\n\n"]


@prop("T01", quick=240000, rule="Edge lists in the four notations over word characters, and single-character insertions, "
      "deletions, replacements and swaps of them; an independent reader decides whether the text is still an edge list "
      "(then the parse has to equal it) or not (then it has to be refused with a value error).  Distinct by text.",
      floors=[("parsed", 209560), ("refused", 148580)], directed=DIRECTED_GRAPH_TEXT)
def t01(ctx):
    rng = ctx.rng
    if ctx.directed is not None:
        texts = [ctx.directed]
    else:
        t = graph_text(rng)
        texts = [t]
        for _ in range(2):
            u = t
            for _ in range(rng.choice([1, 1, 1, 2])):
                u = corrupt(rng, u, "ab1-: .,_;+" + t)
            texts.append(u)
        if rng.random() < 0.3:
            texts.append(t + " " + graph_text(rng))
        if rng.random() < 0.02:
            texts.append(t + "\n")
    ctx.nontrivial = True
    for text in texts:
        ctx.sig(text)
        ctx.note(text=text)
        want = read_graph(text)
        if want is None:
            ctx.refuse(f"parse({text!r})", GraphParser.parse, text, kinds=(ValueError,))
            ctx.count("refused")
            continue
        got = ctx.must(f"parse({text!r})", GraphParser.parse, text)
        try:
            plain = [(e[0], e[1], float(e[2])) for e in got if len(e) == 3]
        except Exception:
            raise Violation(f"parse({text!r}) gave {short(got)}")
        ctx.check(len(plain) == len(got) and plain == want, lambda: f"parse({text!r}) is {short(got)}, expected {want}")
        ctx.count("parsed")


def corrupt(rng, text, alphabet):
    k = rng.choice(["insert", "delete", "replace", "swap"])
    i = rng.randrange(len(text) + 1)
    if k == "insert" or not text:
        return text[:i] + rng.choice(alphabet) + text[i:]
    i = rng.randrange(len(text))
    if k == "delete":
        return text[:i] + text[i + 1:]
    if k == "replace":
        return text[:i] + rng.choice(alphabet) + text[i + 1:]
    j = rng.randrange(len(text))
    s = list(text)
    s[i], s[j] = s[j], s[i]
    return "".join(s)


# -------------------------------------------------------------------- T02
def read_linear(text):
    """{index: coefficient}; None when not a linear expression with distinct positive indices."""
    out = {}
    i, first = 0, True
    while i < len(text) or first:
        sign = 1.0
        if i < len(text) and text[i] in "+-" and (not first or text[i] == "-"):
            sign = -1.0 if text[i] == "-" else 1.0
            i += 1
        elif not first:
            return None
        j = i
        while j < len(text) and (text[j] in DIGITS or text[j] == "."):
            j += 1
        v = decimal(text[i:j])
        if v is None or text[j:j + 2] != "x_":
            return None
        i = j = j + 2
        while j < len(text) and text[j] in DIGITS:
            j += 1
        if j == i or int(text[i:j]) == 0 or int(text[i:j]) in out:
            return None
        out[int(text[i:j])] = sign * v
        i, first = j, False
    return out


def linear_text(rng):
    n = rng.choice([1, 1, 2, 3, 4, 6])
    top = rng.choice([n, n, n + 2, 9, 12, 30])
    idx = rng.sample(range(1, max(top, n) + 1), n)
    out = ""
    for k, i in enumerate(idx):
        c = rng.choice(["0", "1", "2", "5", "10", "3.5", "0.25", "0.001", "12.0", "100", str(rng.randint(0, 999)),
                        f"{rng.randint(0, 99)}.{rng.randint(0, 999):03d}"])
        if rng.random() < 0.06:          # many digits
            c = rng.choice([f"{rng.randint(0, 999)}.{rng.randint(0, 10 ** 12):012d}", f"0.{'0' * rng.randint(3, 12)}{rng.randint(1, 99)}",
                            str(rng.randint(10 ** 6, 10 ** 20)), f"{rng.randint(10 ** 6, 10 ** 9)}.{rng.randint(0, 9999):04d}"])
        s = rng.choice(["+", "-"]) if k else rng.choice(["", "", "-"])
        out += f"{s}{c}x_{i}"
    return out


DIRECTED_LINEAR = ["3x_1", "-3x_1", "1x_1+2x_2-3x_3", "2x_3", "2x_3-1x_1", "0x_1", "-0.5x_2+1.25x_10", "1x_1+1x_1",
                   "1x_1-1x_1", "1x_0", "1x_1+2x_0", "", "x", "1x", "1x_", "3", "x_1+2", "1x_1+", "1x_1+2", "+1x_1", "1x_1|2x_2",
                   "1x_1 +2x_2", "1x_1++2x_2", "1x_1+-2x_2", "1.x_1", ".5x_1", "1x_1.5", "1x1", "1y_1", "1x_-1", "--1x_1",
                   "1x_1*2x_2", "1x_1+2x_2=3", "1x_12+2x_1", "1x_2+3x_12+4x_1", "7x_1-7x_2+7x_3-7x_4+7x_5", "1x_1\n", "1x_1-2x_2\n", "\n1x_1"]


@prop("T02", quick=240000, rule="Sums of signed decimal terms with distinct indices in any order, with and without a requested "
      "size, and single-character corruptions; an independent reader decides whether the text is still an expression "
      "(then the row has to equal it) or not (then it has to be refused).  Bare variables without a coefficient are not "
      "judged.  Distinct by text.",
      floors=[("parsed", 181120), ("refused", 109040), ("with a size", 108610)], directed=DIRECTED_LINEAR)
def t02(ctx):
    rng = ctx.rng
    if ctx.directed is not None:
        texts = [ctx.directed]
    else:
        t = linear_text(rng)
        texts = [t]
        for _ in range(2):
            u = t
            for _ in range(rng.choice([1, 1, 1, 2])):
                u = corrupt(rng, u, "0123456789+-x_. |*y" + t)
            texts.append(u)
        if rng.random() < 0.02:
            texts.append(t + "\n")
    ctx.nontrivial = True
    for text in texts:
        ctx.sig(text)
        ctx.note(text=text)
        want = read_linear(text)
        if want is None:
            if any((k == 0 or not text[k - 1].isdigit()) for k in range(len(text)) if text[k] == "x"):
                continue             # a bare variable: not judged
            ctx.refuse(f"parse({text!r})", LinearParser.parse, text)
            ctx.count("refused")
            continue
        top = max(want)
        if top > 10 ** 5:
            continue
        size = rng.choice([None, None, top, top + 1, top + 5])
        if size is None:
            got = ctx.must(f"parse({text!r})", LinearParser.parse, text)
        else:
            got = ctx.must(f"parse({text!r}, {size})", LinearParser.parse, text, size)
            ctx.count("with a size")
        row = np.asarray(got, dtype=float)
        n = top if size is None else size
        ctx.check(row.size == n and max(row.shape) == n, lambda: f"parse({text!r}, {size}) has shape {row.shape}, expected a row of {n}")
        row = row.ravel()
        for i in range(n):
            ctx.check(row[i] == want.get(i + 1, 0.0), lambda: f"parse({text!r}, {size}): coefficient of x_{i + 1} is {row[i]}, "
                      f"expected {want.get(i + 1, 0.0)}")
        ctx.count("parsed")


# -------------------------------------------------------------------- T03
@prop("T03", quick=120000, rule="Texts as in T01 and T02, longer lists of up to 60 terms, corruptions of the first, the last and "
      "any other term, and lists of linear expressions with no, one and several malformed members at any place: the "
      "classification and validation answers against the independent readers, and whether a list of expressions is "
      "accepted.  Distinct by text.",
      floors=[("classified", 52240), ("refused as a graph", 28630), ("valid", 43540), ("invalid", 27670), ("lists accepted", 14450),
              ("lists refused", 6230)] + [(f"notation {k}", 10) for k in range(4)],
      directed=DIRECTED_GRAPH_TEXT + DIRECTED_LINEAR)
def t03(ctx):
    rng = ctx.rng
    graphs, rows = [], []
    if ctx.directed is not None:
        graphs, rows = [ctx.directed], [ctx.directed]
    else:
        if rng.random() < 0.5:
            t = graph_text(rng)
            if rng.random() < 0.15:          # a long list in the same notation
                kind = ("-" in t, ":" in t)
                parts = [t]
                while len(" ".join(parts).split(" ")) < 60:
                    u = graph_text(rng)
                    if ("-" in u, ":" in u) == kind:
                        parts.append(u)
                t = " ".join(parts)
            graphs = [t, corrupt(rng, t, "ab1-: .,_;+" + t[:40])]
            terms = t.split(" ")
            k = rng.choice([0, len(terms) - 1, rng.randrange(len(terms))])
            bad = terms[:k] + [corrupt(rng, terms[k], "ab1-: ._")] + terms[k + 1:]
            graphs.append(" ".join(bad))
        else:
            t = linear_text(rng)
            rows = [t, corrupt(rng, t, "0123456789+-x_. |*y" + t), corrupt(rng, t, "+-x_.")]
    ctx.nontrivial = True
    for text in graphs:
        ctx.sig(text)
        ctx.note(text=text)
        want = read_graph(text)
        kind = -1 if want is None else ("-" in text) + 2 * (":" in text)
        got = num(ctx.must(f"get_expression_type({text!r})", GraphParser.get_expression_type, text), "get_expression_type")
        ctx.check(got == kind, lambda: f"get_expression_type({text!r}) is {got}, expected {kind}")
        ctx.count("refused as a graph" if want is None else "classified")
        if want is not None:
            ctx.count(f"notation {kind}")
    bare = lambda u: any((k == 0 or not u[k - 1].isdigit()) for k in range(len(u)) if u[k] == "x")
    good, bad = [], []
    for text in rows:
        ctx.sig(text)
        ctx.note(text=text)
        want = read_linear(text)
        if want is None and bare(text):
            continue                         # a bare variable: not judged
        if want is None and well_formed(text) and not any(int(i) == 0 for i in indices(text)):
            bad.append(text)                 # a repeated variable: the validator may let it pass
            continue
        got = ctx.must(f"validate_expression({text!r})", LinearParser.validate_expression, text)
        ctx.check(isinstance(got, (bool, np.bool_)) and bool(got) == (want is not None),
                  lambda: f"validate_expression({text!r}) is {short(got)}, expected {want is not None}")
        ctx.count("invalid" if want is None else "valid")
        (bad if want is None else good).append(text)
    good = [t for t in good if max(read_linear(t)) < 200]
    if good and ctx.directed is None:
        k = rng.choice([0, 0, 1, 1, 2])
        many = [rng.choice(good) for _ in range(rng.randint(1, 4))]
        many += [t for t in (linear_text(rng) for _ in range(2)) if read_linear(t)]
        for _ in range(k if bad else 0):
            many.insert(rng.choice([0, len(many), rng.randint(0, len(many))]), rng.choice(bad))
        args = rng.choice([(many,), (many, max(max(read_linear(t)) for t in many if t not in bad) + rng.randint(0, 3))])
        lent = list(many)
        if any(t in bad for t in many):
            if len(args) == 1:
                ctx.refuse(f"parse_multiple{args}", LinearParser.parse_multiple, *args)
                ctx.count("lists refused")
        else:
            ctx.must(f"parse_multiple{args}", LinearParser.parse_multiple, *args)
            ctx.count("lists accepted")
        ctx.check(many == lent, "parse_multiple changed the list")


def indices(text):
    return [seg[:next((i for i, ch in enumerate(seg) if ch not in DIGITS), len(seg))] for seg in text.split("x_")[1:]]


def well_formed(text):
    """The grammar alone: repeated variables and the index zero allowed."""
    i, first = 0, True
    while i < len(text) or first:
        if i < len(text) and text[i] in "+-" and (not first or text[i] == "-"):
            i += 1
        elif not first:
            return False
        j = i
        while j < len(text) and (text[j] in DIGITS or text[j] == "."):
            j += 1
        if decimal(text[i:j]) is None or text[j:j + 2] != "x_":
            return False
        i = j = j + 2
        while j < len(text) and text[j] in DIGITS:
            j += 1
        if j == i:
            return False
        i, first = j, False
    return True
