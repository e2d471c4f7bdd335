"""Easy-reading YAML with named Unicode escapes (see spec/Escapes.tla)."""
import unicodedata

UCD = unicodedata.ucd_3_2_0  # names that every interpreter knows
SPOTS = ["LATIN SMALL LETTER A", "DEVANAGARI LETTER KA", "HYPHEN-MINUS", "DIGIT TWO", "TIBETAN LETTER -A",
         "CJK UNIFIED IDEOGRAPH-4E00", "HANGUL SYLLABLE GAG", "GOTHIC LETTER AHSA", "LATIN CAPITAL LETTER N",
         "LATIN SMALL LETTER A WITH MACRON", "COMBINING ACUTE ACCENT", "ARABIC LETTER ALEF", "SPACE",
         "MUSICAL SYMBOL G CLEF", "RIGHT-TO-LEFT MARK", "BRAILLE PATTERN DOTS-1", "NUMBER SIGN",
         "MATHEMATICAL BOLD CAPITAL A", "REVERSE SOLIDUS", "LEFT CURLY BRACKET", "RIGHT CURLY BRACKET",
         "NO-BREAK SPACE", "ZERO WIDTH JOINER", "ZERO WIDTH NON-JOINER", "EM SPACE", "SOFT HYPHEN",
         "IDEOGRAPHIC SPACE", "THIN SPACE", "LATIN LETTER SMALL CAPITAL N", "ORIYA LETTER O", "ETHIOPIC SYLLABLE SEE", "LOW LINE", "FULL STOP"]
UNKNOWN = ["NO SUCH CHARACTER", "LATIN SMALL LETTER AAA", "A", "-", " ", "0", "LATIN SMALL LETTER",
           " DIGIT TWO", "DIGIT TWO ", "DIGIT  TWO", "DIGIT TWO-", "-DIGIT TWO", "LATIN SMALL LETTER A ", "  ",
           "DIGIT-TWO", "HYPHENMINUS", "HYPHEN -MINUS", "DIGITTWO", "DEVANAGARI LETTER KA1", "LATIN-SMALL-LETTER-A", "CJK UNIFIED IDEOGRAPH", "N"]
PLAIN = ["", "a", "b", "ab", " ", "x y", "N", "\\", "\\N", "\\N{", "}", "{", "\\n", "\\N{}", "\\\\", "\\N{a}",
         "\\N{latin small letter a}", "\\N{LATIN_SMALL}", "\\N {A}", "\\n{LATIN SMALL LETTER A}", "\u0915",
         "\\N{LATIN SMALL LETTER a}", "N{LATIN SMALL LETTER A}", "\\N(LATIN SMALL LETTER A)", "\U0001F600",
         "\\N{LATIN SMALL LETTER A", "\\u0041", "\\x41", "%s", "{0}", "\\1", "\\g<0>", "{LATIN SMALL LETTER A}",
         "\\N[A]", "\\N{A.B}", "&amp;", ":", "- ", "LATIN SMALL LETTER A"]


def name(rng):
    if rng.random() < 0.5:
        return rng.choice(SPOTS)
    while True:
        c = chr(rng.choice([rng.randrange(0x20, 0x3000), rng.randrange(0x3000, 0xD7FF), rng.randrange(0xF900, 0xFFF0),
                            rng.randrange(0x10300, 0x10330), rng.randrange(0x1D100, 0x1D7FF)]))
        if UCD.category(c)[0] in "LMNPS" and c not in "'\n\u2028\u2029":
            try:
                return UCD.name(c)
            except ValueError:
                pass


def esc(n):
    return "\\N{%s}" % n


def piece(rng, p_unknown=0.0, names=None):
    out = ""
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6]) if rng.random() < 0.995 else 120):
        x = rng.random()
        if x < 0.5:
            out += esc(name(rng))
        elif x < 0.5 + p_unknown:
            out += esc(rng.choice(UNKNOWN))
        elif x > 0.97:  # an escape that completes the text of another one
            n = name(rng)
            out += esc("REVERSE SOLIDUS") + "N{%s}" % n + rng.choice(["", " ", esc(n)])
        else:
            out += rng.choice(PLAIN)
    return out


def quotable(rng):
    while True:
        n = name(rng)
        if unicodedata.lookup(n) not in '\\"':
            return n


def only_names(rng):
    """For double quotes, where YAML has escapes of its own."""
    return "".join(esc(quotable(rng)) if rng.random() < 0.7 else rng.choice("abc") for _ in range(rng.randint(1, 3)))


def word(rng):
    """Escapes of characters that can be a token of a rule in the notation."""
    out = ""
    for _ in range(rng.choice([0, 1, 1, 2])):
        while True:
            n = name(rng)
            c = unicodedata.lookup(n)
            if not c.isspace() and c not in "()<>+\\{}":
                break
        out += esc(n)
    return out


def gen_escapes(rng, tier, rnd):
    out = []
    for _ in range(250 if tier == "quick" else 1000):
        ev = []
        for _ in range(8):
            unesc = int(rng.random() < 0.85)
            pu = 0.1 if rng.random() < 0.25 else 0.0
            n = rng.randint(1, 4)
            toks = ["t%d%s" % (k, word(rng) if unesc else "") for k in range(n)]
            prods = [["'", piece(rng, pu)] if rng.random() < 0.7 or not unesc else ['"', only_names(rng)]
                     for _ in range(n)]
            meta = [piece(rng, pu) for _ in range(rng.randint(0, 3))]
            cls = "c" + (word(rng) if unesc else "")
            om = piece(rng, pu)
            ev.append({"unesc": unesc, "how": rng.choice(["yaml", "yaml", "file"]), "toks": toks, "prods": prods,
                       "meta": meta, "cls": cls, "om": om,
                       "note": piece(rng, pu) if rng.random() < 0.3 else "",
                       "opts": [int(rng.random() < 0.25) for _ in range(3)],
                       "default": int(unesc and rng.random() < 0.5)})
        ev.insert(rng.randint(0, 8), whole(rng))
        out.append({"kind": "escapes", "ev": ev, "names": table(ev)})
    many = [piece(rng, 0) for _ in range(90)]  # hundreds of names in a document
    while sum(m.count("\\N{") for m in many) < 260:
        many.append(piece(rng, 0))
    ev = [{"unesc": 1, "how": rng.choice(["yaml", "file"]), "toks": ["t" + word(rng)], "prods": [["'", piece(rng)]],
           "meta": many, "cls": "c", "om": piece(rng), "note": "", "opts": [0, 0, 0],
           "default": rng.randint(0, 1)}]
    out.append({"kind": "escapes", "ev": ev, "names": table(ev)})
    return out


LAYOUT = {"\n": "LINE FEED", " ": "SPACE", ":": "COLON", "'": "APOSTROPHE", "[": "LEFT SQUARE BRACKET",
          "]": "RIGHT SQUARE BRACKET", "-": "HYPHEN-MINUS", "<": "LESS-THAN SIGN", "+": "PLUS SIGN",
          ",": "COMMA", "\t": "CHARACTER TABULATION", "{": "LEFT CURLY BRACKET", "}": "RIGHT CURLY BRACKET",
          "#": "NUMBER SIGN", "t": "LATIN SMALL LETTER T", "|": "VERTICAL LINE", "b": "LATIN SMALL LETTER B"}


def whole(rng):
    """A document any character of which may be written as an escape, those of its layout too."""
    n = rng.randint(1, 2)
    toks = ["t%d" % k for k in range(n)]
    lines = ["tokens:"] + ["  %s: [b]" % t for t in toks] + ["  ' ': [wb]", "rules:"]
    lines += ["  %s: %s" % (t, rng.choice(["x", "'a\tb'", "|-\n    x\n    y", "'- #'"])) for t in toks]
    lines += ["whitespace: {default: ' ', token_class: wb, consolidate: false}"]
    if rng.random() < 0.5:
        lines += ["onmatch_rules:", "  - <b> + <b>: ','"]
    text = "\n".join(lines) + "\n"
    p = rng.choice([0.02, 0.1, 0.3])
    only = rng.choice([None, "\n", "\n\t", "'", " "])
    out = "".join(esc(LAYOUT[c]) if c in LAYOUT and rng.random() < (p if not only else 0.3 * (c in only)) else c
                  for c in text)
    return {"whole": 1, "plain": text, "text": out, "unesc": 1, "how": rng.choice(["yaml", "yaml", "file"]),
            "default": rng.randint(0, 1)}


def table(ev):
    import re
    text = repr(ev).replace("\\\\", "\\")
    out = []
    for n in sorted(set(re.findall(r"\\N\{([^{}]*)\}", text))):
        try:
            c = unicodedata.lookup(n)
        except KeyError:
            continue
        if len(c) == 1 and n not in UNKNOWN:
            out.append({"n": [ord(x) for x in n], "c": ord(c)})
    return out


def design(tier):
    return {"type": "mc", "module": "MCEscapes", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  MaxLen = %d
INVARIANTS Local Untouched Anywhere EachOnce
PROPERTY Ends
CHECK_DEADLOCK FALSE
""" % (7 if tier == "thorough" else 5)}
