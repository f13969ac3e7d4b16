"""Typography: other blanks, hyphens, quotes, ligatures and accents."""

import json
import re

from mc import impl
from mc.core import Skip, Space, Violation

PROPERTY = "C29"
TITLE = "Typographic variants of a reference give the same as the plain text"
STATEMENT = (
    "A reference line gives the same references (apart from raw_ref, and with runs of blanks in values counted as one) when, at any "
    "place of it, a blank is doubled, or is a tab, a no-break or other Unicode blank; a blank stands before a comma, semicolon, full stop or "
    "closing bracket or after an opening bracket; a hyphen is a minus, en dash, small or full-width hyphen; quotes are curly, or the closing one comes after the comma; "
    "letters are written as ligatures or with the accent as a separate character before them (TeX fonts); or control and "
    "invisible formatting characters stand between its characters."
)
QUANT = (["inputs"], "every variant at every place of a line, and every pair of them")
WHY = "Tests have clean lines and a few converted PDFs; a variant hurts only in front of, inside or behind particular elements."
ANCHORS = {
    "files": ["refextract/references/text.py", "refextract/documents/text.py", "refextract/references/tag.py"],
    "mechanism": [
        {"name": "characters replaced", "where": "text.wash_and_repair_reference_line (inspire_utils.record.replace_undesirable_characters)"},
        {"name": "punctuation, blanks and hyphens", "where": "documents.text.wash_line"},
        {"name": "positions in the stripped line", "where": "documents.text.remove_and_record_multiple_spaces_in_line, tag.account_for_stripped_whitespace"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of typographic variants at all places of a line on the real extractor; all must equal the plain line"
NOTE = "Metamorphic oracle: the result of the plain line, whose fields are decided by C13 to C25."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "17 lines x 61 variants x every single place and all places at once",
    "thorough": "additionally every pair of places x 11 variants per line",
}
ASSUMPTIONS = ["small knowledge bases", "no variants inside URLs and DOIs (they are taken literally), nor hyphens surrounded by blanks"]

LINES = [
    "A. Author, B. Other and C. van Third, Phys. Rev. D 10, 20-25 (1990), arXiv:1203.1234",
    "A. Author, Phys. Rev. D 10 (1990) 20; ibid. D 11 (1991) 30; B. Other, Phys. Lett. B 12 (1992) 40",
    'J. Doe et al., "A title of it", Nucl. Phys. B 123 (1985) 456',
    "J. M\u00fcller, F. Andr\u00e9 and K. \u00d6lund, hep-th/9912345",
    "ATLAS Collaboration, JHEP 03 (2003) 012 [arXiv:1203.1234], doi:10.1000/ab.c",
    "A. Smith, A classical zebra, World Scientific, 1990, ISBN 978-0-19-921027-2",
    "B. Jones, zebra, http://a.org/x-y; C. Brown, walrus",
    "A.-B. Smith-Jones, CERN-PH-EP-2010-123, CERN-TH-99-123",
    "D. Griffiths, efficient field flows of baffling files, FERMILAB-PUB-99-123-T",
    "PoS LAT2005 (2006) 123, see also JINST 3 (2008) P08003",
    "Super-Kamiokande Collaboration, Y. Fukuda et al., Phys. Rev. Lett. 81, 1562 (1998) [hep-ex/9807003]",
    "zebra, Nucl. Phys. B (Proc. Suppl.) 12 (1990) 34; walrus, Astrophys. J. 561, L55",
    "M. Peskin and D. Schroeder, \"Introduction to Quantum Field Theory\", 1995",
    "F. Fran\u00e7ois, \u0160. \u010cern\u00fd, N. Mu\u00f1oz and \u00c5. \u00c5s, Eur. Phys. J. C 12 (2000) 34",
    "zebra (eds. A. Smith and B. Jones), Springer, 2001, p. 12-15",
    "Phys. Rev. D 10, 20 (1990), Phys. Rev. D 11, 21 (1991) and hdl:2027/123",
    'A. Author, "Zebras, quokkas, and others", Phys. Rev. D 10 (1990) 20; B. Other, "On a walrus: one, two", Phys. Lett. B 12 (1992) 40',
]
BLANKS = ["  ", "   ", "\t", "\u00a0", "\u2003", "\u2009", "\u3000", " \u00a0", "\u2002 "]
HYPHENS = ["\u02d7", "\u2212", "\ufe63", "\uff0d", "\u2013"]
INVISIBLE = ["\ufeff", "\u2028", "\u202a", "\u206f", "\x01", "\x1b", "\x08"]
ACCENTED = {
    "\u00fc": ["\u00a8u", "\u00a8 u", "\x7fu"], "\u00e9": ["\u00b4e", "\u00b4 e"], "\u00d6": ["\u00a8O", "\u00a8 O"],
    "\u00e7": ["\u00b8c"], "\u0160": ["\u02c7S"], "\u010c": ["\u02c7C"], "\u00f1": ["\u02dcn"], "\u00c5": ["\u02daA"], "\u00fd": ["\u00b4y", "\u00b4 y"],
}
LIGATURES = [("ffi", "\ufb03"), ("ffl", "\ufb04"), ("ff", "\ufb00"), ("fi", "\ufb01"), ("fl", "\ufb02"), ("ff", "\x0b")]


def edits(text):
    """all (start, end, replacement, label)"""
    literal = [(m.start(), m.end()) for m in re.finditer(r"http\S+[^\s;,.]|10\.\d+\S*[^\s;,.]|doi:", text)]
    found = []

    def add(start, end, new, label):
        if not any(a < end and start < b for a, b in literal):
            found.append((start, end, new, label))

    for m in re.finditer(" ", text):
        for blank in BLANKS:
            add(m.start(), m.end(), blank, "blank %s" % ascii(blank))
    for m in re.finditer(r"[,;\]]|\.(?= |$)", text):
        add(m.start(), m.end(), " " + m.group(), "blank before %s" % m.group())
    for m in re.finditer(r"\[", text):
        add(m.start(), m.end(), "[ ", "blank after [")
    for m in re.finditer("-", text):
        for hyphen in HYPHENS:
            add(m.start(), m.end(), hyphen, "hyphen %s" % ascii(hyphen))
    for i, m in enumerate(re.finditer('"', text)):
        add(m.start(), m.end(), "\u201c\u201d"[i % 2], "quote")
    for i, m in enumerate(re.finditer('"', text)):
        if i % 2 and text[m.end() : m.end() + 1] == ",":
            add(m.start(), m.end() + 1, ',"', "comma before the quote")
    for plain, written in ACCENTED.items():
        for m in re.finditer(plain, text):
            for w in written:
                add(m.start(), m.end(), w, "accent %s" % ascii(w))
    for plain, written in LIGATURES:
        for m in re.finditer(plain, text):
            add(m.start(), m.end(), written, "ligature %s" % ascii(written))
    for char in INVISIBLE:
        for i in range(1, len(text) + 1):
            if not any(a < i < b for a, b in literal):
                found.append((i, i, char, "inserted %s" % ascii(char)))
    return found


def apply(text, chosen):
    for start, end, new, _ in sorted(chosen, reverse=True):
        text = text[:start] + new + text[end:]
    return text


def singles(ch):
    line = ch.pick("line", LINES)
    edit = ch.pick("edit", edits(line))
    return {"plain": line, "written": apply(line, [edit])}


def everywhere(ch):
    line = ch.pick("line", LINES)
    found = edits(line)
    label = ch.pick("label", sorted({e[3] for e in found}))
    return {"plain": line, "written": apply(line, [e for e in found if e[3] == label])}


PAIRED = ["blank '  '", "blank '\\t'", "blank '\\xa0'", "blank before ,", "blank before ;", "blank before .", "blank after [", "blank before ]",
          "hyphen '\\u2013'", "hyphen '\\u2212'", "quote"]


def pairs(ch):
    line = ch.pick("line", LINES)
    found = [e for e in edits(line) if e[3] in PAIRED]
    first = ch.pick("first", range(len(found) - 1))
    second = ch.pick("second", range(first + 1, len(found)))
    a, b = found[first], found[second]
    if a[0] < b[1] and b[0] < a[1] or a[:2] == b[:2]:
        raise Skip
    return {"plain": line, "written": apply(line, [a, b])}


def value(text):
    result = impl.refs("[1] " + text)
    for ref in result:
        ref.pop("raw_ref", None)
    return re.sub(r"(\\u[23]00[0-9a-f]|\\u00a0|\\t|\s)+", " ", json.dumps(result, sort_keys=True))


PLAIN = {}


def run(case):
    plain = case["plain"]
    if plain not in PLAIN:
        PLAIN[plain] = value(plain)
    got = value(case["written"])
    if got != PLAIN[plain]:
        raise Violation("%r gives %s instead of %s" % (case["written"], got, PLAIN[plain]))
    return PLAIN[plain][:40]


def spaces(tier):
    yield Space("single", singles, run, rule="one variant at one place", setup=impl.warm_small)
    yield Space("everywhere", everywhere, run, rule="one variant at all places")
    if tier == "thorough":
        yield Space("pairs", pairs, run, rule="two variants")
