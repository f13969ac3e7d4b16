"""Journal titles of the shipped knowledge base."""

import itertools
import os
import re

from mc import impl
from mc.core import ListSpace, Violation

PROPERTY = "C19"
TITLE = "Every known journal title, in any spelling, gives its standard title"
STATEMENT = (
    "Every title of the shipped journal knowledge base (and every standard title itself), written in capitals, in small letters or with initial capitals, with or without punctuation between its words, "
    "and followed by a numeration, gives exactly one journal reference with the standard title; no part of it goes to the authors, misc or another title. "
    "Of several titles that fit at a place the longest wins; a title that continues a word is not a title; two journal references in one line keep their titles in order. "
    "A journal knowledge base given by the caller behaves in the same way."
)
QUANT = (["inputs", "configurations"], "every title of the knowledge base, its spellings and pairs of titles within the bounds")
WHY = "Tests use a few dozen of the 7648 titles; titles that contain each other, publishers, authors or report numbers interfere."
ANCHORS = {
    "files": ["refextract/references/kbs.py", "refextract/references/tag.py", "refextract/references/kbs/journal-titles.kb"],
    "mechanism": [
        {"name": "search patterns, longest first; standard titles are looked for too", "where": "kbs.build_journals_kb"},
        {"name": "search in the simplified line and tagging in the original one", "where": "tag.identify_journals, add_tagged_journal, account_for_stripped_whitespace"},
        {"name": "titles that are regular expressions", "where": "kbs.build_journals_re_kb, tag.identifiy_journals_re"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of the knowledge base on the real extractor against the table itself"
NOTE = "mc/data holds the table as shipped; every entry was executed."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all 7647 titles in 2 spellings; all standard titles; every 25th title in 10 contexts; all ordered pairs of 39 titles; caller's tables of every 30th title",
    "thorough": "all titles in 6 spellings and 10 contexts; pairs of 250 titles; all caller's tables",
}
ASSUMPTIONS = ["other knowledge bases small", "'REV MEX F\u00b4IS', whose accent is repaired before the search, is left out"]

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DATA = os.path.join(HERE, "data", "journal-titles.kb")


def kbs():
    changed = dict(impl.SMALL)
    del changed["journals"]
    return changed


KBS = kbs()
# without the other ways to recognise a line, for tables given by the caller
TABLE = []


def titles():
    if not TABLE:
        for line in open(DATA, encoding="utf-8"):
            if line.startswith("#") or "---" not in line:
                continue
            seek, repl = line.rstrip("\n").split("---")
            if "\u00b4" not in seek:
                TABLE.append((seek.strip(), repl.strip()))
    return TABLE


def simple(text):
    return re.sub(r"\s+", " ", re.sub(r"[.,;'()\-]", " ", text.upper())).strip()


def warm():
    impl.refs("[1] A. Author, Phys. Rev. D 10 (1990) 20", kbs=KBS)
    titles()


def dotted(title):
    """Phys. Rev. D"""
    return " ".join(w.capitalize() + "." if len(w) > 1 else w for w in title.split(" "))


SPELLINGS = [
    lambda t: t,
    lambda t: t.title(),
    lambda t: t.lower(),
    dotted,
    lambda t: t.replace(" ", ". "),
    lambda t: t.replace(" ", "  "),
]
CONTEXTS = [
    ("A. Smith, ", " 10 (1990) 20"),
    ("", " 10 (1990) 20"),
    ("A. Smith, ", ", 10, 20 (1990)"),
    ("A. Smith, ", " 10, 20-25, 1990"),
    ("A. Smith, quokka, ", " 10 (1990) 20, zebra"),
    ("A. Smith, quokka ", " 10 (1990) 20 [hep-th/9912345]"),
    ("CERN-PH-EP-2012-123, ", " 10 (1990) 20; CERN-TH-98-123"),
    ("quokka; ", " 10 (1990) 20"),
    ("(", " 10 (1990) 20)"),
    ('A. Smith, "quokka," ', " 10 (1990) 20."),
]


def one(step, spellings, contexts):
    def generate():
        seen = set()
        for number, (seek, repl) in enumerate(titles()):
            if number % step:
                continue
            for spelling in spellings:
                for left, right in contexts:
                    line = "[1] " + left + spelling(seek) + right
                    if line not in seen:
                        seen.add(line)
                        yield {"line": line, "want": [repl]}

    return generate


def standard():
    table = {simple(seek): repl for seek, repl in titles()}
    for repl in dict.fromkeys(repl for _, repl in titles()):
        yield {"line": "[1] A. Smith, " + repl + " 10 (1990) 20", "want": [table.get(simple(repl), repl)]}


def pairs(step):
    def generate():
        chosen = titles()[::step]
        for a in chosen:
            for b in chosen:
                yield {"line": "[1] A. Smith, %s 10 (1990) 20; %s 11 (1991) 21" % (a[0], b[0]), "want": [a[1], b[1]]}
                yield {"line": "[1] A. Smith, %s 10 (1990) 20, %s 11 (1991) 21" % (a[0], b[0]), "want": [a[1], b[1]]}

    return generate


def none(step):
    def generate():
        table = {simple(s): r for s, r in titles()}
        for standard in [r for _, r in titles()]:
            table.setdefault(simple(standard), standard)
        for seek, repl in titles()[::step]:
            yield {"line": "[1] A. Smith, x" + seek.title() + "x 10 (1990) 20", "want": None, "title": repl}
            words = simple(seek).split(" ")
            # unless the rest is a spelling of the same title
            if not any(table.get(" ".join(words[i:])) == repl for i in range(1, len(words))):
                yield {"line": "[1] A. Smith, quokka" + seek.title() + " 10 (1990) 20", "want": None, "title": repl}
            if not any(table.get(" ".join(words[i:j])) == repl for i in range(len(words)) for j in range(i + 1, len(words))):
                yield {"line": "[1] A. Smith, " + seek.title() + "quokka 10 (1990) 20", "want": None, "title": repl}

    return generate


EXPRESSIONS = [r"DAN---Dokl.Akad.Nauk Ser.Fiz.", r"Quok(?:ka)?\s?J\.?---Quokka J.", r"\bWombat Acta\b---Wombat Acta;B"]
SPACED = ["", "A. B. Smith, ", "A. B. Smith - (ocelot) -- ocelot, ", "[ocelot]; ocelot. - ", "CERN-PH-EP-2012-123, ", "Phys. Rev. D 10 (1990) 20; "]


def expressions():
    """Titles given as regular expressions"""
    titles = [("DAN", "Dokl.Akad.Nauk Ser.Fiz.", ""), ("Quokka J.", "Quokka J.", ""), ("Quok J", "Quokka J.", ""), ("QuokkaJ", "Quokka J.", ""), ("Wombat Acta", "Wombat Acta", "B")]
    for left, after, count in itertools.product(SPACED, [" ", ", ", ". ", ": ", " - ", ".- "], (1, 2, 3)):
        for chosen in itertools.product(titles, repeat=count):
            if count == 3 and (len(set(chosen)) == 2 or left == SPACED[2]):
                continue
            text = "; ".join("%s%s1%d (199%d) 2%d" % (title[0], after, number, number, number) for number, title in enumerate(chosen))
            want = ["%s %s1%d (199%d) 2%d" % (title[1], title[2], number, number, number) for number, title in enumerate(chosen)]
            if "Phys" in left:
                want.insert(0, "Phys.Rev. D10 (1990) 20")
            yield {"line": "[1] " + left + text + ", zebra", "want": want}


def run_expressions(case):
    result = impl.refs(case["line"], kbs=dict(impl.SMALL, journals_re=EXPRESSIONS))
    got = [v for ref in result for v in ref.get("journal_reference", [])]
    if got != case["want"]:
        raise Violation("%r instead of %r: %r" % (got, case["want"], result))
    rest = re.findall(r"\w+", " ".join(v for r in result for v in r.get("misc", [])))
    if sorted(rest) != sorted(re.findall("ocelot|zebra", case["line"])):
        raise Violation("%r left in misc: %r" % (rest, result))


def check(case, result):
    got = [
        [r["journal_title"][0], r.get("journal_volume", [""])[0], r.get("journal_year", [""])[0], r.get("journal_page", [""])[0].split("-")[0]]
        for r in result
        if "journal_title" in r
    ]
    if case["want"] is None:
        if any(t[0] == case["title"] for t in got):
            raise Violation("%r is not this journal: %r" % (case["line"], result))
        return
    want = [[title, "1%d" % n, "199%d" % n, "2%d" % n] for n, title in enumerate(case["want"])]
    if got != want:
        raise Violation("%r instead of %r: %r" % (got, want, result))
    authors = [v for r in result for v in r.get("author", [])]
    if authors != (["A. Smith"] if "A. Smith" in case["line"] else []) and len(result) == 1:
        raise Violation("authors %r: %r" % (authors, result))
    rest = re.findall(r"\w+", " ".join(v for r in result for v in r.get("misc", [])))
    if [w for w in rest if w not in ("quokka", "zebra")]:
        raise Violation("left in misc: %r" % (result,))


def run(case):
    result = impl.refs(case["line"], kbs=KBS)
    check(case, result)
    return impl.canon([sorted(r) for r in result])


def own(step):
    """The same with tables of one title given by the caller, with punctuation"""

    def generate():
        for number, (seek, repl) in enumerate(titles()):
            if number % step == 0:
                for form in (seek, seek.lower(), dotted(seek), seek.replace(" ", "-")):
                    yield {"line": "[1] A. Smith, " + seek.title() + " 10 (1990) 20", "want": [repl], "table": [[form, repl]]}

    return generate


def run_own(case):
    kbs = dict(impl.SMALL, journals=[tuple(e) for e in case["table"]])
    result = impl.refs(case["line"], kbs=kbs)
    check(case, result)
    return impl.canon([sorted(r) for r in result])


def spaces(tier):
    deep = tier == "thorough"
    yield ListSpace("titles", one(1, SPELLINGS if deep else SPELLINGS[:4:3], CONTEXTS[:1]), run, rule="all titles", setup=warm)
    yield ListSpace("standard", standard, run, rule="all standard titles")
    yield ListSpace("contexts", one(1 if deep else 25, [SPELLINGS[0], SPELLINGS[3]] if deep else [SPELLINGS[3]], CONTEXTS), run, rule="titles in all contexts")
    yield ListSpace("spellings", one(12, SPELLINGS, CONTEXTS[:1]), run, rule="titles in all spellings")
    yield ListSpace("pairs", pairs(31 if deep else 200), run, rule="pairs of titles")
    yield ListSpace("none", none(1 if deep else 5), run, rule="titles that are part of a word")
    yield ListSpace("expressions", expressions, run_expressions, rule="titles given as regular expressions", setup=impl.warm_small)
    yield ListSpace("own", own(1 if deep else 30), run_own, rule="tables given by the caller")
