"""The year of a reference."""

from mc import impl
from mc.core import Skip, Space, Violation

PROPERTY = "C26"
TITLE = "The year of a reference is its journal's or its book's, else that in its text"
STATEMENT = (
    "The year of a reference to a journal article is the year of its journal reference, whatever other years its text has; "
    "that of a book of the list of books the one of the list; and for any other reference the year (1900 to 2099) written "
    "in its own text, alone, in brackets, with a month or with punctuation around it, which then no longer is in misc. A number "
    "of four digits that is part of an identifier, a DOI, a URL, a report number or a longer number is no year, a "
    "reference with no year written has none, and each of several references of one line has its own. All other words of "
    "the reference stay in misc."
)
QUANT = (["inputs"], "every year, notation, neighbourhood and order of the elements of a line")
WHY = "Tests have years in brackets behind a journal; a wrong year appears only when other numbers or years are near, or when a neighbour of the line has one."
ANCHORS = {
    "files": ["refextract/references/engine.py", "refextract/references/regexs.py"],
    "mechanism": [
        {"name": "year chosen for each split reference", "where": "engine.add_year_elements"},
        {"name": "year pattern and its removal", "where": "regexs.re_year_in_misc_txt, regexs.remove_year"},
        {"name": "books without a quoted title need the year", "where": "engine.look_for_undetected_books"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of year notations and neighbouring elements on the real extractor against a written-year model"
NOTE = "The expected year is the one the generator wrote; all combinations within the bounds are executed."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "each year 1890 to 2110 x 13 notations; 13 notations x 24 neighbours on each side; 24 neighbours alone and in pairs; 2 references per line from 22; ordered pairs of years in 13 x 13 notations; years with a letter",
    "thorough": "triples of neighbours around the year, 3 references per line",
}
ASSUMPTIONS = ["small knowledge bases", "a reference with two years in its text may have either, the other one stays in misc"]

import re

# notations of a year in the text (the year, the text left of it)
NOTATIONS = ["%d", "(%d)", "[%d]", "( %d )", "%d.", "Sept. %d", "(July, %d)", "July %d,", "20 May %d", "(%d).", "in %d", "%d:", "(in %d)"]
J = "journal_reference"
# text, fields that must be there, words left in misc
NEIGHBOURS = [
    ("zebra", {}, "zebra"),
    ("zebra 19905 walrus", {}, "zebra 19905 walrus"),
    ("zebra 0199", {}, "zebra 0199"),
    ("zebra 120060", {}, "zebra 120060"),
    ("zebra 1899", {}, "zebra 1899"),
    ("zebra 2100", {}, "zebra 2100"),
    ("zebra 199", {}, "zebra 199"),
    ("arXiv:2001.01234", {"reportnumber": "arXiv:2001.01234"}, ""),
    ("hep-th/0102005", {"reportnumber": "hep-th/0102005"}, ""),
    ("CERN-PH-EP-2010-123", {"reportnumber": "CERN-PH-EP-2010-123"}, ""),
    ("CERN-LHCC-2006-001", {"reportnumber": "CERN-LHCC-2006-001"}, ""),
    ("10.1016/j.abc.2005.01.002", {"doi": "doi:10.1016/j.abc.2005.01.002"}, ""),
    ("doi:10.1088/1126-6708/2009/07/057", {"doi": "doi:10.1088/1126-6708/2009/07/057"}, ""),
    ("http://a.org/2004/x", {"url": "http://a.org/2004/x"}, ""),
    ("hdl:2027/1957", {"hdl": "hdl:2027/1957"}, ""),
    ('"Title of 1955"', {"title": "Title of 1955"}, ""),
    ("ISBN 978-0-19-921027-2", {"isbn": "978-0-19-921027-2"}, ""),
    ("World Scientific", {"publisher": "World Scientific"}, ""),
    ("CMS Collaboration", {"collaboration": "CMS Collaboration"}, ""),
    ("Phys. Rev. D 10, 20", {J: "Phys.Rev. D10 (%s) 20"}, ""),
]
# references with a year of their own (text, year)
OWN = [
    ("Phys. Rev. D 10 (1955) 20", "1955", {J: "Phys.Rev. D10 (1955) 20"}),
    ("Nucl. Phys. B 123, 456 (1985)", "1985", {J: "Nucl.Phys. B123 (1985) 456"}),
    ("JHEP 03 (2003) 012", "2003", {J: "JHEP 0303 (2003) 012"}),
    ('"Introduction to elementary particles"', "2008", {"title": "Introduction to elementary particles"}),
    ('"Classical Electrodynamics"', "1998", {"title": "Classical Electrodynamics"}),
    ('"Introduction to Quantum Field Theory"', "1995", {"title": "Introduction to Quantum Field Theory"}),
]


def words(text):
    return re.findall(r"\w+", text)


def check(ref, year, fields, left):
    optional = []
    got = ref.get("year", [])
    if got != ([year] if year else []):
        raise Violation("year %r instead of %r: %r" % (got, year, ref))
    for k, v in fields.items():
        if k == J and "%s" in v:
            # the year beside it may be taken for that of the journal
            if ref.get(k) == [v % (year or "")]:
                optional = ["July", "Sept"] if year else []
                continue
            v = v % ""
        if ref.get(k) != [v]:
            raise Violation("%s %r instead of %r: %r" % (k, ref.get(k), v, ref))
    if any(re.search(r"\(\s*\)|\[\s*\]", misc) for misc in ref.get("misc", [])):
        raise Violation("the brackets of the year are left: %r" % ref)
    found = words(" ".join(ref.get("misc", [])))
    if found != left and found != [w for w in left if w not in optional]:
        raise Violation("misc words %r instead of %r: %r" % (found, left, ref))


def run(case):
    result = impl.refs(case["line"])
    if len(result) != len(case["expected"]):
        raise Violation("%d references instead of %d: %r" % (len(result), len(case["expected"]), result))
    for ref, (year, fields, left) in zip(result, case["expected"]):
        check(ref, year, fields, left)
    return "ok"


def numbers(ch):
    number = ch.pick("year", range(1890, 2111))
    notation = ch.pick("notation", NOTATIONS)
    before, after = ch.pick("around", [("", ""), ("zebra ", " walrus"), ("zebra, ", ", walrus")])
    line = "[1] " + before + notation % number + after
    is_year = 1900 <= number < 2100
    left = words(line[4:])
    if is_year:
        left.remove(str(number))
    return {"line": line, "expected": [(str(number) if is_year else "", {}, left)]}


def joined(parts, written):
    """line and expectation for one reference made of parts"""
    fields, left, texts = {}, [], []
    for part in parts:
        if isinstance(part, str):
            texts.append(part)
            left += [w for w in words(part) if w != written]
        else:
            texts.append(part[0])
            for k, v in part[1].items():
                if k in fields:
                    raise Skip
                fields[k] = v
            left += words(part[2])
    return texts, (written, fields, left)


def beside(sides):
    def scenario(ch):
        year = "1990"
        notation = ch.pick("notation", NOTATIONS) % 1990
        parts = [notation]
        for i in range(sides):
            n = ch.pick("neighbour%d" % i, NEIGHBOURS)
            parts.insert(ch.pick("place%d" % i, [0, len(parts)]), n)
        texts, expected = joined(parts, year)
        return {"line": "[1] " + ch.pick("sep", [", "]).join(texts), "expected": [expected]}

    return scenario


def own(ch):
    """the year of the journal or book, whatever else is there"""
    text, year, fields = ch.pick("own", OWN)
    parts = [(text, fields, "")]
    for i in range(2):
        n = ch.pick("neighbour%d" % i, [None] + NEIGHBOURS[:-1] + [(y % 1990, {}, y % 1990) for y in NOTATIONS])
        if n is not None:
            parts.insert(ch.pick("place%d" % i, [0, len(parts)]), n)
    texts, (_, fields, left) = joined(parts, "")
    return {"line": "[1] " + ", ".join(texts), "expected": [(year, fields, left)]}


def both(ch):
    """an article with the title of a book: the year of the article"""
    journal = ch.pick("journal", [o for o in OWN if J in o[2]])
    book = ch.pick("book", [o for o in OWN if J not in o[2]])
    pair = [journal, book] if ch.pick("first", ["journal", "book"]) == "journal" else [book, journal]
    parts = [(text, fields, "") for text, _, fields in pair]
    n = ch.pick("neighbour", [None] + NEIGHBOURS[:-1] + [(y % 1990, {}, y % 1990) for y in NOTATIONS])
    if n is not None:
        parts.insert(ch.pick("place", [0, 1, 2]), n)
    texts, (_, fields, left) = joined(parts, "")
    return {"line": "[1] " + ", ".join(texts), "expected": [(journal[1], fields, left)]}


# whole references of a line: text, year, fields, words
REFERENCES = (
    [("A. Smith, " + n[0], "", dict(n[1], author="A. Smith"), words(n[2])) for n in NEIGHBOURS if "collaboration" not in n[1]]
    + [("B. Jones, ocelot " + y % 1990, "1990", {"author": "B. Jones"}, ["ocelot"] + [w for w in words(y) if w != "d"]) for y in NOTATIONS]
    + [("C. Brown, " + o[0], o[1], dict(o[2], author="C. Brown"), []) for o in OWN]
)


def several(size, choices):
    def scenario(ch):
        picked = [ch.pick("ref%d" % i, choices) for i in range(size)]
        return {
            "line": "[1] " + ch.pick("sep", ["; ", " ; ", ";\n"]).join(p[0] for p in picked),
            "expected": [p[1:] for p in picked],
        }

    return scenario


def two(ch):
    """two years, one of them is reported and the other stays"""
    first = ch.pick("first", NOTATIONS) % ch.pick("year1", [1990, 2003])
    between = ch.pick("between", [" ", ", ", " zebra ", ", arXiv:1203.1234, ", ' "On a title," '])
    second = ch.pick("second", NOTATIONS) % ch.pick("year2", [1955, 2015])
    return {"line": "[1] ocelot, " + first + between + second + " walrus", "left": words("ocelot " + first + (between if "zebra" in between else " ") + second + " walrus")}


def run_two(case):
    result = impl.refs(case["line"])
    years = [w for w in case["left"] if w.isdigit() and len(w) == 4]
    year = result[0].get("year")
    if len(result) != 1 or not year or year[0] not in years:
        raise Violation("year %r of %r: %r" % (year, years, result))
    wanted = [w for w in case["left"] if w != year[0]]
    found = words(" ".join(result[0].get("misc", [])))
    if found != wanted:
        raise Violation("misc words %r instead of %r: %r" % (found, wanted, result))
    return "first" if year[0] == years[0] else "second"


def lettered(ch):
    """1990a, 1990b of author-year styles"""
    letter = ch.pick("letter", "abcde")
    number = ch.pick("year", [1900, 1955, 1990, 1999, 2000, 2012, 2024, 2099])
    form = ch.pick("form", ["%d%s", "(%d%s)", "[%d%s]", "%d%s,", "in %d%s", "(%d%s)."])
    before, after = ch.pick("around", [("", ""), ("zebra ", " walrus"), ("zebra, ", ", walrus"), ("A. Smith, zebra, ", ", arXiv:1203.1234")])
    return {"line": "[1] " + before + form % (number, letter) + after, "year": str(number)}


def run_lettered(case):
    result = impl.refs(case["line"])
    if [r.get("year") for r in result] != [[case["year"]]]:
        raise Violation("year not %s: %r" % (case["year"], result))
    return "ok"


def none(size):
    def scenario(ch):
        parts = [ch.pick("n%d" % i, NEIGHBOURS) for i in range(size)]
        texts, expected = joined(parts, "")
        return {"line": "[1] " + ", ".join(texts), "expected": [expected]}

    return scenario


def spaces(tier):
    yield Space("numbers", numbers, run, rule="every year in every notation", setup=impl.warm_small)
    yield Space("beside", beside(1), run, rule="a year beside every other element")
    yield Space("none1", none(1), run, rule="no year")
    yield Space("none2", none(2), run, rule="no year, two elements")
    yield Space("own", own, run, rule="year of a journal or a book and other years")
    yield Space("both", both, run, rule="a journal reference and a book")
    yield Space("several2", several(2, REFERENCES), run, rule="two references in one line")
    yield Space("two", two, run_two, rule="two years in the text")
    yield Space("lettered", lettered, run_lettered, rule="years with a letter")
    if tier == "thorough":
        yield Space("beside2", beside(2), run, rule="two elements beside a year")
        yield Space("none3", none(3), run, rule="no year, three elements")
        yield Space("several3", several(3, REFERENCES), run, rule="three references in one line")
