"""Publishers, collaborations, books and ISBNs."""

import itertools
import os
import re

from mc import impl
from mc.core import ListSpace, Violation

PROPERTY = "C22"
TITLE = "Publishers, collaborations, books and ISBNs of the shipped lists are found"
STATEMENT = (
    "Every publisher and collaboration of the shipped knowledge bases is found in a reference line, once, in any letter case and between any other elements and words, as the publisher's standard name and the collaboration as it is written; a name that contains another one is not found a second time. "
    "A quoted title gives the title of the reference; when it is a book of the knowledge base, whatever its letter case, it gives the title as spelled there and its year. The same holds for a title of such a book, without quotes, in a reference that has its year and no other title, journal, DOI or ISBN. "
    "An ISBN gives that ISBN, and authors and other words around these elements stay as they are."
)
QUANT = (["inputs"], "every entry of the shipped lists in every context of the bounds")
WHY = "Tests use two publishers, a few collaborations and two books; whether an entry is found depends on the other entries and on what surrounds it."
ANCHORS = {
    "files": ["refextract/references/tag.py", "refextract/references/kbs.py", "refextract/references/engine.py", "refextract/references/kbs"],
    "mechanism": [
        {"name": "publishers", "where": "tag.identify_publishers, kbs.build_publishers_kb"},
        {"name": "collaborations", "where": "tag.identify_and_tag_collaborations, kbs.build_collaborations_kb"},
        {"name": "books", "where": "engine.look_for_books, look_for_undetected_books, kbs.build_books_kb"},
        {"name": "quoted titles and ISBNs", "where": "tag.tag_quoted_text, tag_isbn"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of knowledge base entries x spellings x contexts on the real extractor against a copy of the lists"
NOTE = "The oracle is a copy of the lists kept with the check; all combinations within the bounds are executed."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "81 publishers x 4 spellings x 8 contexts; 27 collaborations x 6 spellings x 10 contexts, all ordered pairs x 4 contexts, sequences of 3 to 8 of them; about 3100 books x 3 letter cases, and x 6 contexts, about 2150 books without quotes x 2 contexts; ISBNs in 8 x 7 x 5 spellings; all sequences of up to 5 of the elements x 3 separators",
    "thorough": "additionally books x 3 letter cases x 6 contexts and all ordered pairs of publishers (quick: a third)",
}
ASSUMPTIONS = ["small knowledge bases for the kinds of elements not enumerated", "unquoted titles: those without initials and year numbers in them", "books: only the first quoted title of a line is looked up"]

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")


def data(name):
    with open(os.path.join(DATA, name + ".kb"), encoding="utf-8") as fh:
        return [line.rstrip("\n") for line in fh if line.strip() and not line.startswith("#")]


def shipped(name):
    kbs = dict(impl.SMALL)
    del kbs[name]
    return kbs


def publishers():
    return sorted({tuple(line.split("---")) for line in data("publishers")})


def publisher_forms(entry):
    key, name = entry
    return sorted({key, name, key.lower(), key.title(), name.upper(), key.replace(" ", " - "), key.replace(" ", ", ")})


P_CONTEXTS = [
    ("[1] %s", []),
    ("[1] quokka, %s, 1988", ["quokka"]),
    ("[1] quokka (%s, 1988)", ["quokka"]),
    ("[1] quokka %s wombat", ["quokka", "wombat"]),
    ('[1] "Some title", %s, wombat', ["wombat"]),
    ("[1] %s, Phys. Rev. D 10 (1990) 20", []),
    ("[1] Phys. Rev. D 10 (1990) 20, %s", []),
    ("[1] CERN-PH-EP-2012-123, %s; arXiv:1203.1234", []),
    ("[1] Phys. Rev. D 10 (1990) 20, ibid. 11 (1991) 21, quokka, %s; wombat, arXiv:1203.1234", ["quokka", "wombat"]),
    ("[1] ibid. 11 (1991) 21, quokka - (wombat). %s, zebra", ["quokka", "wombat", "zebra"]),
]


def publisher_items():
    for entry in publishers():
        for form in publisher_forms(entry):
            for context, words in P_CONTEXTS:
                yield {"line": context % form, "want": {"publisher": [entry[1]]}, "words": words, "kb": "publishers"}


def publisher_pairs():
    for one, two in itertools.product(publishers(), repeat=2):
        if one[1] != two[1]:
            yield {"line": "[1] %s; quokka, %s" % (one[1], two[0]), "want": {"publisher": [one[1], two[1]]}, "words": ["quokka"], "kb": "publishers"}


C_FORMS = ["%s Collaboration", "%s collaboration", "%s COLLABORATION", "%s Coll.", "the %s Collaboration", "%s Collaborations"]
C_CONTEXTS = [
    ("[1] %s", [], None),
    ("[1] %s, Phys. Rev. D 10 (1990) 20", [], None),
    ("[1] A. Smith et al. (%s), Phys. Rev. D 10 (1990) 20", [], "A. Smith et al."),
    ("[1] A. Smith et al. [%s], Phys. Rev. D 10 (1990) 20", [], "A. Smith et al."),
    ("[1] A. Smith et al., %s, Phys. Rev. D 10 (1990) 20", [], "A. Smith et al."),
    ("[1] %s: A. Smith et al., Phys. Rev. D 10 (1990) 20", [], "A. Smith et al."),
    ("[1] %s, A. Smith et al., Phys. Rev. D 10 (1990) 20", [], "A. Smith et al."),
    ("[1] %s (A. Smith et al.), Phys. Rev. D 10 (1990) 20", [], "A. Smith et al."),
    ("[1] quokka %s wombat", ["quokka", "wombat"], None),
    ("[1] quokka, (%s), wombat, arXiv:1203.1234", ["quokka", "wombat"], None),
]


def collaborations():
    return sorted({line.split("---")[0][: -len(" Collaboration")] for line in data("collaborations")})


def collaboration_items():
    for name in collaborations():
        for form in C_FORMS:
            for context, words, author in C_CONTEXTS:
                text = form % name
                if "COLL" in text and "%s, A." in context:
                    continue  # read as a family name in capital letters
                want = {"collaboration": [text.replace("the ", "").rstrip(".")]}
                if author:
                    want["author"] = [author]
                yield {"line": context % text, "want": want, "words": words, "kb": "collaborations"}


def collaboration_pairs():
    for one, two in itertools.permutations(collaborations(), 2):
        texts = [one + " Collaboration", two + " Collaboration"]
        for line in ["[1] %s, quokka, %s, wombat", "[1] quokka, %s and %s, wombat", "[1] %s, %s, quokka, wombat", "[1] the %s and the %s, quokka wombat"]:
            yield {"line": line % tuple(texts), "want": {"collaboration": texts}, "words": ["quokka", "wombat"], "kb": "collaborations"}


def many_collaborations():
    names = [name + " Collaboration" for name in collaborations()]
    for count in range(3, 9):
        for start in range(len(names)):
            for step in (1, 4, -1):
                texts = [names[(start + step * n) % len(names)] for n in range(count)]
                for sep in (", ", " and ", " quokka "):
                    yield {"line": "[1] " + sep.join(texts) + ", wombat", "want": {"collaboration": texts}, "words": ["wombat"], "kb": "collaborations"}


B_CONTEXTS = ['[1] "%s"', '[1] D. White, "%s"', '[1] D. White, "%s", Springer, 1966', '[1] quokka "%s," wombat', '[1] "%s", ISBN 978-3-16-148410-0', '[1] D. White, "%s", p. 12']


def books():
    table = {}
    for line in data("books"):
        fields = line.split("|")
        table[fields[1].upper()] = fields
    return table


def clean(title):
    """Titles which are the same after the line is cleaned and split"""
    return title == title.strip(" .,;:") and not set(title) & set('"<>`{}\\^~_|') and not any(part in title for part in ("  ", "''", " .", " ,", ", :"))


def book_items(contexts, cases):
    for key, fields in sorted(books().items()):
        if not clean(fields[1]) or len(fields) > 3:
            continue
        for case in cases:
            title = getattr(fields[1], case)() if case else fields[1]
            if title.upper() != key:
                continue
            for context in contexts:
                want = {"title": [fields[1]]}
                if len(fields) > 2:
                    want["year"] = [fields[2].strip(";")]
                elif "1966" in context:
                    want["year"] = ["1966"]
                if "ISBN" in context:
                    want["isbn"] = ["978-3-16-148410-0"]
                if "Springer" in context:
                    want["publisher"] = ["Springer"]
                if "White" in context:
                    want["author"] = ["D. White"]
                yield {"line": context % title, "want": want, "words": [w for w in ("quokka", "wombat") if w in context], "kb": "books"}


U_CONTEXTS = ["[1] %(t)s, %(y)s, wombat", "[1] D. White, %(t)s (%(y)s) wombat", "[1] stra\u00dfe, %(t)s, %(y)s", "[1] %(T)s, %(y)s, wombat", "[1] wombat, %(t)s, 1699"]


def unquoted_items(contexts):
    """Books cited without quotes, with their year"""
    for key, fields in sorted(books().items()):
        title = fields[1]
        if not clean(title) or len(fields) > 3 or not title[0].isalnum():
            continue
        if re.search(r"\b[A-Z]{1,2}\b|\d{4}|Springer", title):
            continue  # can be read as initials or as the year
        year = fields[2].strip(";") if len(fields) > 2 else ""
        if year and not re.match(r"(1[789]|20)\d\d$", year):
            continue
        for context in contexts:
            if "%(T)s" in context and title.lower().upper() != key:
                continue
            want = {}
            if year and "1699" not in context:
                want = {"title": [title], "year": [year]}
            if "White" in context:
                want["author"] = ["D. White"]
            line = context % {"t": title, "T": title.lower(), "y": year or "1966"}
            yield {"line": line, "want": want, "words": ["wombat"] if "wombat" in context else [], "kb": "books", "left": want.get("title") and [w for w in ("stra\u00dfe", "wombat") if w in context]}


# references identified otherwise, and years that are not the one of the book
N_CONTEXTS = [
    "[1] wombat, %(t)s, %(y)s, ISBN 978-3-16-148410-0",
    "[1] D. White, ISBN 978-3-16-148410-0, %(t)s, %(y)s, wombat",
    "[1] wombat, %(t)s, %(y)s, doi:10.1234/abc",
    "[1] doi:10.1234/abc, %(t)s (%(y)s) wombat",
    "[1] Phys. Rev. D 10 (%(y)s) 20, %(t)s, wombat",
    "[1] wombat, %(t)s, Phys. Rev. D 10 (%(y)s) 20",
    "[1] wombat, %(t)s, 1699",
    "[1] wombat, %(t)s, 2077",
    "[1] wombat, %(t)s",
]


def not_books():
    for case in unquoted_items(N_CONTEXTS):
        case.update(want={}, words=["wombat"], left=None, none=["title"])
        if "ISBN" in case["line"]:
            case["want"] = {"isbn": ["978-3-16-148410-0"]}
        yield case


def parts_of_words():
    """the title of a book as part of longer words"""
    def letters(text):
        return re.sub("[^A-Z0-9]", "", text.upper())

    titles = sorted({letters(k) for k in books()} - {""})
    for case in unquoted_items(["[1] wombat, un%(t)s, %(y)s", "[1] wombat, %(t)sing, %(y)s", "[1] wombat, %(t)s\u00e9, %(y)s", "[1] wombat, 7%(t)s, %(y)s"]):
        inside = letters(case["line"])
        if sum(t in inside for t in titles) > 1 or re.search("\\W(ing|\u00e9), ", case["line"]):
            continue
        case.update(want={}, words=["wombat"], left=None, none=["title"])
        yield case


PREFIXES = ["ISBN ", "ISBN: ", "ISBN-13: ", "ISBN-10 ", "ISBN", "ISBN:", "ISBN 13: ", "International Standard Book Number "]
CODES = ["978-3-16-148410-0", "9783161484100", "0-13-805326-X", "013805326X", "0-521-29925-x", "978-0-521-29925-1", "3-540-64491-X"]
I_CONTEXTS = ["[1] %s", "[1] quokka, %s, wombat", '[1] "Some title", Springer, 1988, %s', "[1] quokka (%s)", "[1] %s; Phys. Rev. D 10 (1990) 20"]


def isbn_items():
    for prefix, code, context in itertools.product(PREFIXES, CODES, I_CONTEXTS):
        want = {"isbn": [code]}
        if "Springer" in context:
            want.update(publisher=["Springer"], title=["Some title"], year=["1988"])
        yield {"line": context % (prefix + code), "want": want, "words": [w for w in ("quokka", "wombat") if w in context], "kb": None}


ELEMENTS = [
    ('"Some unknown title"', "title", "Some unknown title"),
    ("Cambridge University Press", "publisher", "Cambridge Univ. Pr."),
    ("ISBN 978-3-16-148410-0", "isbn", "978-3-16-148410-0"),
    ("ATLAS Collaboration", "collaboration", "ATLAS Collaboration"),
    ("quokka", None, None),
    ("Phys. Rev. D 10 (1990) 20", "journal_reference", "Phys.Rev. D10 (1990) 20"),
]


def sequences():
    for count in range(1, 6):
        for chosen in itertools.permutations(ELEMENTS, count):
            for sep in (", ", ". ", " "):
                yield {
                    "line": "[1] A. Smith, " + sep.join(text for text, _, _ in chosen),
                    "want": dict({field: [value] for _, field, value in chosen if field}, author=["A. Smith"]),
                    "words": [text for text, field, _ in chosen if not field],
                    "kb": None,
                }


def run(case):
    result = impl.refs(case["line"], kbs=shipped(case["kb"]) if case["kb"] else impl.SMALL)
    for field in case.get("none", []):
        if any(field in ref for ref in result):
            raise Violation("%s found: %r" % (field, result))
    for field in ("publisher", "collaboration", "isbn", "title", "author", "year"):
        got = [value for ref in result for value in ref.get(field, [])]
        want = case["want"].get(field, [])
        if case.get("any_order"):
            got, want = sorted(got), sorted(want)
        if field in ("title", "year", "author") and not want:
            continue
        if got != want:
            raise Violation("%s %r instead of %r: %r" % (field, got, want, result))
    misc = " ".join(value for ref in result for value in ref.get("misc", []))
    if case.get("left") is not None and misc.replace(",", "").split() != case["left"]:
        raise Violation("%r left instead of %r: %r" % (misc, case["left"], result))
    for word in case["words"]:
        if misc.split().count(word) != 1 and misc.count(word) != 1:
            raise Violation("%r in %r: %r" % (word, misc, result))
    return impl.canon([sorted(r) for r in result])


def spaces(tier):
    deep = tier == "thorough"
    yield ListSpace("publishers", publisher_items, run, rule="every publisher of the shipped list", setup=impl.warm_small)
    yield ListSpace("collaborations", collaboration_items, run, rule="every collaboration of the shipped list", setup=impl.warm_small)
    yield ListSpace("books", lambda: book_items(B_CONTEXTS if deep else B_CONTEXTS[:1], ["", "upper", "lower"]), run, rule="every book of the shipped list", setup=impl.warm_small)
    yield ListSpace("book contexts", lambda: itertools.islice(book_items(B_CONTEXTS, [""]), 0, None, 1), run, rule="books in all contexts", setup=impl.warm_small)
    yield ListSpace("unquoted", lambda: unquoted_items(U_CONTEXTS if deep else U_CONTEXTS[:2]), run, rule="every book of the shipped list, cited without quotes", setup=impl.warm_small)
    if not deep:
        yield ListSpace("unquoted contexts", lambda: itertools.islice(unquoted_items(U_CONTEXTS[2:]), 0, None, 10), run, rule="books cited without quotes", setup=impl.warm_small)
    yield ListSpace("not books", lambda: itertools.islice(not_books(), 0, None, 1 if deep else 20), run, rule="titles of books in references with other identification or year", setup=impl.warm_small)
    yield ListSpace("parts of words", lambda: itertools.islice(parts_of_words(), 0, None, 1 if deep else 20), run, rule="titles of books as parts of words", setup=impl.warm_small)
    yield ListSpace("isbn", isbn_items, run, rule="ISBN spellings", setup=impl.warm_small)
    yield ListSpace("sequences", sequences, run, rule="sequences of elements", setup=impl.warm_small)
    yield ListSpace("collaboration pairs", collaboration_pairs, run, rule="two collaborations", setup=impl.warm_small)
    yield ListSpace("many collaborations", many_collaborations, run, rule="3 to 8 collaborations", setup=impl.warm_small)
    yield ListSpace("publisher pairs", lambda: itertools.islice(publisher_pairs(), 0, None, 1 if deep else 3), run, rule="two publishers", setup=impl.warm_small)
