"""Institutional report numbers of the shipped knowledge base."""

import itertools
import os
import re

from mc import impl
from mc.core import ListSpace, Violation

PROPERTY = "C18"
TITLE = "Every known institute's report numbers are recognised and standardised"
STATEMENT = (
    "For every category and numbering scheme of the shipped report number knowledge base, a report number of that scheme, written with hyphens, blanks or slashes, in upper or lower case, "
    "bare or in brackets, is recognised as one report number: the standard category name followed by the number with hyphens between its parts; nothing of it remains elsewhere. "
    "ATLAS conference notes (ATL-CONF or ATLAS-CONF) get the prefix of their year. The longest category that fits wins (CERN-PH-EP over CERN), several report numbers in one line are all found in order, and a category glued to a preceding word, or without a number, is not a report number."
)
QUANT = (["inputs"], "every category, scheme, number of digits, notation and context within the bounds")
WHY = "Tests use five of the 330 categories; the patterns of the categories compete with each other and with the journal and collaboration recognisers."
ANCHORS = {
    "files": ["refextract/references/kbs.py", "refextract/references/tag.py", "refextract/references/kbs/report-numbers.kb"],
    "mechanism": [
        {"name": "numbering schemes to patterns", "where": "kbs.build_reportnum_kb, institute_num_pattern_to_regex, order_reportnum_patterns_bylen"},
        {"name": "longest category first", "where": "tag.identify_report_numbers"},
        {"name": "rebuilding the line around the tag", "where": "tag.add_tagged_report_number, engine.format_report_number"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of all categories and schemes of the knowledge base on the real extractor against an independent expansion of the schemes"
NOTE = "mc/data holds a copy of the knowledge base as shipped; the expected values are derived from it by a separate small interpreter of the schemes."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "326 categories x their schemes x all digit counts and extensions x 5 notations; 5 years or all months for each category; 12 contexts for one number of each category; pairs of 41 report numbers",
    "thorough": "all notations and contexts for all numbers; triples",
}
ASSUMPTIONS = [
    "other knowledge bases small",
    "categories listed for two institutes are left out",
    "a Fermilab number is not followed by a report number that starts like a Fermilab extension (CMS, CD, ...)",
]

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "report-numbers.kb")


def kbs():
    changed = dict(impl.SMALL)
    del changed["report-numbers"]
    return changed


KBS = kbs()


def warm():
    impl.refs("[1] A. Author, SLAC-PUB-12345", kbs=KBS)


def institutes():
    """[(schemes, [(category, standard)])]"""
    result, schemes, categories = [], [], []
    for line in open(DATA, encoding="utf-8"):
        line = line.strip()
        if line.startswith("*****"):
            result.append((schemes, categories))
            schemes, categories = [], []
        elif line.startswith("<"):
            schemes.append(line[1:-1])
        elif "---" in line:
            seek, repl = line.split("---")
            categories.append((seek.strip(), repl.strip()))
    result.append((schemes, categories))
    return [(s, c) for s, c in result if s and c]


TOKEN = re.compile(r"yyyy|yy|mm|9\?|9|\(\?:[^)]*\)\??|\[[A-Z]+\]|\\b|s|/|a|ENG|[A-Z]|0| ")


def expand(scheme):
    """Samples of a numbering scheme: lists of parts. A part is a string, and
    None stands for a separator"""
    tokens = TOKEN.findall(scheme)
    assert "".join(tokens) == scheme, (scheme, tokens)
    optional = [i for i, t in enumerate(tokens) if t == "9?"]
    extensions = [i for i, t in enumerate(tokens) if t.startswith("(?:")]
    for digits in range(len(optional) + 1):
        keep = set(optional[len(optional) - digits :])
        alternatives = [[]]
        for i in extensions:
            names = re.match(r"\(\?:(.*)\)", tokens[i]).group(1).split("|")
            if any(n.endswith("?") for n in names):
                names = [n.replace("D?", "") for n in names] + [n.replace("?", "") for n in names]
            must = not tokens[i].endswith("?")
            alternatives += [[(i, n.strip())] for n in names]
            if must:
                alternatives = [a for a in alternatives if a]
        for chosen in alternatives:
            chosen = dict(chosen)
            parts, number = [], 0
            for i, token in enumerate(tokens):
                if token == "s":
                    parts.append(None)
                elif token == "yyyy":
                    parts.append("2012")
                elif token == "yy":
                    parts.append("98")
                elif token == "mm":
                    parts.append("05")
                elif token == "9" or (token == "9?" and i in keep):
                    number += 1
                    parts.append(str((number + 3) % 10))
                elif token == "9?" or token == "\\b":
                    pass
                elif token.startswith("(?:"):
                    if i in chosen:
                        parts += [None, chosen[i]]
                elif token.startswith("["):
                    parts.append(token[1])
                elif token == "a":
                    parts.append("Q")
                elif token == " ":
                    parts.append(None)
                elif token == "/":
                    parts.append("/")
                else:
                    parts.append(token)
            yield parts


def write(category, parts, sep, sep2=None):
    """As it is written in a document"""
    sep2 = sep if sep2 is None else sep2
    text = category.replace(" ", sep)
    for number, part in enumerate(parts):
        if part is None:
            if number + 1 < len(parts) and parts[number + 1] == "/" or number and parts[number - 1] == "/":
                continue
            text += sep2
        else:
            text += part
    return text


def standard(name, parts):
    if name.islower():
        # an archive
        return name + "/" + "".join(p for p in parts if p and p != "/")
    text = name + write("", parts, "-")
    # a number glued to a name of capital letters is set off
    return re.sub(r"^([A-Z-]*[A-Z])(\d[\d-]*)$", r"\1-\2", text)


def every():
    """All (category, standard name, parts, institute number)"""
    listed = [category for _, categories in institutes() for category in {c for c, _ in categories}]
    for number, (schemes, categories) in enumerate(institutes()):
        for category, name in categories:
            if listed.count(category) > 1:
                continue
            if name.islower():
                # archives; in capitals they stay as written
                category = category.lower()
            for scheme in schemes:
                for parts in expand(scheme):
                    yield category, name, parts, number


NOTATIONS = [("-", "-"), (" ", " "), ("/", "/"), ("-", "/"), (" ", "-"), ("--", "--"), (" - ", " - "), ("- ", "-")]
CONTEXTS = [
    ("A. Smith, ", ""),
    ("", ""),
    ("A. Smith, quokka wombat, ", ", zebra"),
    ("Phys. Rev. D 10 (1990) 20, ", ""),
    ("Phys. Rev. D 10 (1990) 20 [", "]"),
    ("A. Smith, (", "), zebra"),
    ("quokka [", "]"),
    ("quokka; ", "; zebra"),
    ("quokka, ", " (1999)"),
    ("preprint ", "."),
    ("quokka, ", ", arXiv:1203.1234"),
    ("doi:10.1000/ab, ", ", http://foo.org/bar"),
    ("A. B. Smith, - (quokka) -- wombat. ", ", zebra"),
]


def samples(notations, lower):
    def generate():
        seen = set()
        for category, name, parts, _ in every():
            for sep, sep2 in notations:
                text = write(category, parts, sep, sep2)
                want = standard(name, parts)
                for form in (text, text.lower()) if lower else (text,):
                    if form not in seen:
                        seen.add(form)
                        yield {"line": "[1] A. Smith, " + form, "want": [want]}

    return generate


def dates():
    """the years and months of the numbers"""
    listed = [category for _, categories in institutes() for category in {c for c, _ in categories}]
    for schemes, categories in institutes():
        for category, name in categories:
            if listed.count(category) > 1 or category == "ATLAS CONF":
                continue
            if name.islower():
                category = category.lower()
            for scheme in schemes:
                long, short, month = "yyyy" in scheme, "yy" in scheme and "yyyy" not in scheme, "mm" in scheme
                years = ["1965", "1999", "2000", "2009", "2024"] if long else ["65", "99", "00", "09", "24"] if short else []
                if month:
                    years = ["92", "99", "00", "07"]
                for year, number in itertools.product(years, ["%02d" % m for m in range(1, 13)] if month else ["05"]):
                    if month and year == "07" and int(number) > 3:
                        continue
                    parts = [{"2012": year, "98": year, "05": number}.get(part, part) for part in list(expand(scheme))[-1]]
                    yield {"line": "[1] A. Smith, " + write(category, parts, "-"), "want": [standard(name, parts)]}


def contexts(full):
    def generate():
        seen = set()
        for category, name, parts, institute in every():
            if not full and (category, institute) in seen:
                continue
            seen.add((category, institute))
            for left, right in CONTEXTS:
                yield {"line": "[1] " + left + write(category, parts, "-") + right, "want": [standard(name, parts)]}

    return generate


def run(case):
    result = impl.refs(case["line"], kbs=KBS)
    got = [v for ref in result for v in ref.get("reportnumber", [])]
    want = case["want"] + (["arXiv:1203.1234"] if "arXiv:1203.1234" in case["line"] else [])
    if got != want:
        raise Violation("%r instead of %r: %r" % (got, want, result))
    rest = re.findall(r"\w+", " ".join(v for ref in result for v in ref.get("misc", [])))
    words = [w for w in rest if w not in ("quokka", "wombat", "zebra", "preprint")]
    if words:
        raise Violation("left in misc: %r" % (result,))
    return impl.canon([sorted(r) for r in result])


def some(step):
    """One number of every step-th category"""
    seen = {}
    for category, name, parts, _ in every():
        if category not in seen:
            seen[category] = (write(category, parts, "-"), standard(name, parts))
    return list(seen.values())[::step]


def several(items, count, seps):
    def generate():
        for chosen in itertools.product(items, repeat=count):
            if len(set(chosen)) < count:
                continue
            if any(a[0].startswith("FERMILAB") and re.match("CMS|CD|AE?|E|T|DI|ND", b[0]) for a, b in zip(chosen, chosen[1:])):
                continue
            for sep in seps:
                yield {"line": "[1] quokka, " + sep.join(text for text, _ in chosen) + ", zebra", "want": [want for _, want in chosen]}

    return generate


def none():
    """Not report numbers: glued to a word, or without a number"""
    known = {category.upper() for _, categories in institutes() for category, _ in categories}
    for category, _, parts, _ in every():
        words = category.upper().split(" ")
        if any(" ".join(words[i:]) in known for i in range(1, len(words))):
            # what remains is a category of its own
            continue
        if category == "ATLAS CONF":
            # recognised within words as well
            continue
        text = write(category, parts, "-")
        yield {"line": "[1] A. Smith, x" + text, "want": [], "text": True}
        yield {"line": "[1] A. Smith, 9" + text, "want": [], "text": True}
        yield {"line": "[1] A. Smith, " + category.replace(" ", "-") + ", quokka", "want": [], "text": True}
        yield {"line": "[1] A. Smith, " + category + " quokka", "want": [], "text": True}


def atlas():
    """ATLAS conference notes are called ATL-CONF until 2009, ATLAS-CONF since"""
    for year in ["99"] + [str(y) for y in range(2000, 2060)]:
        name = "ATL" if year == "99" or int(year) < 2010 else "ATLAS"
        for written, number in itertools.product(["ATL", "ATLAS"], ["001", "057", "123", "999"]):
            for left, right in CONTEXTS:
                yield {"line": "[1] %s%s-CONF-%s-%s%s" % (left, written, year, number, right), "want": ["%s-CONF-%s-%s" % (name, year, number)]}


def run_none(case):
    result = impl.refs(case["line"], kbs=KBS)
    got = [v for ref in result for v in ref.get("reportnumber", [])]
    if got:
        raise Violation("%r is not a report number: %r" % (got, result))
    return impl.canon([sorted(r) for r in result])


def spaces(tier):
    deep = tier == "thorough"
    yield ListSpace("schemes", samples(NOTATIONS if deep else NOTATIONS[:3] + NOTATIONS[5:7], True), run, rule="all categories, schemes and digit counts", setup=warm)
    yield ListSpace("dates", dates, run, rule="years and months of all categories")
    yield ListSpace("contexts", contexts(deep), run, rule="all categories in all contexts")
    yield ListSpace("pairs", several(some(1 if deep else 8), 2, [", ", "; ", " ", "/"]), run, rule="pairs of report numbers")
    if deep:
        yield ListSpace("triples", several(some(14), 3, [", ", "; ", " ", "/"]), run, rule="triples of report numbers")
    yield ListSpace("atlas", lambda: atlas(), run, rule="ATLAS conference notes")
    yield ListSpace("none", none, run_none, rule="no report numbers")
