"""arXiv identifiers."""

import datetime
import itertools

from mc import impl
from mc.core import ListSpace, Skip, Space, Violation

PROPERTY = "C15"
TITLE = "arXiv identifiers are recognised in all notations and normalised"
STATEMENT = (
    "A new-style arXiv identifier of any month from 0704 on (four digits, five from 1501 on), written bare, after arXiv: or arXiv in any "
    "case, with or without version and [subject class], as http://arxiv.org/abs/..., gives exactly one reportnumber 'arXiv:YYMM.NNNN[N]' followed by ' [class]' if "
    "it has one, without the version. An old-style one, with /, blank, :, |, - or nothing between archive and number, possibly after arXiv:, gives "
    "'archive/YYMMNNN' with misspelled archives corrected, and 'arXiv:YYMMNNN [archive]' gives 'archive/YYMMNNN'. Nothing of the notation is left "
    "in other fields, and several identifiers of a line come out all, in order, each in a reference of its own (URLs can share one). A bare number of a month that does not exist, or one with too few or too many digits, is not reported as identifier."
)
QUANT = (["inputs"], "every month, archive, notation, version, class, context and number of identifiers within the bounds")
WHY = "Tests sample a dozen identifiers; whether one is recognised depends on its year, month, length, archive, notation and neighbours."
ANCHORS = {
    "files": ["refextract/references/regexs.py", "refextract/references/tag.py", "refextract/references/engine.py"],
    "mechanism": [
        {"name": "new-style identifiers", "where": "regexs.re_arxiv*, re_new_arxiv*, tag.tag_arxiv"},
        {"name": "old-style identifiers", "where": "regexs.old_arxiv, RE_ARXIV_CATCHUP, tag.tag_arxiv_more"},
        {"name": "URLs", "where": "engine.arxiv_urls_to_report_numbers"},
        {"name": "one reference per identifier", "where": "engine.split_citations_iter"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of identifiers, notations and contexts on the real extractor against the written identifier"
NOTE = "All combinations of the listed months, archives, notations and contexts were run."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all months 0704 to December of the current year x 4 notations x 2 numbers; 8 identifiers x 12 notations x 7 endings x 10 left x 9 right contexts; all 42 archives x 18 subject classes and all unambiguous misspellings x 6 separators x all boundary months; pairs and triples; 1000 numbers that are no identifiers",
    "thorough": "all months x all notations x 4 numbers x 3 contexts; all archives x separators x all months; pairs with all notations",
}
ASSUMPTIONS = ["small knowledge bases", "identifiers of months up to December of the current year"]

MONTHS = ["%02d%02d" % (y, m) for y in range(7, max(26, datetime.date.today().year - 1999)) for m in range(1, 13) if (y, m) >= (7, 4)]
OLD_MONTHS = ["%02d%02d" % (y % 100, m) for y in range(1991, 2008) for m in range(1, 13) if (1991, 7) <= (y, m) <= (2007, 3)]


def number(month, k):
    """the k-th sample number in the format of the month"""
    four = ["1234", "0001", "9999", "0700"]
    five = ["12345", "00001", "99999", "01990"]
    return month + "." + (five if month[0] != "0" and int(month) >= 1501 else four)[k]


BEFORE = ["arXiv:", "", "arXiv: ", "arxiv:", "ARXIV:", "arXiv ", "arXiv-", "[arXiv:", "(arXiv:", "arXiv:  ", "http://arxiv.org/abs/", "eprint arXiv:"]
SUFFIX = ["", " [hep-th]", "v1", "v2 [astro-ph.CO]", "v12", "v10 [hep-ph]", " v3"]
LEFT = ["", "text, ", "A. Smith, ", "Phys. Rev. D 10 (1990) 20, ", "Phys. Lett. B 12 (1991) 34 ", "\"Some title\", ", "A. Smith and B. Jones, quokka, ", "(2012) ", "doi:10.1000/ab, ", "text. "]
RIGHT = ["", ".", ", and more text", ", doi:10.1000/ab", ", Phys. Lett. B 12 (1991) 34", " (2012)", "; B. Jones", " and references therein", ", B. Other"]


def arxiv(ident, suffix):
    out = "arXiv:" + ident
    if "[" in suffix:
        out += " " + suffix[suffix.index("[") :]
    return out


def write(before, ident, suffix):
    text = before + ident + suffix
    if before[:1] == "[":
        text += "]"
    if before[:1] == "(":
        text += ")"
    return text


def contexts(ch):
    ident = ch.pick("id", [number("0704", 0), number("1412", 1), number("1501", 0), number("2001", 3), number("1203", 0), number("2512", 2), "1910.01990", "1007.0700"])
    before = ch.pick("notation", BEFORE)
    suffix = ch.pick("suffix", SUFFIX)
    left = ch.pick("left", LEFT)
    right = ch.pick("right", RIGHT)
    if before.startswith("http") and (suffix or right[:1] in (".", " ")):
        raise Skip
    return {"line": "[1] " + left + write(before, ident, suffix) + right, "ids": [arxiv(ident, suffix)]}


def months(notations, numbers, lefts):
    def generate():
        for month, before, k, left in itertools.product(MONTHS, notations, range(numbers), lefts):
            ident = number(month, k)
            yield {"line": "[1] " + left + write(before, ident, "") + ", quokka", "ids": [arxiv(ident, "")]}

    return generate


ARCHIVES = (
    "acc-ph astro-ph atom-ph chao-dyn chem-ph cond-mat cs gr-qc hep-ex hep-lat hep-ph hep-th math math-ph nlin nucl-ex nucl-th physics "
    "q-alg quant-ph solv-int dg-ga funct-an alg-geom physics.acc-ph physics.ao-ph physics.atm-clus physics.atom-ph physics.bio-ph physics.chem-ph "
    "physics.class-ph physics.comp-ph physics.data-an physics.ed-ph physics.flu-dyn physics.gen-ph physics.geo-ph physics.hist-ph physics.ins-det "
    "physics.med-ph physics.optics physics.plasm-ph physics.pop-ph physics.soc-ph physics.space-ph astro-ph.CO cs.AI cs.DL math.AG math.DG math.QA "
    "nlin.SI nlin.CD q-bio.PE q-fin.ST stat.ML"
).split()
MISSPELLED = {
    "astro-phy": "astro-ph", "hepph": "hep-ph", "hepth": "hep-th", "plasm-ph": "physics.plasm-ph", "quant-phys": "quant-ph", "quantph": "quant-ph",
    "stro-ph": "astro-ph", "hepex": "hep-ex", "math-ag": "math.ag", "math-dg": "math.dg", "nuc-th": "nucl-th", "nlin-si": "nlin.si", "quantum-ph": "quant-ph",
    "ep-ph": "hep-ph", "ep-th": "hep-th", "ep-ex": "hep-ex", "hept-h": "hep-th", "hepp-h": "hep-ph", "hep-lt": "hep-lat", "he-ph": "hep-ph",
    "ucl-th": "nucl-th", "nnucl-th": "nucl-th", "atro-ph": "astro-ph", "astr-ph": "astro-ph", "math-qa": "math.qa", "quan-ph": "quant-ph", "nlin-cd": "nlin.cd",
    "aastro-ph": "astro-ph", "astrop-ph": "astro-ph", "hept-th": "hep-th", "asro-ph": "astro-ph", "hhep-ph": "hep-ph", "hhep-ex": "hep-ex", "nuclth": "nucl-th",
}
SEPARATORS = ["/", " ", ":", "|", "-", ""]


def old_number(month, k):
    return month + ("123", "001", "999")[k]


def old(all_months):
    edges = ["9107", "9112", "9201", "9912", "0001", "0012", "0101", "0610", "0701", "0703"]

    def generate():
        for archive, sep, month in itertools.product(ARCHIVES + list(MISSPELLED), SEPARATORS, OLD_MONTHS if all_months else edges):
            num = old_number(month, int(month) % 3)
            value = MISSPELLED.get(archive, archive) + "/" + num
            yield {"line": "[1] A. Smith, quokka, %s%s%s, wombat" % (archive, sep, num), "ids": [value]}

    return generate


def old_contexts(archives, numbers, versions):
    def scenario(ch):
        return old_context(ch, archives, numbers, versions)

    return scenario


def old_context(ch, archives, numbers, versions):
    archive = ch.pick("archive", archives)
    num = ch.pick("number", numbers)
    before = ch.pick("notation", ["", "arXiv:", "arXiv: ", "[", "(", "e-print "])
    sep = ch.pick("separator", ["/", " ", "-"])
    version = ch.pick("version", versions)
    left = ch.pick("left", LEFT)
    right = ch.pick("right", RIGHT)
    text = before + archive + sep + num + version + {"[": "]", "(": ")"}.get(before, "")
    return {"line": "[1] " + left + text + right, "ids": [MISSPELLED.get(archive, archive) + "/" + num]}


def catchup():
    for archive, month, sep, left, right in itertools.product(["hep-th", "astro-ph", "cond-mat", "math.AG", "quant-ph"], ["9107", "9910", "0001", "0703"], ["arXiv:", "arXiv: ", "arxiv ", "ARXIV:"], LEFT[:4], RIGHT[:5]):
        num = month + "123"
        yield {"line": "[1] %s%s%s [%s]%s" % (left, sep, num, archive, right), "ids": [archive + "/" + num]}


FORMS = [
    ("arXiv:1203.1234", "arXiv:1203.1234"),
    ("arXiv:1501.01234 [hep-th]", "arXiv:1501.01234 [hep-th]"),
    ("hep-th/9711200", "hep-th/9711200"),
    ("1203.4321v2", "arXiv:1203.4321"),
    ("1501.04321", "arXiv:1501.04321"),
    ("arXiv:1203.1234v2 [astro-ph.CO]", "arXiv:1203.1234 [astro-ph.CO]"),
    ("[arXiv:0704.0001]", "arXiv:0704.0001"),
    ("http://arxiv.org/abs/1910.12345", "arXiv:1910.12345"),
    ("http://arxiv.org/abs/hep-lat/9910123", "arXiv:hep-lat/9910123"),
    ("arXiv:astro-ph/0203001", "astro-ph/0203001"),
    ("hepth 9912345", "hep-th/9912345"),
    ("arXiv:9910123 [hep-ph]", "hep-ph/9910123"),
]


def several(count, seps):
    def scenario(ch):
        text, ids = "", []
        for k in range(count):
            form = ch.pick("form%d" % k, FORMS)
            if k:
                sep = ch.pick("sep%d" % k, seps)
                if text.startswith("http") or ", http" in text:
                    if sep[0] == " ":
                        raise Skip
                text += sep
            text += form[0]
            ids.append(form[1])
        return {"line": "[1] A. Author, " + text, "ids": ids, "several": True}

    return scenario


def run(case):
    result = impl.refs(case["line"])
    got = [value for ref in result for value in ref.get("reportnumber", [])]
    if got != case["ids"]:
        raise Violation("%r instead of %r: %r" % (got, case["ids"], result))
    for ref in result:
        # (those written as URL can go with another one of the same paper)
        if len(ref.get("reportnumber", [])) > 1 and "http" not in case["line"]:
            raise Violation("several identifiers in one reference: %r" % result)
        for key, values in ref.items():
            if key not in ("misc", "title", "author", "url", "urldesc", "publisher"):
                continue
            for value in values:
                low = value.lower()
                if "arxiv" in low or any(ident.split(" ")[0].split("/")[-1].split(":")[-1][-4:] in low for ident in case["ids"]):
                    raise Violation("arXiv notation left in %s: %r" % (key, result))
                if key == "misc" and "[" in low:
                    raise Violation("subject class left in %s: %r" % (key, result))
    return impl.canon([sorted(r) for r in result])


def no_identifiers():
    wrong = ["1213", "1200", "0719", "0700", "2599", "1290"]
    new = [m + "." + n for m in wrong for n in ("1234", "12345", "0001")]
    new += [m + "." + n for m in ("1203", "0704", "1501", "2203", "2412") for n in ("1", "12", "123", "123456", "1234567", "12345678")]
    new += [d + m + "." + n for d in ("1", "20", "0") for m in ("1203", "1501") for n in ("1234", "12345")]
    old_ones = [a + s + n for a in ("hep-th", "astro-ph", "math.AG") for s in ("/", " ") for n in ("9713123", "9700123", "0399001", "97121234", "971212", "9711", "971120012")]
    for text, before, right in itertools.product(new, ["", "arXiv:", "arXiv: ", "arXiv "], ["", ", wombat", "v2, wombat", " [hep-th]"]):
        if before and (text[:4] in wrong or text[4:] == ".123" and "[" in right):
            continue  # after arXiv: the month is not looked at; arXiv:0704.123 [hep-th] is an old one
        yield {"text": before + text, "line": "[1] A. Smith, quokka, " + before + text + right}
    for text, before, right in itertools.product(old_ones, ["", "arXiv:", "arXiv: "], ["", ", wombat", "v2, wombat"]):
        yield {"text": before + text, "line": "[1] A. Smith, quokka, " + before + text + right}


def run_none(case):
    result = impl.refs(case["line"])
    if any(ref.get("reportnumber") for ref in result):
        raise Violation("reported as an identifier: %r" % result)
    if not any(case["text"] in value for ref in result for value in ref.get("misc", [])):
        raise Violation("%s is not in misc: %r" % (case["text"], result))
    return "none"


def spaces(tier):
    deep = tier == "thorough"
    yield ListSpace("months", months(BEFORE if deep else BEFORE[:2] + BEFORE[5:8:2], 4 if deep else 2, LEFT[:3] if deep else LEFT[1:2]), run, rule="all months", setup=impl.warm_small)
    yield Space("contexts", contexts, run, rule="notations, versions, classes and contexts")
    yield ListSpace("old", old(deep), run, rule="archives and misspellings x separators x months")
    yield Space(
        "old-contexts",
        old_contexts(["hep-th", "math.AG", "physics.acc-ph", "hepth", "cond-mat", "gr-qc", "astro-ph"][: 7 if deep else 4], ["9711200", "0203001", "0612199"][: 3 if deep else 2], ["", "v12", "v1"][: 3 if deep else 2]),
        run, rule="old identifiers in context")
    yield ListSpace("catchup", lambda: catchup(), run, rule="old number with the archive in brackets")
    yield Space("two", several(2, [", ", "; ", " ", " and ", ", text, "]), run, rule="ordered pairs")
    yield Space("three", several(3, [", ", "; "] if deep else [", "]), run, rule="ordered triples")
    yield ListSpace("none", lambda: no_identifiers(), run_none, rule="numbers that are no identifiers")
