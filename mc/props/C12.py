"""Extraction is total and its results are well formed."""

import itertools

from mc import corpus, impl
from mc.core import ListSpace, Violation

PROPERTY = "C12"
TITLE = "Extraction never fails on text and returns only well-formed references"
STATEMENT = (
    "For every text, extract_references_from_string and extract_journal_reference return without "
    "raising; each reference is a dictionary of the documented fields only, each a non-empty list "
    "of non-empty strings, with raw_ref holding the reference line as it was given. No value but "
    "raw_ref contains internal markup, and journal_title, journal_volume, journal_page and "
    "journal_reference come together, journal_reference being the title, volume, year and page "
    "put into reference_format."
)
QUANT = (["inputs", "configurations"], "every string: any mixture of citation fragments, punctuation, markup and unusual characters")
WHY = "The crashes and leaks found here need combinations of fragments (a URL within quotes, an empty tag, a superscript digit page) no test contains."
ANCHORS = {
    "files": ["refextract/references/engine.py", "refextract/references/record.py", "refextract/references/tag.py", "refextract/references/text.py", "refextract/references/api.py"],
    "mechanism": [
        {"name": "tag every recognised element", "where": "tag.tag_reference_line"},
        {"name": "turn tags into elements, drop unusable ones", "where": "engine.parse_tagged_reference_line"},
        {"name": "build the result", "where": "record.build_reference_fields"},
    ],
    "observe_at": ["refextract.extract_references_from_string", "refextract.extract_journal_reference"],
}
TECHNIQUE = "exhaustive enumeration of token sequences on the real extractor with a well-formedness monitor"
NOTE = "Every sequence of up to 3 fragments within the bounds was run; longer mixtures and other fragments are not covered."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all sequences of 2 of 96 fragments x 4 joins, of 3 of 40 fragments; all texts of up to 5 of 9 characters; 40 lines x 3 reference formats; extract_journal_reference on all pairs",
    "thorough": "all sequences of 3 of 96 fragments x 2 joins, of 4 of 22; characters up to 6",
}
ASSUMPTIONS = ["small knowledge bases except for the space named shipped"]

TOKENS = [
    "Phys. Rev. D 10 (1990) 20", "Phys. Rev.", "JHEP 03 (2003) 012", "JHEP 3 (2003) \u00b2", "JCAP 1 2003",
    "ibid.", "ibid. B 11 (1991) 21", "12 (1992) 22", "PoS LAT2005 (2006) 123", "Nucl. Phys. B (Proc. Suppl.) B12 (1990) 34",
    "[FS3]", "(1990)", "1990", "vol. XII", "no. 3", "A. Author and B. Other", "J. Doe et al.",
    "(eds. A. Editor)", "A. Editor (ed.)", "and C. Third", "with D. Fourth", "ATLAS Collaboration", "CMS Collaboration",
    "arXiv:1203.1234", "arXiv:1203.12345v2 [hep-th]", "hep-th/9912345", "CERN-PH-EP-2012-123", "SLAC-PUB-12345", "SLAC PUB",
    "doi:10.1000/ab", "10.1000/ab;", "doi:", "http://foo.org/bar", "https://x.y/z?q=1&r=2", "http://", "www.foo.org",
    '<a href="http://foo.org/b">text</a>', '<a href="http://foo.org/b">', "</a>", "hdl:2128/1", "http://hdl.handle.net/2128/1",
    "http://arxiv.org/abs/1203.1234", "http://dx.doi.org/10.1000/ab",
    '"A quoted title"', '"', "'", "\u201ctitle\u201d", "``title''", "\u00abtitle\u00bb", '"",', '"Introduction to elementary particles"',
    "Introduction to Quantum Field Theory", "ISBN 978-3-16-148410-0", "ISBN", "Springer", "Cambridge University Press",
    ";", ",", ".", ":", "-", "--", "(", ")", "[", "]", "[1]", "[2]", "{3}", "(4)", "5.", "<6>", "*", "<", ">", "&", "\\",
    "and", "see", "in", "p.", "pp. 12-34", "et al.", "Ph.D.", "\u00df", "\u0130", "\ufb01", "\u200b", "\x0c", "\t", "\x00", "\U0001f600",
    "<cds.JOURNAL>", "</cds.VOL>", "<cds.URL />", "<cds.DOI />", "<cds.AUTHstnd>",
]
THREE = [
    "Phys. Rev. D 10 (1990) 20", "JHEP 3 (2003) \u00b2", "ibid.", "12 (1992) 22", "1990", "vol. XII",
    "A. Author and B. Other", "(eds. A. Editor)", "and C. Third", "ATLAS Collaboration", "arXiv:1203.1234", "hep-th/9912345",
    "CERN-PH-EP-2012-123", "doi:10.1000/ab", "http://foo.org/bar", '<a href="http://foo.org/b">text</a>', "hdl:2128/1",
    '"A quoted title"', '"', "'", "\u201ctitle\u201d", '"Introduction to elementary particles"',
    "Introduction to Quantum Field Theory", "ISBN 978-3-16-148410-0", "Springer", ";", ",", ".", ":", "-", "(", ")", "[", "]",
    "[2]", "and", "et al.", "\u00df", "http://arxiv.org/abs/1203.1234", "PoS LAT2005 (2006) 123",
]
FOUR = THREE[::2] + ['"', ";"]
CHARS = ["1", "A", ".", "[", "]", '"', " ", ";", "\n"]
FIELDS = {
    "author", "collaboration", "doi", "hdl", "isbn", "journal_page", "journal_reference", "journal_title",
    "journal_volume", "journal_year", "linemarker", "misc", "publisher", "raw_ref", "reportnumber", "title",
    "url", "urldesc", "year",
}


def well_formed(result, raws, markup, fmt):
    if not isinstance(result, list):
        raise Violation("not a list: %r" % (result,))
    for ref in result:
        if not isinstance(ref, dict) or set(ref) - FIELDS:
            raise Violation("fields: %r" % (ref,))
        for key, values in ref.items():
            if not isinstance(values, list) or not values:
                raise Violation("%s is not a non-empty list: %r" % (key, ref))
            for value in values:
                if not isinstance(value, str) or (not value and key != "raw_ref"):
                    raise Violation("%s holds something else than a non-empty string: %r" % (key, ref))
                if key != "raw_ref" and not markup and ("<cds." in value or "</cds." in value):
                    raise Violation("internal markup in %s: %r" % (key, ref))
        if "raw_ref" not in ref or len(ref["raw_ref"]) != 1:
            raise Violation("raw_ref: %r" % (ref,))
        if raws is not None and ref["raw_ref"][0] not in raws:
            raise Violation("raw_ref %r is not the line" % (ref["raw_ref"],))
        if markup:  # the text itself contains markup: its content is free
            continue
        count = len(ref.get("journal_title", []))
        for key in ("journal_volume", "journal_reference"):
            if len(ref.get(key, [])) != count:
                raise Violation("journal fields do not come together: %r" % (ref,))
        pages, years = ref.get("journal_page", []), ref.get("journal_year", [])
        if len(pages) > count or len(years) > count:
            raise Violation("journal fields do not come together: %r" % (ref,))
        if count and len(pages) != count:
            raise Violation("no page: %r" % (ref,))
        if len(pages) == count and len(years) in (0, count):
            for i in range(count):
                expected = fmt.format(
                    title=ref["journal_title"][i], volume=ref["journal_volume"][i],
                    year=years[i] if years else "", page=pages[i],
                )
                if ref["journal_reference"][i] != expected:
                    raise Violation("journal_reference %r instead of %r" % (ref["journal_reference"][i], expected))


DEFAULT = "{title} {volume} ({year}) {page}"


def check(text, raws, fmt=DEFAULT, kbs=impl.SMALL):
    kwargs = {} if fmt == DEFAULT else {"reference_format": fmt}
    result = impl.refs(text, kbs=kbs, **kwargs)
    well_formed(result, raws, "cds." in text, fmt)
    return result


def one_line(case):
    line = case
    result = check(line, [line.strip()])
    return impl.canon([sorted(r) for r in result])


def shipped(case):
    result = check(case, [case.strip()], kbs=None)
    return impl.canon([sorted(r) for r in result])


def chars(case):
    result = check(case, None)
    body = "".join(case.split())
    for ref in result:
        got = "".join(ref["raw_ref"][0].split())
        if got not in body:
            raise Violation("raw_ref %r is not part of the text" % ref["raw_ref"])
    return impl.canon([sorted(r) for r in result])


def formats(case):
    line, fmt = case
    result = check(line, [line.strip()], fmt)
    return impl.canon([r.get("journal_reference") for r in result])


JKEYS = {"type", "misc_txt", "title", "volume", "year", "page", "is_ibid", "extra_ibids"}


def journal(case):
    el = impl.journal(case)
    if el is None:
        return "none"
    if "cds." in case:
        return "markup"
    if el["type"] != "JOURNAL" or not el["title"] or not el["volume"] or not el["page"]:
        raise Violation("incomplete journal: %r" % (el,))
    for key in ("title", "volume", "year", "page"):
        if not isinstance(el[key], str) or ("cds." not in case and "cds." in el[key]):
            raise Violation("%s: %r" % (key, el))
    if impl.journal(case) != el:
        raise Violation("not the same again: %r" % el)
    return "%s|%s|%s|%s" % (el["title"], el["volume"], el["year"], el["page"])


def sequences(tokens, count, joins):
    def generate():
        for seq in itertools.product(tokens, repeat=count):
            for join in joins:
                yield join.join(seq)

    return generate


def texts(limit):
    def generate():
        for size in range(limit + 1):
            for seq in itertools.product(CHARS, repeat=size):
                yield "".join(seq)

    return generate


def spaces(tier):
    deep = tier == "thorough"
    yield ListSpace("single", sequences(TOKENS, 1, [" "]), one_line, rule="each fragment", setup=impl.warm_small)
    yield ListSpace("pairs", sequences(TOKENS, 2, [" ", "", ", ", "; "]), one_line, rule="all ordered pairs of fragments")
    if deep:
        yield ListSpace("triples-all", sequences(TOKENS, 3, [" ", ", "]), one_line, rule="all ordered triples")
        yield ListSpace("quadruples", sequences(FOUR, 4, [" "]), one_line, rule="all ordered quadruples")
    yield ListSpace("triples", sequences(THREE, 3, [" "]), one_line, rule="all ordered triples of fragments")
    yield ListSpace("characters", texts(6 if deep else 5), chars, rule="all texts over 9 characters")
    yield ListSpace("journal", sequences(TOKENS, 2, [" ", ", "]), journal, rule="extract_journal_reference")
    fmts = ["{title},{volume},{page}", "{title}|{volume}|{year}|{page}", "x", "{page}:{title}"]
    yield ListSpace(
        "formats",
        lambda: ((t, f) for t in TOKENS + corpus.LINES for f in fmts),
        formats,
        rule="other reference formats",
    )
    yield ListSpace(
        "shipped",
        sequences(TOKENS if deep else TOKENS[::3], 2, [" "]) if deep else sequences(TOKENS, 1, [" "]),
        shipped,
        rule="with the shipped knowledge bases",
        setup=impl.warm_default,
    )
