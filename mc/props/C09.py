"""Page breaks, headers and footers do not get into the references."""

import itertools
import os

from mc import impl, pdfs
from mc.core import ListSpace, Violation

pdfs.use_stub()

PROPERTY = "C09"
TITLE = "Page breaks, running headers and footers never get into references"
STATEMENT = (
    "When the reference section of a document extends over several pages, the references are those of the list without page breaks: "
    "none is lost, cut or merged at a page break, also when a reference continues on the next page. Running headers "
    "(in documents of four or more pages, or of five or more where they alternate between left and right pages) and footers (three or more "
    "pages) repeated on every page, with the same words, changing page numbers and blank lines below or above, are left out, while lines of the text at the top or bottom of a page are kept."
)
QUANT = (["inputs"], "every number of pages, header and footer layout and position of the page breaks in the list")
WHY = "One paginated document is tested; deleting a line too many or too few depends on number of pages, header lines and breaks."
ANCHORS = {
    "files": ["refextract/documents/text.py", "refextract/documents/pdf.py", "refextract/references/text.py"],
    "mechanism": [
        {"name": "page breaks split from the line they start", "where": "documents.pdf.convert_PDF_to_plaintext"},
        {"name": "number of header and footer lines", "where": "documents.text.get_number_header_lines, get_number_footer_lines"},
        {"name": "removal", "where": "documents.text.strip_headers_footers_pagebreaks"},
    ],
    "observe_at": ["refextract.extract_references_from_file"],
}
TECHNIQUE = "exhaustive enumeration of paginations on the real extractor against the unpaginated list of references"
NOTE = "All combinations of page count, header, footer and break positions within the bounds; text from a stand-in pdftotext, and plain-text files."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "2-8 pages x 9 headers x 6 footers x 6 distributions of the wrapped lines over the pages, as PDF and as text file (footers from 3 pages on, headers from 4, alternating ones from 5)",
    "thorough": "the same up to 12 pages and 12 distributions",
}
ASSUMPTIONS = [
    "lines at the top and bottom of pages differ from page to page in their number of words or in a quarter or more of the words (else they are headers by definition)",
    "the references start after the first page",
    "small knowledge bases",
]

NAMES = ["zebra", "quokka", "walrus", "ocelot", "badger", "lemur", "marmot", "ferret"]
# (lines of odd pages, lines of even pages); %d is the page number
HEADERS = {
    "none": ([], []),
    "number": (["%d"], ["%d"]),
    "title": (["A Study of Things"], ["A Study of Things"]),
    "title-number": (["A Study of Things %d"], ["A Study of Things %d"]),
    "alternate": (["A Study of Things %d"], ["%d Author et al"]),
    "two": (["Journal of Nothing", "vol. 5, page %d"], ["Journal of Nothing", "vol. 5, page %d"]),
    "blank": (["A Study of Things", " "], ["A Study of Things", " "]),
    "three": (["Journal", "%d", " "], ["Journal", "%d", " "]),
    "dash": (["- %d -"], ["- %d -"]),
}
FOOTERS = {
    "none": [],
    "number": ["%d"],
    "page": ["page %d of 99"],
    "two": ["%d", "Preprint submitted to Nowhere"],
    "blank": [" ", "%d"],
    "text": ["Copyright by the author"],
}


def lines_and_refs(count):
    """References over lines with all different numbers of words at least in a
    neighbourhood: line k has 3 + k % 11 words."""
    refs, lines = [], []
    for n in range(count):
        ref = []
        for part in range(1 + n % 3):
            k = len(lines)
            words = [NAMES[(n + i) % len(NAMES)] for i in range(3 + k % 11)]
            if part == 0:
                words = ["[%d]" % (n + 1)] + words[1:]
            ref.append(" ".join(words))
            lines.append(ref[-1])
        refs.append(" ".join(ref))
    return lines, refs


def similar_lines(count, different):
    """one-line references of eight words, of which ``different`` differ in
    their first letter in any two of the lines"""
    lines = []
    for n in range(count):
        words = ["[%d]" % (n + 1), "Smith", "in", "Phys", "Rev", "%d" % (10 + n), "wombats", "hop"]
        for k in range(different):
            place = (1, 4, 6, 3)[k]
            words[place] = chr(97 + (n + 3 * k) % 26) + "umba" + chr(110 + (n + 3 * k) // 26)
        lines.append(" ".join(words))
    return lines, list(lines)


def paginate(pages, header, footer, shift, similar=0, bare=False):
    """first page: text; the lines of the list are distributed over the others
    (bare: the list starts on a first page without header and footer)"""
    lines, refs = similar_lines(8 * pages, similar) if similar else lines_and_refs(2 * pages + 4)
    out = [["A paper", "some introduction"]]
    out[0] = HEADERS[header][0] + out[0] + FOOTERS[footer]
    rest = ["References"] + lines
    if bare:
        out = [["A paper", "some introduction"] + rest[: 3 + shift]]
        rest = rest[3 + shift :]
    for page in range(2, pages + 1):
        if page == pages:
            size = len(rest)
        else:
            size = min(len(rest), 4 + (page * (shift + 1) + shift) % (2 + shift % 4))
        body, rest = rest[:size], rest[size:]
        head = HEADERS[header][(page + 1) % 2]
        out.append(head + body + FOOTERS[footer])
    numbered = [[l % n if "%d" in l else l for l in page] for n, page in enumerate(out, 1)]
    return numbered, refs


def run(case):
    from refextract import extract_references_from_file

    pages, refs = paginate(case["pages"], case["header"], case["footer"], case["shift"], case.get("similar", 0), case.get("bare", False))
    with impl.scratch() as directory:
        if case["mode"] == "pdf":
            # pdftotext ends each page with a form feed, without a newline
            text = "".join("\n".join(page) + "\n\f" + ("\f" if n == case.get("empty") else "") for n, page in enumerate(pages, 1))
            path = pdfs.make(directory, text, "")
        else:
            text = "".join("\n".join(page) + "\n" + case.get("break", "\f") + "\n" for page in pages)
            path = impl.write(os.path.join(directory, "doc.txt"), text)
        result = extract_references_from_file(path, override_kbs_files=impl.SMALL)
    raw = [r["raw_ref"][0] for r in result]
    if raw != refs:
        wrong = [(a, b) for a, b in itertools.zip_longest(raw, refs) if a != b]
        raise Violation("%d of %d references differ, the first: %r instead of %r" % (len(wrong), len(refs), wrong[0][0], wrong[0][1]))
    return "%d" % len(refs)


def cases(pages, shifts):
    def generate():
        for n, header, footer, shift, mode in itertools.product(pages, HEADERS, FOOTERS, range(shifts), ("pdf", "text")):
            if n < (5 if header == "alternate" else 4) and header != "none" or n < 3 and footer != "none":
                continue
            yield {"pages": n, "header": header, "footer": footer, "shift": shift, "mode": mode}

    return generate


def bare(pages, shifts):
    def generate():
        for n, header, footer, shift, mode in itertools.product(pages, HEADERS, FOOTERS, range(shifts), ("pdf", "text")):
            yield {"pages": n, "header": header, "footer": footer, "shift": shift, "mode": mode, "bare": True}

    return generate


def forms(pages):
    def generate():
        for n, header, footer, shift in itertools.product(pages, HEADERS, FOOTERS, range(3)):
            for form in (" \f", "\f ", "  \f  ", "\t\f"):
                yield {"pages": n, "header": header, "footer": footer, "shift": shift, "mode": "text", "break": form}
            for empty in range(1, n + 1):
                yield {"pages": n, "header": header, "footer": footer, "shift": shift, "mode": "pdf", "empty": empty}

    return generate


def similar():
    for n, header, footer, shift, mode, different in itertools.product(range(5, 8), ("none", "number", "alternate"), ("none", "number", "text"), range(4), ("pdf", "text"), (2, 3, 4)):
        yield {"pages": n, "header": header, "footer": footer, "shift": shift, "mode": mode, "similar": different}


def spaces(tier):
    deep = tier == "thorough"
    yield ListSpace("similar", similar, run, rule="reference lines with the same number of words, most of which are the same", setup=impl.warm_small)
    yield ListSpace("bare", bare(range(5, 10) if deep else (5, 6), 8 if deep else 4), run, rule="the list starts on a first page without header and footer", setup=impl.warm_small)
    yield ListSpace("forms", forms(range(5, 10) if deep else (5, 6)), run, rule="blanks around the page breaks; an empty page", setup=impl.warm_small)
    yield ListSpace("pages", cases(range(2, 13) if deep else range(2, 9), 12 if deep else 6), run, rule="pages x header x footer x distribution", setup=impl.warm_small)
