"""TeX keys and link URLs of PDF files."""

import itertools
import os

from mc import impl, pdfs
from mc.core import ListSpace, Skip, Space, Violation

PROPERTY = "C27"
TITLE = "TeX keys and links of a PDF go to the references they stand at"
STATEMENT = (
    "The TeX keys of a PDF (its named destinations cite.KEY) are read in the reading order of their positions: pages, in two-column layout columns, and from top to bottom, whatever their names. "
    "A link to a URL belongs to the last key before it in that order, also when the reference continues in the next column or on the next page, and to no reference if it stands before the first one; links within the document and other destinations are ignored. "
    "When there are as many keys as references, each reference gets the key and, besides the URLs of its text, the links at the same place; else the references are those of the text. Files without usable destinations give no keys."
)
QUANT = (["inputs"], "every layout of references and links on the pages of a document")
WHY = "The tests have six PDFs, whose links are nearly all next to their references; breaks between columns and pages appear in a few places."
ANCHORS = {
    "files": ["refextract/references/pdf.py", "refextract/references/api.py", "refextract/references/record.py"],
    "mechanism": [
        {"name": "ordering of destinations and links", "where": "pdf.extract_texkeys_and_urls_from_pdf"},
        {"name": "assignment of links", "where": "pdf._match_urls_with_reference"},
        {"name": "merging with the references", "where": "api.extract_references_from_file"},
    ],
    "observe_at": ["refextract.references.pdf.extract_texkeys_and_urls_from_pdf", "refextract.extract_references_from_file"],
}
TECHNIQUE = "exhaustive enumeration of page layouts (generated PDFs) on the real code against the reading-order model"
NOTE = "Every subset of the slots of the pages is a layout of references; links are put in every slot, one at a time and all together."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "one column: 2 pages x 4 slots and 3 pages x 2; two columns: 1 page x 8 slots, 2 pages x 6; links in each slot and in all; 21 forms of annotations and destinations; 0-4 references x 0-4 keys",
    "thorough": "one column: 3 pages x 3; two columns: 2 pages x 8 and 3 pages x 4",
}
ASSUMPTIONS = [
    "not claimed: links on the pages after the one of the last key; files with annotations without action (a test requires that such a file gives no keys)",
    "two-column layout is recognised by three keys at the same place of the right half, as the code documents",
]

WIDTH = 600


def place(page, column, row, case):
    """x, y of a slot"""
    left, right = (case.get("boxes") or [(0, WIDTH)] * 9)[page]
    x = (50, 320)[column] if case["columns"] == 2 else 50
    return left + x * (right - left) / WIDTH, 700 - 100 * row


def geometry(case):
    """pages for pdfs.build, expected result"""
    pages = [((case.get("boxes") or [WIDTH] * 9)[n], {}, []) for n in range(case["pages"])]
    order = []
    for number, slot in enumerate(case["refs"]):
        page, column, row = slot
        x, y = place(page, column, row, case)
        x += case.get("shift", [0] * 999)[number]
        key = case["keys"][number]
        pages[page][1]["cite." + key] = (x, y)
        order.append((tuple(slot) + (0,), key))
    want = {key: set() for _, key in order}
    for number, (page, column, row, dx) in enumerate(case["urls"]):
        x, y = place(page, column, row, case)
        url = "http://link.org/%d" % number
        left, right = (case.get("boxes") or [(0, WIDTH)] * 9)[page]
        pages[page][2].append((url, x + dx * (right - left) / WIDTH, y - case.get("below", 40), case.get("height", 10)))
        before = [key for position, key in order if position <= (page, column, row, 1)]
        if before:
            want[before[-1]].add(url)
    return pages, [dict({"texkey": key}, **({"urls": want[key]} if want[key] else {})) for _, key in order]


def run(case):
    from refextract.references.pdf import extract_texkeys_and_urls_from_pdf

    pages, want = geometry(case)
    with impl.scratch() as directory:
        path = impl.write(os.path.join(directory, "a.pdf"), pdfs.build(pages))
        got = extract_texkeys_and_urls_from_pdf(path)
    if [g["texkey"] for g in got] != [w["texkey"] for w in want]:
        raise Violation("texkeys %r instead of %r" % (got, want))
    if got != want:
        raise Violation("%r instead of %r" % (got, want))
    return str(len(want))


def one_column(pages, rows):
    slots = [(p, 0, r) for p in range(pages) for r in range(rows)]

    def scenario(ch):
        refs = [s for s in slots if ch.pick("ref%d.%d" % (s[0], s[2]), [False, True])]
        if not refs:
            raise Skip
        last = refs[-1][0]
        keys = ["K%d" % ((7 * i) % 10) for i in range(len(refs))]
        which = ch.pick("url", ["all", "none"] + slots)
        dx = ch.pick("dx", [10, 400])
        if which == "none":
            urls = []
        elif which == "all":
            urls = [s + (dx,) for s in slots if s[0] <= last]
        else:
            if which[0] > last:
                raise Skip
            urls = [which + (dx,)]
        return {"columns": 1, "rows": rows, "pages": pages, "refs": refs, "keys": keys, "urls": urls}

    return scenario


def places(ch):
    """links of other heights and closer to their reference"""
    columns = ch.pick("columns", [1, 2])
    slots = [(p, c, r) for p in range(2) for c in range(columns) for r in range(4)]
    gone = ch.pick("gone", [None] + slots)
    refs = [s for s in slots if s != gone]
    which = ch.pick("url", ["all"] + slots)
    urls = [s + (10,) for s in slots if which in ("all", s)]
    keys = ["K%d" % ((7 * i) % 23) for i in range(len(refs))]
    return {"columns": columns, "rows": 4, "pages": 2, "refs": refs, "keys": keys, "urls": urls, "below": ch.pick("below", [0, 1, 50, 99]), "height": ch.pick("height", [1, 90, 210])}


def long():
    """many references and links"""
    for columns, pages, links in itertools.product([1, 2], [2, 6, 9], [1, 3]):
        refs = [(p, c, r) for p in range(pages) for c in range(columns) for r in range(7)]
        urls = [s + (10 + 20 * k,) for s in refs for k in range(links)]
        keys = ["Author:%dabc" % (1000 + (37 * n) % 997) for n in range(len(refs))]
        yield {"columns": columns, "rows": 7, "pages": pages, "refs": refs, "keys": keys, "urls": urls}


def two_columns(pages, rows):
    slots = [(p, c, r) for p in range(pages) for c in (0, 1) for r in range(rows)]

    def scenario(ch):
        refs = [s for s in slots if ch.pick("ref%d.%d.%d" % s, [False, True])]
        if sum(s[1] for s in refs) < 3:
            raise Skip
        last = refs[-1][0]
        keys = ["K%d" % ((7 * i) % 23) for i in range(len(refs))]
        which = ch.pick("url", ["all"] + slots)
        if which == "all":
            urls = [s + (10,) for s in slots if s[0] <= last]
        else:
            if which[0] > last:
                raise Skip
            urls = [which + (10,)]
        return {"columns": 2, "rows": rows, "pages": pages, "refs": refs, "keys": keys, "urls": urls}

    return scenario


BOXES = [(0, 600), (0, 1000), (0, 300), (200, 800), (-100, 500), (50, 550)]


def boxes(ch):
    """two columns on two pages of different sizes and positions"""
    count = ch.pick("refs", [(2, 3, 2, 2), (1, 2, 0, 3), (3, 3, 0, 0), (0, 0, 2, 3), (1, 3, 3, 0)])
    slots = [(p, c, r) for p in (0, 1) for c in (0, 1) for r in range(3)]
    refs = [s for s in slots if s[2] < count[2 * s[0] + s[1]]]
    picked = [ch.pick("box0", BOXES), ch.pick("box1", BOXES)]
    # three keys at the same place
    places = [picked[p][0] + 320 * (picked[p][1] - picked[p][0]) / WIDTH for p, c, r in refs if c]
    if max(places.count(x) for x in places) < 3:
        raise Skip
    dx = ch.pick("dx", [10, 150, 230])
    last = refs[-1][0]
    keys = ["K%d" % ((7 * i) % 23) for i in range(len(refs))]
    urls = [s + (dx,) for s in slots if s[0] <= last]
    return {"columns": 2, "rows": 3, "pages": 2, "refs": refs, "keys": keys, "urls": urls, "boxes": picked}


def strays(ch):
    """one column with some keys in the right half, less than three at one place"""
    count = ch.pick("refs", [3, 4, 5])
    shift = []
    for i in range(count):
        shift.append(ch.pick("shift%d" % i, [0, 20, 300, 301 + i]))
    if max(shift.count(x) for x in shift if x >= 300) > 2 if any(x >= 300 for x in shift) else False:
        raise Skip
    refs = [(0, 0, r) for r in range(count)]
    keys = ["K%d" % ((7 * i) % 10) for i in range(count)]
    dx = ch.pick("dx", [10, 400])
    urls = [r + (dx,) for r in refs]
    return {"columns": 1, "rows": count, "pages": 1, "refs": refs, "keys": keys, "urls": urls, "shift": shift}


TARGET = "/A<</S/URI/URI(http://a.org)>>"


def add(text, obj):
    return text.replace("endobj\n", "endobj\n" + obj + "endobj\n", 1)


BOTH = [["A", "http://a.org"], ["B", "http://b.org"]]
ONLY_B = [["A"], ["B", "http://b.org"]]
# name, change of the file, expected keys and links
FORMS = [
    ("plain", lambda b: b, BOTH),
    ("internal link", lambda b: b.replace(TARGET, "/A<</S/GoTo/D(cite.A)>>"), ONLY_B),
    ("other file", lambda b: b.replace(TARGET, "/A<</S/GoToR/F(a.pdf)/D(cite.A)>>"), ONLY_B),
    ("indirect action", lambda b: add(b.replace(TARGET, "/A 90 0 R"), "90 0 obj<</S/URI/URI(http://a.org)>>"), BOTH),
    ("indirect annotations", lambda b: add(b.replace("/Annots[11 0 R 12 0 R]", "/Annots 91 0 R"), "91 0 obj[11 0 R 12 0 R]"), BOTH),
    ("indirect URI", lambda b: add(b.replace("/URI(http://a.org)", "/URI 92 0 R"), "92 0 obj(http://a.org)"), BOTH),
    ("indirect rectangle", lambda b: add(b.replace("/Rect[60 680 110 690]", "/Rect 93 0 R"), "93 0 obj[60 680 110 690]"), BOTH),
    ("hexadecimal URI", lambda b: b.replace("/URI(http://a.org)", "/URI<687474703A2F2F612E6F7267>"), BOTH),
    ("hexadecimal destination", lambda b: b.replace("(cite.A)", "<636974652E41>"), BOTH),
    ("two-byte destination", lambda b: b.replace("(cite.B)", "<FEFF0063006900740065002E0042>"), BOTH),
    ("other destinations", lambda b: b.replace("/Names[(cite.A)", "/Names[(aaa)[10 0 R/Fit](bcite.X)[10 0 R/XYZ 50 600 null](cite.A)"), BOTH),
    ("destination in a dictionary", lambda b: b.replace("(cite.A)[10 0 R/XYZ 50 700 null]", "(cite.A)<</D[10 0 R/XYZ 50 700 null]>>"), BOTH),
    ("no crop box", lambda b: b.replace("/CropBox[0 0 600 800]", ""), BOTH),
    ("fractions", lambda b: b.replace("50 700", "50.25 700.5").replace("60 680 110 690", "60.5 680.5 110.5 690.5"), BOTH),
    ("key with colon", lambda b: b.replace("cite.A", "cite.A:2010ab,x y"), [["A:2010ab,x y", "http://a.org"], BOTH[1]]),
    ("key with signs", lambda b: b.replace("cite.A", "cite.0@A_b/c-d+e'f#1"), [["0@A_b/c-d+e'f#1", "http://a.org"], BOTH[1]]),
    ("key that starts with cite.", lambda b: b.replace("cite.A", "cite.cite.A"), [["cite.A", "http://a.org"], BOTH[1]]),
    ("key with dots", lambda b: b.replace("cite.A", "cite.A.b.c"), [["A.b.c", "http://a.org"], BOTH[1]]),
    ("action without address", lambda b: b.replace(TARGET, "/A<</S/URI>>"), ONLY_B),
    ("annotation in place", lambda b: b.replace("/Annots[11 0 R 12 0 R]", "/Annots[<</Type/Annot/Subtype/Link/Rect[60 680 110 690]" + TARGET + ">> 12 0 R]"), BOTH),
    ("rectangle from the upper right", lambda b: b.replace("/Rect[60 680 110 690]", "/Rect[110 690 60 680]"), BOTH),
    ("rectangle from the upper left", lambda b: b.replace("/Rect[60 480 110 490]", "/Rect[60 490 110 480]").replace("/Rect[60 680 110 690]", "/Rect[60 690 110 680]"), BOTH),
    ("beyond the left edge", lambda b: b.replace("/XYZ 50 ", "/XYZ -5 "), BOTH),
    ("horizontal fit", lambda b: b.replace("/XYZ 50 700 null", "/FitH 700"), []),
    ("fit of a rectangle", lambda b: b.replace("/XYZ 50 700 null", "/FitR 50 600 500 700"), BOTH),
    ("other tree order", lambda b: b.replace("(cite.A)[10 0 R/XYZ 50 700 null] (cite.B)[10 0 R/XYZ 50 500 null]", "(cite.A)[10 0 R/XYZ 50 500 null] (cite.B)[10 0 R/XYZ 50 700 null]"), [["B", "http://a.org"], ["A", "http://b.org"]]),
    ("tree of names", lambda b: add(b.replace("/Names[(cite.A)", "/Kids[94 0 R]/X[(cite.A)"), "94 0 obj<</Limits[(cite.A)(cite.B)]/Names[(cite.A)[10 0 R/XYZ 50 700 null](cite.B)[10 0 R/XYZ 50 500 null]]>>"), BOTH),
    ("no coordinates", lambda b: b.replace("/XYZ 50 700 null", "/Fit"), []),
    ("null coordinates", lambda b: b.replace("/XYZ 50 700 null", "/XYZ null null null"), []),
    ("no destinations", lambda b: b.replace("cite.", "page."), []),
    ("broken", lambda b: b[:60], []),
    ("no PDF", lambda b: "nonsense", []),
    ("empty", lambda b: "", []),
]
# annotations without an action beside the links
INACTIVE = [
    ("link with a destination", lambda b: b.replace(TARGET, "/Dest(cite.A)"), ONLY_B),
    ("note", lambda b: b.replace("/Subtype/Link/Rect[60 680 110 690]" + TARGET, "/Subtype/Text/Rect[60 680 110 690]/Contents(http://a.org)"), ONLY_B),
]


def form(forms):
    def scenario(ch):
        return {"form": ch.pick("form", [f[0] for f in forms])}

    return scenario


def run_form(case):
    from refextract.references.pdf import extract_texkeys_and_urls_from_pdf

    _, change, want = [f for f in FORMS + INACTIVE if f[0] == case["form"]][0]
    data = pdfs.build([(WIDTH, {"cite.A": (50, 700), "cite.B": (50, 500)}, [("http://a.org", 60, 690), ("http://b.org", 60, 490)])]).decode()
    with impl.scratch() as directory:
        path = impl.write(os.path.join(directory, "a.pdf"), change(data).encode("latin-1"))
        got = extract_texkeys_and_urls_from_pdf(path)
    if [[g["texkey"]] + sorted(g.get("urls", [])) for g in got] != want:
        raise Violation("%r instead of %r" % (got, want))
    return impl.canon(want)


LINES = [
    ("A. Smith, Phys. Rev. D 1%d (1990) 2%d", 1),
    ("B. Jones, http://text.org/%d%d, quokka", 1),
    ("C. Brown, Phys. Lett. B 1%d (1990) 2%d; JHEP 01 (2003) 5", 2),
    ("D. Green, quokka %d wombat %d, http://link.org/0", 1),
]


def merged(ch):
    count = ch.pick("references", range(1, 5))
    lines = [ch.pick("line%d" % i, range(len(LINES))) for i in range(count)]
    if count == 4 and len(set(lines)) > 2:
        raise Skip
    keys = ch.pick("keys", range(0, 6))
    links = ch.pick("links", [(), (0,), (0, 0), (1, 0), (0, 1, 2), (2,), (0, 0, 0, 0, 0), (1, 0, 1, 0, 1, 1)])
    if len(links) > 3 and count > 2:
        raise Skip
    if any(link >= max(keys, 1) for link in links):
        raise Skip
    return {"lines": lines, "keys": keys, "links": links}


def run_merged(case):
    from refextract import extract_references_from_file

    text = "Quokka\n\nReferences\n"
    parts = []
    for number, kind in enumerate(case["lines"]):
        line = "[%d] " % (number + 1) + LINES[kind][0] % (number, number)
        text += line + "\n"
        parts += [number] * LINES[kind][1]
    names = {"cite.K%d" % ((7 * n) % 10): (50, 750 - 100 * n) for n in range(case["keys"])}
    urls = [("http://link.org/%d" % i, 60, 700 - 100 * at) for i, at in enumerate(case["links"])]
    with impl.scratch() as directory:
        plain = extract_references_from_file(impl.write(os.path.join(directory, "a.txt"), text), override_kbs_files=impl.SMALL)
        path = pdfs.make(directory, text, content=pdfs.build([(WIDTH, names, urls)]))
        got = extract_references_from_file(path, override_kbs_files=impl.SMALL)
    if len(plain) != len(parts):
        raise Violation("%d references of %r" % (len(plain), text))
    want = [dict(ref) for ref in plain]
    if len(want) == case["keys"]:
        for number, ref in enumerate(want):
            ref["texkey"] = ["K%d" % ((7 * number) % 10)]
            own = ref.get("url", [])
            new = ["http://link.org/%d" % i for i, at in enumerate(case["links"]) if at == number]
            if own or new:
                ref["url"] = own + [u for u in new if u not in own]
    if got != want:
        raise Violation("%r instead of %r" % (got, want))
    return "merged" if len(want) == case["keys"] else "separate"


def spaces(tier):
    deep = tier == "thorough"
    pdfs.use_stub()
    yield Space("one column", one_column(2, 4), run, rule="layouts of one column on 2 pages", setup=impl.warm_small)
    yield Space("one column, three pages", one_column(3, 3 if deep else 2), run, rule="layouts of one column on 3 pages")
    yield Space("two columns, one page", two_columns(1, 4), run, rule="layouts of two columns on 1 page")
    yield Space("two columns", two_columns(2, 3), run, rule="layouts of two columns on 2 pages")
    yield Space("boxes", boxes, run, rule="pages of different sizes and positions")
    yield Space("strays", strays, run, rule="one column, indented keys")
    yield Space("places", places, run, rule="links of several heights and distances from their reference")
    yield ListSpace("long", lambda: long(), run, rule="14 to 126 references, up to 378 links")
    yield Space("forms", form(FORMS), run_form, rule="forms of annotations and destinations")
    yield Space("inactive", form(INACTIVE), run_form, rule="annotations without an action")
    yield Space("merged", merged, run_merged, rule="references x keys x links")
    if deep:
        yield Space("two columns, larger", two_columns(2, 4), run, rule="layouts of two columns on 2 pages")
        yield Space("two columns, three pages", two_columns(3, 2), run, rule="layouts of two columns on 3 pages")
