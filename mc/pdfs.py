"""PDF files for the checks: the text layer is given by a stand-in pdftotext,
or by a real minimal PDF where its structure matters."""

import os

from mc import impl

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "pdfstub.sh")


def use_stub():
    """Must be called before refextract is imported."""
    os.environ["CFG_PATH_PDFTOTEXT"] = STUB


MINIMAL = (
    b"%PDF-1.4\n1 0 obj<</Type/Catalog/Pages 2 0 R>>endobj\n"
    b"2 0 obj<</Type/Pages/Kids[3 0 R]/Count 1>>endobj\n"
    b"3 0 obj<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]>>endobj\n"
    b"trailer<</Root 1 0 R>>\n%%EOF"
)


def make(directory, raw, layout="", content=MINIMAL, name="doc.pdf"):
    path = os.path.join(directory, name)
    impl.write(path, content)
    impl.write(path + "-raw", raw)
    impl.write(path + "-layout", layout)
    return path


def calls(path):
    try:
        with open(path + ".calls") as fh:
            return [line.split(" ")[0] for line in fh.read().splitlines()]
    except OSError:
        return []


def seen(path):
    try:
        with open(path + ".seen", "rb") as fh:
            return fh.read()
    except OSError:
        return None


def build(pages):
    """A real PDF. pages: list of (width or (left, right), {name: (x, y)}, [(url, x, y[, height])])"""
    objects = {}
    kids = []
    dests = []
    number = 10
    for width, names, urls in pages:
        page = number
        number += 1
        annots = []
        for url, x, y, *height in urls:
            objects[number] = (
                "<</Type/Annot/Subtype/Link/Rect[%s %s %s %s]/A<</S/URI/URI(%s)>>>>"
                % (x, y - (height[0] if height else 10), x + 50, y, url)
            )
            annots.append("%d 0 R" % number)
            number += 1
        left, right = (0, width) if isinstance(width, (int, float)) else width
        objects[page] = "<</Type/Page/Parent 2 0 R/MediaBox[%s 0 %s 800]/CropBox[%s 0 %s 800]%s>>" % (
            min(left, 0), right, left, right, "/Annots[%s]" % " ".join(annots) if annots else "")
        kids.append("%d 0 R" % page)
        for name, (x, y) in names.items():
            dests.append((name, "(%s)[%d 0 R/XYZ %s %s null]" % (name, page, x, y)))
    dests = [text for _, text in sorted(dests)]
    objects[1] = "<</Type/Catalog/Pages 2 0 R/Names<</Dests<</Names[%s]>>>>>>" % " ".join(dests)
    objects[2] = "<</Type/Pages/Kids[%s]/Count %d>>" % (" ".join(kids), len(kids))
    out = b"%PDF-1.4\n"
    offsets = {}
    for num in sorted(objects):
        offsets[num] = len(out)
        out += ("%d 0 obj%sendobj\n" % (num, objects[num])).encode()
    xref = len(out)
    out += b"xref\n0 1\n0000000000 65535 f \n"
    for num in sorted(objects):
        out += ("%d 1\n%010d 00000 n \n" % (num, offsets[num])).encode()
    out += ("trailer<</Root 1 0 R/Size %d>>\nstartxref\n%d\n%%%%EOF\n" % (number, xref)).encode()
    return out
