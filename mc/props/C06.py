"""Input files: what is a document, and what of it is read."""

import itertools
import os

from mc import impl, pdfs
from mc.core import ListSpace, Violation

pdfs.use_stub()

PROPERTY = "C06"
TITLE = "Files: documents are read, junk around a PDF is ignored, others are refused"
STATEMENT = (
    "extract_references_from_file converts exactly the bytes from the first %PDF- to the last %%EOF of a PDF with any junk before or after it (all "
    "to the end of the file when there is no %%EOF), whatever its file name, and reads a plain-text file as it is (its lines end at newlines only); junk-free PDFs and text files are left unmodified, and repeating the "
    "extraction gives the same references. A path that is not an existing file raises FullTextNotAvailableError, and a file that is neither text nor "
    "PDF (an empty one included) raises UnknownDocumentTypeError, never another exception."
)
QUANT = (["inputs", "histories"], "every layout of junk, headers and end markers in the file")
WHY = "Tests have two junk layouts; off-by-one or wrong-marker cuts appear only for certain combinations of repeated markers."
ANCHORS = {
    "files": ["refextract/references/engine.py", "refextract/references/api.py", "refextract/documents/pdf.py"],
    "mechanism": [
        {"name": "junk removal", "where": "engine.clean_pdf_file"},
        {"name": "type detection", "where": "engine.get_plaintext_document_body"},
        {"name": "missing file", "where": "api.extract_references_from_file"},
    ],
    "observe_at": ["refextract.extract_references_from_file"],
}
TECHNIQUE = "exhaustive enumeration of byte layouts and repeated extraction on the real code, with a recording stand-in for pdftotext"
NOTE = "Every layout within the bounds; the bytes pdftotext is given are compared with the specified slice."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "13 leading x 9 inner x 13 trailing byte strings, each extracted twice; 5 file names; 7 characters like line separators between all words; 30 non-documents; 8 non-files",
    "thorough": "all sequences of up to 5 of 7 chunks around a PDF header",
}
ASSUMPTIONS = ["file types are those libmagic tells", "text files are UTF-8"]

REFS = "References\n[1] A. Author, Phys. Rev. D 10 (1990) 20\n[2] zebra\n"
EXPECTED = ["[1] A. Author, Phys. Rev. D 10 (1990) 20", "[2] zebra"]
LEAD = [b"", b"\n", b"x", b"junk junk\r\n", b"%%EOF\n", b"%%EOF", b"HTTP/1.1 200 OK\r\n\r\n", b"%PDF", b"%", b"\x00\x00\x00", b"\xef\xbb\xbf", b"GIF89a", b"junk" * 2000]
INNER = [
    b"%PDF-1.4\nbody\n%%EOF", b"%PDF-1.4\nbody\n%%EOF\nmore\n%%EOF", b"%PDF-1.7\n\x80\x81\x82 %PDF-1.4 inner\n%%EOF", b"%PDF-1.4%%EOF",
    b"%PDF-1.4\n" + b"b" * 5000 + b"\n%%EOF", b"%PDF-1.4\nbody %%EO %%EOF", b"%PDF-1.4\n\x00\x00%%EOF", pdfs.MINIMAL, b"%PDF-1.4\n%%EOF%%EOF",
]
NOEND = [b"%PDF-1.4\nbody", b"%PDF-1.4", b"%PDF-1.4\nbody\n%%EO", b"%PDF-1.7\n" + b"x" * 4097]
TRAIL = [b"", b"\n", b"\r\n", b"x", b"<html>junk</html>", b"\x00" * 10, b"%%EO", b"%", b"%PDF", b"\n\n\n", b"EOF", b"junk" * 3000, b"%PDF-1.3 again"]
NAMES = ["doc.pdf", "doc", "doc.txt", "a b\u00e9.PDF", "doc.pdf;1"]


def expected_bytes(data):
    start = data.find(b"%PDF-")
    end = data.rfind(b"%%EOF")
    if end < start:
        return data[start:]
    return data[start : end + 5]


def raws(path):
    from refextract import extract_references_from_file

    return [r["raw_ref"][0] for r in extract_references_from_file(path, override_kbs_files=impl.SMALL)]


def run_pdf(case):
    data = bytes.fromhex(case["data"])
    with impl.scratch() as directory:
        path = pdfs.make(directory, REFS, "", content=data, name=case["name"])
        want = expected_bytes(data)
        for turn in range(2):
            got = raws(path)
            if got != case.get("refs", EXPECTED):
                raise Violation("turn %d: references %r" % (turn, got))
            if pdfs.seen(path) != want:
                raise Violation("turn %d: pdftotext was given %r instead of %r" % (turn, (pdfs.seen(path) or b"")[:200], want[:200]))
        with open(path, "rb") as fh:
            after = fh.read()
        if data == want and after != data:
            raise Violation("the file was modified")
        if pdfs.calls(path) != ["-raw", "-raw"]:
            raise Violation("pdftotext was called %r" % pdfs.calls(path))
    return str(len(want))


def pdf_layouts():
    for lead, inner, trail in itertools.product(LEAD, INNER + NOEND, TRAIL):
        if b"%%EOF" not in inner and trail != b"" and b"%PDF-" in trail:
            continue
        yield {"data": (lead + inner + trail).hex(), "name": "doc.pdf"}
    for name, lead, trail in itertools.product(NAMES[1:], LEAD[:3], TRAIL[:3]):
        yield {"data": (lead + INNER[0] + trail).hex(), "name": name}


def chunks(depth):
    parts = [b"%PDF-1.4\n", b"%%EOF", b"x", b"\n", b"%%EOF\n", b"\x00", b"%PDF-1.7"]

    def generate():
        for count in range(depth + 1):
            for seq in itertools.product(parts, repeat=count):
                yield {"data": (b"%PDF-1.4\n" + b"".join(seq)).hex(), "name": "doc.pdf"}
                if seq and seq[0] != parts[0]:
                    yield {"data": (b"".join(seq[:1]) + b"%PDF-1.4\n" + b"".join(seq[1:])).hex(), "name": "doc.pdf"}

    return generate


def text_files():
    bodies = [REFS, "Some text\n" + REFS, REFS.replace("\n", "\r\n"), "\u00e9t\u00e9 \u2013 text\n" + REFS, REFS.rstrip("\n"), "\n\n" + REFS, "text about %%EOF markers\n" + REFS]
    for body, name in itertools.product(bodies, NAMES):
        yield {"body": body, "name": name}
    # characters that other programs take for the end of a line
    for char in ("\x0b", "\x85", "\u2028", "\u2029", "\xa0", "\u3000", "\u200b"):
        for idx, ref in enumerate(EXPECTED):
            for cut in [k for k, c in enumerate(ref) if c == " "][1:]:
                refs = list(EXPECTED)
                refs[idx] = ref[:cut] + char + ref[cut + 1 :]
                yield {"body": "References\n" + "\n".join(refs) + "\n", "name": "doc.txt", "refs": refs}


def run_text(case):
    with impl.scratch() as directory:
        path = impl.write(os.path.join(directory, case["name"]), case["body"])
        before = open(path, "rb").read()
        for turn in range(2):
            got = raws(path)
            if got != case.get("refs", EXPECTED):
                raise Violation("turn %d: references %r" % (turn, got))
        if open(path, "rb").read() != before:
            raise Violation("the file was modified")
    return "text"


OTHERS = {
    "empty": b"", "png": b"\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR\x00\x00\x00\x01\x00\x00\x00\x01\x08\x06\x00\x00\x00", "gif": b"GIF89a\x01\x00\x01\x00\x00\x00\x00;",
    "html": b"<!DOCTYPE html><html><head><title>404</title></head><body>References [1] A. Author</body></html>", "xml": b"<?xml version='1.0'?><a/>",
    "gzip": b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03K\x04\x00C\xbe\xb7\xe8\x01\x00\x00\x00", "zip": b"PK\x05\x06" + b"\x00" * 18, "zeros": b"\x00" * 64, "zero": b"\x00",
    "binary": bytes(range(256)), "elf": b"\x7fELF\x02\x01\x01" + b"\x00" * 60, "ps": b"%!PS-Adobe-3.0\n%%EOF", "eof": b"\x00%%EOF\x00", "jpeg": b"\xff\xd8\xff\xe0\x00\x10JFIF\x00\x01" + b"\x00" * 20,
}


def run_other(case):
    from refextract import extract_references_from_file
    from refextract.references.errors import UnknownDocumentTypeError

    data = OTHERS[case["what"]]
    with impl.scratch() as directory:
        path = impl.write(os.path.join(directory, case["name"]), data)
        for turn in range(2):
            try:
                result = extract_references_from_file(path, override_kbs_files=impl.SMALL)
            except UnknownDocumentTypeError:
                pass
            else:
                raise Violation("returned %r" % result)
        if open(path, "rb").read() != data:
            raise Violation("the file was modified")
    return "refused"


def run_missing(case):
    from refextract import extract_references_from_file
    from refextract.references.errors import FullTextNotAvailableError

    with impl.scratch() as directory:
        os.mkdir(os.path.join(directory, "dir"))
        os.symlink("nowhere", os.path.join(directory, "dangling"))
        impl.write(os.path.join(directory, "gone"), REFS)
        os.remove(os.path.join(directory, "gone"))
        path = case["path"].replace("@", directory)
        before = sorted(os.listdir(directory))
        try:
            result = extract_references_from_file(path, override_kbs_files=impl.SMALL)
        except FullTextNotAvailableError:
            pass
        else:
            raise Violation("returned %r" % result)
        if sorted(os.listdir(directory)) != before:
            raise Violation("created %r" % os.listdir(directory))
    return "refused"


def spaces(tier):
    yield ListSpace("pdf", lambda: pdf_layouts(), run_pdf, rule="leading, inner and trailing bytes", setup=impl.warm_small)
    if tier == "thorough":
        yield ListSpace("chunks", chunks(5), run_pdf, rule="all sequences of chunks around a header")
    else:
        yield ListSpace("chunks", chunks(3), run_pdf, rule="all sequences of chunks around a header")
    yield ListSpace("text", lambda: text_files(), run_text, rule="plain-text files")
    yield ListSpace("others", [{"what": w, "name": n} for w in OTHERS for n in ("doc.pdf", "doc.txt", "doc")], run_other, rule="files of other types")
    yield ListSpace("missing", [{"path": p} for p in ("@/none", "@/dir", "@/dangling", "@/gone", "@/none/none.pdf", "", "@/dir/", "@/gone/x")], run_missing, rule="paths that are no file")
