"""The text of a PDF is used whole: raw first, laid out when that gives nothing."""

import itertools
import os
import subprocess
import sys

from mc import impl, pdfs
from mc.core import REPO, VERIF, ListSpace, Violation

pdfs.use_stub()

PROPERTY = "C07"
TITLE = "All text of a PDF is used: the raw one, or if it gives nothing the laid out"
STATEMENT = (
    "The references of a PDF are those of the text pdftotext gives for it in raw order; only when no reference line is found in that, they are those of the "
    "text in layout order, and when neither has any the result is an empty list. The text is used whole and unchanged whatever its length, its non-ASCII characters and unusual spaces (lines end at newlines only), "
    "its blank lines and wherever form feeds (page breaks) come before the lines; a missing pdftotext is reported as an error, not as an empty result."
)
QUANT = (["inputs", "configurations"], "every pair of raw and layout texts and every placement of form feeds")
WHY = "Two real PDFs are tested, both with a good raw text; the fallback and form feeds in other places are not exercised."
ANCHORS = {
    "files": ["refextract/references/api.py", "refextract/documents/pdf.py", "refextract/references/engine.py"],
    "mechanism": [
        {"name": "second try with layout", "where": "api.extract_references_from_file"},
        {"name": "decoding and page breaks", "where": "documents.pdf.convert_PDF_to_plaintext"},
    ],
    "observe_at": ["refextract.extract_references_from_file"],
}
TECHNIQUE = "exhaustive enumeration of pdftotext outputs (through a stand-in executable) against the references written into them"
NOTE = "The stand-in records how it is called; every output of the bounded space is served to the real extractor."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "12 x 12 raw/layout texts; form feeds before every subset of the 9 lines of a document, glued or on their own line; lengths up to 3 MB; 10 characters like line separators between words",
    "thorough": "form feeds before every subset of 11 lines, three forms",
}
ASSUMPTIONS = ["pdftotext writes UTF-8, as asked", "small knowledge bases"]

LISTS = {
    "refs": ("Text\nReferences\n[1] zebra one\n[2] quokka two\n", ["[1] zebra one", "[2] quokka two"]),
    "other": ("Text\nReferences\n[1] walrus\n", ["[1] walrus"]),
    "unicode": ("\u00e9t\u00e9\nR\u00e9f\u00e9rences\n[1] \u0141. \u017bebra \u2013 \u03b1\u03b2 \U0001d6fc\n", ["[1] \u0141. \u017bebra \u2013 \u03b1\u03b2 \U0001d6fc"]),
    "untitled": ("Text\n[1] zebra\n[2] quokka\n", ["[1] zebra", "[2] quokka"]),
    "one-line": ("References\n[1] zebra", ["[1] zebra"]),
    "crlf": ("References\r\n[1] zebra\r\n[2] quokka\r\n", ["[1] zebra", "[2] quokka"]),
    "empty": ("", []),
    "blank": ("\n \n\n\f", []),
    "breaks": ("\f\f\f", []),
    "text": ("Some text\nwithout any list\n\f", []),
    "title": ("Some text\nReferences\n\f", []),
    "newline": ("\n", []),
}


def raws(path):
    from refextract import extract_references_from_file

    return [r["raw_ref"][0] for r in extract_references_from_file(path, override_kbs_files=impl.SMALL)]


def run_pair(case):
    raw, layout = LISTS[case["raw"]], LISTS[case["layout"]]
    expected = raw[1] or layout[1]
    with impl.scratch() as directory:
        path = pdfs.make(directory, raw[0], layout[0])
        got = raws(path)
        calls = pdfs.calls(path)
    if got != expected:
        raise Violation("references %r instead of %r" % (got, expected))
    if calls != (["-raw"] if raw[1] else ["-raw", "-layout"]):
        raise Violation("pdftotext was called %r" % calls)
    return "%d %d" % (len(calls), len(got))


LINES = ["A paper", "Introduction", "References", "[1] zebra one", "x quokka here", "[2] walrus", "[3] ocelot, and", "more of it badger", "[4] lemur", "[5] marmot", "ferret the last"]


def run_breaks(case):
    lines = LINES[: case["lines"]]
    text = ""
    for idx, line in enumerate(lines):
        if case["mask"] >> idx & 1:
            text += case["form"]
        text += line + "\n"
    text += "\f"
    expected = []
    for line in lines[3:]:
        if line.startswith("["):
            expected.append(line)
        else:
            expected[-1] += " " + line
    with impl.scratch() as directory:
        path = pdfs.make(directory, text, "")
        got = raws(path)
    if got != expected:
        raise Violation("references %r instead of %r" % (got, expected))
    return "%d" % bin(case["mask"]).count("1")


def breaks(count, forms):
    def generate():
        for mask in range(1 << count):
            for form in forms:
                # four and more breaks: the lines after them could be headers
                yield {"lines": count, "mask": mask, "form": form}

    return generate


def run_length(case):
    refs = ["[%d] zebra number %s" % (n + 1, "x" * (case["width"] + n % 7)) for n in range(case["count"])]
    text = "Some text\n" * case["body"] + "References\n" + "\n".join(refs) + "\n\f"
    with impl.scratch() as directory:
        path = pdfs.make(directory, text, "")
        got = raws(path)
    if got != refs:
        raise Violation("%d references instead of %d" % (len(got), len(refs)))
    return "%d" % len(refs)


# characters that other programs take for the end of a line
SEPARATORS = ["\x0b", "\x85", "\u2028", "\u2029", "\xa0", "\u3000", "\u200b", "\x1c", "\x1d", "\x1e"]


def run_separator(case):
    lines = ["[1] zebra one", "[2] walrus and a quokka", "[3] lemur ox and badger", "[4] ferret the last"]
    words = lines[case["line"]].split(" ")
    words[case["word"] : case["word"] + 2] = [case["char"].join(words[case["word"] : case["word"] + 2])]
    lines[case["line"]] = " ".join(words)
    with impl.scratch() as directory:
        path = pdfs.make(directory, "Some text\nReferences\n" + "\n".join(lines) + "\n\f", "")
        got = raws(path)
    if got != lines:
        raise Violation("references %r instead of %r" % (got, lines))
    return "%d" % len(got)


def separators():
    for char in SEPARATORS:
        for line in range(4):
            for word in (1, 2):
                if (line, word) != (0, 2):
                    yield {"char": char, "line": line, "word": word}


CHILD = """
import sys, json, warnings, logging
warnings.simplefilter("ignore"); logging.disable(50)
from mc import impl
from refextract import extract_references_from_file
try:
    print("R" + json.dumps(extract_references_from_file(sys.argv[1], override_kbs_files=impl.SMALL)))
except OSError:
    print("OSError")
"""


def run_missing(case):
    """in a process of its own: the path of pdftotext is read once"""
    with impl.scratch() as directory:
        path = pdfs.make(directory, LISTS["refs"][0], "")
        program = pdfs.STUB if case["program"] is None else directory + "/" + case["program"]
        env = dict(os.environ, CFG_PATH_PDFTOTEXT=program)
        env["PYTHONPATH"] = os.pathsep.join([REPO, VERIF])
        out = subprocess.run([sys.executable, "-c", CHILD, path], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
    if case["program"] is None:
        if not out.startswith("R[{"):
            raise Violation("with pdftotext: %r" % out)
    elif out.strip() != "OSError":
        raise Violation("without pdftotext: %r" % out)
    return out[:7]


def spaces(tier):
    deep = tier == "thorough"
    yield ListSpace("pairs", [{"raw": a, "layout": b} for a in LISTS for b in LISTS], run_pair, rule="raw text x layout text", setup=impl.warm_small)
    yield ListSpace("breaks", breaks(11 if deep else 9, ["\f", "\f\n", " \f"] if deep else ["\f", "\f\n"]), run_breaks, rule="form feeds before every subset of lines")
    yield ListSpace("lengths", [{"count": c, "width": w, "body": b} for c in (1, 10, 120) for w in (1, 100, 900) for b in (0, 100, 20000)], run_length, rule="long texts")
    yield ListSpace("separators", separators, run_separator, rule="characters like line separators between words")
    yield ListSpace("missing", [{"program": p} for p in (None, "none", "doc.pdf/x", "")], run_missing, rule="pdftotext missing")
