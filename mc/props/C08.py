"""The reference section of a document is found, whole and alone."""

import itertools
import os

from mc import impl
from mc.core import ListSpace, Violation

PROPERTY = "C08"
TITLE = "The reference section of a full text is found whole, and only it"
STATEMENT = (
    "For a full text (string with is_only_references=False, or plain-text file) whose references follow a title such as "
    "References, Bibliography, Literaturverzeichnis, Citations or Références (any case, letter-spaced, numbered, followed by a colon or by the first marker), "
    "the references returned are exactly those listed after the last such title, up to a following appendix, acknowledgement, table, "
    "figure, index, summary or similar section or a block of numbers (a line that looks like a title but is followed by the next reference within 200 lines ends nothing, nor do less than four lines of numbers); body text, the title repeated on later pages, titles and what follows contribute nothing. Without a title the "
    "references start at the last line marked [1], else 1., with [2] (2.) in the ten lines after it or less than five lines from the end; a text with none of these yields none."
)
QUANT = (["inputs"], "every title, numbering style, body, number of references and following section")
WHY = "A few complete documents are tested; cutting the section depends on the combination of title, markers and neighbouring text."
ANCHORS = {
    "files": ["refextract/references/find.py", "refextract/references/text.py", "refextract/references/regexs.py"],
    "mechanism": [
        {"name": "title search from the end", "where": "find.find_reference_section"},
        {"name": "marker search without title", "where": "find.find_reference_section_no_title_generic"},
        {"name": "end of the section", "where": "find.find_end_of_reference_section"},
        {"name": "cut out the lines", "where": "text.get_reference_lines"},
    ],
    "observe_at": ["refextract.extract_references_from_string", "refextract.extract_references_from_file"],
}
TECHNIQUE = "exhaustive enumeration of document structures on the real extractor against the list of references written into the document"
NOTE = "Every combination of the listed bodies, titles, marker styles, reference counts and tails was run; the oracle is the list the document was made from."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "28 titles x 7 marker styles x 6 bodies x 1-4 references x 3 tails; 33 following sections x 7 marker styles x 1-4 references; blanks after the title, repeated titles, references with title words, numbers in references, title-like lines up to 190 lines before the next reference, markers of other kinds after the list, lists of 100 and 1000 references; title-less documents; 4 titles x 5 styles x 5 bodies x 6 tails as files",
    "thorough": "all titles x styles x bodies x 1-7 references x all tails",
}
ASSUMPTIONS = [
    "references are numbered consecutively from 1 or carry label markers; unnumbered lists are decided by C10",
    "the last reference does not start with the word Table (or the like): with its number it cannot be told from the title of a following section",
    "small knowledge bases",
]

TITLES = [
    "1. References", "4References", "12BIBLIOGRAPHY", "4.References", "10. R E F E R E N C E S",
    "References", "REFERENCES", "references", "R e f e r e n c e s", "References:", "References.", "6. References", "VI. REFERENCES",
    "[7] References", "A. References", "7 References", "  References", "Reference", "Bibliography", "BIBLIOGRAPHY", "5. Bibliography",
    "Bibliographie", "Literaturverzeichnis", "Citations", "Refs", "REFS.", "R\u00e9f\u00e9rences", "R\u00c9F\u00c9RENCES", "R\u00e9f\u00e9rence",
    "References section", "(References)", "12 Bibliography", "6.1. References",
]
STYLES = {
    "bracket": lambda n: "[%d] " % n,
    "spaced": lambda n: "[ %d ] " % n,
    "dot": lambda n: "%d. " % n,
    "paren": lambda n: "(%d) " % n,
    "curly": lambda n: "{%d} " % n,
    "closing": lambda n: "%d) " % n,
    "label": lambda n: "[Abc%02d] " % n,
    "plain": lambda n: "%d " % n,
}
ENTRIES = [
    "A. Author, Phys. Rev. D 10 (1990) 20",
    "J. Doe et al., Nucl. Phys. B 123, 456 (1985)",
    "C. Third, arXiv:1203.1234",
    "D. Fourth, a long title, JHEP 03 (2003) 012",
    "private communication",
    "E. Fifth, doi:10.1000/ab",
    "F. Sixth, hep-th/9912345",
]
BODIES = [
    [],
    ["A title of a paper", "by some author", ""],
    ["1. Introduction", "As shown in [1] and in references therein", "we find more, see Phys. Lett. B 1 (1970) 2", ""],
    ["Contents", "@TITLE", "Introduction", "It was shown", "that a number", "of things", "are so", "in the past", ""],
    ["Some text", "[1] and [2] were the first", "to show this, see the references below.", "", "II. Conclusion", "It works."],
    ["Appendix A", "More text", "Acknowledgements", "We thank everybody for", "the bibliography of our work", ""],
]
TAILS = [
    [],
    ["Appendix A", "some more text about Phys. Rev. D 99 (1999) 1"],
    ["Table 1: numbers", "1 2 3"],
    ["Appendix", "text"], ["Appendices", "text"], ["Acknowledgements", "We thank"], ["Acknowledgement", "We thank"],
    ["Acknowledgments", "We thank"], ["Acknowledgment:", "We thank"], ["ACKNOWLEDGEMENTS", "We thank"], ["A P P E N D I X", "text"],
    ["A. Appendix", "text"], ["(B) Appendix", "text"], ["Table", "text"], ["Tables", "text"], ["Figure 3", "a caption"], ["Figures", "captions"],
    ["List of Figures", "captions"], ["Fig. 1", "a caption"], ["Fig. 12: the setup", "text"], ["Tab. 2", "text"], ["Annex", "text"],
    ["Discussion", "A: yes"], ["Discussions", "A: yes"], ["Remerciements", "Nous"], ["Index", "words"], ["Summary", "we have"],
    ["I. Conclusion", "we have"], ["V. Conclusions", "we have"], ["Appendix B: Proofs", "text"], ["  Appendix", "text"],
    ["This paper has been produced using a typesetter", "text"], ["Prepared with LATEX", "text"],
    ["This article was processed by the author using Springer-Verlag LATEX style", "text"],
    ["12345678 1234567", "22345678 1234567", "32345678 1234567", "42345678 1234567"],
    ["1.2345 -6.7890 12.3", "2.2345 -6.7890 12.3", "3.2345 -6.7890 12.3", "4.2345 -6.7890 12.3"],
    ["12345678 1234567", "", "22345678 1234567", "", "32345678 1234567", "", "42345678 1234567"],
    ["", "12345678 1234567", "22345678 1234567", "", "", "32345678 1234567", "42345678 1234567", "", "text"],
    ["1 \u00d7 10+12 345 678 91", "2 \u2212 10.12 345 678 91", "3-10.12 345 678 91", "4 10.12 345 678 91", "5 10.12 345 678 91", "6"],
    ["Table II: numbers", "text"], ["Table A.", "text"], ["Tab 3", "text"], ["Figure IV", "text"], ["Fig 3a", "text"], ["Fig. A.", "text"], ["Fig. 1b", "text"],
    ["T a b l e", "text"], ["Annexes", "text"], ["A. Discussion:", "text"], ["[A] Index", "text"], ["1. Summary", "text"], ["X Conclusion and outlook", "text"],
    ["List of Figure", "text"], ["Acknowledgement:", "text"], ["A c k n o w l e d g e m e n t s", "We thank"], ["Created with AAS LATEX", "text"],
    ["Prepared by the authors in AAS LATEX macros v5", "text"], ["This paper has been produced using AAS LATEX", "text"],
]
DOTLESS = ["label"]


def entries(style, count):
    return [STYLES[style](n + 1) + ENTRIES[n % len(ENTRIES)] for n in range(count)]


def case(body, title, style, count, tail, same=False, wrap=False):
    lines = entries(style, count)
    written = []
    for line in lines:
        cut = line.rfind(", ")
        if wrap and cut > 0:
            written += [line[: cut + 1], line[cut + 2 :]]
        else:
            written.append(line)
    if same:
        written[0] = title + " " + written[0]
    elif title is not None:
        written = [title] + written
    body = [title or "Text" if line == "@TITLE" else line for line in body]
    return {"doc": body + written + list(tail), "refs": lines}


def document(doc, mode):
    if mode == "string":
        from refextract import extract_references_from_string

        return extract_references_from_string("\n".join(doc), is_only_references=False, override_kbs_files=impl.SMALL)
    from refextract import extract_references_from_file

    with impl.scratch() as directory:
        path = os.path.join(directory, "doc.txt")
        impl.write(path, "\n".join(doc) + "\n")
        return extract_references_from_file(path, override_kbs_files=impl.SMALL)


def runner(mode):
    def run(case):
        result = document(case["doc"], mode)
        raw = []
        for ref in result:
            if ref["raw_ref"][0] not in raw:
                raw.append(ref["raw_ref"][0])
        if raw != case["refs"]:
            raise Violation("references %r instead of %r" % (raw, case["refs"]))
        return impl.canon([sorted(r) for r in result])

    return run


def titles(counts, tails, bodies=BODIES):
    def generate():
        for title, style, body, count, tail in itertools.product(TITLES, STYLES, bodies, counts, tails):
            for wrap in (False, True):
                yield case(body, title, style, count, tail, wrap=wrap)

    return generate


def same_line():
    for title, style, body, count in itertools.product(["References", "REFERENCES", "Bibliography", "Refs", "5. References", "1. References"], ["bracket", "paren", "curly"], BODIES, [1, 2, 4]):
        for tail in TAILS[:3]:
            yield case(body, title, style, count, tail, same=True)


def endings(counts):
    def generate():
        for tail, style, count in itertools.product(TAILS, STYLES, counts):
            for body in (BODIES[0], BODIES[2]):
                yield case(body, "References", style, count, tail)

    return generate


def cited_later():
    """markers in the section after the references that do not continue the list"""
    for tail, style, count in itertools.product([["Appendix A"], ["Acknowledgements"], ["Table 1: numbers"], ["Figure 3"], ["Summary"]], ["bracket", "spaced", "dot"], [1, 2, 3, 5]):
        for number in {1, count, count + 2, count + 5}:
            for between in ([], ["as shown there by"], ["some text", "of several lines", "in which they cite"]):
                yield case(BODIES[1], "References", style, count, tail + between + [STYLES[style](number) + "wombats hop"])


def inner(counts):
    """a line inside the list that looks like the title of a following section"""

    def generate():
        for tail, style, count in itertools.product(TAILS[1:], STYLES, counts):
            if len(tail[0]) < 3 or tail[0][0] == "[" or tail[0][0].isdigit():
                continue
            for at in range(count - 1):
                c = case(BODIES[2], "References", style, count, [])
                at_line = c["doc"].index(c["refs"][at]) + 1
                c["doc"].insert(at_line, tail[0])
                c["refs"][at] += " " + tail[0].strip()
                yield c

    return generate


def spread(counts):
    """title-like lines inside the list, the next reference some lines further"""

    def generate():
        for tail, style, count, gap in itertools.product(TAILS[1:], ["bracket", "dot", "label"], counts, [1, 4, 6, 20, 100, 190]):
            if len(tail[0]) < 3 or tail[0][0] == "[" or tail[0][0].isdigit():
                continue
            for at in range(count - 1):
                c = case(BODIES[2], "References", style, count, [])
                at_line = c["doc"].index(c["refs"][at]) + 1
                c["doc"][at_line:at_line] = [tail[0]] + [""] * gap
                c["refs"][at] += " " + tail[0].strip()
                yield c

    return generate


def gaps():
    """blank lines between the title and the references, and around the list"""
    for title, style, body, count in itertools.product(["References", "6. Bibliography", "Refs", "R\u00e9f\u00e9rences"], STYLES, BODIES[1:4], [1, 2, 4]):
        for above, below in itertools.product(range(5), [0, 1, 3]):
            for blank in ("", "  "):
                c = case(body, title, style, count, TAILS[1])
                at = c["doc"].index(c["refs"][0])
                c["doc"][at:at] = [blank] * above
                at = c["doc"].index(TAILS[1][0])
                c["doc"][at:at] = [blank] * below
                yield c


def running():
    """the title repeated in the list, as at the top or the foot of a page"""
    for title, style, count in itertools.product(["References", "REFERENCES", "Bibliography", "Citations"], STYLES, [2, 3, 5]):
        for form in ("%s", "12 %s", "123 %s", "1234 %s", "[12] %s", "(12) %s", "12. %s", "%s  "):
            for mask in range(1, 1 << (count - 1)):
                c = case(BODIES[1], title, style, count, TAILS[1])
                for at in range(count - 1, 0, -1):
                    if mask >> (at - 1) & 1:
                        c["doc"].insert(c["doc"].index(c["refs"][at]), form % title)
                yield c


def words():
    """references that contain the words of the titles"""
    inside = ["References therein by A. Author, Phys. Rev. D 10 (1990) 20", "A. Author, On References", "A. Author, Bibliography of physics, Phys. Rev. D 10 (1990) 20",
              "see the references of A. Author", "Table of isotopes, A. Author", "A. Author, Figures of merit", "A. Author, in the Appendix of Phys. Rev. D 10 (1990) 20"]
    for title, style, count in itertools.product(["References", "REFERENCES", "Bibliography"], STYLES, [1, 2, 4]):
        for entry, at in itertools.product(inside, range(count)):
            for same in (False, True):
                if same and style not in ("bracket", "paren", "curly"):
                    continue
                if entry.startswith("Table") and at == count - 1:
                    continue
                c = case(BODIES[1], title, style, count, TAILS[1])
                old = c["refs"][at]
                c["refs"][at] = STYLES[style](at + 1) + entry
                c["doc"][c["doc"].index(old)] = c["refs"][at]
                if same:
                    first = c["doc"].index(title)
                    c["doc"][first : first + 2] = [title + " " + c["doc"][first + 1]]
                yield c


def digits():
    """less than four lines of numbers are part of a reference"""
    for style, count, rows in itertools.product(["bracket", "dot", "label"], [1, 2, 3], [1, 2, 3]):
        for at in range(count):
            for line in ("12345678 1234567", "1.2345 -6.7890 12.3", "1 2 3 4 5 6 7 8 9 10 11"):
                c = case(BODIES[1], "References", style, count, ["and so on", "Appendix A"])
                first = c["doc"].index(c["refs"][at]) + 1
                c["doc"][first:first] = [line] * rows
                c["refs"][at] += (" " + line) * rows
                c["refs"][-1] += " and so on"
                yield c


def one_of_many():
    """without title: a 1 near the end, or with 2 in the ten lines after it"""
    for style in ("bracket", "spaced", "dot"):
        for lines in range(0, 14):
            text = ["line %s of the text" % chr(97 + n) for n in range(lines)]
            only = STYLES[style](1) + "is the first"
            doc = ["Some text", "without a title"] + [only] + text
            yield {"doc": doc, "refs": [" ".join([only] + text)] if lines < 5 else []}
            two = STYLES[style](2) + "is the second"
            for after in (0, 1, 5, 7):
                more = ["word%s" % chr(97 + n) for n in range(after)]
                doc = ["Some text", "without a title"] + [only] + text + [two] + more
                if lines < 10:
                    yield {"doc": doc, "refs": [" ".join([only] + text), " ".join([two] + more)]}
                else:
                    yield {"doc": doc, "refs": []}


def other_markers():
    """markers of another kind after the section"""
    for title, style, other, count in itertools.product([None, "References"], ["bracket", "dot", "plain"], ["bracket", "dot", "paren", "curly", "closing", "plain"], [2, 3, 4]):
        if other == style or not title and style == "plain":
            continue
        for tail in (["Appendix A"], ["Acknowledgements"], ["Figure 3"]):
            for number in (count + 1, count, 1):
                if not title and other == "bracket" and number == 1:
                    continue
                yield case(BODIES[1], title, style, count, tail + ["it goes on", STYLES[other](number) + "wombats hop"])
                yield case(BODIES[1], title, style, count, tail + ["it goes on", "%d" % number, "wombats hop"])


def many(counts):
    def generate():
        for style, count in itertools.product(STYLES, counts):
            c = case(BODIES[1], "References", style, 0, TAILS[1])
            c["refs"] = [(STYLES[style](n + 1) if style != "label" else "[A%d] " % n) + "zebra %s" % chr(97 + n % 26) for n in range(count)]
            at = c["doc"].index("References") + 1
            c["doc"][at:at] = c["refs"]
            yield c

    return generate


def twice():
    """an earlier list or table of contents under the same title"""
    for title, style, count in itertools.product(["References", "6. Bibliography", "Refs", "R\u00e9f\u00e9rences"], STYLES, [1, 2, 4]):
        if style == "label":
            continue
        word = title.split()[-1]
        for earlier in (title, word, word.upper()):
            for first in STYLES:
                if first == "label":
                    continue
                body = ["Chapter 1", earlier] + [STYLES[first](n) + "walrus" for n in (1, 2, 3)] + ["", "Chapter 2", "Some text"]
                yield case(body, title, style, count, TAILS[1])
                body = ["Contents", earlier, "Chapters", STYLES[first](1) + "Introduction", "Some text"]
                yield case(body, title, style, count, [])


def untitled():
    """without title: [n], else n. ; the numbers must come in sequence"""
    bodies = [BODIES[1], ["Some text", "that is long", "and cites [3], [4]", ""], ["Text", "[1] is cited here, in a body", "of several lines", "which say", "nothing", "of interest", "", ""]]
    for style, body, count in itertools.product(["bracket", "spaced", "dot"], bodies, [2, 3, 5, 7]):
        for tail in TAILS[:2]:
            if style == "dot" and any("[1]" in line[:3] for line in body):
                continue
            yield case(body, None, style, count, tail)
            yield case(body, None, style, count, tail, wrap=True)


def nothing():
    for body in ([], ["Some text"], ["Some text", "see [3]", "and more"], BODIES[1], ["", ""], ["Phys. Rev. D 10 (1990) 20"]):
        for extra in ([], ["Appendix"], ["text about references in general"]):
            yield {"doc": body + extra, "refs": []}


def files():
    for title, style, body, tail in itertools.product(["References", "R\u00c9F\u00c9RENCES", "6. Bibliography", "[7] References"], ["bracket", "dot", "paren", "label", "spaced"], BODIES[1:], TAILS[:6]):
        yield case(body, title, style, 3, tail, wrap=True)


def spaces(tier):
    deep = tier == "thorough"
    string, filed = runner("string"), runner("file")
    yield ListSpace("titles", titles(range(1, 8) if deep else (1, 2, 4), TAILS if deep else TAILS[:3]), string, rule="body, title, references, following section", setup=impl.warm_small)
    yield ListSpace("same-line", lambda: same_line(), string, rule="the first reference on the line of the title")
    yield ListSpace("endings", endings(range(1, 8) if deep else (1, 2, 3, 4)), string, rule="all following sections")
    yield ListSpace("cited-later", lambda: cited_later(), string, rule="markers in the following section")
    yield ListSpace("inner", inner(range(2, 8) if deep else (2, 3)), string, rule="title-like lines inside the list")
    yield ListSpace("untitled", lambda: untitled(), string, rule="numbered references without a title")
    yield ListSpace("spread", spread(range(2, 5) if deep else (2, 3)), string, rule="title-like lines inside the list, 1 to 190 lines before the next reference")
    yield ListSpace("twice", lambda: twice(), string, rule="an earlier list under the same title")
    yield ListSpace("gaps", lambda: gaps(), string, rule="0-4 blank lines after the title, blanks after the list")
    yield ListSpace("running", lambda: running(), string, rule="the title, with or without a page number, repeated inside the list")
    yield ListSpace("words", lambda: words(), string, rule="references containing the words of titles")
    yield ListSpace("digits", lambda: digits(), string, rule="1-3 lines of numbers inside a reference")
    yield ListSpace("one-of-many", lambda: one_of_many(), string, rule="without title: 0-13 lines after the first marker")
    yield ListSpace("other-markers", lambda: other_markers(), string, rule="markers of another kind after the section")
    yield ListSpace("many", many((100, 1000, 3000) if deep else (100, 1000)), string, rule="long lists")
    yield ListSpace("nothing", lambda: nothing(), string, rule="no reference section")
    yield ListSpace("files", lambda: files(), filed, rule="as plain-text file")
