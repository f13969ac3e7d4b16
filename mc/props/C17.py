"""Volume, year and page of a journal reference."""

import itertools

from mc import impl
from mc.core import ListSpace, Skip, Space, Violation

PROPERTY = "C17"
TITLE = "The numeration of a journal reference is read in every notation"
STATEMENT = (
    "A known journal title followed by volume, year and page in any of the supported orders (volume page year, volume year page, year volume page, volume page without a year, "
    "year before the title), punctuation, prefixes (vol., p., pp., no.) and volume notations (series letter before or after the number or in the title, roman numerals, issue number) gives one journal reference with "
    "exactly that title, volume (series letter first, roman numerals as the arabic number), year and page (with the end of a page range). For JHEP and JCAP a volume of one or two digits is written as two-digit year "
    "and two-digit volume and the page with three digits; the PoS notations give the volume, year and page of the proceedings. extract_journal_reference gives the same parts, and the reference is formatted as {title},{volume},{page} or as reference_format says."
)
QUANT = (["inputs"], "every combination of title, volume, year, page, order and punctuation within the bounds")
WHY = "Tests contain about twenty numerations; the patterns have some dozens of optional parts whose combinations they do not reach."
ANCHORS = {
    "files": ["refextract/references/regexs.py", "refextract/references/tag.py", "refextract/references/engine.py", "refextract/references/record.py"],
    "mechanism": [
        {"name": "numeration patterns", "where": "regexs.re_numeration_*, tag.find_numeration, find_numeration_more"},
        {"name": "volume series and roman numerals", "where": "tag.create_numeration_tag, extract_series_from_volume, engine.format_volume, roman2arabic, mangle_volume"},
        {"name": "JHEP and JCAP, PoS, Nucl. Phys. B", "where": "engine.handle_special_journals, tag.tag_pos_volume, engine.remove_b_for_nucl_phys"},
        {"name": "output fields", "where": "record.format_journal, build_reference"},
    ],
    "observe_at": ["refextract.extract_references_from_string", "refextract.extract_journal_reference"],
}
TECHNIQUE = "exhaustive enumeration of numerations on the real extractor against the written volume, year and page"
NOTE = "The oracle is the tuple written into the line; all combinations of the listed notations were executed."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "6 titles x 9 volumes x 2 years x 9 pages x 39 layouts; all month names, issue numbers, double volumes, long pages; roman numerals 1-39; JHEP/JCAP volumes 1-99 (two-digit) and pages; 4 PoS layouts x 5 names x years x pages; 12 left x 12 right contexts",
    "thorough": "all of it in all contexts; all volumes 1-1000 and all years 1900-2029",
}
ASSUMPTIONS = ["small knowledge bases"]

# title as written, title in the output, series letter of the title
TITLES = [
    ("Phys. Rev. D", "Phys.Rev.", "D"),
    ("Phys. Rev. Lett.", "Phys.Rev.Lett.", ""),
    ("Nucl. Phys. B", "Nucl.Phys.", "B"),
    ("Astrophys. J.", "Astrophys.J.", ""),
    ("Phys. Rev.", "Phys.Rev.", ""),
    ("Physical Review", "Phys.Rev.", ""),
    ("Eur. Phys. J. C", "Eur.Phys.J.", "C"),
]
# number as written, series, number
VOLUMES = [
    ("10", "", "10"),
    ("7", "", "7"),
    ("1234", "", "1234"),
    ("D10", "D", "10"),
    ("D 10", "D", "10"),
    ("A45", "A", "45"),
    ("45A", "A", "45"),
    ("vol. 10", "", "10"),
    ("Vol. D10", "D", "10"),
    ("10(3)", "", "10"),
    ("Vol 10", "", "10"),
    ("v. 10", "", "10"),
    ("v10", "", "10"),
    ("No. 10", "", "10"),
    ("no 10", "", "10"),
    ("N\u00b0 10", "", "10"),
    ("vol.10", "", "10"),
    ("vol. A10", "A", "10"),
    ("V. 10A", "A", "10"),
    ("45a", "A", "45"),
    ("d10", "D", "10"),
    ("vol. 10b", "B", "10"),
]
PAGES = [
    ("20", "20", ""),
    ("1", "1", ""),
    ("012345", "012345", ""),
    ("20-25", "20", "25"),
    ("20 - 25", "20", "25"),
    ("p. 20", "20", ""),
    ("pp. 20-25", "20", "25"),
    ("R20", "R20", ""),
    ("L20-L25", "L20", "L25"),
    ("20c", "20c", ""),
    ("A20", "A20", ""),
]
LAYOUTS = [
    # vol year page
    "{t} {v} ({y}) {p}",
    "{t} {v} ({y}), {p}",
    "{t} {v}, ({y}), {p}",
    "{t} {v}({y}){p}",
    "{t} {v}, {y}, {p}",
    "{t} {v} {y} {p}",
    "{t}, {v} ({y}) {p}",
    "{t}: {v} ({y}) {p}",
    "{t} {v} ({y}): {p}",
    "{t} {v} (July {y}) {p}",
    "{t} {v} (Jan. {y}) {p}",
    "{t} {v} ({y}a) {p}",
    # vol page year
    "{t} {v}, {p} ({y})",
    "{t} {v} {p} ({y})",
    "{t} {v} {p} {y}",
    "{t} {v}:{p} ({y})",
    "{t} {v}: {p}, {y}",
    "{t} {v}, {p}, {y}",
    "{t} {v}, {p}({y})",
    "{t} {v}, No. 3, {p} ({y})",
    "{t} {v}, no. 12, {p} ({y})",
    "{t} {v} ({y}) no. 3, {p}",
    "{t} {v} no. 3 ({y}) {p}",
    "{t} {v}, No. 12 ({y}) {p}",
    "{t} - {v} ({y}) {p}",
    "{t}:{v} ({y}) {p}",
    "{t}., {v} ({y}) {p}",
    "{t} {v} [FS2] ({y}) {p}",
    "{t} {v} [FS2], {p} ({y})",
    "{t} [FS2] {v} ({y}) {p}",
    "{t} [FS2] {v}, {p} ({y})",
    # year vol page
    "{t} ({y}) {v} {p}",
    "{t} ({y}) {v}, {p}",
    "{t} ({y}), {v}, {p}",
    "{t} {y}, {v}, {p}",
    # no year
    "{t} {v}, {p}",
    "{t} {v} {p}",
    "{t} {v}:{p}",
    # year before the title
    "({y}) {t} {v}, {p}",
    "{y}, {t} {v}, {p}",
]
YEARS = ["1990", "2015"]
LEFT = ["A. Smith, ", "", "A. Smith and B. Jones, quokka wombat, ", "quokka ", "ATLAS Collaboration, ", '"A title," ', "see ", "in ", "CERN-PH-EP-2012-123, ", "arXiv:1203.1234, ", "hep-th/9912345 ", "B. Brown, CERN-PH-EP-2012-123; "]
RIGHT = ["", ".", ", hep-th/9912345", " [hep-th/9912345]", " [arXiv:1203.1234]", "; CERN-PH-EP-2012-123", " and references therein", ", doi:10.1000/ab", "; Phys. Lett. B 12 (1991) 34", " quokka", " (quokka)", ", http://foo.org/bar"]


def want(title, volume, year, page):
    series = volume[1] or title[2]
    last = page[2]
    return {
        "title": title[1],
        "volume": series + volume[2],
        "year": year,
        "page": page[1] + ("-" + last if last else ""),
        "first": page[1],
    }


def ok(title, volume, page, layout):
    """Combinations that are ambiguous as text"""
    if title[2] and volume[1]:
        return False
    if not ("{y}" in layout) and volume[0].endswith(")"):
        return False
    return True


def layouts(titles, volumes, years, pages, forms, lefts, rights):
    def scenario(ch):
        title = ch.pick("title", titles)
        volume = ch.pick("volume", volumes)
        page = ch.pick("page", pages)
        layout = ch.pick("layout", forms)
        year = ch.pick("year", years)
        if not ok(title, volume, page, layout):
            raise Skip
        left = ch.pick("left", lefts)
        right = ch.pick("right", rights)
        if "{y}" not in layout:
            if year != years[0]:
                raise Skip
            year = ""
        text = layout.format(t=title[0], v=volume[0], y=year, p=page[0])
        return {"line": "[1] " + left + text + right, "text": text, "want": want(title, volume, year, page), "journal": len(lefts) == 1 and not layout.startswith(("(", "{y}"))}

    return scenario


def run(case):
    result = impl.refs(case["line"])
    wanted = case["want"]
    got = [
        {
            "title": r["journal_title"][0],
            "volume": r.get("journal_volume", [""])[0],
            "year": r.get("journal_year", [""])[0],
            "page": r.get("journal_page", [""])[0],
            "reference": r.get("journal_reference", [""])[0],
        }
        for r in result
        if "journal_title" in r
    ]
    expected = {k: wanted[k] for k in ("title", "volume", "year", "page")}
    mine = got[:1]
    if not mine or {k: mine[0][k] for k in expected} != expected:
        raise Violation("%r instead of %r" % (got, expected))
    reference = "%s %s (%s) %s" % (wanted["title"], wanted["volume"], wanted["year"], wanted["page"])
    if mine[0]["reference"] != reference:
        raise Violation("journal_reference %r instead of %r" % (mine[0]["reference"], reference))
    others = [g for g in got[1:]]
    if len(others) != case["line"].count("Phys. Lett."):
        raise Violation("unexpected journal references %r" % others)
    # (a year at the start of the line is taken for its marker)
    whole = not case.get("journal") and not case["line"].startswith(("[1] (2", "[1] 2"))
    journal = impl.journal(case["line"][4:]) if whole else None
    if whole and (not journal or any(journal.get(k) != expected[k] for k in expected)):
        raise Violation("extract_journal_reference(%r) = %r instead of %r" % (case["line"][4:], journal, expected))
    if case.get("journal"):
        journal = impl.journal(case["text"])
        if not journal or any(journal.get(k) != expected[k] for k in expected):
            raise Violation("extract_journal_reference(%r) = %r instead of %r" % (case["text"], journal, expected))
        for form in ("{title},{volume},{page}", "{year}/{page}", " {title} v{volume}, "):
            again = [r["journal_reference"] for r in impl.refs(case["line"], reference_format=form) if "journal_reference" in r]
            if again[0] != [form.format(**expected)]:
                raise Violation("reference_format %r gives %r" % (form, again))
    return impl.canon([sorted(r) for r in result])


def roman(number):
    text = ""
    for value, letters in [(10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")]:
        while number >= value:
            text += letters
            number -= value
    return text


def romans():
    """All numerals that can be written with X, V and I, in a journal without
    a series"""
    for number, form, lower in itertools.product(range(1, 90), ["{t} {v} ({y}) {p}", "{t} {v}, {p} ({y})", "{t} vol. {v}, {p} ({y})"], [False, True]):
        if number >= 40 and number // 10 in (4, 9):
            continue
        text = ("X" * (number // 10)) + roman(number % 10) if number >= 40 else roman(number)
        if number == 5 and "vol" not in form:
            # V is read as an abbreviation of volume
            continue
        volume = text.lower() if lower else text
        title = ("Phys. Rev. Lett.", "Phys.Rev.Lett.", "")
        text = form.format(t=title[0], v=volume, y="1990", p="20")
        yield {"line": "[1] A. Smith, " + text, "text": text, "want": want(title, (volume, "", str(number)), "1990", ("20", "20", "")), "journal": True}


def special():
    for journal, volume, year in itertools.product(["JHEP", "JCAP"], range(1, 13), ["1998", "2003", "2015"]):
        for form, page in itertools.product(LAYOUTS[:6] + LAYOUTS[12:19], ["1", "12", "012", "123", "1234", "1998", "2003"]):
            if page in ("1998", "2003") and "({y})" not in form:
                continue
            for written in {"%d" % volume, "%02d" % volume}:
                text = form.format(t=journal, v=written, y=year, p=page)
                yield {
                    "line": "[1] A. Smith, " + text,
                    "text": text,
                    "want": {"title": journal, "volume": year[2:] + "%02d" % volume, "year": year, "page": "%03d" % int(page)},
                    "journal": True,
                }
            # the volume is complete already
            written = year[2:] + "%02d" % volume
            text = form.format(t=journal, v=written, y=year, p=page)
            yield {
                "line": "[1] A. Smith, " + text,
                "text": text,
                "want": {"title": journal, "volume": written, "year": year, "page": "%03d" % int(page)},
                "journal": True,
            }


def undated():
    """No year in the line: nothing to put before the volume"""
    for journal, volume, form, page in itertools.product(["JHEP", "JCAP"], ["1", "07", "12", "0412", "9912"], ["{t} {v}, {p}", "{t} {v} {p}", "{t} {v}:{p}", "{t}, {v}, {p}"], ["1", "12", "012", "123", "1234", "19001", "20045", "20045-20050", "12-20"]):
        text = form.format(t=journal, v=volume, p=page)
        yield {
            "line": "[1] A. Smith, " + text,
            "text": text,
            "want": {"title": journal, "volume": "%02d" % int(volume) if len(volume) < 3 else volume, "year": "", "page": "%03d" % int(page) if page.isdigit() else page},
            "journal": True,
        }


def jinst():
    for form, page in itertools.product(LAYOUTS[:6] + LAYOUTS[12:19], ["P08004", "S08003", "P110012", "T05001"]):
        text = form.format(t="JINST", v="3", y="2008", p=page)
        yield {"line": "[1] A. Smith, " + text, "text": text, "want": {"title": "JINST", "volume": "3", "year": "2008", "page": page}, "journal": True}


def pos():
    names = ["LAT", "LATTICE", "EPS_HEP", "ICHEP", "jhw", "HEP", "EXTREMESKY"]
    forms = [
        ("PoS({n}{a}){p}", False),
        ("PoS ({n}{a}) {p}", False),
        ("PoS ({n} {a}) {p}", False),
        ("POS({n}{a}){p}", False),
        ("PoS {n}{a} ({y}) {p}", True),
        ("PoS {n}{a}, ({y}), {p}", True),
        ("PoS {n} {a} ({y}) {p}", True),
        ("PoS {n}{a}, {p} ({y})", True),
        ("PoS {n}{a} {p} ({y})", True),
        ("PoS ({y}) {n}{a} {p}", True),
        ("PoS ({y}) {n}{a}, {p}", True),
    ]
    for name, (form, dated), a, page in itertools.product(names, forms, ["2005", "1999"], ["1", "012", "123", "1234"]):
        year = "2006" if dated else a
        text = form.format(n=name, a=a, y="2006", p=page)
        for left, right in [("A. Smith, ", ""), ("quokka ", ", hep-th/9912345"), ("A. Smith, quokka, ", "; CERN-PH-EP-2012-123")]:
            yield {"line": "[1] " + left + text + right, "text": text, "want": {"title": "PoS", "volume": name + a, "year": year, "page": page}, "journal": True}


def subtitle():
    """Nucl. Phys. B [FS] sections and its supplements"""
    for fs, close in [("[FS5]", ""), ("(FS5)", ""), ("[FS 12]", ""), ("[PM]", ""), ("[ FS7 ]", "")]:
        for form in ["{t} 123 {f} (1990) 20", "{t}123 {f} (1990) 20", "{t} 123 {f} 20 (1990)", "{t} {f} 123 (1990) 20", "{t} 123, {f}, 20 (1990)"]:
            text = form.format(t="Nucl. Phys. B", f=fs)
            yield {"line": "[1] A. Smith, " + text, "text": text, "want": {"title": "Nucl.Phys.", "volume": "B123", "year": "1990", "page": "20"}, "journal": True}
    for volume, form in itertools.product(["123", "B123", "B 123"], ["{t} {v} (1990) 20", "{t} {v}, 20 (1990)"]):
        text = form.format(t="Nucl. Phys. B (Proc. Suppl.)", v=volume)
        yield {"line": "[1] A. Smith, " + text, "text": text, "want": {"title": "Nucl.Phys.Proc.Suppl.", "volume": "123", "year": "1990", "page": "20"}, "journal": True}


def dates():
    """month names, issue numbers and long pages"""
    title, volume, page = TITLES[0], VOLUMES[0], PAGES[0]
    full = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
    for name, sep, form in itertools.product(full + [m[:3] for m in full] + [m[:3] + "." for m in full], [" ", ", ", ","], ["{t} {v} ({y}) {p}", "{t} {v}, {p} ({y})", "{t} {v}, ({y}), {p}", "{t} {v}, {p} {y}", "{t} ({y}) {v}, {p}"]):
        for cased in (name, name[0].lower() + name[1:]):
            text = form.format(t=title[0], v="10", y=cased + sep + "1990", p="20")
            yield {"line": "[1] A. Smith, " + text, "text": text, "want": want(title, volume, "1990", page), "journal": True}
    for issue, form in itertools.product(["(1)", "(12)", "(1-2)", "(11-2)", " (3)", " (12)", " (1-2)"], ["{t} {v} ({y}) {p}", "{t} {v}, {p} ({y})", "{t} {v}, {y}, {p}", "{t} {v}: {p}, {y}", "{t} ({y}) {v}, {p}", "{t} {v}({y}){p}"]):
        for number in ("10", "A10", "10A", "1234", "vol. 10"):
            title = ("Phys. Rev. Lett.", "Phys.Rev.Lett.", "")
            text = form.format(t=title[0], v=number + issue, y="1990", p="20")
            yield {"line": "[1] A. Smith, " + text, "text": text, "want": want(title, (number, "A" if "A" in number else "", "".join(c for c in number if c.isdigit())), "1990", page), "journal": True}
    # double volumes
    for (number, series), form in itertools.product([("10-11", ""), ("10 - 11", ""), ("A10-A11", "A"), ("A10-11", "A"), ("A10 - A11", "A")], ["{t} {v}, {p} ({y})", "{t} {v}: {p}, {y}", "{t} {v}, {p}, {y}", "{t} {v}:{p} ({y})"]):
        text = form.format(t="Phys. Rev. Lett.", v=number, y="1990", p="20")
        yield {"line": "[1] A. Smith, " + text, "text": text, "want": want(("Phys. Rev. Lett.", "Phys.Rev.Lett.", ""), (number, series, "10"), "1990", page), "journal": True}
    for number, form in itertools.product(["1", "99999", "123456", "1234567", "12345678", "a1234567", "0123456c"], ["{t} {v} ({y}) {p}", "{t} {v}, {p} ({y})", "{t} {v}, {y}, {p}", "{t} {v}: {p}, {y}", "{t} ({y}) {v}, {p}", "{t} {v}, {p}"]):
        text = form.format(t="Phys. Rev. D", v="10", y="1990", p=number)
        yield {"line": "[1] A. Smith, " + text, "text": text, "want": want(TITLES[0], volume, "1990" if "{y}" in form else "", (number, number, "")), "journal": True}


def numbers(volumes, years):
    for volume, year, layout in itertools.product(volumes, years, [LAYOUTS[0], LAYOUTS[12], LAYOUTS[22]]):
        text = layout.format(t="Phys. Rev. D", v=volume, y=year, p="4321")
        yield {"line": "[1] A. Smith, " + text, "text": text, "want": {"title": "Phys.Rev.", "volume": "D%s" % volume, "year": year, "page": "4321"}, "journal": True}


def spaces(tier):
    deep = tier == "thorough"
    yield Space("layouts", layouts(TITLES, VOLUMES, YEARS[:1], PAGES, LAYOUTS, LEFT[:1], RIGHT[:1]), run, rule="title x volume x page x layout", setup=impl.warm_small)
    if deep:
        yield Space("contexts", layouts(TITLES[:3], VOLUMES[::3], YEARS[1:], PAGES[::3], LAYOUTS, LEFT, RIGHT), run, rule="layouts in all contexts")
        yield ListSpace("numbers", lambda: numbers(range(1, 1000, 1), ["1990"]), run, rule="all volumes")
        yield ListSpace("years", lambda: numbers(["10"], [str(y) for y in range(1900, 2030)]), run, rule="all years")
    else:
        yield Space("contexts", layouts(TITLES[:2], VOLUMES[:1], YEARS[1:], [PAGES[0], PAGES[3]], LAYOUTS, LEFT, RIGHT), run, rule="layouts in all contexts")
        yield ListSpace("numbers", lambda: numbers(list(range(1, 130)) + [999, 1000, 1899, 1900, 1990, 2001, 99999], ["1990"]), run, rule="volumes")
        yield ListSpace("years", lambda: numbers(["10"], [str(y) for y in range(1900, 2030)]), run, rule="all years")
    yield ListSpace("roman", romans, run, rule="roman numerals")
    yield ListSpace("special", special, run, rule="JHEP and JCAP: volumes x years x pages x layouts")
    yield ListSpace("undated", undated, run, rule="JHEP and JCAP without a year")
    yield ListSpace("jinst", jinst, run, rule="JINST pages")
    yield ListSpace("pos", pos, run, rule="PoS layouts")
    yield ListSpace("subtitle", subtitle, run, rule="Nucl. Phys. B sections and supplements")
    yield ListSpace("dates", dates, run, rule="months, issues and long pages")
