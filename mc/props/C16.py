"""URLs and handles."""

import itertools

from mc import impl
from mc.core import ListSpace, Skip, Space, Violation

PROPERTY = "C16"
TITLE = "URLs and handles are extracted exactly, in order, one per reference"
STATEMENT = (
    "A URL (http, https, ftp, sftp; host with optional port; path of letters, digits and _.?=&%~-) comes out as one url value with exactly its "
    "characters, without a final full stop, comma, bracket or quote, whatever precedes or follows it; of an HTML link the address is the url and the text, if "
    "different, the urldesc. A blank inside http:// or ftp:// or before the file extension is removed. "
    "A handle (hdl:... or an http(s)://hdl.handle.net/ URL) gives one hdl value 'hdl:...' and no url; several URLs (or several handles) of a line come out all, in order, "
    "each in a reference of its own."
)
QUANT = (["inputs"], "every URL, notation, context and number of URLs within the bounds")
WHY = "Tests contain a handful of URLs; truncation and loss depend on the characters of the URL, its quoting and its neighbours."
ANCHORS = {
    "files": ["refextract/references/regexs.py", "refextract/references/tag.py", "refextract/references/engine.py", "refextract/documents/text.py"],
    "mechanism": [
        {"name": "URL recognition", "where": "regexs.raw_url_pattern, re_html_tagged_url, tag.identify_and_tag_URLs"},
        {"name": "handles", "where": "engine.look_for_hdl, look_for_hdl_urls"},
        {"name": "repair of broken URLs", "where": "documents.text.repair_broken_urls"},
    ],
    "observe_at": ["refextract.extract_references_from_string"],
}
TECHNIQUE = "exhaustive enumeration of URLs, notations and contexts on the real extractor against the written URL"
NOTE = "All combinations of the listed components, notations and contexts were run."
LEVEL = "model_checking"
BOUNDS = {
    "quick": "URLs of 4 schemes x 4 hosts x 14 paths x 7 notations x 9 left x 9 right contexts (of these all pairs with 2 URLs of each); pairs and triples of 10 URLs and handles; one blank at every position of the scheme and extension",
    "thorough": "the full product of URLs and contexts; triples with all separators",
}
ASSUMPTIONS = [
    "small knowledge bases",
    "a URL is not followed by a blank or by a full stop and a blank (what follows is taken for its continuation when URLs broken by the text extraction are repaired)",
]

SCHEMES = ["http://", "https://", "ftp://", "sftp://"]
HOSTS = ["foo.org", "www.foo-bar.co.uk", "localhost:8080", "cds.cern.ch", "foo.org:50070", "a.b.c.d.example.museum", "137.138.4.5"]
PATHS = ["", "/", "/bar", "/bar/", "/a/b_c/d-e.pdf", "/~me/x.html", "/%7Eme/", "/x?a=1&b=2", "/record/12345", "/A/B/c.ps", "/1999/0123", "/x.tar.gz", "/x?id=hep-th", "/Phys", "/a/b/c/d/e/f/g/h/i/j.pdf"]
QUOTES = [("", ""), ('"', '"'), ("'", "'"), ("(", ")"), ("[", "]"), ("see ", ""), ("URL: ", "")]
LEFT = ["", "text, ", "A. Smith, ", "Phys. Rev. D 10 (1990) 20, ", "Phys. Rev. D 10 (1990) 20 ", "arXiv:1203.1234, ", "doi:10.1000/ab, ", "text; ", "CERN-PH-EP-2012-123 "]
RIGHT = ["", ".", ", and more text", ", arXiv:1203.1234", ", Phys. Lett. B 12 (1991) 34", ", doi:10.1000/ab", "; B. Jones", ", B. Other", ","]


def expect(url):
    return ("url", url)


def one(urls, lefts, rights):
    def scenario(ch):
        url = ch.pick("url", urls)
        quote = ch.pick("quote", QUOTES)
        left = ch.pick("left", lefts)
        right = ch.pick("right", rights)
        if right == "." and quote == ("see ", "") and url.endswith("/x"):
            raise Skip
        return {"line": "[1] " + left + quote[0] + url + quote[1] + right, "want": [["url", url]]}

    return scenario


def urls():
    return [s + h + p for s, h, p in itertools.product(SCHEMES, HOSTS, PATHS)]


def html(ch):
    url = ch.pick("url", ["http://foo.org/bar", "https://foo.org/", "http://cds.cern.ch/record/12?ln=en&of=hb", "ftp://foo.org/a.ps", "http://localhost:8080/~me/"])
    text = ch.pick("text", ["the page", "URL", url, "http://other.org/x", "Phys. Rev. D", "J. Doe's page", "see " + url, url + "x"])
    form = ch.pick("form", ['<a href="%s">%s</a>', "<a href='%s'>%s</a>", '<A HREF="%s">%s</A>', '<a  href = "%s" >%s</a>'])
    left = ch.pick("left", LEFT)
    right = ch.pick("right", RIGHT + [" and more", ". More"])
    want = [["url", url]]
    if text != url:
        want.append(["urldesc", text])
    return {"line": "[1] " + left + form % (url, text) + right, "want": want}


HANDLES = ["2128/12345", "10013/epic.12345", "1721.1/7582", "11858/00-001M-0000-0010-E5AF-8", "2128/a_b"]


def handles(ch):
    ident = ch.pick("handle", HANDLES)
    form = ch.pick("form", ["hdl:", "HDL:", "Hdl:", "http://hdl.handle.net/", "https://hdl.handle.net/"])
    left = ch.pick("left", LEFT)
    right = ch.pick("right", RIGHT + ([" (1999)", " and more", ". More"] if not form.startswith("http") else []))
    return {"line": "[1] " + left + form + ident + right, "want": [["hdl", "hdl:" + ident]]}


ITEMS = [
    ("http://foo.org/bar", ["url", "http://foo.org/bar"]),
    ("https://foo.org/", ["url", "https://foo.org/"]),
    ("ftp://foo.org/a.ps", ["url", "ftp://foo.org/a.ps"]),
    ("(http://foo.org/paren)", ["url", "http://foo.org/paren"]),
    ('"http://foo.org/quoted"', ["url", "http://foo.org/quoted"]),
    ("http://foo.org/x?a=1&b=2", ["url", "http://foo.org/x?a=1&b=2"]),
    ('<a href="http://foo.org/link">http://foo.org/link</a>', ["url", "http://foo.org/link"]),
    ("hdl:2128/12345", ["hdl", "hdl:2128/12345"]),
    ("https://hdl.handle.net/2128/6789", ["hdl", "hdl:2128/6789"]),
    ("https://foo.org:8080/~me", ["url", "https://foo.org:8080/~me"]),
]


def several(count, seps):
    def scenario(ch):
        text, want = "A. Author, ", []
        for k in range(count):
            item = ch.pick("item%d" % k, ITEMS)
            if k:
                text += ch.pick("sep%d" % k, seps)
            text += item[0]
            want.append(item[1])
        return {"line": "[1] " + text, "want": want}

    return scenario


def broken():
    for scheme, rest in itertools.product(["http://", "ftp://"], ["foo.org/bar", "foo.org/a/b.pdf", "www.foo.org/x.html"]):
        for position in range(1, len(scheme)):
            text = scheme[:position] + " " + scheme[position:] + rest
            yield {"line": "[1] A. Smith, quokka, %s, wombat" % text, "want": [["url", scheme + rest]]}
        for mask in range(1, 1 << (len(scheme) - 1)):
            text = "".join(c + (" " if mask >> k & 1 else "") for k, c in enumerate(scheme)) + rest
            yield {"line": "[1] A. Smith, quokka, %s, wombat" % text, "want": [["url", scheme + rest]]}
            yield {"line": "[1] A. Smith, quokka, %s, wombat, %s" % (text, text), "want": [["url", scheme + rest]] * 2}
    for host, path in itertools.product(["foo.org", "www.foo-bar.co.uk"], ["bar", "a/bcd", "a/b-c", "~me"]):
        # inside the host, before the slash
        for position in range(1, len(host) + 1):
            text = "http://" + host[:position] + " " + host[position:] + "/" + path
            yield {"line": "[1] A. Smith, quokka, %s, wombat" % text, "want": [["url", "http://" + host + "/" + path]]}
    for last in ["abc", "abcdefghij", "x_1-2.3"]:
        # inside the last part of the path at the end of the line
        for position in range(1, len(last)):
            for before in ("http://foo.org/", "http://foo.org/a/b/", "ftp://foo.org/a/"):
                yield {"line": "[1] A. Smith, quokka, %s%s %s" % (before, last[:position], last[position:]), "want": [["url", before + last]]}
    for extension in ["htm", "html", "txt", "php", "asp", "jsp", "py", "pl", "xml", "jpg", "gif", "mov", "swf", "pdf", "ps", "doc", "tex", "shtml"]:
        for before, up in itertools.product(["http://foo.org/", "http://foo.org/a/", "ftp://foo.org/a_b/c-d/1999/"], [str, str.upper]):
            for mask in range(1, 1 << len(extension)):
                text = "b." + "".join((" " if mask >> k & 1 else "") + c for k, c in enumerate(up(extension)))
                yield {"line": "[1] A. Smith, quokka, %s%s, wombat" % (before, text), "want": [["url", before + "b." + up(extension)]]}
    for extension in ["html", "pdf", "ps", "txt", "php", "doc"]:
        for position in range(1, len(extension)):
            url = "http://foo.org/a/b." + extension
            text = "http://foo.org/a/b." + extension[:position] + " " + extension[position:]
            yield {"line": "[1] A. Smith, quokka, %s, wombat" % text, "want": [["url", url]]}
            yield {"line": "[1] A. Smith, quokka, %s" % text, "want": [["url", url]]}


def run(case):
    result = impl.refs(case["line"])
    got = [[key, value] for ref in result for key in ("hdl", "url", "urldesc") for value in ref.get(key, [])]
    # a URL and a handle can share a reference: compare their sequences apart
    if any([v for k, v in got if k == key] != [v for k, v in case["want"] if k == key] for key in ("url", "urldesc", "hdl")):
        raise Violation("%r instead of %r: %r" % (got, case["want"], result))
    for ref in result:
        if len(ref.get("url", [])) > 1 or len(ref.get("hdl", [])) > 1:
            raise Violation("several URLs in one reference: %r" % result)
        for key in ("misc", "title", "author", "reportnumber", "publisher", "doi"):
            for value in ref.get(key, []):
                low = value.lower()
                if "://" in low or "foo" in low or "cern.ch" in low or "hdl" in low or "handle" in low or "<a" in low or "</" in low or "2128" in low:
                    raise Violation("part of a URL left in %s: %r" % (key, result))
                if any(ch in value for ch in "\"'"):
                    raise Violation("quote left in %s: %r" % (key, result))
    return impl.canon([sorted(r) for r in result])


def spaces(tier):
    deep = tier == "thorough"
    if deep:
        yield Space("one", one(urls(), LEFT, RIGHT), run, rule="URLs x notations x contexts", setup=impl.warm_small)
    else:
        yield Space("one", one(urls(), ["text, "], [", and more text", "; B. Jones", ""]), run, rule="URLs x notations", setup=impl.warm_small)
        yield Space("contexts", one(urls()[2:224:37], LEFT, RIGHT), run, rule="some URLs x notations x contexts")
    yield Space("html", html, run, rule="HTML links")
    yield Space("handles", handles, run, rule="handles in context")
    yield Space("two", several(2, [", ", "; ", ", text, ", ", and "]), run, rule="ordered pairs")
    yield Space("three", several(3, [", ", "; "] if deep else [", "]), run, rule="ordered triples")
    yield ListSpace("broken", lambda: broken(), run, rule="a blank inside the URL")
