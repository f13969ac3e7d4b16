"""Reference lines shared by several spaces: one per feature of the extractor."""

LINES = [
    "A. Author and B. Other, Phys. Rev. D 10 (1990) 20",
    "J. Doe et al., Nucl. Phys. B 123, 456 (1985)",
    "Phys. Lett. B 12 (1991) 34, ibid. 13 (1992) 35",
    "ibid. B 55 (1993) 66",
    "ibid 55, 66 (1993)",
    "55 (1993) 66",
    "A. Author, JHEP 03 (2003) 012",
    "C. Third, arXiv:1203.1234 [hep-th]",
    "D. Fourth, hep-th/9912345",
    "E. Fifth, hep-ph/0101234; F. Sixth, hep-ex/0202345",
    "doi:10.1103/PhysRevD.10.20",
    "A. Author, doi:10.1000/ab, doi:10.1000/cd",
    "see http://foo.org/bar",
    'see <a href="http://foo.org/baz">the page</a>',
    "hdl:2128/12345, some text",
    "A. Author, CERN-PH-EP-2012-123, FERMILAB-PUB-95-123",
    'A. Author, "A quoted title", Phys. Rev. Lett. 5 (1960) 7',
    'D. Griffiths, "Introduction to elementary particles", 2008',
    "M. Peskin and D. Schroeder, Introduction to Quantum Field Theory, 1995",
    "ISBN 978-3-16-148410-0, Springer, Berlin 1999",
    "ATLAS Collaboration, Phys. Lett. B 716 (2012) 1",
    "CMS Collaboration, S. Chatrchyan et al., Phys. Lett. B 716 (2012) 30",
    "private communication",
    "",
    "   ",
    "Cambridge University Press, 1999",
    "K. Seventh, Phys. Rev. 10 (1990) 20; Phys. Rev. 11 (1991) 21; 12 (1992) 22",
    "L. Eighth, Phys. Rev. D XII (1990) 20",
    "PoS LAT2005 (2006) 123",
    "Nucl. Phys. B (Proc. Suppl.) B12 (1990) 34",
    "Phys. Rev. Phys. Rev. Phys. Rev.",
    "DAN 10 (1990) 20",
    "J. Du\u0308rr, \u00e9tude \u2013 \u201ctitle\u201d, Phys. Rev. 1 (1950) 2",
    "M. Ninth, to appear in Phys. Rev. D",
    "N. Tenth (ed.), Springer 2001",
    "see also Phys. Rev. D10, 20 (1990) and references therein",
    "O. Eleventh, SLAC-PUB-12345, http://www.slac.edu/pubs/12345.pdf",
    "[2] P. Twelfth, Phys. Rev. 3 (1953) 4",
    "(a) Q. Thirteenth, Phys. Rev. 3 (1953) 4; (b) R. Last, Phys. Lett. B 4 (1970) 5",
    "<cds.URL /> <cds.DOI /> text",
]
