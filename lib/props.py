"""The properties' checks: which harnesses run, with which bounds."""

V = dict(EMPTY=1, NL=2, EOL=4, LIT=8, TEXT=16, FLAT=32, INDENT=64, CAT=128, CHOICE=256, CHECK=512,
         CHILD=1024, STYLE=2048, MARK=4096, COUNT=8192, FOLD=16384, LEFT=32768, RIGHT=65536, CHECKJ=131072, CANON=1 << 30)


def voc(s):
    return sum(V[x] for x in s.split())


Q, T = ("quick", "thorough"), ("thorough",)

# flags of gen_doc
SYM_CHILD, INDENT_LABEL, NODE_STYLE, ANY_TEXT, NO_VALIDATE, ROOT_TEXT, GEN_ALL = 1, 2, 4, 8, 16, 32, 64

# document shapes (children of each node), by bit
SHAPES = ["a single node", "a node with one child", "two children", "a chain of three nodes", "two children, the first with a child",
          "two children, the second with a child", "three children", "two children with a child each", "four children",
          "two children, the first with two"]


def shapes(mask):
    return "; ".join(s for i, s in enumerate(SHAPES) if mask >> i & 1)


def run(entry, params, about, bounds, tiers=Q, covers=(), **kw):
    return dict(entry=entry, params=list(params), about=about, bounds=bounds, tiers=tiers, covers=list(covers), **kw)


def words(s):
    return ", ".join(x for x in V if voc(s) & V[x])


def docs(entry, mask, size, root, lo, hi, flags, about, tiers=Q, covers=(), inner=None, leaf="NL LIT TEXT CAT CHOICE", **kw):
    """A run of one of the harnesses over generated documents."""
    inner = root if inner is None else inner
    b = ("every document of a shape among {%s}, with notations of up to %d constructors in all; constructors: root {%s}, inner nodes {%s}, leaves {%s}; "
         "every literal, text and indentation width %d..%d and every printing width 0..65535%s"
         % (shapes(mask), size, words(root), words(inner), words(leaf), lo, hi,
            "".join(t for f, t in ((SYM_CHILD, "; symbolic child indices, in and out of range"), (INDENT_LABEL, "; styled indentation"), (NODE_STYLE, "; node styles"),
                                   (ROOT_TEXT, "; the root may be a text node"), (1 << 26, "; nodes may share one notation"),
                                   (1 << 22, "; strings of other than ASCII characters, of concrete lengths in four alphabets")) if flags & f)))
    return run(entry, [mask, size, voc(root), voc(inner), voc(leaf), lo, hi, flags], about, b, tiers, covers, **kw)


# alternatives in templates (see tmpl.rs), by number
WRAPS = ["X", "flat(X)", "style(X)", "indent(nl X)", "indent(indent(nl X))", "count(l, l child, X)", "flat(X) | indent(nl X)", "l X l", "X (l | nl l)",
         "X eol nl l", "flat(indent(count(..)))", "style(l style(X) l)", "(l | nl) X", "indent(X) nl l", "style(X) l", "flat(X) (l | nl l)",
         "check(X, nl X)", "check(last child, X, nl X)", "mark X", "X mark", "(l | nl l) flat(X)", "l eol nl X nl l", "l X | l nl X", "l indent(nl X) nl l",
         "X | (nl X | nl l nl X)", "l flat(X) | check(nl X, l)", "(l | nl l) eol X", "l X | l X", "(l | l) X", "X (l | l)"]
JOINS = ["L R", "L l R", "L l flat(R)", "L (l | nl) R", "L check(left, l, nl) R", "L check(right, l, nl) R", "style(L) R", "L style(R)", "L nl R",
         "flat(L) (l | nl) R", "L indent(nl R)", "flat(L) l flat(R) | L nl R", "R l L", "L eol nl R", "check(L l R, L nl R)", "R", "L", "indent(L) nl R",
         "L (l | nl l) R", "L nl style(l R)", "L l check(left, check(right, nl nl, nl), empty | nl) R", "L (l R | nl l R)", "l L l R"]
FIRSTS = ["child", "l child", "style(child)", "child (l | nl)", "flat(child)", "indent(nl child)", "check(child, l child, nl l child)", "l child | nl l child", "l"]
ROWS = ["C C", "C l C", "C nl C", "C (l | nl) C", "C eol nl C", "C (l | nl l) C", "C check(child, l, nl) C", "C (l | indent(nl)) C", "C l nl C, associated to the left"]
LEAVES = ["l", "text", "l | l", "l nl l", "l mark l", "l text mark l", "l | nl l", "l eol", "node around a text", "empty", "fold over two nodes", "check(l, nl)",
          "flat(l (l | nl))", "style(l) l", "l indent(nl l)", "nl text nl", "l nl mark nl l", "style(text)", "l eol nl l eol", "node with a choice and two children",
          "node around a mark", "mark", "l nl l nl text l", "empty | nl l", "l eol | nl l"]
TEMPLATE, FOREIGN, ALIKE, DOUBLE, TEXTS, SHARE = 1 << 21, 1 << 22, 1 << 23, 1 << 24, 1 << 25, 1 << 26


def bits(s):
    """Mask of "0-3,5"."""
    r = 0
    for x in s.split(","):
        a, b = (x.split("-") + [x])[:2]
        for i in range(int(a), int(b) + 1):
            r |= 1 << i
    return r


def some(names, mask):
    return "{%s}" % "; ".join(n for i, n in enumerate(names) if mask >> i & 1)


def tmpl(entry, family, kids, budget, wraps="0", bodies="0", firsts="0", leaves="0", lo=0, hi=3000, flags=0, about="documents made from templates", tiers=Q, covers=(), **kw):
    """A run of one of the harnesses over documents made from templates (family 1: a fold, 2: children in a row, 3: a chain of nodes)."""
    w, b, f, l = bits(wraps), bits(bodies), bits(firsts), bits(leaves)
    if family == 3:
        what = "every chain of %d to %d nodes, each node's notation among %s around its child" % (*kids, some(WRAPS, w))
    else:
        body = "a fold with first %s and join %s" % (some(FIRSTS, f), some(JOINS, b)) if family == 1 else "the children in a row, joined as in %s" % some(ROWS, b)
        what = "every root over %d to %d children, with X being %s, wrapped as in %s%s" % (*kids, body, some(WRAPS, w), ", twice" if flags & DOUBLE else "")
    text = "%s; %s among %s; at most %d of these choices other than the first in its list; every literal and text width %d..%d%s; every printing width 0..65535%s" % (
        what, "all children" if flags & ALIKE else "one leaf", some(LEAVES, l), budget, lo, hi, " (concrete lengths in four alphabets other than ASCII)" if flags & FOREIGN else "",
        "".join(t for m, t in ((INDENT_LABEL, "; styled indentation"), (NODE_STYLE, "; node styles"), (SHARE, "; nodes that are alike share one notation")) if flags & m))
    return run(entry, [family, kids[0] * 1000 + kids[1], w, b | f << 32, l, lo, hi, flags | TEMPLATE | budget << 40], about, text, tiers, covers, **kw)


# for layouts, for foci, for documents that display each node at most once
LAYOUT = dict(wraps="0-17,20-29", bodies="0-22", firsts="0-8", leaves="0-3,6-14,18-19,22-24")
EOLS = dict(LAYOUT, wraps="9,0-3,7-8,12-13,20-21,26", bodies="13,0-3,8", leaves="7,0-3,6,14,18,23,24")
CHILDREN = dict(wraps="5,0-4,7,10,13,16,17", bodies="1,0,2,4-8,10,12,14-17,19,20,22", firsts="0-6,8", leaves="0,1,3,8-11,20")
STYLES = dict(LAYOUT, leaves="0-3,6-14,17-19,22")
FOCUS = dict(wraps="0-19,21,23,25", bodies="0-14,17-22", firsts="0-7", leaves="0,1,3-8,10,14-16,20-22")


def tmpls(entry, sel, one, two, chain, deep=(), tiers=Q, **kw):
    """Templates of all families: `one` choice with that many children, `two` choices, chains with one and with two or three choices."""
    fold = sel
    row = dict(sel, bodies="0-8", firsts="0")
    link = dict(wraps="7,0-6,8-17,21,23" if sel is not LAYOUT else "7,0-6,8-17,20-29", leaves=sel["leaves"])
    r = []
    if one:
        r += [tmpl(entry, f, one, 1, tiers=tiers, **dict(x, **kw)) for f, x in ((1, fold), (2, row))]
    if two:
        r += [tmpl(entry, f, two, 2, tiers=tiers, **dict(x, **kw)) for f, x in ((1, fold), (2, row))]
    if chain:
        r += [tmpl(entry, 3, chain, 1, tiers=tiers, **dict(link, **kw))]
    if deep:
        r += [tmpl(entry, 3, deep[:2], deep[2], tiers=tiers, **dict(link, **kw))]
    return r


def longs(entry, tiers=Q, n=66, lo=1, hi=1, **kw):
    """Documents of many nodes and lines, from any focus."""
    a = dict(lo=lo, hi=hi, tiers=tiers, about="documents of many lines", **kw)
    return [*(tmpl(entry, 2, (n, n), 0, bodies=b, **a) for b in "024"), *(tmpl(entry, 3, (n, n), 0, wraps=w, **a) for w in ("7", "21", "23")[:3 if n < 100 else 2]),
            *(tmpl(entry, 1, (n, n), 0, bodies=b, **a) for b in ("1", "8", "13")), tmpl(entry, 1, (20, 20), 1, bodies="3,18", **a)]


LAY = "NL EOL LIT FLAT INDENT CAT CHOICE"
BASIC = "NL LIT TEXT CAT CHOICE CHILD"
JOIN = "FOLD LEFT RIGHT CHECKJ"

PROPS = {}


def prop(id, title, *runs, **kw):
    PROPS[id] = dict(title=title, runs=list(runs), **kw)


def lay(lo, hi, tiers=Q):
    return run("h_layout", [lo, hi, voc(LAY), 0, 3000], "printing from the top against the reference layout, one node",
               "all valid single-node notations of %d to %d constructors over newline, end-of-line, literal, flat, indent, concat, choice; "
               "every literal and indentation width 0..3000; every printing width 0..65535" % (lo, hi), tiers, covers=[1, 2, 3])


prop("C01", "Layout follows the documented choice rule",
     lay(1, 7), lay(8, 8),
     docs("h_text", 6, 6, "NL LIT FLAT INDENT CAT CHOICE CHILD", 0, 3000, 0, "several nodes against the reference layout", leaf="NL LIT CAT CHOICE"),
     lay(9, 9, T),
     docs("h_text", 6 | 8 | 16, 8, "NL LIT FLAT INDENT CAT CHOICE CHILD", 0, 3000, 0, "the same, larger", T, leaf="NL LIT CAT CHOICE"),
     *tmpls("h_text", LAYOUT, (0, 6), (3, 3), (1, 8), (3, 3, 2), about="larger documents made from templates against the reference layout", covers=[1, 2, 3]),
     *tmpls("h_text", LAYOUT, (1, 3), (2, 2), (1, 4), lo=0, hi=3, flags=FOREIGN, about="the same, with other than ASCII characters"),
     *longs("h_text"), *longs("h_text", n=260),
     docs("h_text", 100, 6, "NL LIT FLAT CAT CHOICE CHILD", 0, 3000, SHARE, "nodes that share a notation", leaf="NL LIT TEXT CAT CHOICE"),
     *tmpls("h_text", LAYOUT, (2, 3), (), (2, 4), lo=0, hi=3, flags=FOREIGN | SHARE, about="the same, with other than ASCII characters"),
     *tmpls("h_text", LAYOUT, (7, 10), (2, 5), (9, 14), (4, 5, 3), tiers=T, about="the same, larger"),
     *tmpls("h_text", LAYOUT, (1, 3), (2, 2), (1, 4), lo=0, hi=3, flags=FOREIGN | ALIKE, tiers=T, about="the same, with other than ASCII characters"))

prop("C02", "The printed lines do not depend on the focus",
     docs("h_same_lines", 14, 6, "NL EOL LIT TEXT CAT CHOICE CHILD MARK", 0, 6, 0, "lines above, at and below every focus against printing from the top",
          leaf="NL LIT TEXT CAT"),
     docs("h_same_lines", 14, 8, "NL EOL LIT TEXT CAT CHOICE CHILD MARK", 0, 6, 0, "the same, larger", T, leaf="NL LIT TEXT CAT CHOICE"),
     *tmpls("h_same_lines", FOCUS, (2, 4), (2, 2), (1, 6), (3, 3, 2), about="lines above, at and below every focus, in documents made from templates"),
     docs("h_same_lines", 36, 6, "NL LIT CAT CHOICE CHILD", 0, 6, SHARE, "nodes that share a notation", leaf="NL LIT TEXT CAT CHOICE"),
     *tmpls("h_same_lines", FOCUS, (2, 2), (), (1, 4), lo=0, hi=3, flags=FOREIGN | SHARE, about="the same, with other than ASCII characters"),
     *longs("h_same_lines"), *longs("h_same_lines", T, 260),
     *tmpls("h_same_lines", FOCUS, (5, 6), (2, 3), (7, 9), (4, 4, 3), tiers=T, about="the same, larger"),
     *tmpls("h_same_lines", FOCUS, (3, 4), (), (4, 5), lo=0, hi=3, flags=FOREIGN, tiers=T, about="the same, with other than ASCII characters"))

prop("C03", "The focus is exactly where it was asked to be",
     docs("h_position", 14, 6, "NL EOL LIT TEXT CAT CHOICE CHILD MARK", 0, 6, 0, "position of every focus target in every node",
          leaf="NL LIT TEXT CAT MARK"),
     docs("h_position", 14, 7, "NL EOL LIT TEXT CAT CHOICE CHILD MARK", 0, 6, 0, "the same, larger", T, leaf="NL LIT TEXT CAT MARK"),
     *tmpls("h_position", FOCUS, (2, 4), (2, 2), (1, 6), (3, 3, 2), about="position of every focus target in every node, in documents made from templates"),
     docs("h_position", 100, 6, "NL LIT CAT CHOICE CHILD", 0, 6, SHARE, "nodes that share a notation", leaf="NL LIT TEXT CAT CHOICE MARK"),
     *tmpls("h_position", FOCUS, (2, 2), (), (1, 4), lo=0, hi=3, flags=FOREIGN | SHARE, about="the same, with other than ASCII characters"),
     *longs("h_position"), *longs("h_position", T, 260),
     *tmpls("h_position", FOCUS, (5, 6), (2, 3), (7, 9), (4, 4, 3), tiers=T, about="the same, larger"),
     *tmpls("h_position", FOCUS, (3, 4), (), (4, 5), lo=0, hi=3, flags=FOREIGN, tiers=T, about="the same, with other than ASCII characters"))

prop("C04", "What cannot be focused on is reported precisely",
     docs("h_missing", 14, 6, "NL EOL LIT TEXT CAT CHOICE CHILD MARK", 0, 6, 0, "paths and targets that do not exist", leaf="NL LIT TEXT CAT MARK"),
     docs("h_missing", 14, 7, "NL EOL LIT TEXT CAT CHOICE CHILD MARK", 0, 6, 0, "the same, larger", T, leaf="NL LIT TEXT CAT MARK"),
     *tmpls("h_missing", FOCUS, (2, 4), (2, 2), (1, 6), (3, 3, 2), about="paths and targets that do not exist, in documents made from templates"),
     *tmpls("h_missing", FOCUS, (2, 2), (), (1, 4), lo=0, hi=3, flags=FOREIGN, about="the same, with other than ASCII characters"),
     *longs("h_missing"), *longs("h_missing", T, 260),
     *tmpls("h_missing", FOCUS, (5, 6), (2, 3), (7, 9), (4, 4, 3), tiers=T, about="the same, larger"),
     *tmpls("h_missing", FOCUS, (3, 4), (), (4, 5), lo=0, hi=3, flags=FOREIGN, tiers=T, about="the same, with other than ASCII characters"))

prop("C05", "Nothing is printed after an end-of-line on its line",
     run("h_promise", [1, 6, voc("NL EOL LIT TEXT FLAT INDENT CAT CHOICE CHECK")], "validated notations never print text after an end of line",
         "all notations of up to 6 constructors; every width", covers=[1]),
     docs("h_text", 14, 6, "NL EOL LIT TEXT CAT CHOICE CHILD", 0, 3000, 0, "end-of-line across node boundaries, against the reference layout", leaf="NL EOL LIT CAT"),
     docs("h_same_lines", 14, 7, "EOL LIT CAT CHILD MARK", 0, 6, 0, "text after an end-of-line is reported from every focus", leaf="EOL LIT CAT MARK TEXT", covers=[3]),
     run("h_promise", [7, 7, voc("NL EOL LIT TEXT FLAT INDENT CAT CHOICE CHECK")], "the same", "7 constructors", T, covers=[1]),
     docs("h_text", 14, 8, "NL EOL LIT TEXT CAT CHOICE CHILD", 0, 3000, 0, "the same, larger", T, leaf="NL EOL LIT CAT"),
     *tmpls("h_text", EOLS, (1, 6), (2, 4), (1, 8), (3, 4, 3), about="end-of-line across nodes in documents made from templates", covers=[3]),
     *tmpls("h_text", EOLS, (5, 8), (2, 5), (7, 9), (4, 5, 3), tiers=T, about="the same, larger"))

prop("C06", "Children, count, fold and check display what they describe",
     docs("h_text", 7, 6, "NL LIT INDENT CAT CHOICE CHECK CHILD COUNT " + JOIN, 0, 3000, SYM_CHILD, "child, count, fold and check against the reference layout", leaf="NL LIT TEXT"),
     docs("h_text", 2 | 4 | 64 | 256, 8, "NL LIT INDENT CAT CHILD " + JOIN, 0, 3000, 0, "folds over up to four children", leaf="LIT"),
     docs("h_text", 7, 7, "NL LIT INDENT CAT CHOICE CHECK CHILD COUNT " + JOIN, 0, 3000, SYM_CHILD, "the same, larger", T, leaf="NL LIT TEXT"),
     *tmpls("h_text", CHILDREN, (0, 7), (2, 4), (1, 5), (3, 3, 2), about="child, count, fold and check in larger documents", covers=[3]),
     *longs("h_text", n=99), *longs("h_text", n=259),
     *tmpls("h_text", CHILDREN, (8, 10), (5, 6), (6, 8), (4, 4, 3), tiers=T, about="the same, larger"))

prop("C07", "Styles compose from the root inward and never leak",
     docs("h_styles", 68, 7, "NL LIT INDENT CAT CHILD STYLE FOLD LEFT RIGHT", 0, 6, INDENT_LABEL | NODE_STYLE, "style of every segment", leaf="LIT TEXT"),
     docs("h_styles", 68, 8, "NL LIT INDENT CAT CHILD STYLE FOLD LEFT RIGHT", 0, 6, INDENT_LABEL | NODE_STYLE, "the same, larger", T, leaf="LIT TEXT"),
     *tmpls("h_styles", STYLES, (0, 5), (2, 3), (1, 6), (2, 4, 2), flags=INDENT_LABEL | NODE_STYLE, about="style of every segment of larger documents", covers=[3]),
     *longs("h_styles", flags=INDENT_LABEL | NODE_STYLE), *longs("h_styles", n=130, flags=INDENT_LABEL),
     *tmpls("h_styles", STYLES, (6, 9), (4, 5), (7, 9), (4, 5, 3), flags=INDENT_LABEL | NODE_STYLE, tiers=T, about="the same, larger"))

MIS = "NL LIT TEXT FLAT CAT CHECK CHILD MARK COUNT " + JOIN
prop("C09", "A document that does not fit its notation is reported, not printed wrong",
     docs("h_mismatch", 7, 5, BASIC, 0, 6, SYM_CHILD | ANY_TEXT | ROOT_TEXT, "text and children where there are none", covers=[1, 2], leaf=BASIC),
     docs("h_mismatch", 7, 4, MIS, 0, 6, SYM_CHILD | ANY_TEXT | ROOT_TEXT, "all constructors", covers=[1, 2], leaf=MIS),
     docs("h_mismatch", 7, 5, "EMPTY LIT CHECK CHILD COUNT", 0, 6, SYM_CHILD | ANY_TEXT | ROOT_TEXT, "conditions and empty notations", covers=[1, 2], leaf="EMPTY LIT CHECK CHILD COUNT"),
     docs("h_text", 7, 5, "NL LIT TEXT FLAT CAT CHECK CHILD COUNT " + JOIN, 0, 3000, SYM_CHILD | ANY_TEXT | ROOT_TEXT,
          "which error is reported", leaf="NL LIT TEXT FLAT CAT CHECK CHILD COUNT " + JOIN),
     docs("h_mismatch", 7, 5, MIS, 0, 6, SYM_CHILD | ANY_TEXT | ROOT_TEXT, "all constructors, larger", T, covers=[1, 2], leaf=MIS))

DOCV = "NL LIT INDENT CAT CHECK CHILD STYLE " + JOIN
prop("C10", "Errors of the document are propagated unchanged",
     docs("h_faults", 14, 6, BASIC, 0, 6, 0, "every call of the document fails in turn", covers=[1, 2, 3], leaf="NL LIT TEXT CAT"),
     docs("h_faults", 2 | 4 | 64, 5, DOCV, 0, 6, INDENT_LABEL, "with styles, conditions and folds", covers=[1, 2, 3], leaf="LIT TEXT"),
     docs("h_faults", 2 | 4 | 64, 6, DOCV, 0, 6, INDENT_LABEL, "the same, larger", T, covers=[1, 2, 3], leaf="LIT TEXT"),
     *tmpls("h_faults", FOCUS, (2, 3), (), (1, 3), hi=6, about="every call of the document fails in turn, in documents made from templates", covers=[1, 2, 3]),
     *tmpls("h_faults", FOCUS, (4, 4), (2, 2), (4, 6), (3, 3, 2), hi=6, tiers=T, about="the same, larger"))

ASK = "LIT TEXT CAT CHECK CHILD COUNT FOLD LEFT RIGHT"
prop("C11", "The document is only asked what it can answer",
     docs("h_contract", 7, 4, MIS, 0, 6, SYM_CHILD | ANY_TEXT | ROOT_TEXT, "text, children and conditions are only asked of nodes that have them", covers=[1, 2, 3], leaf=MIS),
     docs("h_contract", 7, 5, ASK, 0, 6, SYM_CHILD | ANY_TEXT | ROOT_TEXT, "the same, larger, with fewer constructors", covers=[1, 2], leaf=ASK),
     docs("h_contract", 7, 5, MIS, 0, 6, SYM_CHILD | ANY_TEXT | ROOT_TEXT, "the same, with all constructors", T, covers=[1, 2, 3], leaf=MIS),
     docs("h_defaults", 2 | 4 | 64 | 256, 6, DOCV, 0, 6, 0, "the default methods agree with walking over the children", covers=[1], leaf="LIT TEXT"),
     *longs("h_contract"),
     docs("h_contract", 71, 6, MIS, 0, 6, SYM_CHILD | ANY_TEXT | ROOT_TEXT, "the same, larger", T, covers=[1, 2, 3], leaf=MIS),
     docs("h_defaults", 2 | 4 | 64 | 256, 7, DOCV, 0, 6, 0, "the same, larger", T, covers=[1], leaf="LIT TEXT"),
     *tmpls("h_contract", FOCUS, (0, 5), (2, 2), (1, 6), hi=6, about="what is asked of documents made from templates", covers=[1]),
     *tmpls("h_defaults", FOCUS, (0, 5), (2, 4), (1, 6), hi=6, about="the default methods, in documents made from templates"),
     *tmpls("h_contract", FOCUS, (6, 6), (3, 4), (7, 8), (3, 4, 2), hi=6, tiers=T, about="the same, larger"))


def lazy(kids, size, flags, tiers=Q):
    return run("h_lazy", [kids, size, voc("NL LIT FLAT INDENT CAT CHOICE"), 0, 6, flags],
               "which nodes are touched when %s" % ("a document is shown in a pane" if flags & 1 else "few lines are asked for"),
               "%d children with a child each, %s, notations of up to %d constructors in all; every focused child, start or end; %s; every literal width 0..6, every printing width 0..65535"
               % (kids, "one after the other, the second a newline" if flags & 2 else "on lines of their own", size,
                  "windows of 1 to 3 rows, focus heights 0, 0.5, 1, the pane of its own size or Dynamic" if flags & 1 else "0 to 2 lines above and below"),
               tiers, covers=[1])


prop("C12", "Printing is partial: distant parts of the document are not visited",
     lazy(3, 5, 0), lazy(5, 5, 0), lazy(3, 4, 1), lazy(3, 6, 2), lazy(4, 5, 3),
     lazy(4, 7, 0, T), lazy(3, 5, 1, T), lazy(4, 8, 2, T), lazy(4, 7, 3, T))

prop("C13", "Validation rejects exactly the documented flaws",
     run("h_validate_nested", [2, 3], "larger notations against the documented rules", "three of 14 atoms (all children and checked children of any index) in two of 24 notations around them", covers=list(range(1, 15)) + [20]),
     run("h_validate_nested", [3, 2], "the same", "two atoms in three notations around them", covers=list(range(1, 15)) + [20]),
     run("h_validate_nested", [4, 1], "the same", "one atom in four notations around it", covers=list(range(1, 15)) + [20]),
     run("h_validate_nested", [3, 3], "the same", "three atoms in three notations around them", T, covers=list(range(1, 15)) + [20]),
     run("h_validate", [1, 5, 260030, 0], "every notation against the documented rules", "all notations of up to 5 constructors over every constructor",
         covers=[20]),
     run("h_validate", [6, 6, 260030, 0], "the same", "6 constructors", T, covers=[20]))


def pane(entry, params, about, bounds, tiers=Q, covers=(), **kw):
    return run(entry, params, about, bounds, tiers, covers, **kw)


def divide(n, ln, fx, w, v, tiers=Q, covers=(1, 2, 3)):
    return run("h_divide", [n, ln, fx, w, v], "%s division of space" % ["horizontal", "vertical"][v],
               "up to %d panes, each fixed (every size 0..%d) or proportional (weights among the first %d of 1, 0, 2, 3, 7, 5, 100, usize::MAX, usize::MAX-1); "
               "every length 0..%d" % (n, fx, w, ln), tiers, covers)


def many(lo, hi, ln, v, tiers=Q):
    return run("h_divide_many", [lo, hi, ln, v], "%s division among many panes" % ["horizontal", "vertical"][v],
               "%d to %d proportional panes with weights of seven patterns (all equal, alternating, with zeros, 1 to 9, usize::MAX); every length 0..%d" % (lo, hi, ln), tiers, [1])


def content(entry, p, tiers=Q, covers=(1, 2), about="the cells and the focus against the printed document"):
    rich = p[4]
    return run(entry, p, about,
               "documents of up to %d lines, each of every width 0..%d%s; windows of up to %d x %d; %sfocus at the root or any line%s; width strategies: %s"
               % (p[0], p[1], " (also with full-width characters, styles and choices)" if rich & 1 else "", p[2], p[3],
                  "focus heights 0, 0.25, 0.5, 0.75, 1; " if rich & 8 else "", ", start or end" if rich & 2 else "",
                  "full, fixed or at most any of 0..65535" if rich & 4 else "full"), tiers, covers)


WIDE = "NL LIT FLAT INDENT CAT CHOICE CHILD"
prop("C14", "Very wide text neither overflows nor wraps around",
     docs("h_wide", 6, 6, WIDE, 0, 200000, 0, "wide texts, from every focus, against the reference layout", covers=[1], leaf="NL LIT TEXT CAT CHOICE"),
     docs("h_wide", 6, 4, WIDE, 0, 1 << 24, 0, "very wide texts", covers=[1], leaf="NL LIT TEXT CAT CHOICE"),
     run("h_wide_panes", [3, 200000], "panes at the far end of large windows",
         "windows of 62535..65535 columns or 4294964295..4294967295 rows; the last pane 0..3 cells in size; text of every width 0..200000", covers=[1, 2]),
     run("h_focus_row", [8], "the row of the focus line in tall panes (no symbolic inputs: a list of heights)",
         "27 pane heights around powers of two up to 2^32 - 1; focus heights 0, 1/8, .., 1", covers=[1]),
     docs("h_wide", 14, 7, WIDE, 0, 200000, 0, "the same, larger", T, covers=[1], leaf="NL LIT TEXT CAT CHOICE"))


def json_run(n, depth, flags, tiers=Q, lo=1):
    return run("h_json", [n, depth, 3000, flags, lo], "the example's output and colours against its documented layout",
               "JSON with up to %d entries in all, nested up to %d deep%s%s%s%s; every string length %d..3000; every width 0..65535"
               % (n, depth, "; comments" if flags & 1 else "", "; several roots" if flags & 2 else "", "; children taken from other trees" if flags & 4 else "",
                  "; numbers of nine sizes, comments of up to 4 words with any white space" if flags & 16 else "", lo),
               tiers, covers=[1, 2])


prop("C19", "The JSON example prints valid, documented JSON",
     json_run(1, 1, 0, lo=0), json_run(3, 2, 0), json_run(3, 2, 1), json_run(3, 2, 3), json_run(3, 2, 5), json_run(2, 2, 8), json_run(1, 1, 16, lo=0), json_run(1, 1, 17), json_run(1, 1, 19),
     json_run(4, 3, 1, T), json_run(5, 2, 3, T), json_run(2, 1, 17, T))

prop("C08", "Constructors and operators build the notation they stand for",
     run("h_constructors", [1, 70, 0], "every constructor and operator against the notation written out by hand",
         "one constructor with arguments around leaves; every child index and label; nesting by every width 0..70; strings of up to 2 ASCII characters, or one of four others", covers=[1]),
     run("h_constructors", [2, 3, 0], "the same, nested", "two constructors with arguments; nesting by every width 0..3", covers=[1]),
     *(run("h_constructors", [n, 0, 1], "the same, nested deeper", "%d constructors with arguments, with leaves in turn; every child index and label" % n, Q if n < 5 else T, covers=[1])
       for n in (3, 4, 5)),
     run("h_constructors", [1, 400, 0], "the same, nested by large widths", "one constructor with arguments; nesting by every width 0..400", T, covers=[1]))

prop("C24", "The example style combines and is named as documented",
     run("h_basic_style", [0], "combination of two styles", "all pairs of styles"),
     *(run("h_style_label", [n], "the style of a label", "every ASCII label of %d characters" % n, Q if n < 15 else T, [1, 2] if 3 <= n <= 12 else [2]) for n in range(0, 19)))

prop("C25", "The example tree answers as it was made",
     run("h_example_tree", [5, 2], "every method of a tree against how it was made", "up to 5 nodes below the root, two levels; symbolic comment marks, styles and labels, texts of six characters of lengths 0..3000 and six others", covers=[1]),
     run("h_example_tree", [6, 3], "the same", "up to 6 nodes below the root, three levels", T, covers=[1]))

def round_trip(n, mode, tier=Q):
    return run("h_round_trip", [n, mode], "a notation through a format (%s)" % ["by name", "by name, fields in another order", "by number and position"][mode],
               "every notation of %d sub-notation(s) around leaves; every index, label and condition; strings of up to 2 characters" % n, tier, covers=[1])


prop("C26", "A serialized notation reads back as it was",
     round_trip(1, 0), round_trip(1, 1), round_trip(1, 2), round_trip(2, 0), round_trip(2, 1), round_trip(2, 2, T))

def again(r, about, second=(0, 0, 0, 0, 0, 0, 0, 0), what="of the same document"):
    """After another print."""
    return dict(r, params=r["params"] + list(second), about=about, covers=[1],
                bounds=r["bounds"] + "; before it, another print " + what + ", with every width and focus, which is read to its end after the second one")


TWIN = (0, 1, 0, 0, 0, 0, 0, SHARE)
TWINS = "of a document whose nodes share their notations with this one's and differ in texts, styles and conditions"
HIST = "NL EOL LIT TEXT CAT CHOICE CHILD CHECK"


def after(tiers, mask, size, one, chain, deep, flags=0):
    h = docs("h_history", mask, size, "NL LIT CAT CHOICE CHILD STYLE", 0, 6, INDENT_LABEL | flags, "", tiers, leaf="NL LIT TEXT CAT STYLE")
    ts = tmpls("h_history", FOCUS, one, (), chain, deep, lo=0, hi=3 if flags & FOREIGN else 6, flags=flags | SHARE, tiers=tiers)
    return [again(h, "a document is printed again"),
            again(h, "another document with the same notations comes first", TWIN, TWINS),
            *[again(t, "documents made from templates are printed again") for t in ts if not flags & FOREIGN],
            *[again(t, "the same, after another document with the same notations", TWIN, TWINS) for t in ts]]


prop("C27", "Printing depends on nothing but its arguments",
     docs("h_schedule", 14, 6, "NL EOL LIT TEXT CAT CHOICE CHILD", 0, 6, 0, "lines above and below in any interleaving", covers=[1], leaf="NL LIT TEXT CAT"),
     *tmpls("h_schedule", FOCUS, (2, 2), (), (1, 3), hi=6, about="the same, in documents made from templates", covers=[1]),
     *after(Q, 14, 5, (2, 2), (1, 3), ()),
     *after(Q, 14, 5, (2, 2), (1, 2), (), FOREIGN),
     again(docs("h_history", 6, 4, "NL LIT CAT CHOICE CHILD STYLE", 0, 6, INDENT_LABEL, "", Q, leaf="NL LIT TEXT CAT STYLE"),
           "another document with the same node ids comes first", (6, 3, voc("NL LIT CAT CHOICE CHILD STYLE"), voc("NL LIT CAT CHOICE CHILD STYLE"), voc("NL LIT TEXT CAT STYLE"), 0, 6, 0),
           "of another document of one of these shapes, with notations of up to 3 constructors in all"),
     docs("h_schedule", 14, 7, "NL EOL LIT TEXT CAT CHOICE CHILD", 0, 6, 0, "the same, larger", T, covers=[1], leaf="NL LIT TEXT CAT"),
     *after(T, 14, 6, (3, 3), (4, 5), (3, 3, 2)))

def work(*a, **kw):
    r = tmpl("h_work", *a, about="number of questions asked of documents of many nodes", covers=[1], **kw)
    return dict(r, params=r["params"] + [24], bounds=r["bounds"] + "; documents of 60 nodes or more with and without methods of their own for the last child and the previous sibling; at most 24 questions per node and choice")


PLAIN = dict(wraps="0-4,7,9,11,13,14,18,19,21,23", bodies="0-2,6-8,10,12,13,15-17,19,22", firsts="0-2,4,5", leaves="0,1,3,4,7,8,10,13,14", hi=6)
prop("C28", "Printing takes no more work than the choices require",
     work(3, (8, 8), 2, wraps="6,0,2,3,8,12,22,24", leaves="0,1,2,6", hi=6),
     work(3, (24, 24), 1, wraps="0,2,3,6,8,12,22,24", leaves="0,1,2,6", hi=6),
     work(3, (40, 40), 0, wraps="6", leaves="0", hi=6),
     work(3, (40, 40), 0, wraps="24", leaves="0", hi=6),
     work(3, (12, 12), 1, wraps="6,12,22", leaves="0,1,2,6", lo=1, hi=1),
     work(3, (12, 12), 1, wraps="12,22,24", leaves="0,1,2,6", lo=1, hi=1),
     *(work(3, (20, 20), 0, wraps=w, leaves="0", lo=1, hi=1) for w in ("22", "27", "28", "29")),
     work(3, (12, 12), 1, wraps="27,28,29", leaves="0,1,2,6", lo=1, hi=1),
     work(3, (20, 20), 0, wraps="12", leaves="0", lo=1, hi=1),
     work(1, (8, 8), 1, **dict(LAYOUT, leaves="0,1,6", lo=1, hi=1)),
     work(2, (8, 8), 1, wraps=LAYOUT["wraps"], bodies="0-8", firsts="0", leaves="0,1,6", lo=1, hi=1),
     work(1, (24, 24), 1, **PLAIN), work(2, (24, 24), 1, **dict(PLAIN, bodies="0-2,4,8", firsts="0")),
     work(3, (40, 40), 1, **PLAIN),
     *(work(f, (n, n), 0, lo=1, hi=1, **{k: x}) for n in (66, 130) for f, k, x in ((1, "bodies", "0"), (1, "bodies", "8"), (2, "bodies", "0"), (2, "bodies", "2"), (3, "wraps", "7"))),
     work(3, (14, 14), 2, wraps="6,0,8,12,22,24", leaves="0,1,2,6", lo=1, hi=2, tiers=T),
     work(3, (60, 60), 0, wraps="6", leaves="0", hi=6, tiers=T),
     work(1, (16, 16), 1, **dict(LAYOUT, leaves="0,1,6", lo=1, hi=1, tiers=T)),
     work(1, (16, 16), 2, **dict(PLAIN, tiers=T)))

prop("C15", "Space is divided among panes as documented",
     divide(3, 5, 3, 4, 0), divide(3, 5, 3, 4, 1), divide(2, 12, 6, 9, 0), divide(2, 8, 6, 9, 1),
     many(5, 8, 20, 0), many(33, 33, 18, 0), many(5, 6, 20, 1),
     many(33, 34, 30, 0, T), many(21, 24, 40, 0, T), many(9, 12, 40, 1, T),
     divide(4, 8, 4, 4, 0, T), divide(4, 8, 4, 4, 1, T), divide(3, 16, 8, 9, 0, T))

prop("C16", "Panes never overlap and write each of their cells once",
     run("h_tree", [2, 1, 4, 2, 0, 0], "nested panes against the pane model", "all panes of up to 2 leaves, one level; windows up to 4 x 2", covers=[2]),
     run("h_tree", [2, 1, 2, 4, 8, 0], "the same, with rows that are left blank", "up to 2 leaves, one level, window 2 x 4", covers=[2]),
     run("h_tree", [2, 1, 3, 3, 8, 1], "the same, with another document", "up to 2 leaves, one level, window 3 x 3", covers=[2]),
     run("h_tree", [2, 1, 3, 3, 8, 2], "the same, with another document", "up to 2 leaves, one level, window 3 x 3", covers=[2]),
     run("h_tree", [2, 2, 3, 2, 14, 0], "the same", "up to 2 leaves, two levels, no styles, window 3 x 2", covers=[2]),
     run("h_tree", [3, 1, 4, 2, 14, 0], "the same", "up to 3 leaves, one level, no styles, window 4 x 2", covers=[2]),
     run("h_tree", [2, 2, 2, 2, 6, 0], "the same", "up to 2 leaves, two levels, no styles, windows up to 2 x 2", covers=[2]),
     run("h_tree", [3, 2, 3, 2, 14, 0], "the same", "up to 3 leaves, two levels, no styles, window 3 x 2", T, covers=[2]),
     run("h_tree", [2, 2, 3, 2, 8, 0], "the same", "up to 2 leaves, two levels, styles, window 3 x 2", T, covers=[2]))

prop("C17", "A document pane shows the part around the focus",
     content("h_pane_doc", [2, 3, 3, 3, 15]), content("h_pane_doc", [4, 2, 2, 5, 12]), content("h_pane_doc", [1, 90, 2, 2, 5]),
     run("h_tree", [2, 1, 2, 5, 10, 2], "documents in panes that do not start at the top left of the window", "up to 2 leaves, one level, no styles, window 2 x 5", covers=[2]),
     run("h_tree", [2, 1, 5, 2, 10, 1], "the same", "up to 2 leaves, one level, no styles, window 5 x 2", covers=[2]),
     content("h_pane_doc", [3, 4, 4, 4, 15], T))

prop("C18", "Dynamic panes are as large as their content, if there is room",
     content("h_dynamic", [2, 2, 3, 3, 0, 0]), content("h_dynamic", [3, 1, 1, 4, 8, 1]), content("h_dynamic", [2, 2, 2, 3, 10, 1]),
     content("h_dynamic", [3, 1, 3, 3, 8, 0]), content("h_dynamic", [1, 3, 5, 1, 17, 0], about="two and three Dynamic panes"),
     content("h_dynamic", [3, 1, 1, 5, 16, 1], about="two and three Dynamic panes"), content("h_dynamic", [2, 2, 3, 2, 17, 0], about="two and three Dynamic panes"),
     content("h_dynamic", [2, 3, 3, 3, 15, 0], T), content("h_dynamic", [3, 3, 3, 4, 15, 1], T))

prop("C20", "Segments are exactly the document's text, with its width",
     docs("h_widths", 14, 6, "NL LIT TEXT INDENT CAT CHOICE CHILD", 0, 3000, 0, "widths of segments and lines", covers=[1, 2], leaf="NL LIT TEXT CAT"),
     docs("h_strings", 14, 5, "NL LIT TEXT INDENT CAT CHOICE CHILD", 0, 2, 0, "pretty_print_to_string and Display against the lines", covers=[1], leaf="NL LIT TEXT CAT"),
     docs("h_strings", 14, 6, "NL LIT TEXT INDENT CAT CHOICE CHILD", 0, 2, 0, "the same, larger", T, covers=[1], leaf="NL LIT TEXT CAT"),
     *tmpls("h_widths", FOCUS, (1, 5), (2, 2), (1, 6), about="widths, in documents made from templates"),
     *tmpls("h_widths", FOCUS, (1, 3), (), (1, 4), lo=0, hi=3, flags=FOREIGN, about="the same, with other than ASCII characters"),
     *tmpls("h_strings", FOCUS, (1, 2), (), (1, 4), lo=0, hi=2, about="strings, in documents made from templates"),
     *tmpls("h_strings", FOCUS, (1, 3), (), (1, 4), lo=0, hi=3, flags=FOREIGN, about="the same, with other than ASCII characters"),
     *longs("h_widths"), *longs("h_strings"), *longs("h_widths", T, 260), *longs("h_strings", T, 260),
     *tmpls("h_strings", FOCUS, (3, 4), (2, 2), (5, 6), (3, 3, 2), lo=0, hi=3, flags=FOREIGN, tiers=T, about="the same, larger"))

ORACLE = "NL EOL LIT TEXT INDENT CAT CHOICE CHILD"
prop("C21", "The testing oracle agrees with the printer",
     docs("h_oracle", 14, 6, ORACLE, 0, 2, 0, "the oracle's output against the printed document", covers=[1], leaf="NL EOL LIT TEXT CAT"),
     docs("h_oracle", 6, 4, ORACLE, 65535, 65536, 0, "very wide texts", covers=[1], leaf="NL EOL LIT TEXT CAT"),
     *tmpls("h_oracle", FOCUS, (1, 4), (2, 2), (1, 6), (3, 3, 2), lo=0, hi=3, flags=FOREIGN, about="documents made from templates, with other than ASCII characters"),
     *tmpls("h_oracle", FOCUS, (1, 3), (), (1, 4), lo=1, hi=2, about="documents made from templates"),
     *longs("h_oracle"),
     docs("h_oracle", 14, 7, ORACLE, 0, 2, 0, "the same, larger", T, covers=[1], leaf="NL EOL LIT TEXT CAT"),
     *tmpls("h_oracle", FOCUS, (5, 6), (3, 4), (6, 9), (4, 4, 3), lo=0, hi=3, flags=FOREIGN, tiers=T, about="the same, larger"))

prop("C22", "Failures while displaying panes are propagated",
     run("h_pane_faults", [3, 2], "every call of the window and of the document fails in turn", "windows of up to 3 x 2", covers=[1, 2]),
     run("h_unprintable", [3, 2], "a document that cannot be printed (bad path, no mark, no text, wrong child, text on a branch) in one or two panes", "all panes of up to 2 leaves, one level; windows of up to 3 x 2", covers=[1, 2, 3]),
     run("h_tree", [2, 1, 2, 1, 1, 0], "Dynamic sizes on anything but documents", "all panes of up to 2 leaves, one level", covers=[1, 2]),
     run("h_tree", [1, 2, 2, 1, 1, 0], "the same", "panes of a single leaf, two levels", covers=[1, 2]),
     run("h_tree", [2, 2, 2, 1, 15, 0], "the same", "up to 2 leaves, two levels, no styles, window 2 x 1", covers=[1, 2]),
     run("h_tree", [2, 2, 2, 1, 1, 0], "the same, larger", "two levels", T, covers=[1, 2]))

prop("C23", "A plain text window shows what was written to it",
     run("h_plain", [4, 4, 3], "the text against the cells", "up to 4 writes, over each other too, of narrow and full-width characters of one to four bytes in windows of 4 x 3; every pair of focus positions"),
     run("h_plain", [3, 12, 1], "the same, in one long row", "up to 3 writes in a window of 12 x 1"),
     run("h_plain", [3, 9, 2], "the same, in two rows", "up to 3 writes in a window of 9 x 2"),
     run("h_plain", [2, 24, 2], "the same, in long rows", "up to 2 writes in a window of 24 x 2"),
     run("h_plain", [2, 3, 24], "the same, in many rows", "up to 2 writes in a window of 3 x 24"),
     run("h_plain", [5, 5, 3], "the same, larger", "up to 5 writes in windows of 5 x 3", T))
