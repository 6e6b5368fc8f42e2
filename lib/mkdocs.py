"""Writes properties.jsonl and MANIFEST.json from this table and the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CN, PP, NO, VN, PD = ("src/%s.rs" % x for x in ("consolidated_notation", "pretty_print", "notation", "valid_notation", "pretty_doc"))
DP, DV, PN, PO, PT, PW = ("src/pane/%s.rs" % x for x in ("display_pane", "divvy", "pane_notation", "printing_options", "plain_text", "pretty_window"))
OR, GE, NC = "src/oracle.rs", "src/geometry.rs", "src/notation_constructors.rs"
JS, TR, ST = ("src/doc_examples/%s.rs" % x for x in ("json", "tree", "style"))

P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    if id in PROPS:
        PROPS[id]["title"] = title
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None},
    })


LINES = ("lines returned by pretty_print", "string returned by pretty_print_to_string")

p("C01", "Layout follows the documented choice rule",
  "Printing a document from its start yields exactly the lines described by its notations: a choice inside a flat region displays its first option; any other choice displays its first option exactly when that option's first line, together with what follows it on that line, fits in the printing width and puts no text after an end-of-line (where choices met on the way that are not in a flat region count with their second option), and otherwise its second option. "
  "Literals, texts and newlines appear in the order of the notation, and each newline is followed by the concatenated indentations it is in, outermost first.",
  ["programs", "inputs"], "every notation and document, every width of every literal, indentation and text, every printing width",
  "The tests print a few dozen documents at a few widths; the rule must hold at every boundary of every width for every nesting of choices, flats and newlines.",
  [PP, CN, NO], [("choice resolution", PP + " Printer::choose, fits"), ("flattening and indentation of notations", CN + " eval")], LINES)
p("C02", "The printed lines do not depend on the focus",
  "For every path and focus target that exists, the lines above the focus (in order from the bottom up), the focused line and the lines below it are together exactly the lines that printing from the document's start gives, with the same text and styles. "
  "Where the focus is changes neither line breaks, nor indentation, nor which options of choices are displayed.",
  ["programs", "inputs"], "every document, path, focus target and printing width",
  "Tests compare a handful of documents and paths; the upward printer and the seek functions are separate code from the downward printer, and must agree with it everywhere.",
  [PP, CN], [("upward printing", PP + " Printer::print_prev_line"), ("seeking", PP + " seek, seek_start, seek_end, seek_child, seek_text, seek_mark")],
  ("the two iterators and the focused line returned by pretty_print",))
p("C03", "The focus is exactly where it was asked to be",
  "The focused line is split exactly at the requested position: before everything the node displays for a start target, after everything it displays for an end target, at the node's own first focus mark for a mark target, and before the n-th character of the node's own text for a text target (after its last character if it has no more than n). "
  "Joining the left and right parts gives the whole line, and a document that displays each node at most once has a unique such position.",
  ["programs", "inputs"], "every document, path to a displayed node, focus target, character position and printing width",
  "Tests look at few positions, nearly all in simple documents; the position must survive every choice, indentation, empty text and nesting of marks.",
  [PP], [("seeking", PP + " seek_start, seek_end, seek_text, seek_mark")], ("left and right segments of the focused line",))
p("C04", "What cannot be focused on is reported precisely",
  "Asking to focus on a child that a node does not have or does not display, on text that the node does not display, or on a mark that its displayed notation does not contain, gives the error for exactly that (invalid path with the offending index, missing text, missing mark) and never a panic or a focus somewhere else. "
  "A target that does exist, including any position in a text that is displayed, never gives such an error.",
  ["programs", "inputs"], "every document, every path (also out of range), every target and position, every printing width",
  "Tests try a few missing targets; the errors must be right for every combination of what is displayed, chosen or flattened away.",
  [PP, CN], [("errors while seeking", PP + " seek_child, seek_text, seek_mark"), ("error type", CN + " PrintingError")], ("error returned by pretty_print",))
p("C05", "Nothing is printed after an end-of-line on its line",
  "In every printed document an end-of-line is followed by a newline or by the end of the document before any further text, also across node boundaries, indentation and choices; where the choice rule leaves text there, printing reports a text-after-end-of-line error instead of printing the text. "
  "A single node without children whose notation passed validation never leads to that error.",
  ["programs", "inputs"], "every notation, validated notation and document, every width",
  "Tests cover a few comments in JSON; the property is about every interleaving of end-of-lines, choices and child boundaries.",
  [PP, VN, CN], [("look-ahead for end-of-line", PP + " fits, print_first_line"), ("static check", VN + " TextAfterEol")], LINES)
p("C06", "Children, count, fold and check display what they describe",
  "A child reference displays the child at that index (negative indices count from the end), a count displays the option for zero, one or many children, a fold displays its first part for the first child and then its join part once per further child with the left and right references standing for what is folded so far and the next child, and a check displays the option selected by the condition of the node or child it names (at the node, the indexed child, or the left or right child of a fold's join). "
  "Anything else (no such child) is reported as an error.",
  ["programs", "inputs"], "every document, child count, index in the whole integer range, condition and nesting of these constructors",
  "Tests use few children and small positive indices in fixed nestings; the semantics must hold for every nesting and index.",
  [CN, NO], [("evaluation", CN + " ConsolidatedNotation eval"), ("index normalisation", NO + " normalize_child_index")], LINES)
p("C07", "Styles compose from the root inward and never leak",
  "Every printed piece of text carries exactly the combination of the root style, the style of each node on the way to it and the styles around it in their notations, combined from the outside in and each exactly once, with style labels looked up in the node whose notation mentions them. "
  "Indentation carries the style in force where the indentation starts combined with its own label, and no text, above or below the focus, carries the style of a region it is not in.",
  ["programs", "inputs"], "every nesting of styles, node styles, indentation, children and folds; every focus",
  "Tests check styles in a few fixed documents; order, multiplicity and scope must hold for every nesting, and for lines printed upward.",
  [CN, PP, PD], [("style combination", CN + " DelayedConsolidatedNotation, apply style"), ("indent segments", CN + " IndentNode")], ("style of every segment",))
p("C08", "Constructors and operators build the notation they stand for",
  "Each function of notation_constructors gives exactly the notation of its name with its arguments in their documented places, x + y is the concatenation, x | y the choice, x ^ y is x, a newline and y, and i >> x is a newline and x with the newlines of both indented by i spaces without a style; operators neither drop, reorder, merge nor simplify their operands.",
  ["inputs"], "every expression of constructors and operators, every index, label, string and nesting width",
  "Tests use the operators only to print a few documents at a few nesting widths.",
  [NC, NO], [("constructors", NC), ("operators", NO + " impl Add, BitOr, BitXor, Shr")], ("the Notation that is built",))
p("C09", "A document that does not fit its notation is reported, not printed wrong",
  "When a displayed notation asks for something the node does not have (text of a node with children, children or their count of a text node, a child index out of range), printing reports the error for exactly that mismatch and never panics or prints something else. "
  "A mismatch in a part of the document that is not displayed or inspected does not prevent printing, and documents that fit their notations never give such errors.",
  ["programs", "inputs"], "every document and every validated notation, fitting or not; every child index; every focus",
  "Tests contain only a few ill-fitting documents, printed from the start.",
  [CN, PP], [("mismatch errors", CN + " eval, PrintingError")], ("error returned by pretty_print or its iterators",))
p("C10", "Errors of the document are propagated unchanged",
  "If any call that the printer makes on the document returns an error, printing stops with exactly that error, from pretty_print itself or from the iterator that needed the call, without a panic and without swallowing it. "
  "Lines returned before the failure are the same as without it.",
  ["fault_sequences", "programs"], "every document and focus, with the failure at every single call",
  "Existing tests use documents that never fail.",
  [CN, PP, PD], [("error propagation", CN + " and " + PP + ", '?' on every document call")], ("results of pretty_print and its iterators",))
p("C11", "The document is only asked what it can answer",
  "The printer asks a node for its text only if it has text, for its i-th child only if it has more than i children, for a last child or previous sibling only if there is one and with the right parent and index, and for conditions and style labels only if the node's notation mentions them. "
  "Documents that implement the optional child accessors themselves print exactly like documents that rely on the default implementations.",
  ["programs", "inputs"], "every document (fitting its notations or not), focus and printing width",
  "Tests use tolerant documents and never look at which calls are made.",
  [CN, PP, PD], [("default methods", PD + " unwrap_last_child, unwrap_prev_sibling"), ("guards", CN + " eval")], ("calls made on the document",))
p("C12", "Printing is partial: distant parts of the document are not visited",
  "To print the focused line and k lines above and below it, the printer only visits nodes on those lines, nodes around the focus and a bounded look-ahead for the choices on them; the contents of nodes that are many lines away are never requested. "
  "Asking for the next line later gives the same lines as asking at once.",
  ["programs", "inputs"], "every document of many lines, every focus, every number of lines requested, every printing width",
  "Tests print whole documents and do not look at what is visited.",
  [PP, CN], [("delayed notations", CN + " DelayedConsolidatedNotation"), ("look-ahead", PP + " fits")], ("calls made on the document",))
p("C13", "Validation rejects exactly the documented flaws",
  "Validating a notation succeeds if and only if it has none of the documented flaws (left, right or their checks outside of a fold's join; nested fold or count; child or child check in count-zero, with another index than the only one in count-one; text in count or fold; text or a literal that follows an end-of-line, for some selection of options, without a newline or child between them; a focus mark after another one that is displayed whichever options are selected; where nothing is concluded from what comes before a fold, or from its first and join parts and the left and right references for each other), and otherwise reports a flaw that the notation really has. "
  "Validation never panics, and the messages name the offending index.",
  ["programs"], "every notation up to a size, every child index",
  "Tests try about one notation per flaw; the rules interact through nesting, flattening and choices.",
  [VN], [("validation", VN + " Notation::validate")], ("result of validate",))
p("C14", "Very wide text neither overflows nor wraps around",
  "Printing and displaying texts, literals, indentation and lines whose width exceeds 65535 columns behaves as for any other text that is wider than the printing width: no panic, no hang and no wrapped-around width, with reported widths capped at 65535. "
  "Panes as wide as 65535 columns and focus heights in panes of any height stay inside their windows.",
  ["inputs"], "every combination of literal, text and indentation widths up to several times 65535, every printing width below 65535",
  "No test has a line of more than a few hundred columns.",
  [PP, CN, GE, DP, PO], [("width arithmetic", PP + " Block, Line::width"), ("pane arithmetic", DP)], LINES + ("cells written to the window",))
p("C15", "Space is divided among panes as documented",
  "Fixed panes get their size, in order, as long as there is room; then the proportional panes fill the remaining space completely, each within less than one cell of its exact share, the cells left over by rounding down going to the largest remainders and, on ties, to the leftmost (topmost); panes follow one another in order without gaps. "
  "Weights of zero, all weights zero, huge weights and empty space are handled without panic or overflow.",
  ["inputs", "configurations"], "every list of fixed and proportional sizes, every available length, both orientations",
  "Tests check a dozen divisions.",
  [DV, DP, PN], [("division", DV + " Divvier")], ("cells written to the window",))
p("C16", "Panes never overlap and write each of their cells once",
  "Displaying any nesting of panes writes each cell of each leaf pane that has content exactly once, and every other cell never; nothing is written outside of a pane's rectangle or of the window, and full-width characters never straddle a border. "
  "Fill panes are filled completely (with a blank where a full-width character does not fit), document panes are padded with blanks, and each cell carries the styles around its pane combined from the outside in.",
  ["configurations", "inputs"], "every nesting of panes, sizes and styles, every window size",
  "Tests render a few fixed pane trees to plain text, which hides double writes and styles.",
  [DP, DV, PN], [("recursion over panes", DP + " display_pane_rec"), ("line display", DP + " display_line, display_blank_line")], ("calls made on the window",))
p("C17", "A document pane shows the part around the focus",
  "A document pane displays, row by row, exactly the document's lines around the focus line as printed at the width given by the width strategy, with the focus line on the row given by the focus height (rounded to the nearest row), cut at the right border before the first character that does not fit, and blanks elsewhere. "
  "If asked for, the window's focus is set to the cell of the focus point, once per document.",
  ["configurations", "inputs"], "every document, focus, focus height, width strategy and pane size",
  "Tests show a few documents in panes of fixed sizes.",
  [DP, PO], [("printing for a pane", DP + " PrintedDoc"), ("options", PO)], ("calls made on the window",))
p("C18", "Dynamic panes are as large as their content, if there is room",
  "A dynamic pane gets exactly the height (in a vertical split) or width (in a horizontal split) of the document it shows, as printed for the space that fixed panes and earlier dynamic panes leave, and all of that space if the document needs more; it shows as much of the document as fits, with its focus line and focus point in the pane, whatever the focus height. "
  "Proportional panes share what remains.",
  ["configurations", "inputs"], "every document, focus, focus height, width strategy, window size and mix of pane sizes",
  "Tests only use dynamic panes with the focus at the top.",
  [DP, DV, PN], [("dynamic sizes", DP + " display_pane_rec"), ("printing for a pane", DP + " PrintedDoc")], ("calls made on the window",))
p("C19", "The JSON example prints valid, documented JSON",
  "The example JSON documents print as the JSON they were made from: arrays and objects without comments go on one line, with a comma and a space between entries, where they fit; otherwise each entry goes on its own line, indented by four columns, with a comma after every entry but comments and the last entry that is not a comment. "
  "Comments are filled up to the width with // at the start of each of their lines, and null, true, false, strings, numbers and comment markers have their own colours; opening and closing brackets carry the styles that their node gives to the labels open and close.",
  ["programs", "inputs"], "every JSON value with comments, every string length and printing width, also for nodes that were part of another tree before",
  "The tests print a few fixed JSON documents and hardly look at colours.",
  [JS, TR, ST], [("notations", JS), ("separators", TR + " Tree::new_branch"), ("colours", ST + " BasicStyle::from, combine")], LINES)
p("C20", "Segments are exactly the document's text, with its width",
  "The width of every segment, line and left or right part of the focused line is the sum of the widths of its characters (one or two columns each). "
  "The string given by pretty_print_to_string, and the displayed forms of lines and focused lines, are exactly the concatenated segments of the lines, separated by newlines.",
  ["programs", "inputs"], "every document, focus and printing width; half- and full-width characters",
  "Tests compare strings only, at few widths.",
  [PP, CN, GE], [("segment widths", CN + " Textual"), ("string forms", PP + " Display for Line")], LINES)
p("C21", "The testing oracle agrees with the printer",
  "The independent reference printer that the crate offers for testing gives the same text as the printer for every document that the printer prints without an error, at printing widths below 10000 (which the oracle requires).",
  ["programs", "inputs"], "every such document and printing width",
  "The crate's own generative test enumerates small notations at a few widths.",
  [OR, PP], [("oracle", OR + " oracular_pretty_print")], LINES)
p("C22", "Failures while displaying panes are propagated",
  "If the window fails at any call, displaying stops with exactly that error and makes no further call; if a document fails or cannot be printed, its error is reported; a dynamic size on anything but a document pane (possibly styled) is reported as such. "
  "No failure causes a panic, and what was written before is what would have been written without it.",
  ["fault_sequences", "configurations"], "every pane tree, with the failure at every single call of the window or of the documents",
  "Existing tests use windows and documents that never fail.",
  [DP, PW], [("error propagation", DP + " PaneError")], ("result of display_pane",))
p("C23", "A plain text window shows what was written to it",
  "The plain text window displays, row by row, exactly the characters written to it at their columns with blanks in the cells before them that were not written, full-width characters occupying two columns, and records every focus point it is given; it never fails inside its size.",
  ["histories", "inputs"], "every sequence of writes to distinct cells in any order, every focus position",
  "Tests only write row by row from left to right.",
  [PT], [("plain text window", PT)], ("displayed text",))
p("C24", "The example style combines and is named as documented",
  "Combining two basic styles gives the colour of the inner one, and bold if either is bold. A style made from a label is the one the label names (a colour of the eight, with or without the prefix bold_), the default (white, not bold) for every other label; color and bold change what they say and nothing else.",
  ["inputs"], "every pair of styles, every label",
  "Tests use a handful of labels.",
  [ST], [("combination and labels", ST + " BasicStyle::combine, From<&str>")], ("fields of BasicStyle",))
p("C25", "The example tree answers as it was made",
  "A tree node answers with the text or children, notation, style and labels it was made with; ids count up from 0 in the order in which nodes are made, starting again after a reset; a child needs a separator if and only if it is not a comment and a later sibling is not one, in the branch it was last put in; a text is empty if and only if it has no characters, and a node is a comment if and only if it was made one.",
  ["inputs", "programs"], "every tree, comment mark, text, style and label, also when nodes move to other branches",
  "Tests print a few trees; what a node says is not looked at.",
  [TR], [("construction", TR + " Tree::new_text, new_branch, with_style, with_style_override"), ("answers", TR + " impl PrettyDoc for &Tree")], ("methods of PrettyDoc",))
p("C26", "A serialized notation reads back as it was",
  "With the serialization feature, a notation that is serialized with any serde format that keeps what it is given, and is then deserialized, is the same notation again: the same variants with the same strings, indices, labels, conditions, positions and sub-notations, whether the format tells variants by name or by number, and fields by name (in any order) or by position.",
  ["inputs"], "every notation, every index, label and string, every kind of format",
  "No test serializes a notation; the build only checks that the feature compiles.",
  [NO], [("derived implementations", NO + " Notation, CheckPos: Serialize, Deserialize")], ("equality of notations",))

p("C27", "Printing depends on nothing but its arguments",
  "What is printed is determined by the document, the width, the focus and the root style alone: not by what was printed before, in the same thread, of the same document at another width or focus or of another one (also when their nodes have equal ids or share their notations), nor by a print that is under way at the same time; "
  "and the lines above and below the focus are the same in whatever order they are asked for, and end for good.",
  ["histories", "schedules", "inputs"], "every print before another one, every interleaving of the lines above and below, every document, width and focus",
  "Tests print each document once and read the lines above before those below.",
  [PP, CN], [("printing", PP + " pretty_print, Printer"), ("iterators", PP + " UpwardPrinter, DownwardPrinter")], LINES)

p("C28", "Printing takes no more work than the choices require",
  "Printing a whole document from any focus asks its nodes a number of questions (calls of the document's methods) that is at most proportional to the number of nodes times one more than the number of choices in their notations (those in a fold counted once per child), provided that every option displays each child at most once: "
  "in particular it is linear for documents without choices, and never exponential in how deeply choices are nested.",
  ["inputs", "programs"], "every document in which each option of a choice displays each child at most once, every focus and printing width",
  "Tests print small documents and do not look at how much work it takes.",
  [PP, CN], [("look-ahead and choices", PP + " fits, Printer"), ("expansion", CN + " eval")], ("calls of the methods of PrettyDoc",))

NA = [
]

SCOPE = ("Within the stated bounds, every execution path of the code (compiled from /repo's current sources to LLVM IR) is explored symbolically; the solver decides every "
         "branch and assertion for all remaining values of the symbolic inputs. Document, notation and pane structure is enumerated up to the bound by forking the symbolic executor; widths, lengths, indices, "
         "sizes, conditions and fault positions are solver variables. Trusted: rustc's lowering to IR, the executor (checked by replaying sampled paths natively in debug and release builds), z3, "
         "and the harness's reference model.")


def main():
    with open(VERIF + "/properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    m = {
        "version": 1, "setup_cmd": "python3 check --build",
        "checks": [
            {"property": x["id"], "quick_cmd": "python3 check %s quick" % x["id"], "thorough_cmd": "python3 check %s thorough" % x["id"],
             "technique": "symbolic execution of the crate's LLVM IR with z3 deciding branches and assertions", "level": "model_checking", "level_note": SCOPE}
            for x in P if x["id"] in PROPS
        ],
        "not_applicable": [{"property": a, "reason": b} for a, b in NA]
        + [{"property": x["id"], "reason": "no check yet"} for x in P if x["id"] not in PROPS and x["id"] not in dict(NA)],
        "notes": "No hooks: the harnesses only use the crate's public API.",
    }
    with open(VERIF + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    out = ["# Exact bounds of every run", "", "Generated from `lib/props.py` by `lib/mkdocs.py`. T marks runs of the thorough tier only."]
    for x in P:
        if x["id"] in PROPS:
            out += ["", "### %s %s" % (x["id"], x["title"]), ""]
            for r in PROPS[x["id"]]["runs"]:
                out.append("* %s`%s %s` %s: %s" % ("" if "quick" in r["tiers"] else "T ", r["entry"], ",".join(map(str, r["params"])), r["about"], r["bounds"]))
    with open(VERIF + "/BOUNDS.md", "w") as f:
        f.write("\n".join(out) + "\n")
    for x in PROPS:
        assert any(y["id"] == x for y in P), x


main()
