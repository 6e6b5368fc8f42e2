//! The JSON example, its trees and its colours.

use crate::all::ast::*;
use crate::all::model::*;
use crate::all::sx;
use partial_pretty_printer as ppp;
use ppp::doc_examples::json::{self as ex, Json};
use ppp::doc_examples::tree::Contents;
use ppp::doc_examples::Color;

#[derive(Clone)]
enum J {
    Null,
    Bool(bool),
    Num(f64, &'static str),
    Str(Str),
    Arr(Vec<J>),
    Obj(Vec<J>),
    Pair(Str, Box<J>),
    /// Its words, and what is between them.
    Comment(Vec<&'static str>, [&'static str; 3]),
}

/// (Copying a string of symbolic length would make the length concrete.)
fn string(s: Str) -> Json {
    if sx::is_sym(s.len) || s.ch == b'a' {
        let mut j = ex::json_string("x");
        j.contents = Contents::Text(s.make());
        j
    } else {
        ex::json_string(&s.make())
    }
}

/// Brackets have labels of their own, which stand for the default style unless the node says otherwise.
fn brackets(j: Json) -> Json {
    if sx::param(3) & 8 == 0 {
        return j;
    }
    let style = |color, bold| ppp::doc_examples::BasicStyle { color, bold };
    j.with_style_override("open", style(Color::Red, true))
        .with_style_override("close", style(Color::Cyan, false))
}

/// With `reuse`, children come from other trees.
fn real(j: &J, reuse: bool) -> Json {
    let all = |v: &[J]| {
        let mut v = v.iter().map(|x| real(x, reuse)).collect::<Vec<_>>();
        if reuse {
            v.push(ex::json_null());
            if let Contents::Children(c) = ex::json_array(v).contents {
                v = c;
                v.pop();
            } else {
                v = vec![];
            }
        }
        v
    };
    match j {
        J::Null => ex::json_null(),
        J::Bool(b) => ex::json_bool(*b),
        J::Num(f, _) => ex::json_number(*f),
        J::Str(s) => string(*s),
        J::Arr(v) => brackets(ex::json_array(all(v))),
        J::Obj(v) => brackets(ex::json_object(all(v))),
        J::Pair(k, v) => {
            let mut p = ex::json_object_pair("k", real(v, reuse));
            if let Contents::Children(c) = &mut p.contents {
                c[0] = string(*k);
            }
            p
        }
        J::Comment(v, [first, between, last]) => ex::json_comment(&format!("{first}{}{last}", v.join(between))),
    }
}

/// Labels, and the colours that they stand for.
const CONST: u8 = 1;
const STR: u8 = 2;
const NUM: u8 = 3;
const COMMENT: u8 = 4;
const OPEN: u8 = 5;
const CLOSE: u8 = 6;

/// Literals are given by letters: these stand for fixed strings.
const FIXED: &[(u8, &str)] = &[
    (1, "null"),
    (2, "true"),
    (3, "false"),
    (4, "\""),
    (5, "["),
    (6, "]"),
    (7, "{"),
    (8, "}"),
    (9, ","),
    (10, ", "),
    (11, ": "),
    (12, "    "),
    (13, "// "),
    (14, " "),
    (15, "1"),
    (16, "-2.5"),
    (17, "ab"),
    (18, "c"),
    (19, "0"),
    (20, "-0"),
    (21, "100000000000000000000"),
    (22, "9223372036854776000"),
    (23, "-36893488147419103000"),
    (24, "0.000001"),
    (25, "4294967297.5"),
    (26, "{x}"),
    (27, "-//-"),
    (28, "\"x"),
];
fn text_of(ch: u8) -> Option<&'static str> {
    FIXED.iter().find(|f| f.0 == ch).map(|f| f.1)
}
fn fixed(s: &str) -> Str {
    let f = FIXED.iter().find(|f| f.1 == s).expect("fixed string");
    Str {
        ch: f.0,
        len: s.len() as u64,
        max: s.len() as u64,
    }
}
fn lit(s: &str) -> N {
    N::Lit(fixed(s))
}
fn styled(l: u8, n: N) -> N {
    N::Style(l, Box::new(n))
}

/// The documented layout: on one line if it fits, otherwise one entry per line.
fn list(open: &str, close: &str, v: &[J]) -> N {
    let open = || styled(OPEN, lit(open));
    let close = || styled(CLOSE, lit(close));
    if v.is_empty() {
        return cat(open(), close());
    }
    let last = v.iter().rposition(|x| !matches!(x, J::Comment(..)));
    let mut one = open();
    let mut many = Vec::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            one = cat(one, lit(", "));
        }
        one = cat(one, N::Flat(Box::new(N::Child(i as i64))));
        many.push(N::Nl);
        many.push(N::Child(i as i64));
        if !matches!(x, J::Comment(..)) && Some(i) != last {
            many.push(lit(","));
        }
    }
    let one = cat(one, close());
    let inner = N::Indent(fixed("    "), None, Box::new(seq(many)));
    let many = cat(open(), cat(inner, cat(N::Nl, close())));
    choice(one, many)
}

fn add(j: &J, nodes: &mut Vec<Node>) -> usize {
    let at = nodes.len();
    nodes.push(Node::new(N::Empty));
    let mut kids = vec![];
    let n = match j {
        J::Null => styled(CONST, lit("null")),
        J::Bool(true) => styled(CONST, lit("true")),
        J::Bool(false) => styled(CONST, lit("false")),
        J::Num(_, s) => styled(NUM, lit(s)),
        J::Str(s) => styled(STR, cat(lit("\""), cat(N::Lit(*s), lit("\"")))),
        J::Pair(k, v) => {
            kids.push(add(&J::Str(*k), nodes));
            kids.push(add(v, nodes));
            cat(N::Child(0), cat(lit(": "), N::Child(1)))
        }
        J::Arr(v) => {
            v.iter().for_each(|x| kids.push(add(x, nodes)));
            list("[", "]", v)
        }
        J::Obj(v) => {
            v.iter().for_each(|x| kids.push(add(x, nodes)));
            list("{", "}", v)
        }
        J::Comment(words, _) => {
            let mut body = N::Empty;
            for (i, w) in words.iter().enumerate() {
                if i > 0 {
                    body = cat(body, choice(lit(" "), N::Nl));
                }
                body = cat(body, lit(w));
            }
            styled(COMMENT, cat(lit("// "), cat(N::Indent(fixed("// "), None, Box::new(body)), N::Eol)))
        }
    };
    nodes[at].n = n;
    nodes[at].kids = kids;
    at
}

struct G {
    left: usize,
    next: u8,
    lo: u64,
    hi: u64,
    comments: bool,
    more: bool,
}
impl G {
    fn str(&mut self) -> Str {
        self.next += 1;
        Str {
            ch: b'a' + self.next - 1,
            len: sx::var(self.lo, self.hi),
            max: self.hi,
        }
    }
    fn comment(&mut self) -> J {
        let words = [&[][..], &["ab"], &["ab", "c"]][sx::pick(3)].to_vec();
        if !self.more {
            return J::Comment(words, ["", " ", ""]);
        }
        let words = match (words.len(), sx::pick(3)) {
            (2, 0) => vec!["c", "ab", "ab", "c"],
            (2, 1) => vec!["-//-", "\"x", "{x}"],
            _ => words,
        };
        // any white space
        let white = [" ", "\t", "\n", "  ", " \r\n\t", "\u{3000}", "\u{b}\u{c}\u{a0}"];
        let between = white[sx::pick(7)];
        let (first, last) = [("", ""), (" ", "\t"), ("\n\n", "\u{2028}")][sx::pick(3)];
        J::Comment(words, [first, between, last])
    }
    fn value(&mut self, depth: usize) -> J {
        let n = if depth > 0 { 6 } else { 4 };
        match sx::pick(n) {
            0 => J::Str(self.str()),
            1 => J::Null,
            2 => J::Bool(sx::pick(2) == 1),
            3 => {
                if self.more {
                    let (f, s) = [
                        (0.0, "0"),
                        (-0.0, "-0"),
                        (1e20, "100000000000000000000"),
                        (9223372036854775808.0, "9223372036854776000"),
                        (-36893488147419103232.0, "-36893488147419103000"),
                        (0.000001, "0.000001"),
                        (4294967297.5, "4294967297.5"),
                    ][sx::pick(7)];
                    J::Num(f, s)
                } else if sx::pick(2) == 0 {
                    J::Num(1.0, "1")
                } else {
                    J::Num(-2.5, "-2.5")
                }
            }
            4 => J::Arr(self.entries(depth - 1, false)),
            _ => J::Obj(self.entries(depth - 1, true)),
        }
    }
    fn entries(&mut self, depth: usize, object: bool) -> Vec<J> {
        let n = sx::pick(self.left + 1);
        self.left -= n;
        let mut v = Vec::new();
        for _ in 0..n {
            if self.comments && sx::pick(2) == 1 {
                v.push(self.comment());
            } else if object {
                let k = self.str();
                v.push(J::Pair(k, Box::new(self.few(depth))));
            } else {
                v.push(self.few(depth));
            }
        }
        v
    }
    /// Inner values: the kinds of scalars have been seen at the root.
    fn few(&mut self, depth: usize) -> J {
        match sx::pick(if depth > 0 { 4 } else { 2 }) {
            0 => J::Str(self.str()),
            1 => J::Null,
            2 => J::Arr(self.entries(depth - 1, false)),
            _ => J::Obj(self.entries(depth - 1, true)),
        }
    }
}

/// params: number of entries of all lists, depth, max length of strings, flags 1: comments, 2: roots, 4: reused children, 8: styles of brackets, 16: more scalars and comments
/// min length of strings
pub fn json() {
    let mut g = G {
        left: sx::param(0) as usize,
        next: 0,
        lo: sx::param(4),
        hi: sx::param(2),
        comments: sx::param(3) & 1 != 0,
        more: sx::param(3) & 16 != 0,
    };
    let reuse = sx::param(3) & 4 != 0;
    let mut nodes = Vec::new();
    let tree = if sx::param(3) & 2 != 0 {
        let v = g.entries(sx::param(1) as usize, false);
        let top = v.iter().map(|x| real(x, reuse)).collect();
        nodes.push(Node::new(N::Empty));
        let kids: Vec<usize> = v.iter().map(|x| add(x, &mut nodes)).collect();
        let mut s = vec![];
        for i in 0..kids.len() {
            if i > 0 {
                s.push(N::Nl);
            }
            s.push(N::Child(i as i64));
        }
        nodes[0].n = seq(s);
        nodes[0].kids = kids;
        ex::json_roots(top)
    } else {
        let j = g.value(sx::param(1) as usize);
        add(&j, &mut nodes);
        real(&j, reuse)
    };
    let width = sx::var(0, 65535);
    let m = Model::new(&nodes).layout(width, None);
    let (up, f, down) = match ppp::pretty_print(&tree, width as u16, &[], ppp::FocusTarget::Start, None) {
        Ok(x) => x,
        Err(_) => return sx::check(false, "json-does-not-print"),
    };
    sx::check(up.count() == 0, "json-lines-above-the-start");
    let mut lines = vec![ppp::Line::from(f)];
    for l in down {
        match l {
            Ok(l) => lines.push(l),
            Err(_) => return sx::check(false, "json-does-not-print"),
        }
    }
    sx::check(m.err.is_none(), "json-model");
    sx::show(|| {
        let mut s = format!("width {width}\n");
        for l in &lines {
            l.segments.iter().for_each(|x| s += x.str);
            s += "\n";
        }
        s += "expected\n";
        for l in &m.lines {
            for x in l {
                match text_of(x.s.ch) {
                    Some(t) => s += t,
                    None => s += &x.s.make(),
                }
            }
            s += "\n";
        }
        s
    });
    if lines.len() > 1 {
        sx::cover(1);
    } else {
        sx::cover(2);
    }
    sx::check(lines.len() == m.lines.len(), "json-lines");
    for (a, b) in lines.iter().zip(&m.lines) {
        // text, length and kind of each piece
        let a: Vec<_> = a.segments.iter().filter(|s| !(!sx::is_sym(s.str.len() as u64) && s.str.is_empty())).collect();
        let b: Vec<_> = b.iter().filter(|s| !(!sx::is_sym(s.s.len) && s.s.len == 0)).collect();
        sx::check(a.len() == b.len(), "json-text");
        for (x, y) in a.iter().zip(b) {
            let len = x.str.len() as u64;
            sx::check(len == y.s.len, "json-text");
            if text_of(y.s.ch).is_some() {
                sx::obs(len);
            }
            let text = match text_of(y.s.ch) {
                Some(t) => x.str == t,
                None => len == 0 || unsafe { *x.str.as_ptr() == y.s.ch },
            };
            sx::check(text, "json-text");
            let comment_word = matches!(text_of(y.s.ch), Some("ab" | "c" | " " | "{x}" | "-//-" | "\"x"));
            let label = if y.st.len > 0 { (y.st.bits as u8 & 0x7f) >> 4 } else { 0 };
            let (color, bold) = match label {
                CONST => (Color::Green, true),
                STR => (Color::Magenta, false),
                NUM => (Color::Blue, false),
                COMMENT => (Color::Yellow, false),
                OPEN if sx::param(3) & 8 != 0 => (Color::Red, true),
                CLOSE if sx::param(3) & 8 != 0 => (Color::Cyan, false),
                _ => (Color::White, false),
            };
            let ok = x.style.bold == bold && std::mem::discriminant(&x.style.color) == std::mem::discriminant(&color);
            sx::check(ok || comment_word, "json-colour");
        }
    }
}
