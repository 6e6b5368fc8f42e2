//! Strings and widths of printed lines, and the slow reference printer that ships with the crate.

use crate::all::ast::*;
use crate::all::cmp::*;
use crate::all::h_doc::*;
use crate::all::sx;
use partial_pretty_printer as ppp;
use ppp::{FocusTarget, FocusedLine, Line, PrettyDoc};

fn width_of<'d, D: PrettyDoc<'d>>(segs: &[ppp::Segment<'d, D>]) -> u64 {
    segs.iter().fold(0, |a, s| a + s.width as u64)
}
fn text_of<'d, D: PrettyDoc<'d>>(segs: &[ppp::Segment<'d, D>]) -> String {
    let mut t = String::new();
    for s in segs {
        t.push_str(s.str);
    }
    t
}

fn seg<'d>(s: &ppp::Segment<'d, D<'d>>) {
    let r = run_of(s);
    let want = match unit(r.ch) {
        1 => r.len,
        u => u * r.len,
    };
    sx::check(r.width == want, "segment-width-is-not-that-of-its-text")
}

/// Width accounting, for strings of any length.
pub fn widths() {
    let c = cfg(0);
    let (nodes, doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let (path, _) = pick_path(&nodes, false);
    let target = pick_target();
    sx::show(|| format!("path {path:?} target {target:?}"));
    let (up, f, down) = match ppp::pretty_print(doc.root(), width as u16, &path, target, None) {
        Ok(x) => x,
        Err(_) => return,
    };
    f.left_segments.iter().for_each(seg);
    f.right_segments.iter().for_each(seg);
    let (l, r) = (width_of(&f.left_segments), width_of(&f.right_segments));
    sx::check(f.left_width() as u64 == l, "left-width");
    sx::check(f.right_width() as u64 == r, "right-width");
    sx::check(f.width() as u64 == l + r, "focused-line-width");
    let n = f.left_segments.len() + f.right_segments.len();
    if n > 1 {
        sx::cover(1);
    }
    let line: Line<D> = f.into();
    sx::check(line.segments.len() == n, "line-from-focused-line-loses-segments");
    sx::check(line.width() as u64 == l + r, "line-from-focused-line-width");
    sx::obs(line.width() as u64);
    for x in up.chain(down) {
        if let Ok(x) = x {
            sx::cover(2);
            x.segments.iter().for_each(seg);
            sx::check(x.width() as u64 == width_of(&x.segments), "line-width");
        }
    }
}

fn same_text(a: &str, b: &str) -> bool {
    a == b
}
fn obs_str(s: &str) {
    sx::obs(s.len() as u64);
    for b in s.bytes() {
        sx::obs(b as u64);
    }
}

/// Strings of lines; strings of whole documents. Literal lengths are picked, not symbolic.
pub fn strings() {
    let mut c = cfg(0);
    c.flags |= flag::CONCRETE;
    let (nodes, doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let (path, _) = pick_path(&nodes, false);
    let target = pick_target();
    sx::show(|| format!("path {path:?} target {target:?}"));
    let (up, f, down) = match ppp::pretty_print(doc.root(), width as u16, &path, target, None) {
        Ok(x) => x,
        Err(_) => return,
    };
    let (l, r) = (text_of(&f.left_segments), text_of(&f.right_segments));
    sx::check(same_text(&f.to_left_string(), &l), "left-string");
    sx::check(same_text(&f.to_right_string(), &r), "right-string");
    let whole = format!("{l}{r}");
    sx::check(same_text(&f.to_string(), &whole), "focused-line-string");
    let f: FocusedLine<D> = f;
    let line: Line<D> = f.into();
    sx::check(same_text(&line.to_string(), &whole), "line-from-focused-line-string");
    let mut lines = vec![whole];
    for x in up {
        match x {
            Ok(x) => {
                let t = text_of(&x.segments);
                sx::check(same_text(&x.to_string(), &t), "line-string");
                lines.insert(0, t);
            }
            Err(_) => return,
        }
    }
    for x in down {
        match x {
            Ok(x) => {
                let t = text_of(&x.segments);
                sx::check(same_text(&x.to_string(), &t), "line-string");
                lines.push(t);
            }
            Err(_) => return,
        }
    }
    if lines.len() > 1 {
        sx::cover(1);
    }
    match ppp::pretty_print_to_string(doc.root(), width as u16) {
        Ok(s) => {
            sx::show(|| format!("{s:?}"));
            sx::check(same_text(&s, &lines.join("\n")), "document-string-is-not-its-lines");
            obs_str(&s);
        }
        Err(_) => sx::check(false, "document-string-fails"),
    }
}

/// The printer against the crate's own simple printer.
pub fn oracle() {
    let mut c = cfg(0);
    c.flags |= flag::CONCRETE;
    let nodes = gen_doc(&c);
    let doc = match doc_of(&c, &nodes) {
        Some(d) => d,
        None => return,
    };
    let width = sx::var(0, 9999);
    show_case(&nodes, width);
    let p = match print(&doc, width, &[], FocusTarget::Start, None) {
        Ok(p) => p,
        Err(_) => return sx::assume(false),
    };
    if p.err.is_some() {
        return sx::assume(false);
    }
    let a = match ppp::pretty_print_to_string(doc.root(), width as u16) {
        Ok(a) => a,
        Err(_) => return sx::check(false, "document-string-fails"),
    };
    let b = ppp::testing::oracular_pretty_print(doc.root(), width as u16);
    sx::show(|| format!("printer {a:?}\noracle  {b:?}"));
    if p.rows.len() > 1 {
        sx::cover(1);
    }
    obs_str(&a);
    sx::check(same_text(&a, &b), "printer-and-oracle-differ");
}
