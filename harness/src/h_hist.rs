//! Printing does not depend on what was printed before, nor on the order in which lines are asked for.

use crate::all::ast::*;
use crate::all::cmp::*;
use crate::all::h_doc::*;
use crate::all::h_doc2::Plain;
use crate::all::model::*;
use crate::all::sx;
use partial_pretty_printer as ppp;
use ppp::{FocusTarget, PrintingError};

/// Lines above and below are asked for in any order, and once more after the last one.
pub fn schedule() {
    let c = cfg(0);
    let (nodes, doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let (path, _) = pick_path(&nodes, false);
    let target = pick_target();
    sx::show(|| format!("path {path:?} target {target:?}"));
    let want = match print(&doc, width, &path, target, None) {
        Ok(p) if p.err.is_none() => p,
        _ => return sx::assume(false),
    };
    let Ok((mut up, line, mut down)) = ppp::pretty_print(doc.root(), width as u16, &path, target, None) else {
        return sx::check(false, "second-print-fails");
    };
    let mut above: Vec<Row> = Vec::new();
    let mut below: Vec<Row> = Vec::new();
    let (mut top, mut bottom) = (false, false);
    while !top || !bottom {
        let go_up = !top && (bottom || sx::pick(2) == 1);
        sx::show(|| (if go_up { "up" } else { "down" }).to_owned());
        let x = if go_up { up.next() } else { down.next() };
        match (x, go_up) {
            (Some(Ok(l)), true) => above.push(row_of(&l.segments)),
            (Some(Ok(l)), false) => below.push(row_of(&l.segments)),
            (Some(Err(_)), _) => return sx::check(false, "order-changes-the-outcome"),
            (None, true) => top = true,
            (None, false) => bottom = true,
        }
    }
    sx::check(up.next().is_none() && down.next().is_none() && up.next().is_none(), "line-after-the-end");
    if !above.is_empty() && !below.is_empty() {
        sx::cover(1);
    }
    above.reverse();
    let mut rows = above;
    let mut focused = row_of(&line.left_segments);
    focused.extend(row_of(&line.right_segments));
    rows.push(focused);
    rows.extend(below);
    show_rows("first", &want.rows);
    show_rows("in this order", &rows);
    sx::check(same_rows(&want.rows, &rows, ALL), "order-changes-the-lines");
    obs_rows(&rows);
}

/// Another print comes first: of the same document with another width and focus, or (if the second
/// document has any notations) of another document whose nodes have the same ids, and, with `SHARE`,
/// the same notations.
/// Its lines below are read while the second print is under way.
pub fn history() {
    let c = cfg(0);
    let other = cfg(8);
    let (nodes, doc, width) = match setup(&c) {
        Some(x) => x,
        None => return,
    };
    let m = Model::new(&nodes).layout(width, None);
    let (nodes1, doc1);
    let first = if other.total == 0 {
        (&nodes, &doc)
    } else if other.flags & flag::SHARE != 0 {
        // the same notations, but another document
        let mut g = Gen::new(0, 0, c.lo, c.hi);
        g.next = 20;
        nodes1 = nodes
            .iter()
            .enumerate()
            .map(|(i, n)| {
                let mut m = Node::new(n.n.clone()).kids(&n.kids).style(St::atom(0x60 + i as u8)).cond(!n.cond[0], n.cond[1]);
                m.like = n.like;
                m.text = n.text.map(|t| if c.flags & flag::FOREIGN != 0 { respelled(t, 7 + i as u8, c.lo == 0) } else { g.str() });
                m
            })
            .collect::<Vec<Node>>();
        doc1 = match make_doc_like(&nodes1, true, Some(&doc)) {
            Ok(d) => d,
            Err(_) => return sx::assume(false),
        };
        (&nodes1, &doc1)
    } else {
        nodes1 = gen_doc(&other);
        doc1 = match doc_of(&other, &nodes1) {
            Some(x) => x,
            None => return,
        };
        (&nodes1, &doc1)
    };
    let width1 = sx::var(0, 65535);
    let (path, _) = pick_path(first.0, false);
    let target = if sx::pick(2) == 1 { FocusTarget::End } else { FocusTarget::Start };
    sx::show(|| format!("before: {} width {width1} path {path:?} target {target:?}", show_nodes(first.0)));
    let (path2, _) = pick_path(&nodes, false);
    sx::show(|| format!("then path {path2:?}"));
    let under_way = ppp::pretty_print(first.1.root(), width1 as u16, &path, target, None);
    let mut lines: Vec<Row> = Vec::new();
    let mut whole = false;
    let p = match under_way {
        Ok((up, line, mut down)) => {
            sx::cover(1);
            whole = true;
            for l in up {
                match l {
                    Ok(l) => lines.push(row_of(&l.segments)),
                    Err(_) => whole = false,
                }
            }
            lines.reverse();
            let mut focused = row_of(&line.left_segments);
            focused.extend(row_of(&line.right_segments));
            lines.push(focused);
            let next = down.next();
            let p = print(&doc, width, &path2, FocusTarget::Start, None);
            let mut more = false;
            if let Some(l) = next {
                match l {
                    Ok(l) => {
                        lines.push(row_of(&l.segments));
                        more = true;
                    }
                    Err(_) => whole = false,
                }
            }
            if more {
                for l in down {
                    match l {
                        Ok(l) => lines.push(row_of(&l.segments)),
                        Err(_) => whole = false,
                    }
                }
            }
            p
        }
        Err(_) => print(&doc, width, &path2, FocusTarget::Start, None),
    };
    if whole {
        let m1 = Model::new(first.0).layout(width1, None);
        if m1.err.is_none() {
            let want = rows_of_layout(&m1);
            show_rows("reference layout of the first", &want);
            show_rows("printed", &lines);
            sx::check(same_rows(&lines, &want, ALL), "later-print-changes-the-lines");
        }
    }
    if let (Err(PrintingError::InvalidPath(_)), false) = (&p, path2.is_empty()) {
        // the node is not displayed
        return sx::assume(false);
    }
    if let (Some(_), false) = (m.err, path2.is_empty()) {
        return sx::assume(false);
    }
    against_model(&p, &nodes, &m, ALL, ["earlier-print-changes-the-lines", "earlier-print-changes-the-outcome", "earlier-print-changes-the-outcome"]);
}

fn choices(x: &N) -> u64 {
    match x {
        N::Choice(x, y) => 1 + choices(x) + choices(y),
        N::Flat(x) | N::Indent(_, _, x) | N::Style(_, x) => choices(x),
        N::Cat(x, y) | N::Check(_, _, x, y) | N::Fold(x, y) => choices(x) + choices(y),
        N::Count(x, y, z) => choices(x) + choices(y) + choices(z),
        _ => 0,
    }
}

/// How often the document is asked something.
/// params: as for cfg; factor
pub fn work() {
    let c = cfg(0);
    let nodes = gen_doc(&c);
    let mut doc = match doc_of(&c, &nodes) {
        Some(d) => d,
        None => return,
    };
    doc.count_calls = true;
    let width = sx::var(0, 65535);
    show_case(&nodes, width);
    let (path, _) = pick_path(&nodes, false);
    let target = if sx::pick(2) == 1 { FocusTarget::End } else { FocusTarget::Start };
    sx::show(|| format!("path {path:?} target {target:?}"));
    // with or without methods of its own for siblings
    let r = if nodes.len() < 60 || sx::pick(2) == 0 {
        print(&doc, width, &path, target, None)
    } else {
        print_doc(Plain(doc.root()), width, &path, target, None)
    };
    match r {
        Ok(p) if p.err.is_none() => {}
        _ => return sx::assume(false),
    }
    sx::cover(1);
    let c: u64 = nodes.iter().map(|n| choices(&n.n) * 1.max(n.kids.len() as u64)).sum();
    let calls = doc.calls.get();
    sx::show(|| format!("{} nodes, {c} choices: {calls} calls", nodes.len()));
    sx::check(calls <= sx::param(8) * (c + 1) * nodes.len() as u64, "too-many-calls");
    sx::obs(calls);
}
