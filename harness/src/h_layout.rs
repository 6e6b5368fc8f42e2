use crate::all::ast::*;
use crate::all::cmp::*;
use crate::all::model::*;
use crate::all::sx;
use partial_pretty_printer::FocusTarget;

/// params: size lo, size hi, vocabulary, width lo, width hi of literals
pub fn layout() {
    let (lo, hi) = (sx::param(0) as usize, sx::param(1) as usize);
    let mut g = Gen::new(sx::param(2), 0, sx::param(3), sx::param(4));
    let size = lo + sx::pick(hi - lo + 1);
    let n = g.gen(size);
    let nodes = [Node::new(n)];
    let doc = match make_doc(&nodes, true) {
        Ok(d) => d,
        Err(_) => return sx::assume(false),
    };
    let width = sx::var(0, 65535);
    show_case(&nodes, width);
    let m = Model::new(&nodes).layout(width, None);
    let r = print(&doc, width, &[], FocusTarget::Start, None);
    match r {
        Ok(p) => {
            match (&p.err, m.err) {
                (None, None) => {
                    if m.took_first > 0 {
                        sx::cover(1);
                    }
                    if m.took_second > 0 {
                        sx::cover(2);
                    }
                    if m.lines.len() > 1 {
                        sx::cover(3);
                    }
                    sx::check(p.focus_row == 0, "layout-lines-above-the-start");
                    sx::check(same_rows(&p.rows, &rows_of_layout(&m), TEXT), "layout-text");
                    obs_rows(&p.rows);
                }
                _ => sx::check(false, "layout-unexpected-error"),
            }
        }
        Err(_) => sx::check(m.err.is_some(), "layout-unexpected-error"),
    }
}
