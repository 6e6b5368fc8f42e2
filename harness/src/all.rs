//! All harnesses. Each entry point is explored symbolically and replayed natively.

pub mod ast;
pub mod cmp;
pub mod h_doc;
pub mod h_doc2;
pub mod h_layout;
pub mod h_hist;
pub mod h_json;
pub mod h_misc;
pub mod h_pane;
pub mod h_serde;
pub mod h_str;
pub mod h_valid;
pub mod h_wide;
pub mod model;
pub mod pane_model;
pub mod sx;
pub mod tmpl;

macro_rules! entries {
    ($($name:ident => $f:path),* $(,)?) => {
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $f)),*];
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
    };
}
entries! {
    h_layout => h_layout::layout,
    h_text => h_doc::text,
    h_styles => h_doc::styles,
    h_same_lines => h_doc::same_lines,
    h_position => h_doc::position,
    h_missing => h_doc::missing,
    h_mismatch => h_doc2::mismatch,
    h_faults => h_doc2::faults,
    h_contract => h_doc2::contract,
    h_defaults => h_doc2::defaults,
    h_lazy => h_doc2::lazy,
    h_validate => h_valid::validate,
    h_validate_nested => h_valid::nested,
    h_promise => h_valid::promise,
    h_widths => h_str::widths,
    h_strings => h_str::strings,
    h_oracle => h_str::oracle,
    h_divide => h_pane::divide,
    h_divide_many => h_pane::divide_many,
    h_pane_doc => h_pane::doc,
    h_dynamic => h_pane::dynamic,
    h_tree => h_pane::tree,
    h_pane_faults => h_pane::faults,
    h_plain => h_pane::plain,
    h_wide => h_wide::document,
    h_wide_panes => h_wide::panes,
    h_focus_row => h_wide::focus_row,
    h_json => h_json::json,
    h_unprintable => h_pane::unprintable,
    h_schedule => h_hist::schedule,
    h_history => h_hist::history,
    h_work => h_hist::work,
    h_round_trip => h_serde::round_trip,
    h_constructors => h_misc::constructors,
    h_basic_style => h_misc::basic_style,
    h_style_label => h_misc::style_label,
    h_example_tree => h_misc::example_tree,
}
