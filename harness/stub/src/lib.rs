//! Stand-in for the `unicode-width` crate in the symbolic build. A string whose length is a
//! symbolic variable consists of ASCII letters by construction (see `sx::sym_string`), so its
//! width is its length; everything else goes to the real crate.
extern "C" {
    fn sx_is_sym(v: u64) -> bool;
}
pub trait UnicodeWidthStr {
    fn width(&self) -> usize;
    fn width_cjk(&self) -> usize;
}
impl UnicodeWidthStr for str {
    #[inline(never)]
    fn width(&self) -> usize {
        if unsafe { sx_is_sym(self.len() as u64) } {
            return self.len();
        }
        unicode_width::UnicodeWidthStr::width(self)
    }
    #[inline(never)]
    fn width_cjk(&self) -> usize {
        if unsafe { sx_is_sym(self.len() as u64) } {
            return self.len();
        }
        unicode_width::UnicodeWidthStr::width_cjk(self)
    }
}
pub trait UnicodeWidthChar {
    fn width(self) -> Option<usize>;
    fn width_cjk(self) -> Option<usize>;
}
impl UnicodeWidthChar for char {
    #[inline]
    fn width(self) -> Option<usize> {
        unicode_width::UnicodeWidthChar::width(self)
    }
    #[inline]
    fn width_cjk(self) -> Option<usize> {
        unicode_width::UnicodeWidthChar::width_cjk(self)
    }
}
