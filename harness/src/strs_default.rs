//! The default string representation.
pub type MStr = String;
pub fn mk(v: Vec<u8>) -> MStr {
    // the generators only fill in well-formed UTF-8
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn by(s: &MStr) -> &[u8] {
    s.as_bytes()
}
/// Whether string fields are validated as text.
pub const TEXT: bool = true;
