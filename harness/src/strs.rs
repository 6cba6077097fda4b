//! The four string representations behind one interface.
#[cfg(feature = "binary_string")]
pub type MStr = bytes::Bytes;
#[cfg(feature = "boxed_string")]
pub type MStr = Box<str>;
#[cfg(feature = "cow_string")]
pub type MStr = std::borrow::Cow<'static, str>;
#[cfg(not(any(feature = "binary_string", feature = "boxed_string", feature = "cow_string")))]
pub type MStr = String;

#[cfg(feature = "binary_string")]
pub fn mk(v: Vec<u8>) -> MStr {
    bytes::Bytes::from(v)
}
#[cfg(not(feature = "binary_string"))]
pub fn mk(v: Vec<u8>) -> MStr {
    // the generators only fill in well-formed UTF-8
    let s = unsafe { String::from_utf8_unchecked(v) };
    #[cfg(feature = "boxed_string")]
    return s.into_boxed_str();
    #[cfg(feature = "cow_string")]
    return std::borrow::Cow::Owned(s);
    #[cfg(not(any(feature = "boxed_string", feature = "cow_string")))]
    s
}
#[cfg(feature = "binary_string")]
pub fn by(s: &MStr) -> &[u8] {
    s
}
#[cfg(not(feature = "binary_string"))]
pub fn by(s: &MStr) -> &[u8] {
    s.as_bytes()
}
/// Whether string fields are validated as text.
pub const TEXT: bool = !cfg!(feature = "binary_string");
