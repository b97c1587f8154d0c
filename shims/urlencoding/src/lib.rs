//! Stand-in for `urlencoding`.
use std::borrow::Cow;
use std::string::FromUtf8Error;
pub fn decode(s: &str) -> Result<Cow<'_, str>, FromUtf8Error> {
    let bytes: Vec<u8> = percent_encoding::percent_decode_str(s).collect();
    String::from_utf8(bytes).map(Cow::Owned)
}
pub fn encode(s: &str) -> Cow<'_, str> {
    Cow::Owned(percent_encoding::utf8_percent_encode(s, percent_encoding::NON_ALPHANUMERIC).to_string())
}
