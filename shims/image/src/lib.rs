//! Stand-in for `image`: the "picture" is the text the code carries, so that a monitor can read it back.
use std::io::{self, Seek, Write};
pub struct Luma<T>(pub [T; 1]);
#[derive(Clone, Copy, Debug)]
pub enum ImageFormat {
    Png,
}
pub struct ImageBuffer(pub Vec<u8>);
impl ImageBuffer {
    pub fn write_to<W: Write + Seek>(&self, w: &mut W, _f: ImageFormat) -> io::Result<()> {
        w.write_all(b"QR:")?;
        w.write_all(&self.0)
    }
}
