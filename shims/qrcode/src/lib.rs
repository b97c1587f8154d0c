//! Stand-in for `qrcode`: keeps the encoded text; refuses what a version 40-L code cannot hold.
use std::{fmt, marker::PhantomData};
#[derive(Debug)]
pub struct QrError;
impl fmt::Display for QrError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("data too long")
    }
}
impl std::error::Error for QrError {}
pub struct QrCode(Vec<u8>);
impl QrCode {
    pub fn new<D: AsRef<[u8]>>(data: D) -> Result<Self, QrError> {
        if data.as_ref().len() > 2331 {
            return Err(QrError);
        }
        Ok(Self(data.as_ref().to_vec()))
    }
    pub fn render<P>(&self) -> Renderer<P> {
        Renderer(self.0.clone(), PhantomData)
    }
}
pub struct Renderer<P>(Vec<u8>, PhantomData<P>);
impl<P> Renderer<P> {
    pub fn build(&self) -> image::ImageBuffer {
        image::ImageBuffer(self.0.clone())
    }
}
