//! Stand-in for the part of `half` that `ciborium-ll` uses.
#[allow(non_camel_case_types)]
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
pub struct f16(u16);
impl f16 {
    pub const fn from_bits(b: u16) -> Self {
        Self(b)
    }
    pub const fn to_bits(self) -> u16 {
        self.0
    }
    pub fn from_be_bytes(b: [u8; 2]) -> Self {
        Self(u16::from_be_bytes(b))
    }
    pub fn to_be_bytes(self) -> [u8; 2] {
        self.0.to_be_bytes()
    }
    pub fn to_f64(self) -> f64 {
        let sign = if self.0 >> 15 == 1 { -1.0 } else { 1.0 };
        let exp = i32::from((self.0 >> 10) & 0x1f);
        let man = f64::from(self.0 & 0x3ff);
        match exp {
            0 => sign * man * 2f64.powi(-24),
            31 if man == 0.0 => sign * f64::INFINITY,
            31 => f64::NAN,
            _ => sign * (1.0 + man / 1024.0) * 2f64.powi(exp - 15),
        }
    }
    pub fn to_f32(self) -> f32 {
        self.to_f64() as f32
    }
    /// Nearest half; exact when the value is representable (all that ciborium relies on).
    pub fn from_f64(v: f64) -> Self {
        let sign = if v.is_sign_negative() { 0x8000 } else { 0 };
        let a = v.abs();
        if a.is_nan() {
            return Self(0x7e00);
        }
        if a.is_infinite() || a >= 65520.0 {
            return Self(sign | 0x7c00);
        }
        if a < 2f64.powi(-14) {
            return Self(sign | (a * 2f64.powi(24)).round() as u16);
        }
        let e = a.log2().floor() as i32;
        let m = ((a / 2f64.powi(e) - 1.0) * 1024.0).round() as u16;
        Self(sign + (((e + 15) as u16) << 10) + m)
    }
    pub fn from_f32(v: f32) -> Self {
        Self::from_f64(f64::from(v))
    }
}
impl From<f16> for f64 {
    fn from(v: f16) -> Self {
        v.to_f64()
    }
}
impl From<f16> for f32 {
    fn from(v: f16) -> Self {
        v.to_f32()
    }
}
