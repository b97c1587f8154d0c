//! Small deterministic generator (splitmix64); every random choice of the
//! workloads comes from `VERIF_SEED` through it.

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }

    /// An independent stream for case `i`, so that any case can be replayed alone.
    pub fn case(seed: u64, i: u64) -> Self {
        let mut r = Self::new(seed ^ i.wrapping_mul(0xA24B_AED4_963E_E407));
        r.next();
        r
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }

    /// Text made of hostile fragments: separators, quotes, escapes, brackets,
    /// percent sequences, controls, non-ASCII.
    pub fn hostile(&mut self, max: usize) -> String {
        const FRAGS: &[&str] = &[
            "a", "b", "Z", "0", "9", "&", "=", "%", "%26", "%3D", "%22", "%zz", "%", "\"", "\\", "\\\"",
            "[", "]", "{", "}", ",", ":", "\"[", "]\"", "\"{", "}\"", " ", "+", "/", "?", "#", ";",
            "\n", "\t", "\r", "\0", "\u{7f}", "'", "<", ">", "é", "ß", "漢字", "🦀", "\u{202e}", "\u{feff}",
            "&x=1", "=&=", "null", "true", "1", "-1", ".", "_", "-", "~", "*", "(", ")", "!", "$", "^", "`",
            "|", "@", "\\u0026", "\u{1}", "{\"a\":1}", "[1]", "value",
        ];
        let n = self.below(max + 1);
        let mut s: String = (0..n)
            .map(|_| if self.chance(1, 30) { self.scalar().to_string() } else { self.pick(FRAGS).to_string() })
            .collect();
        // now and then, text as long as some buffer, counter or limit may be
        if max > 2 && self.chance(1, 120) {
            let size = self.size();
            let unit = if s.is_empty() { "a".to_string() } else { s.clone() };
            while s.len() < size {
                s += &unit;
            }
            if self.chance(1, 2) {
                while s.len() > size || !s.is_ascii() && s.len() > 1 && self.chance(1, 50) {
                    s.pop();
                }
            }
        }
        s
    }

    /// A character from anywhere in Unicode.
    pub fn scalar(&mut self) -> char {
        let top = *self.pick(&[0x80, 0x800, 0x3000, 0x11_0000]);
        loop {
            if let Some(c) = char::from_u32(self.below(top) as u32) {
                return c;
            }
        }
    }

    /// Text of `size` bytes or a few less, of characters of every width, that starts
    /// and ends anywhere relative to the characters' boundaries.
    pub fn scaled(&mut self, size: usize) -> String {
        const UNITS: &[&str] = &[
            "é", "漢", "🦀", "a", "aé漢🦀", "漢字é", "&=", "%26", "\"\\", "ab ", "{\"a\":[1]}", "\u{0}\n", "a b&c=d%é",
        ];
        let unit = *self.pick(UNITS);
        let mut s = "x".repeat(self.below(5));
        while s.len() + unit.len() <= size {
            s += unit;
        }
        if self.chance(1, 2) {
            while s.len() < size {
                s.push('y');
            }
        }
        s
    }

    /// A size next to a power of two, up to `max`.
    pub fn limit(&mut self, max: usize) -> usize {
        let mut all = vec![];
        let mut b = 128;
        while b <= max {
            all.extend([b, b / 10 * 10]);
            b *= 2;
        }
        for b in [500, 1000, 2000, 5000, 10_000, 50_000, 100_000, 500_000, 1_000_000] {
            if b <= max {
                all.push(b);
            }
        }
        let base = *self.pick(&all);
        (base + self.below(9)).saturating_sub(4)
    }

    /// A size next to a power of two or ten, up to a few thousand.
    pub fn size(&mut self) -> usize {
        let base = *self.pick(&[8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096]);
        base + self.below(3) - 1
    }

    pub fn ident(&mut self) -> String {
        let n = self.range(1, 10);
        (0..n).map(|_| *self.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789") as char)
            .collect()
    }
}
