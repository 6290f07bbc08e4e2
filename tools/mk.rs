//! Builds Aseprite files byte by byte from the file-format specification.
#![allow(dead_code)]
pub struct Mk {
    pub b: Vec<u8>,
    f: usize,
    c: usize,
    n: u32,
    frames: u16,
}
pub const RGBA: u16 = 32;
pub const GRAY: u16 = 16;
pub const IDX: u16 = 8;
pub const LAYER: u16 = 0x2004;
pub const CEL: u16 = 0x2005;
pub const CELX: u16 = 0x2006;
pub const PROFILE: u16 = 0x2007;
pub const EXTFILES: u16 = 0x2008;
pub const MASK: u16 = 0x2016;
pub const PATH: u16 = 0x2017;
pub const TAGS: u16 = 0x2018;
pub const PAL: u16 = 0x2019;
pub const UDATA: u16 = 0x2020;
pub const SLICE: u16 = 0x2022;
pub const TILESET: u16 = 0x2023;
pub const OLD04: u16 = 0x0004;
pub const OLD11: u16 = 0x0011;

impl Mk {
    /// a file with a header (layer opacity valid), no frames yet
    pub fn new(depth: u16, w: u16, h: u16) -> Mk {
        let mut b = vec![0u8; 128];
        b[4..6].copy_from_slice(&0xA5E0u16.to_le_bytes());
        b[8..10].copy_from_slice(&w.to_le_bytes());
        b[10..12].copy_from_slice(&h.to_le_bytes());
        b[12..14].copy_from_slice(&depth.to_le_bytes());
        b[14] = 1;
        b[18] = 100;
        Mk { b, f: 0, c: 0, n: 0, frames: 0 }
    }
    pub fn raw() -> Mk {
        Mk { b: vec![], f: 0, c: 0, n: 0, frames: 0 }
    }
    pub fn u8(&mut self, v: u8) -> &mut Mk {
        self.b.push(v);
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut Mk {
        self.b.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i16(&mut self, v: i16) -> &mut Mk {
        self.u16(v as u16)
    }
    pub fn u32(&mut self, v: u32) -> &mut Mk {
        self.b.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i32(&mut self, v: i32) -> &mut Mk {
        self.u32(v as u32)
    }
    pub fn z(&mut self, n: usize) -> &mut Mk {
        let l = self.b.len();
        self.b.resize(l + n, 0);
        self
    }
    pub fn by(&mut self, v: &[u8]) -> &mut Mk {
        self.b.extend_from_slice(v);
        self
    }
    pub fn st(&mut self, v: &[u8]) -> &mut Mk {
        self.u16(v.len() as u16);
        self.by(v)
    }
    pub fn frame(&mut self, duration: u16) -> &mut Mk {
        self.f = self.b.len();
        self.n = 0;
        self.frames += 1;
        self.u32(0).u16(0xF1FA).u16(0).u16(duration).z(2).u32(0)
    }
    pub fn end_frame(&mut self) -> &mut Mk {
        let f = self.f;
        let n = (self.b.len() - f) as u32;
        self.b[f..f + 4].copy_from_slice(&n.to_le_bytes());
        let old = if self.n > 0xfffe { 0xffff } else { self.n as u16 };
        self.b[f + 6..f + 8].copy_from_slice(&old.to_le_bytes());
        self.b[f + 12..f + 16].copy_from_slice(&self.n.to_le_bytes());
        let fr = self.frames.to_le_bytes();
        self.b[6..8].copy_from_slice(&fr);
        self
    }
    pub fn chunk(&mut self, ty: u16) -> &mut Mk {
        self.c = self.b.len();
        self.n += 1;
        self.u32(0).u16(ty)
    }
    pub fn end(&mut self) -> &mut Mk {
        let c = self.c;
        let n = (self.b.len() - c) as u32;
        self.b[c..c + 4].copy_from_slice(&n.to_le_bytes());
        self
    }
    /// a layer chunk
    pub fn layer(&mut self, flags: u16, ty: u16, child: u16, blend: u16, opacity: u8, name: &[u8]) -> &mut Mk {
        self.chunk(LAYER).u16(flags).u16(ty).u16(child).u16(0).u16(0).u16(blend).u8(opacity).z(3).st(name);
        if ty == 2 {
            self.u32(0);
        }
        self.end()
    }
    pub fn simple_layer(&mut self) -> &mut Mk {
        self.layer(1, 0, 0, 0, 255, b"L")
    }
    /// start of a cel chunk, up to the type dependent part
    pub fn cel(&mut self, layer: u16, x: i16, y: i16, opacity: u8, ty: u16, z: i16) -> &mut Mk {
        self.chunk(CEL).u16(layer).i16(x).i16(y).u8(opacity).u16(ty).i16(z).z(5)
    }
    pub fn raw_cel(&mut self, layer: u16, x: i16, y: i16, opacity: u8, z: i16, w: u16, h: u16, px: &[u8]) -> &mut Mk {
        self.cel(layer, x, y, opacity, 0, z).u16(w).u16(h).by(px).end()
    }
    pub fn linked_cel(&mut self, layer: u16, x: i16, y: i16, opacity: u8, z: i16, frame: u16) -> &mut Mk {
        self.cel(layer, x, y, opacity, 1, z).u16(frame).end()
    }
    /// user data with a one letter text
    pub fn udata(&mut self, text: u8) -> &mut Mk {
        self.chunk(UDATA).u32(1).st(&[text]).end()
    }
    pub fn palette(&mut self, first: u32, colors: &[[u8; 4]]) -> &mut Mk {
        self.chunk(PAL).u32(colors.len() as u32).u32(first).u32(first + colors.len() as u32 - 1).z(8);
        for c in colors {
            self.u16(0).by(c);
        }
        self.end()
    }
}
/// a zlib stream holding `data` in stored blocks of at most `max` bytes
pub fn zlib_stored(data: &[u8], max: usize) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    let mut i = 0;
    loop {
        let n = (data.len() - i).min(max);
        o.push((i + n == data.len()) as u8);
        o.extend_from_slice(&(n as u16).to_le_bytes());
        o.extend_from_slice(&(!(n as u16)).to_le_bytes());
        o.extend_from_slice(&data[i..i + n]);
        i += n;
        if i == data.len() {
            break;
        }
    }
    o.extend_from_slice(&adler(data).to_be_bytes());
    o
}
/// Adler-32; the modulo is taken without division as every step adds less than 65521 * 2
pub fn adler(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    if data.len() < 200 {
        // no reduction of a can be needed: 1 + 199 * 255 < 65521
        for x in data {
            a += *x as u32;
            b += a;
        }
        return (b % 65521) << 16 | a;
    }
    for x in data {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
/// a zlib stream of one fixed Huffman block for data that repeats its first `period` bytes (1, 2, 3 or 4)
pub fn zlib_rle(data: &[u8], period: usize) -> Vec<u8> {
    struct Bits(Vec<u8>, u32, u32);
    impl Bits {
        /// n bits, least significant first
        fn put(&mut self, v: u32, n: u32) {
            self.1 |= v << self.2;
            self.2 += n;
            while self.2 >= 8 {
                self.0.push(self.1 as u8);
                self.1 >>= 8;
                self.2 -= 8;
            }
        }
        /// a Huffman code: most significant bit first
        fn code(&mut self, v: u32, n: u32) {
            for i in 0..n {
                self.put(v >> (n - 1 - i) & 1, 1);
            }
        }
        fn literal(&mut self, v: u32) {
            if v < 144 {
                self.code(0x30 + v, 8);
            } else {
                self.code(0x190 + v - 144, 9);
            }
        }
    }
    let mut b = Bits(vec![0x78, 0x9c], 0, 0);
    b.put(3, 3);
    let mut i = 0;
    while i < data.len() {
        if i >= period && data.len() - i >= 258 {
            b.code(0xc5, 8);
            b.code(period as u32 - 1, 5);
            i += 258;
        } else {
            b.literal(data[i] as u32);
            i += 1;
        }
    }
    b.code(0, 7);
    b.put(0, 7);
    let mut o = b.0;
    o.extend_from_slice(&adler(data).to_be_bytes());
    o
}
