//! Reference decoding helpers, written from the file-format specification.
#![allow(dead_code)]
use super::api::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static FREE: AtomicUsize = AtomicUsize::new(4);
/// strings longer than n are assumed to be ASCII; 0 keeps the default
pub fn limit(n: usize) {
    FREE.store(if n == 0 { 4 } else { n }, Relaxed);
}
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
    /// strings longer than this are assumed to be ASCII
    pub free: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b, p: 0, free: FREE.load(Relaxed) }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.left() {
            return None;
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Some(r)
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        let b = self.take(2)?;
        Some(b[0] as u16 | (b[1] as u16) << 8)
    }
    pub fn i16(&mut self) -> Option<i16> {
        Some(self.u16()? as i16)
    }
    pub fn u32(&mut self) -> Option<u32> {
        let l = self.u16()? as u32;
        Some(l | (self.u16()? as u32) << 16)
    }
    pub fn i32(&mut self) -> Option<i32> {
        Some(self.u32()? as i32)
    }
    pub fn u64(&mut self) -> Option<u64> {
        let l = self.u32()? as u64;
        Some(l | (self.u32()? as u64) << 32)
    }
    /// a length-prefixed blob; forks over the lengths that fit
    pub fn blob(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.left() {
            return None;
        }
        self.take(conc(n as u64) as usize)
    }
    /// a STRING that must be UTF-8
    pub fn string(&mut self) -> Option<&'a [u8]> {
        let n = self.u16()? as usize;
        let s = self.blob(n)?;
        if s.len() > self.free {
            let mut ascii = true;
            for c in s {
                ascii &= *c < 0x80;
            }
            assume(ascii);
            return Some(s);
        }
        if utf8(s) { Some(s) } else { None }
    }
    pub fn rest(&mut self) -> &'a [u8] {
        let r = &self.b[self.p..];
        self.p = self.b.len();
        r
    }
}
/// RFC 3629
pub fn utf8(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let a = s[i];
        if a < 0x80 {
            i += 1;
            continue;
        }
        let (n, lo, hi) = match a {
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE..=0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return false,
        };
        if i + n >= s.len() {
            return false;
        }
        if s[i + 1] < lo || s[i + 1] > hi {
            return false;
        }
        let mut k = 2;
        while k <= n {
            if s[i + k] < 0x80 || s[i + k] > 0xBF {
                return false;
            }
            k += 1;
        }
        i += n + 1;
    }
    true
}
use aseprite_loader::binary::blend_mode::BlendMode;
use aseprite_loader::binary::chunk::{parse_chunk, Chunk};
use aseprite_loader::binary::chunks::layer::LayerType;
use aseprite_loader::binary::chunks::tags::AnimationDirection;
pub fn ref_blend(c: u16) -> BlendMode {
    use BlendMode::*;
    match c {
        0 => Normal,
        1 => Multiply,
        2 => Screen,
        3 => Overlay,
        4 => Darken,
        5 => Lighten,
        6 => ColorDodge,
        7 => ColorBurn,
        8 => HardLight,
        9 => SoftLight,
        10 => Difference,
        11 => Exclusion,
        12 => Hue,
        13 => Saturation,
        14 => Color,
        15 => Luminosity,
        16 => Addition,
        17 => Subtract,
        18 => Divide,
        n => Unknown(n),
    }
}
pub fn ref_layer_type(c: u16) -> LayerType {
    match c {
        0 => LayerType::Normal,
        1 => LayerType::Group,
        2 => LayerType::Tilemap,
        n => LayerType::Unknown(n),
    }
}
pub fn dir_is(d: &AnimationDirection, c: u8) -> bool {
    match (d, c) {
        (AnimationDirection::Forward, c) => c == 0,
        (AnimationDirection::Reverse, c) => c == 1,
        (AnimationDirection::PingPong, c) => c == 2,
        (AnimationDirection::PingPongReverse, c) => c == 3,
        (AnimationDirection::Unknown(x), c) => c > 3 && *x == c,
    }
}
/// `payload` as a complete chunk of the given type
pub fn wrap(ty: u16, payload: &[u8]) -> Vec<u8> {
    let mut b = Vec::with_capacity(payload.len() + 6);
    b.extend_from_slice(&(payload.len() as u32 + 6).to_le_bytes());
    b.extend_from_slice(&ty.to_le_bytes());
    b.extend_from_slice(payload);
    b
}
/// decode one chunk with the real parser; it must consume the whole chunk
#[track_caller]
pub fn chunk(b: &[u8]) -> Option<Chunk<'_>> {
    match parse_chunk(b) {
        Ok((rest, c)) => {
            ck(rest.is_empty());
            Some(c)
        }
        Err(_) => None,
    }
}
