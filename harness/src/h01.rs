use super::api::*;
use super::mk::*;
use super::rd::wrap;
use aseprite_loader::binary::chunk::parse_chunk;
use aseprite_loader::binary::file::parse_file;
use aseprite_loader::binary::raw_file::parse_raw_file;
use aseprite_loader::loader::AsepriteFile;

const TYPES: [u16; 16] = [OLD04, OLD11, LAYER, CEL, CELX, PROFILE, EXTFILES, MASK, PATH, TAGS, PAL, UDATA, SLICE, TILESET, 0x1234, 0x0];
/// bytes of a type, without what cannot be decided: frame positions of links are hashed
fn payload(k: usize, n: usize) -> Vec<u8> {
    let mut p = symv(n);
    if TYPES[k] == CEL && n >= 18 && p[7] == 1 {
        p[16] = [0, 1, 255][pick(3)];
        p[17] = [0, 255][pick(2)];
    }
    // long names multiply the paths: the record checks have them
    if TYPES[k] == SLICE && n > 20 {
        assume(p[12] < 3 && p[13] == 0);
    }
    if TYPES[k] == TAGS && n > 30 {
        assume(p[27] < 3 && p[28] == 0);
    }
    p
}
/// any payload as a chunk of the given type
pub fn h01_chunk(k: usize, n: usize, _: usize, _: usize) {
    let p = symv(n);
    let w = wrap(TYPES[k], &p);
    reach(if parse_chunk(&w).is_ok() { 1 } else { 2 });
}
fn load(b: &[u8], via: usize) {
    let ok = match via {
        0 => parse_raw_file(b).is_ok(),
        1 => parse_file(b).is_ok(),
        _ => AsepriteFile::load(b).is_ok(),
    };
    reach(if ok { 1 } else { 2 });
}
/// any n bytes
pub fn h01_raw(n: usize, via: usize, _: usize, _: usize) {
    load(&symv(n), via);
}
/// any n bytes after a header with any depth, size and transparent index
pub fn h01_body(n: usize, via: usize, frames: usize, _: usize) {
    let mut m = Mk::new(RGBA, s16(), s16());
    m.b[6] = frames as u8;
    m.b[12..14].copy_from_slice(&sym::<2>());
    m.b[28] = s8();
    m.by(&symv(n));
    load(&m.b, via);
}
/// a frame with two chunks of any payload after a layer
pub fn h01_two(k: usize, n: usize, l: usize, m: usize) {
    let mut f = Mk::new(if [k, l].iter().any(|x| matches!(*x, 0 | 1 | 10)) { IDX } else { RGBA }, 1, 1);
    f.frame(1).simple_layer();
    f.chunk(TYPES[k]).by(&payload(k, n)).end();
    f.chunk(TYPES[l]).by(&payload(l, m)).end();
    f.end_frame();
    load(&f.b, 2);
}
/// a chunk of any payload in the second frame of any sprite with two layers
pub fn h01_second(k: usize, n: usize, via: usize, _: usize) {
    let mut f = Mk::new(IDX, 1, 1);
    f.b[12..14].copy_from_slice(&sym::<2>());
    f.b[28] = [0, 3, 255][pick(3)];
    f.frame(1).simple_layer().layer(1, 1, 0, 0, 1, b"g").palette(0, &[[1, 2, 3, 4]]).raw_cel(0, 0, 0, 1, 0, 1, 1, &[1]).end_frame();
    f.frame(1).chunk(TYPES[k]).by(&payload(k, n)).end().end_frame();
    load(&f.b, via);
}
/// a sprite with records of all kinds and strings of n bytes, made of characters of w bytes after an ASCII
/// prefix of any length below w: every cut inside a string is inside a character for some of them
pub fn h01_names(n: usize, w: usize, depth: usize, _: usize) {
    let c = ['a', '\u{e9}', '\u{20ac}', '\u{1f600}'][w - 1].to_string();
    let mut name = vec![b'x'; pick(w as u8)];
    while name.len() < n {
        name.extend_from_slice(c.as_bytes());
    }
    load(&sample([RGBA, GRAY, IDX][depth], &name).b, 2);
}
/// a sprite with records of all kinds: any value of one byte at any of the n positions from p on, or any value of
/// w bytes that are not of a size or length
pub fn h01_mut(p: usize, n: usize, w: usize, depth: usize) {
    load(&mutated([RGBA, GRAY, IDX][depth], p, n, w).b, 2);
}
/// n records of kind k
pub fn h01_many(k: usize, n: usize, _: usize, _: usize) {
    let mut f = Mk::new(IDX, 1, 1);
    f.frame(1).palette(0, &[[1, 2, 3, 4]]);
    match k {
        0 => (0..n).for_each(|_| { f.simple_layer(); }),
        1 => (0..n).for_each(|_| { f.end_frame().frame(0); }),
        2 => {
            f.chunk(TAGS).u16(n as u16).z(8);
            (0..n).for_each(|_| { f.u16(0).u16(0).u8(0).u16(0).z(10).st(b"t"); });
            f.end();
        }
        3 => {
            f.chunk(SLICE).u32(n as u32).u32(0).u32(0).st(b"");
            (0..n).for_each(|_| { f.z(20); });
            f.end();
        }
        4 => {
            f.chunk(UDATA).u32(4).u32(26 + n as u32 * 3).u32(1).u32(0).u32(1).st(b"").u16(0x11).u32(n as u32).u16(0);
            (0..n).for_each(|_| { f.u16(1).u8(1); });
            f.end();
        }
        5 => {
            f.chunk(OLD04).u16(n as u16);
            (0..n).for_each(|_| { f.u8(1).u8(1).z(3); });
            f.end();
        }
        6 => (0..n).for_each(|_| { f.chunk(0x7777).end(); }),
        7 => {
            f.simple_layer();
            (0..n).for_each(|i| { f.raw_cel(0, i as i16, 0, 255, 0, 1, 1, &[0]); });
        }
        8 => {
            f.chunk(EXTFILES).u32(n as u32).z(8);
            (0..n).for_each(|_| { f.u32(1).u8(0).z(7).st(b"t"); });
            f.end();
        }
        _ => (0..n).for_each(|_| { f.udata(b'x'); }),
    }
    f.end_frame();
    load(&f.b, 2);
}
