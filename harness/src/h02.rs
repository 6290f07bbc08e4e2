use super::api::*;
use super::mk::*;
use super::rd::*;
use aseprite_loader::binary::{color_depth::ColorDepth, file::parse_file, header::Header, raw_file::parse_raw_file};
use aseprite_loader::loader::AsepriteFile;

fn same(h: &Header, b: &[u8]) {
    let g16 = |i: usize| b[i] as u16 | (b[i + 1] as u16) << 8;
    let g32 = |i: usize| g16(i) as u32 | (g16(i + 2) as u32) << 16;
    ck(h.file_size == g32(0));
    ck(h.frames == g16(6));
    ck(h.width == g16(8));
    ck(h.height == g16(10));
    let d = g16(12);
    ck(match h.color_depth {
        ColorDepth::Rgba => d == 32,
        ColorDepth::Grayscale => d == 16,
        ColorDepth::Indexed => d == 8,
        ColorDepth::Unknown(x) => x == d && d != 32 && d != 16 && d != 8,
    });
    ck(h.color_depth.bpp() == d);
    ck(h.flags == g32(14));
    ck(h.speed == g16(18));
    ck(h.transparent_index == b[28]);
    ck(h.color_count == g16(32));
    ck(h.pixel_width == b[34]);
    ck(h.pixel_height == b[35]);
    ck(h.grid_x == g16(36) as i16);
    ck(h.grid_y == g16(38) as i16);
    ck(h.grid_width == g16(40));
    ck(h.grid_height == g16(42));
}
/// all 128 header bytes symbolic, one empty frame with a symbolic duration; a: 0 raw, 1 file, 2 loader
pub fn h02_header(a: usize, _: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    let d = s16();
    m.frame(d).end_frame();
    let mut b = m.b;
    fill(&mut b[..128]);
    let magic = b[4] == 0xE0 && b[5] == 0xA5;
    let mut zero = true;
    for i in 20..28 {
        zero &= b[i] == 0;
    }
    let r = match a {
        0 => parse_raw_file(&b).map(|f| (f.header, f.frames.len(), f.frames[0].duration)).ok(),
        1 => parse_file(&b).map(|f| (f.header, f.frames.len(), f.frames[0].duration)).ok(),
        _ => AsepriteFile::load(&b).map(|f| {
            ck(f.size() == (f.file.header.width, f.file.header.height));
            (f.file.header, f.frames.len(), f.frames[0].duration)
        }).ok(),
    };
    let indexed = b[12] == 8 && b[13] == 0;
    match r {
        Some((h, n, dur)) => {
            ck(magic);
            same(&h, &b);
            ck(n == 1);
            ck(dur == d);
            // an indexed sprite needs a palette
            ck(a == 0 || !indexed);
            reach(1);
            obs(&[1]);
        }
        None => {
            // reserved fields of the FLI header may be insisted on
            ck(!magic || !zero || (a > 0 && indexed));
            reach(2);
            obs(&[0]);
        }
    }
}
/// a symbolic bytes are never accepted when shorter than header and one frame
pub fn h02_short(n: usize, _: usize, _: usize, _: usize) {
    let b = symv(n);
    ck(parse_raw_file(&b).is_err());
    ck(parse_file(&b).is_err());
    ck(AsepriteFile::load(&b).is_err());
    reach(1);
    let _ = Rd::new(&b);
}
