use super::api::*;
use super::mk::*;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};

fn known(mode: u16) -> bool {
    mode <= 18
}
fn depth_ok(d: u16) -> bool {
    d == RGBA || d == GRAY || d == IDX
}
/// does a cel of these dimensions and this data decode?
fn data_ok(depth: u16, w: u16, h: u16, n: usize) -> bool {
    depth_ok(depth) && w as usize * h as usize * (depth as usize / 8) == n
}
const PALETTE: [[u8; 4]; 3] = [[1, 2, 3, 255], [5, 6, 7, 255], [9, 10, 11, 90]];
/// rendering and loading with every kind of selection returns, and never writes past the canvas
fn all(a: &AsepriteFile<'_>, t: usize) {
    for f in 0..a.frames.len() {
        for k in 0..3 {
            let sel = match k {
                0 => LayerSelection::Visible,
                1 => LayerSelection::All,
                _ => LayerSelection::Mask(vec![true]),
            };
            let mut buf = vec![77u8; t];
            if a.render_frame(f, &mut buf, &sel).is_ok() {
                let (w, h) = a.size();
                ck(t >= w as usize * h as usize * 4);
                reach(1);
            } else {
                reach(2);
            }
        }
    }
    for i in 0..a.images.len() {
        let mut buf = vec![77u8; t];
        if a.load_image(i, &mut buf).is_ok() {
            ck(t >= a.images[i].width as usize * a.images[i].height as usize * 4);
            reach(3);
        } else {
            reach(4);
        }
    }
}
/// a layer of any type, flags, blend mode and opacity with a raw cel of n data bytes and any colour depth,
/// below an ordinary one; target of t bytes
pub fn h22_layer(n: usize, t: usize, w: usize, h: usize) {
    let depth = s16();
    let mut m = Mk::new(RGBA, 2, 1);
    m.b[12..14].copy_from_slice(&depth.to_le_bytes());
    let (ty, flags, mode) = (s16(), s16(), s16());
    let px: Vec<u8> = (0..n).map(|i| 3 * i as u8 & 1).collect();
    m.frame(1).palette(0, &PALETTE).layer(flags, ty, 0, mode, s8(), b"a").simple_layer();
    m.raw_cel(0, 0, 0, s8(), 0, w as u16, h as u16, &px);
    m.raw_cel(1, 1, 0, 200, 0, 1, 1, &[1, 1, 1, 1][..if depth_ok(depth) { conc(depth as u64) as usize / 8 } else { 4 }]);
    m.end_frame();
    let Ok(a) = AsepriteFile::load(&m.b) else { return never() };
    let sel = pick(5);
    let listed = ty < 2;
    let (selection, shown, second) = match sel {
        0 => (LayerSelection::Visible, flags & 1 != 0, true),
        1 => (LayerSelection::All, true, true),
        2 => (LayerSelection::Mask(vec![]), false, false),
        3 => (LayerSelection::Mask(vec![true]), true, !listed),
        _ => (LayerSelection::Mask(vec![false, true, true]), false, listed),
    };
    let bad0 = ty == 0 && shown && (!known(mode) || !data_ok(depth, w as u16, h as u16, n));
    let bad1 = second && !depth_ok(depth);
    let mut buf = vec![9u8; t];
    let r = a.render_frame(0, &mut buf, &selection);
    ck(r.is_err() == (t < 8 || bad0 || bad1));
    ckeq(&buf[8.min(t)..], &vec![9u8; t - 8.min(t)]);
    reach(if r.is_ok() { 1 } else { 2 });
    let size = w * h * 4;
    let mut buf = vec![9u8; t];
    let r = a.load_image(0, &mut buf);
    ck(r.is_err() == (t < size || !data_ok(depth, w as u16, h as u16, n)));
    reach(if r.is_ok() { 3 } else { 4 });
}
/// a cel of any n payload bytes in the second of two frames; images at most 3 x 3
pub fn h22_cel(n: usize, d: usize, k: usize, _: usize) {
    let depth = [RGBA, GRAY, IDX, 7][d];
    let mut m = Mk::new(depth, 2, 1);
    m.frame(1).palette(0, &PALETTE).simple_layer().layer(1, 2, 0, 0, 255, b"t");
    let px = [1u8, 2, 0, 1];
    m.raw_cel(0, 0, 0, 255, 0, 1, 1, &px[..depth as usize / 8]).end_frame().frame(1);
    let mut p = symv(n);
    if n >= 18 && p[7] == 1 {
        // hashing keeps this from being symbolic
        p[16] = [0, 1, 2, 255][pick(4)];
        p[17] = [0, 0, 255][pick(3)];
    }
    if n >= 20 {
        p[6] = 255;
        // cel types 0 and 2 carry their size here
        if p[7] == 0 || p[7] == 2 {
            for (i, b) in [(16, 4), (17, 1), (18, 4), (19, 1)] {
                assume(p[i] < b);
                p[i] = conc(p[i] as u64) as u8;
            }
        }
        if k == 1 {
            assume(p[2] < 4 && p[3] == 0 && p[4] < 4 && p[5] == 0);
        }
    }
    if n > 23 {
        assume(p[7] != 2);
    } else if n >= 22 {
        // a stream that may be valid
        p[20] = 0x78;
        p[21] = 1;
    }
    m.chunk(CEL).by(&p).end().end_frame();
    match AsepriteFile::load(&m.b) {
        Ok(a) => all(&a, 8),
        Err(_) => reach(5),
    }
}
/// two frames of n and k records of any of nine kinds
pub fn h22_seq(n: usize, d: usize, t: usize, k: usize) {
    let depth = [RGBA, GRAY, IDX, 7][d];
    let px = [1u8, 2, 0, 1];
    let one = &px[..depth as usize / 8];
    let mut m = Mk::new(depth, 2, 1);
    for f in 0..2u16 {
        m.frame(1);
        if f == 0 {
            m.simple_layer();
        }
        for i in 0..if f == 0 { n } else { k } {
            match pick(9) {
                0 => m.layer(s16(), 0, s16(), [0, 12, 19, 65535][pick(if i == 0 { 4 } else { 2 })], 255, b"l"),
                1 => m.layer(s16(), pick(4) as u16, 1, 0, 70, b"l"),
                2 => m.raw_cel(pick(2) as u16, pick(3) as i16 - 1, 0, [255, 90, 0][i % 3], si16(), 1, 1, one),
                3 => m.raw_cel(pick(2) as u16, 0, 0, [255, 90, 0][i % 3], si16(), 2, 1, one),
                4 => m.linked_cel(pick(2) as u16, 1, 0, [255, 90, 0][i % 3], si16(), [0, 1, 2, 65535][pick(4)]),
                5 => {
                    let b = if i % 2 == 0 { zlib_stored(one, 9) } else { vec![0x78, 1, 3, 0] };
                    m.cel(pick(2) as u16, 0, 0, 200, 2, 0).u16(1).u16(1).by(&b).end()
                }
                6 => m.palette(0, &PALETTE),
                7 => m.chunk(TAGS).u16(1).z(8).u16(s16()).u16(s16()).u8(s8()).u16(s16()).z(6).by(&sym::<3>()).u8(0).st(b"t").end(),
                _ => m.cel(0, 0, 0, 255, 3, 0).u16(1).u16(1).u16(32).z(26).u32(s32()).end(),
            };
        }
        m.end_frame();
    }
    match AsepriteFile::load(&m.b) {
        Ok(a) => all(&a, t),
        Err(_) => reach(5),
    }
}
/// large cels with the wrong amount of data
pub fn h22_large(d: usize, w: usize, h: usize, zip: usize) {
    let depth = [RGBA, GRAY, IDX, 7][d];
    let mut m = Mk::new(depth, 2, 1);
    let n = pick(4);
    let data = if zip != 0 { zlib_stored(&vec![1u8; n], 99) } else { vec![1u8; n] };
    m.frame(1).palette(0, &PALETTE).simple_layer();
    m.cel(0, si16(), si16(), 255, if zip != 0 { 2 } else { 0 }, 0).u16(w as u16).u16(h as u16).by(&data).end().end_frame();
    let Ok(a) = AsepriteFile::load(&m.b) else { return never() };
    let mut buf = vec![9u8; 12];
    ck(a.render_frame(0, &mut buf, &LayerSelection::All).is_err() != (w * h == 0 && n == 0 && d < 3));
    ckeq(&buf, &[9u8; 12]);
    ck(a.load_image(0, &mut buf).is_err() != (w * h == 0 && n == 0 && d < 3));
    reach(1);
}
/// a sprite with records of all kinds, w bytes of any value (sizes and lengths only when w is 1) at any of the n
/// positions from p on
pub fn h22_mut(p: usize, n: usize, w: usize, depth: usize) {
    let m = mutated([RGBA, GRAY, IDX][depth], p, n, w);
    match AsepriteFile::load(&m.b) {
        Ok(a) => {
            reach(5);
            all(&a, 48);
        }
        Err(_) => reach(6),
    }
}
