use super::api::*;
use super::mk::*;
use aseprite_loader::loader::AsepriteFile;

pub fn bpp(depth: u16) -> usize {
    depth as usize / 8
}
/// the reference conversion
pub fn convert(depth: u16, px: &[u8], pal: &[[u8; 4]; 256]) -> Vec<u8> {
    match depth {
        RGBA => px.to_vec(),
        GRAY => {
            let mut o = vec![];
            for i in 0..px.len() / 2 {
                o.extend_from_slice(&[px[2 * i], px[2 * i], px[2 * i], px[2 * i + 1]]);
            }
            o
        }
        _ => {
            let mut o = vec![];
            for p in px {
                o.extend_from_slice(&pal[*p as usize]);
            }
            o
        }
    }
}
/// a file with one layer and one image; returns the palette after resolution
pub fn one(depth: u16, w: u16, h: u16, ti: u8, full: bool, compressed: bool, data: &[u8]) -> (Mk, [[u8; 4]; 256]) {
    let mut m = Mk::new(depth, 4, 4);
    m.b[28] = ti;
    m.frame(1).simple_layer();
    let mut pal = [[0u8; 4]; 256];
    if depth == IDX {
        let n = if full { 256 } else { 4 };
        let mut cs = vec![];
        for i in 0..n {
            let c = if full { [i as u8, 255 - i as u8, (i * 7) as u8, (i * 3) as u8] } else { sym::<4>() };
            cs.push(c);
            pal[i] = c;
        }
        m.palette(0, &cs);
        pal[ti as usize][3] = 0;
    }
    m.cel(0, 0, 0, 255, if compressed { 2 } else { 0 }, 0).u16(w).u16(h).by(data).end().end_frame();
    (m, pal)
}
fn check(m: &Mk, want: &[u8], slack: usize) {
    let a = match AsepriteFile::load(&m.b) {
        Ok(a) => a,
        Err(_) => return never(),
    };
    ck(a.image_count() == 1);
    // what lies behind the image must keep its value, what lies in it must not matter
    let mut t = symv(want.len() + slack);
    let tail = t[want.len()..].to_vec();
    let r = a.load_image(0, &mut t);
    ck(r.is_ok());
    if r.is_ok() {
        ckeq(&t[..want.len()], want);
        ckeq(&t[want.len()..], &tail);
        reach(1);
    }
}
const D: [u16; 3] = [RGBA, GRAY, IDX];
/// w x h image with symbolic pixels; mode 0 raw, otherwise zlib with stored blocks of at most `mode` bytes
pub fn h15_pixels(d: usize, w: usize, h: usize, mode: usize) {
    let px = symv(w * h * bpp(D[d]));
    let data = if mode == 0 { px.clone() } else { zlib_stored(&px, mode) };
    let (m, pal) = one(D[d], w as u16, h as u16, 2, false, mode != 0, &data);
    if D[d] == IDX {
        // indices of the four defined entries, or any in between
        for p in &px {
            assume(*p < 6);
        }
    }
    let want = convert(D[d], &px, &pal);
    check(&m, &want, 5);
}
/// one indexed pixel: every index, every transparent index of a few, a palette of 256 entries
pub fn h15_index(mode: usize, _: usize, _: usize, _: usize) {
    let px = symv(2);
    let ti = [0u8, 1, 128, 255][pick(4)];
    let data = if mode == 0 { px.clone() } else { zlib_stored(&px, 8) };
    let (m, pal) = one(IDX, 1, 2, ti, true, mode != 0, &data);
    let want = convert(IDX, &px, &pal);
    check(&m, &want, 0);
}
/// large images: symbolic bytes every `step`
pub fn h15_large(d: usize, w: usize, h: usize, mode: usize) {
    let n = w * h * bpp(D[d]);
    let mut px: Vec<u8> = (0..n).map(|i| if d == 2 { (i % 3) as u8 } else { (i * 31 + 7 + (i >> 8) * 3 + (i >> 16) * 7) as u8 }).collect();
    if d != 2 {
        let s = n / 3;
        if mode == 0 {
            fill(&mut px[s..s + 2]);
            fill(&mut px[n - 2..]);
        } else {
            // the checksum of long streams is too hard for the solver
            px[s] = [0, 1, 255][pick(3)];
        }
    }
    let data = if mode == 0 { px.clone() } else { zlib_stored(&px, mode) };
    let (m, pal) = one(D[d], w as u16, h as u16, 200, false, mode != 0, &data);
    let want = convert(D[d], &px, &pal);
    check(&m, &want, 1);
}
/// a well compressed image of one repeated pixel, some values of which are picked symbolically
pub fn h15_rle(d: usize, w: usize, h: usize, _: usize) {
    let p = [[1u8, 2, 3, 0], [0, 255, 144, 143], [200, 3, 0, 254]][pick(3)];
    let n = bpp(D[d]);
    let p = if d == 2 { [p[0] % 6, 0, 0, 0] } else { p };
    let px: Vec<u8> = (0..w * h * n).map(|i| p[i % n]).collect();
    let (m, pal) = one(D[d], w as u16, h as u16, 2, false, true, &zlib_rle(&px, n));
    let want = convert(D[d], &px, &pal);
    check(&m, &want, 3);
}
