use super::api::*;
use super::mk::*;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};

/// a sprite of two frames with one cel each, and what decoding and rendering must give (none: an error)
struct Sp {
    m: Mk,
    w: usize,
    h: usize,
    images: Vec<Option<Vec<u8>>>,
    frames: Vec<Option<Vec<u8>>>,
}
const OTHER: [[u8; 4]; 4] = [[91, 92, 93, 94], [95, 96, 97, 255], [98, 99, 100, 101], [102, 103, 104, 105]];
const PALETTE: [[u8; 4]; 4] = [[1, 2, 3, 255], [50, 60, 70, 80], [9, 10, 11, 12], [13, 14, 15, 16]];
/// (position, size, compressed, pixels in the file, damaged)
type C<'a> = (i16, i16, usize, usize, bool, &'a [u8], bool);
fn sprite(depth: u16, pal: &[[u8; 4]; 4], w: usize, h: usize, cels: &[C<'_>]) -> Sp {
    let mut m = Mk::new(depth, w as u16, h as u16);
    m.b[28] = 3;
    let (mut images, mut frames) = (vec![], vec![]);
    for (f, c) in cels.iter().enumerate() {
        m.frame(1 + f as u16);
        if f == 0 {
            m.simple_layer();
            if depth == IDX {
                m.palette(0, pal);
            }
        }
        let &(x, y, cw, ch, zip, px, bad) = c;
        let mut data = if zip { zlib_stored(px, 5) } else { px.to_vec() };
        if bad {
            data.truncate(data.len() - 5);
        }
        m.cel(0, x, y, 255, if zip { 2 } else { 0 }, 0).u16(cw as u16).u16(ch as u16).by(&data).end().end_frame();
        if bad {
            images.push(None);
            frames.push(None);
            continue;
        }
        let rgba: Vec<u8> = match depth {
            RGBA => px.to_vec(),
            GRAY => px.chunks(2).flat_map(|p| [p[0], p[0], p[0], p[1]]).collect(),
            _ => px.iter().flat_map(|p| pal[*p as usize]).collect(),
        };
        let mut t = vec![0; w * h * 4];
        for j in 0..ch {
            for i in 0..cw {
                let (tx, ty) = (x as isize + i as isize, y as isize + j as isize);
                if tx >= 0 && ty >= 0 && tx < w as isize && ty < h as isize {
                    let at = (ty as usize * w + tx as usize) * 4;
                    let from = (j * cw + i) * 4;
                    t[at..at + 4].copy_from_slice(&rgba[from..from + 4]);
                }
            }
        }
        images.push(Some(rgba));
        frames.push(Some(t));
    }
    Sp { m, w, h, images, frames }
}
fn all() -> Vec<Sp> {
    let px = |n: usize, k: usize| -> Vec<u8> { (0..n).map(|i| (i * k + 1) as u8).collect() };
    let idx = |n: usize, k: usize| -> Vec<u8> { (0..n).map(|i| (i + k) as u8 % 3).collect() };
    vec![
        sprite(RGBA, &PALETTE, 2, 2, &[(0, 0, 2, 1, false, &symv(8), false), (1, -1, 1, 3, true, &px(12, 9), false)]),
        sprite(GRAY, &PALETTE, 3, 2, &[(1, 1, 3, 2, true, &px(12, 31), false), (0, 0, 1, 1, false, &symv(2), false)]),
        sprite(IDX, &PALETTE, 2, 3, &[(0, 1, 2, 2, true, &idx(4, 1), false), (0, 0, 2, 2, true, &idx(4, 0), true)]),
        sprite(RGBA, &PALETTE, 2, 2, &[(0, 0, 2, 2, true, &px(16, 3), true), (-1, 0, 2, 2, false, &symv(16), false)]),
        sprite(IDX, &OTHER, 2, 3, &[(0, 1, 2, 2, false, &idx(4, 1), false), (1, 0, 1, 2, true, &idx(2, 0), false)]),
        sprite(GRAY, &OTHER, 2, 1, &[(0, 0, 1, 1, true, &px(2, 7), false), (0, 0, 2, 1, true, &px(4, 70), false)]),
    ]
}
#[allow(deprecated)]
fn hash(a: &AsepriteFile<'_>, f: usize) -> Option<u64> {
    let (w, h) = a.size();
    let mut t = vec![0; w as usize * h as usize * 4];
    a.combined_frame_image(f, &mut t).ok()
}
/// n calls of 5 kinds on six sprites, in any order; every result is the one of the call on its own
pub fn h26_any(n: usize, fresh: usize, kinds: usize, _: usize) {
    let sp = all();
    let mut at: Vec<AsepriteFile<'_>> = vec![];
    for s in &sp {
        match AsepriteFile::load(&s.m.b) {
            Ok(a) => at.push(a),
            Err(_) => return never(),
        }
    }
    let mut hashes: Vec<[Option<Option<u64>>; 2]> = vec![[None; 2]; sp.len()];
    for _ in 0..n {
        let op = pick((kinds * 12) as u8);
        let (kind, s, i) = (op / 12, op / 2 % 6, op % 2);
        if fresh != 0 {
            match AsepriteFile::load(&sp[s].m.b) {
                Ok(a) => at[s] = a,
                Err(_) => return never(),
            }
        }
        let a = &at[s];
        match kind {
            0 | 1 => {
                let mut t = vec![0; sp[s].w * sp[s].h * 4];
                let r = a.render_frame(i, &mut t, if kind == 0 { &LayerSelection::All } else { &LayerSelection::Visible });
                ck(r.is_ok() == sp[s].frames[i].is_some());
                if let Some(w) = &sp[s].frames[i] {
                    ckeq(&t, w);
                }
            }
            2 => {
                let (iw, ih) = (a.images[i].width as usize, a.images[i].height as usize);
                let mut t = vec![5; iw * ih * 4];
                let r = a.load_image(i, &mut t);
                ck(r.is_ok() == sp[s].images[i].is_some());
                if let Some(w) = &sp[s].images[i] {
                    ckeq(&t, w);
                }
            }
            3 => {
                let h = hash(a, i);
                ck(h.is_some() == sp[s].frames[i].is_some());
                if let Some(old) = hashes[s][i] {
                    ck(h == old);
                }
                hashes[s][i] = Some(h);
            }
            // calls that fail
            _ => {
                if i == 0 {
                    ck(AsepriteFile::load(&sp[s].m.b[..sp[s].m.b.len() - 1 - s]).is_err());
                } else {
                    let mut t = vec![0; sp[s].w * sp[s].h * 4 - 1];
                    ck(a.render_frame(0, &mut t, &LayerSelection::All).is_err());
                }
            }
        }
    }
    reach(1);
}
/// the same image rendered again and again, between two others
pub fn h26_again(n: usize, s: usize, _: usize, _: usize) {
    let sp = all();
    let Ok(a) = AsepriteFile::load(&sp[s].m.b) else { return never() };
    let other = pick(6);
    let Ok(b) = AsepriteFile::load(&sp[other].m.b) else { return never() };
    for k in 0..n {
        let i = (k + k / 3) % 2;
        for (x, sp) in [(&a, &sp[s]), (&b, &sp[other])] {
            let mut t = vec![0; sp.w * sp.h * 4];
            ck(x.render_frame(i, &mut t, &LayerSelection::Visible).is_ok() == sp.frames[i].is_some());
            if let Some(w) = &sp.frames[i] {
                ckeq(&t, w);
            }
        }
    }
    reach(1);
}
