use super::api::*;
use super::mk::*;
use aseprite_loader::loader::{decompress, AsepriteFile};

const D: [u16; 3] = [RGBA, GRAY, IDX];
const PALETTE: [[u8; 4]; 4] = [[1, 2, 3, 4], [5, 6, 7, 8], [9, 10, 11, 12], [13, 14, 15, 16]];

fn file(depth: u16, w: u16, h: u16, compressed: bool, data: &[u8]) -> Mk {
    let mut m = Mk::new(depth, 4, 4);
    m.b[28] = 3;
    m.frame(1).simple_layer();
    if depth == IDX {
        m.palette(0, &PALETTE);
    }
    m.cel(0, 0, 0, 255, if compressed { 2 } else { 0 }, 0).u16(w).u16(h).by(data).end().end_frame();
    m
}
fn value(depth: u16, px: &[u8]) -> Vec<u8> {
    match depth {
        RGBA => px.to_vec(),
        GRAY => (0..px.len() / 2).flat_map(|i| [px[2 * i], px[2 * i], px[2 * i], px[2 * i + 1]]).collect(),
        _ => {
            let mut o = vec![];
            for p in px {
                let c = if *p < 4 { PALETTE[*p as usize] } else { [0; 4] };
                o.extend_from_slice(&c[..3]);
                o.push(if *p == 3 { 0 } else { c[3] });
            }
            o
        }
    }
}
/// load into a target of t bytes; want: the pixels, or none if the data is bad
fn run(m: &Mk, t: usize, size: usize, want: Option<&[u8]>) {
    let a = match AsepriteFile::load(&m.b) {
        Ok(a) => a,
        Err(_) => return never(),
    };
    let mut buf = symv(t);
    let old = buf.clone();
    let r = a.load_image(0, &mut buf);
    ck(r.is_ok() == want.is_some());
    if t > size {
        ckeq(&buf[size..], &old[size..]);
    }
    match (r.is_ok(), want) {
        (true, Some(w)) => {
            ckeq(&buf[..w.len()], w);
            reach(1);
        }
        _ => reach(2),
    }
}
/// n bytes of raw data, a target of t bytes and every image size
pub fn h16_sizes(d: usize, n: usize, t: usize, zip: usize) {
    let depth = D[d];
    let bpp = depth as usize / 8;
    let (w, h) = (s16(), s16());
    let mut px = symv(n);
    if depth == IDX {
        for p in px.iter_mut() {
            *p &= 7;
        }
    }
    let data = if zip == 0 { px.clone() } else { zlib_stored(&px, zip) };
    let m = file(depth, w, h, zip != 0, &data);
    let area = w as usize * h as usize;
    if area * bpp == n && area * 4 <= t {
        let v = value(depth, &px);
        run(&m, t, v.len(), Some(&v));
    } else if area * 4 < t {
        // the tail must not be written even then
        let s = conc(area as u64) as usize * 4;
        run(&m, t, s, None);
    } else {
        run(&m, t, t, None);
    }
}
/// a zlib stream with one stored block: any length fields, any checksum, m payload bytes, e more bytes
pub fn h16_stored(d: usize, w: usize, m: usize, e: usize) {
    let depth = D[d];
    let need = w * depth as usize / 8;
    let len = s16();
    let nlen = s16();
    let mut px = symv(m);
    if depth == IDX {
        for p in px.iter_mut() {
            *p &= 7;
        }
    }
    let sum = s32();
    let mut s = vec![0x78, 0x01, 1];
    s.extend_from_slice(&len.to_le_bytes());
    s.extend_from_slice(&nlen.to_le_bytes());
    s.extend_from_slice(&px);
    s.extend_from_slice(&sum.to_be_bytes());
    s.resize(s.len() + e, 0);
    let f = file(depth, w as u16, 1, true, &s);
    // the payload and the checksum as the length field delimits them
    let good = nlen == !len && len as usize == need && need <= m + e && {
        let stored = &s[7..7 + need];
        let at = 7 + need;
        at + 4 <= s.len() && u32::from_be_bytes([s[at], s[at + 1], s[at + 2], s[at + 3]]) == adler(stored)
    };
    if good {
        let v = value(depth, &s[7..7 + need]);
        run(&f, w * 4 + 3, w * 4, Some(&v));
    } else {
        run(&f, w * 4 + 3, w * 4, None);
    }
}
/// an intact stream of `have` bytes cut anywhere, or with one byte changed in any way
pub fn h16_damage(d: usize, w: usize, block: usize, kind: usize) {
    let depth = D[d];
    let need = w * depth as usize / 8;
    let px: Vec<u8> = (0..need).map(|i| (i * 5 + 3) as u8 & 3).collect();
    let mut s = zlib_stored(&px, block);
    let i = pick(s.len() as u8);
    if kind == 0 {
        s.truncate(i);
    } else {
        let v = s8();
        assume(v != s[i]);
        if i < 2 {
            // header: another header may be just as good
            assume((v ^ s[i]) & 0xe != 0 || i == 1);
            if i == 1 {
                assume((0x7800 + v as u32) % 31 != 0);
            } else {
                assume(v & 15 != 8);
            }
        }
        if s[i] != v && i >= 2 && (i == 2 || block_header(need, block, i)) {
            // the unused bits of a stored block's header byte are free
            assume(v & 7 != s[i] & 7);
        }
        s[i] = v;
    }
    let f = file(depth, w as u16, 1, true, &s);
    run(&f, w * 4 + 1, w * 4, None);
}
fn block_header(need: usize, block: usize, i: usize) -> bool {
    let mut p = 2;
    let mut left = need;
    while left > block {
        if p == i {
            return true;
        }
        p += 5 + block;
        left -= block;
    }
    p == i
}
/// every compressed stream of n bytes (the first `fixed` of a valid header) for an image of w pixels
pub fn h16_any(d: usize, w: usize, n: usize, fixed: usize) {
    let depth = D[d];
    let head = [0x78, 0x01, 3, 0, 0, 0];
    let mut s = head[..fixed].to_vec();
    s.extend_from_slice(&symv(n - fixed));
    let m = file(depth, w as u16, 1, true, &s);
    let a = match AsepriteFile::load(&m.b) {
        Ok(a) => a,
        Err(_) => return never(),
    };
    // a success leaves nothing of the previous contents
    let mut t = symv(w * 4 + 2);
    let mut u = symv(w * 4 + 2);
    let (t0, u0) = (t.clone(), u.clone());
    let r = a.load_image(0, &mut t).is_ok();
    let q = a.load_image(0, &mut u).is_ok();
    ck(r == q);
    if r && q {
        ckeq(&t[..w * 4], &u[..w * 4]);
        reach(1);
    } else {
        reach(2);
    }
    ckeq(&t[w * 4..], &t0[w * 4..]);
    ckeq(&u[w * 4..], &u0[w * 4..]);
}
/// every colour depth code without a meaning
pub fn h16_depth(compressed: usize, n: usize, t: usize, _: usize) {
    let depth = s16();
    assume(depth != RGBA && depth != GRAY && depth != IDX);
    let px = symv(n);
    let data = if compressed == 0 { px.clone() } else { zlib_stored(&px, 100) };
    let m = file(depth, 2, 1, compressed != 0, &data);
    run(&m, t, 8, None);
}
/// large images with too few or too many bytes
pub fn h16_large(d: usize, w: usize, h: usize, kind: usize) {
    let depth = D[d];
    let need = w * h * depth as usize / 8;
    let size = w * h * 4;
    let n = match kind & 7 {
        0 => need,
        1 => need - 1,
        2 => need + 1,
        3 => need / 2,
        4 => 0,
        _ => need * 2,
    };
    let px: Vec<u8> = (0..n).map(|i| (i % 5) as u8).collect();
    let data = if kind < 8 { px.clone() } else { zlib_stored(&px, 30000) };
    let m = file(depth, w as u16, h as u16, kind >= 8, &data);
    let t = match pick(3) {
        0 => size,
        1 => size - 1,
        _ => size + 3,
    };
    if n == need && t >= size {
        let v = value(depth, &px);
        run(&m, t, size, Some(&v));
    } else {
        run(&m, t, size, None);
    }
}
/// a well compressed stream that holds as many bytes as the image needs, or some fewer or more
pub fn h16_rle(d: usize, w: usize, h: usize, k: usize) {
    let n = D[d] as usize / 8;
    let need = w * h * n;
    let v = pick(6);
    let have = [need, need - 1, need - n, 0, need + 1, need + n * 300][v];
    let px: Vec<u8> = (0..have).map(|i| [3u8, 1, 200, 7][i % n]).collect();
    let z = zlib_rle(&px, n);
    let cut = [0, 1, 4, 5][pick(if k == 1 { 4 } else { 1 })];
    let m = file(D[d], w as u16, h as u16, true, &z[..z.len() - cut]);
    let want = if v == 0 && cut == 0 { Some(value(D[d], &px)) } else { None };
    run(&m, w * h * 4 + 3, w * h * 4, want.as_deref());
}
/// a valid stream under every zlib header, or without one
pub fn h16_header(d: usize, w: usize, kind: usize, k: usize) {
    let depth = D[d];
    let need = w * depth as usize / 8;
    let px: Vec<u8> = (0..need).map(|i| (i * 5 + 3) as u8 & 3).collect();
    let mut s = if k == 0 { zlib_stored(&px, 99) } else { zlib_rle(&px, 1) };
    let mut good = false;
    match kind {
        0 => {
            let (x, y) = (s8(), s8());
            (s[0], s[1]) = (x, y);
            good = x & 15 == 8 && x <= 0x78 && y & 32 == 0 && (x as u32 * 256 + y as u32) % 31 == 0;
        }
        // no header, with or without the checksum, any unused bits in the first byte
        1 => {
            s.drain(..2);
            if pick(2) == 1 {
                s.truncate(s.len() - 4);
            }
            if k == 0 {
                s[0] |= s8() & 0xf8;
            }
        }
        // a gzip header and trailer
        _ => {
            let n = s.len() - 4;
            let mut g = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
            g.extend_from_slice(&s[2..n]);
            g.extend_from_slice(&sym::<8>());
            s = g;
        }
    }
    let m = file(depth, w as u16, 1, true, &s);
    if good {
        let v = value(depth, &px);
        run(&m, w * 4 + 1, w * 4, Some(&v));
    } else {
        run(&m, w * 4 + 1, w * 4, None);
    }
}
/// the decompression function itself: a target of t bytes for a stream of n
pub fn h16_direct(n: usize, t: usize, kind: usize, _: usize) {
    let px = if kind == 2 { vec![7; n] } else { symv(n) };
    let mut z = if kind == 2 { zlib_rle(&px, 1) } else { zlib_stored(&px, [99, 2][kind]) };
    // cut anywhere, or followed by something else
    let cut = pick(z.len().min(30) as u8);
    z.truncate(z.len() - cut);
    if cut == 0 {
        z.extend_from_slice(&symv(pick(3)));
    }
    let mut buf = symv(t);
    let r = decompress(&z, &mut buf);
    ck(r.is_ok() == (cut == 0 && n == t));
    if r.is_ok() {
        ckeq(&buf, &px);
        reach(1);
    } else {
        reach(2);
    }
}
