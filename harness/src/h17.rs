use super::api::*;
use super::mk::*;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};

/// opaque pixel i of a cel
fn pixel(i: usize, seed: usize) -> [u8; 4] {
    [(i + seed * 50) as u8, (i >> 8) as u8 ^ 0x55, (200 - seed + 77 * (i >> 16)) as u8, 255]
}
fn pixels(n: usize, seed: usize) -> Vec<u8> {
    (0..n).flat_map(|i| pixel(i, seed)).collect()
}
/// backdrop with every kind of alpha
fn backdrop(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 29 + 100) as u8).collect()
}
/// the reference: cel pixels replace canvas pixels where they fall inside
fn put(t: &mut [u8], w: usize, h: usize, x: i16, y: i16, cw: usize, ch: usize, px: &dyn Fn(usize) -> [u8; 4]) {
    for j in 0..ch {
        let ty = y as i64 + j as i64;
        if ty < 0 || ty >= h as i64 {
            continue;
        }
        for i in 0..cw {
            let tx = x as i64 + i as i64;
            if tx < 0 || tx >= w as i64 {
                continue;
            }
            let at = (ty as usize * w + tx as usize) * 4;
            t[at..at + 4].copy_from_slice(&px(j * cw + i));
        }
    }
}
fn load(m: &Mk) -> Option<AsepriteFile<'_>> {
    match AsepriteFile::load(&m.b) {
        Ok(a) => Some(a),
        Err(_) => {
            never();
            None
        }
    }
}
fn render(m: &Mk, f: usize, slack: usize, want: impl Fn(&mut [u8])) {
    let Some(a) = load(m) else { return };
    let (w, h) = a.size();
    let mut t = backdrop(w as usize * h as usize * 4 + slack);
    let mut e = t.clone();
    let n = e.len() - slack;
    want(&mut e[..n]);
    let r = a.render_frame(f, &mut t, &LayerSelection::Visible);
    ck(r.is_ok());
    if r.is_ok() {
        ckeq(&t, &e);
        reach(1);
    }
}
/// canvas w x h, cel cw x ch at every position
pub fn h17_any(w: usize, h: usize, cw: usize, ch: usize) {
    let (x, y) = (si16(), si16());
    let mut m = Mk::new(RGBA, w as u16, h as u16);
    m.frame(1).simple_layer().raw_cel(0, x, y, 255, 0, cw as u16, ch as u16, &pixels(cw * ch, 1)).end_frame();
    // one path per position that touches the canvas, one for the others
    let hit = |p: i16, c: usize, n: usize| p as i32 > -(c as i32) && (p as i32) < n as i32;
    let (x, y) = if hit(x, cw, w) && hit(y, ch, h) { (conc(x as u64) as i16, conc(y as u64) as i16) } else { (i16::MAX, i16::MAX) };
    if x == i16::MAX {
        render(&m, 0, 6, |_| ());
    } else {
        render(&m, 0, 6, |t| put(t, w, h, x, y, cw, ch, &|i| pixel(i, 1)));
    }
}
fn special(cel: usize, canvas: usize) -> i16 {
    let (c, n) = (cel as i64, canvas as i64);
    let v = [i16::MIN as i64, i16::MIN as i64 + 1, -c, 1 - c, 2 - c, -1, 0, 1, n - c, n - 1, n, i16::MAX as i64];
    let p = v[pick(v.len() as u8)];
    assume(p >= i16::MIN as i64 && p <= i16::MAX as i64);
    p as i16
}
/// large canvases and cels at the extreme positions of one axis
pub fn h17_big(w: usize, h: usize, cw: usize, ch: usize) {
    let x = if w > 1 || cw > 1 { special(cw, w) } else { 0 };
    let y = if h > 1 || ch > 1 { special(ch, h) } else { 0 };
    let mut m = Mk::new(RGBA, w as u16, h as u16);
    m.frame(1).simple_layer().raw_cel(0, x, y, 255, 0, cw as u16, ch as u16, &pixels(cw * ch, 1)).end_frame();
    render(&m, 0, 0, |t| put(t, w, h, x, y, cw, ch, &|i| pixel(i, 1)));
}
/// three frames; frame 1 has two cels of different sizes, frame 2 links to the cel of frame 1
pub fn h17_frames(depth: usize, zip: usize, _: usize, _: usize) {
    let (w, h) = (5, 4);
    let depth = [RGBA, GRAY, IDX][depth];
    let pal: Vec<[u8; 4]> = (0..32).map(|i| [i * 8, 255 - i, i, 255]).collect();
    let enc = |i: usize, seed: usize| match depth {
        RGBA => pixel(i, seed).to_vec(),
        GRAY => vec![(i * 9 + seed) as u8, 255],
        _ => vec![(i + 10 * seed) as u8],
    };
    let dec = |i: usize, seed: usize| match depth {
        RGBA => pixel(i, seed),
        GRAY => [(i * 9 + seed) as u8, (i * 9 + seed) as u8, (i * 9 + seed) as u8, 255],
        _ => pal[(i + 10 * seed) as usize],
    };
    let all = |n: usize, seed: usize| {
        let d: Vec<u8> = (0..n).flat_map(|i| enc(i, seed)).collect();
        if zip == 0 { d } else { zlib_stored(&d, 7) }
    };
    // one axis of every position is symbolic
    let at = [(si16(), 1), (-1, si16()), (si16(), 2), (2, si16())];
    let size = [(2, 2), (1, 3), (3, 1), (3, 1)];
    let clamp = |p: i16, c: usize, n: usize| if p as i32 > -(c as i32) && (p as i32) < n as i32 { conc(p as u64) as i16 } else { i16::MAX };
    let f = pick(3);
    let mut m = Mk::new(depth, w as u16, h as u16);
    let ty = if zip == 0 { 0 } else { 2 };
    m.b[28] = 255;
    let pos = |k: usize, m: &mut Mk, layer: u16, data: &[u8]| {
        m.cel(layer, at[k].0, at[k].1, 255, ty, 0).u16(size[k].0 as u16).u16(size[k].1 as u16).by(data).end();
    };
    m.frame(1).simple_layer().simple_layer();
    if depth == IDX {
        m.palette(0, &pal);
    }
    pos(0, &mut m, 1, &all(4, 0));
    m.end_frame().frame(1);
    pos(1, &mut m, 0, &all(3, 1));
    pos(2, &mut m, 1, &all(3, 2));
    m.end_frame().frame(1);
    m.linked_cel(1, at[3].0, at[3].1, 255, 0, 1);
    m.end_frame();
    let draw: &[(usize, usize)] = [&[(0, 0)][..], &[(1, 1), (2, 2)], &[(3, 2)]][f];
    let fixed: Vec<(usize, usize, i16, i16)> = draw.iter().map(|&(k, s)| (k, s, clamp(at[k].0, size[k].0, w), clamp(at[k].1, size[k].1, h))).collect();
    render(&m, f, 3, |t| {
        for &(k, s, x, y) in &fixed {
            if x != i16::MAX && y != i16::MAX {
                put(t, w, h, x, y, size[k].0, size[k].1, &|i| dec(i, s));
            }
        }
    });
}
/// every canvas size against targets of t bytes
pub fn h17_short(t: usize, cel: usize, _: usize, _: usize) {
    let (w, h) = (s16(), s16());
    let mut m = Mk::new(RGBA, w, h);
    m.frame(1).simple_layer();
    if cel != 0 {
        m.raw_cel(0, 0, 0, 255, 0, 1, 1, &pixels(1, 3));
    }
    m.end_frame();
    let Some(a) = load(&m) else { return };
    let mut buf = backdrop(t);
    let r = a.render_frame(0, &mut buf, &LayerSelection::All);
    let short = (w as usize * h as usize) * 4 > t;
    ck(r.is_err() == short);
    let mut e = backdrop(t);
    if short {
        reach(2);
        return;
    }
    if cel != 0 && w > 0 && h > 0 {
        e[..4].copy_from_slice(&pixel(0, 3));
    }
    ckeq(&buf, &e);
    reach(1);
}
