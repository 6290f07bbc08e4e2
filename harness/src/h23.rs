#![allow(deprecated)]
use super::api::*;
use super::mk::*;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};

/// the combined image of every frame is what the visible selection renders, or fails like it
fn same(a: &AsepriteFile<'_>, t: usize) {
    let old: Vec<u8> = (0..t).map(|i| (37 * i + 5) as u8).collect();
    for f in 0..a.frames.len() {
        let (mut x, mut y) = (old.clone(), old.clone());
        let r = a.render_frame(f, &mut x, &LayerSelection::Visible);
        let c = a.combined_frame_image(f, &mut y);
        ck(r.is_ok() == c.is_ok());
        ckeq(&x, &y);
        reach(if r.is_ok() { 1 } else { 2 });
        if let (Err(p), Err(q)) = (&r, &c) {
            ck(core::mem::discriminant(p) == core::mem::discriminant(q));
        }
        // once more: nothing is remembered
        let mut z = old.clone();
        let d = a.combined_frame_image(f, &mut z);
        ckeq(&y, &z);
        ck(match (&c, &d) {
            (Ok(p), Ok(q)) => p == q,
            (Err(_), Err(_)) => true,
            _ => false,
        });
    }
}
/// n layers of any flags, kind, level and several blend modes, each with a cel in both of two frames
pub fn h23_layers(n: usize, t: usize, kinds: usize, _: usize) {
    let mut m = Mk::new(RGBA, 2, 1);
    m.b[14] = s8() & 1;
    m.frame(1);
    for i in 0..n {
        let ty = pick(kinds as u8) as u16;
        let mode = if ty == 0 { [0, 3, 20][if i == 0 { pick(3) } else { 0 }] } else { 0 };
        m.layer(s16(), ty, if i > 0 { pick(2) as u16 } else { 0 }, mode, 150 + i as u8, b"l");
    }
    for i in 0..n {
        m.raw_cel(i as u16, i as i16, 0, 200, 0, 1, 1, &[10, 20, 30 + i as u8, 255]);
    }
    m.end_frame().frame(1);
    for i in 0..n {
        m.linked_cel(i as u16, 0, 0, 100, -2 * i as i16, 0);
    }
    m.end_frame();
    let Ok(a) = AsepriteFile::load(&m.b) else { return never() };
    same(&a, t);
}
/// a cel at any position, intact or damaged, of any colour depth
pub fn h23_cel(d: usize, n: usize, zip: usize, t: usize) {
    let depth = [RGBA, GRAY, IDX, 9][d];
    let mut m = Mk::new(depth, 2, 2);
    let px = [3u8; 16];
    let data = if zip != 0 { zlib_stored(&px[..n], 5) } else { px[..n].to_vec() };
    m.frame(1).simple_layer().palette(0, &[[1, 2, 3, 4], [5, 6, 7, 255], [7, 8, 9, 255], [70, 8, 9, 255], [7, 80, 9, 255]]);
    m.cel(0, si16(), si16(), 255, if zip != 0 { 2 } else { 0 }, 0).u16(2).u16(1).by(&data).end().end_frame();
    let Ok(a) = AsepriteFile::load(&m.b) else { return never() };
    same(&a, t);
}
fn hash(a: &AsepriteFile<'_>, f: usize) -> u64 {
    let (w, h) = a.size();
    let mut buf = vec![0u8; w as usize * h as usize * 4];
    match a.combined_frame_image(f, &mut buf) {
        Ok(h) => h,
        Err(_) => {
            never();
            0
        }
    }
}
struct Cel {
    layer: u16,
    image: u16,
    x: i16,
    y: i16,
    o: u8,
}
/// four images per frame 0..4 (on both layers), then the frames to compare
fn file(frames: &[&[Cel]], other: u16) -> Mk {
    // an empty canvas: nothing has to be drawn
    let mut m = Mk::new(RGBA, 0, 1);
    for f in 0..4u16 {
        m.frame(1 + f);
        if f == 0 {
            for _ in 0..3 {
                m.simple_layer();
            }
        }
        for l in 0..3 {
            // frame 3 has images of another size
            let w = if f == 3 { other } else { 1 };
            m.raw_cel(l, 0, 0, 255, 0, w, 1, &vec![f as u8; w as usize * 4]);
        }
        m.end_frame();
    }
    for c in frames {
        m.frame(s16());
        for c in *c {
            m.linked_cel(c.layer, c.x, c.y, c.o, 0, c.image);
        }
        m.end_frame();
    }
    m
}
/// frames with the same n cels of any position and opacity hash equally whatever else differs
pub fn h23_equal(n: usize, _: usize, _: usize, _: usize) {
    let v: Vec<Cel> = (0..n).map(|i| Cel { layer: i as u16, image: i as u16 & 3, x: si16(), y: si16(), o: s8() }).collect();
    let m = file(&[&v, &[], &v], 2);
    let Ok(a) = AsepriteFile::load(&m.b) else { return never() };
    let x = hash(&a, 4);
    ck(x == hash(&a, 6));
    let mut n = 0;
    for f in 0..7 {
        n += a.frames[f].cels.len();
    }
    ck(n == 12 + 2 * v.len());
    reach(1);
}
/// frames that differ in one value of cel `at` out of n do not hash equally
pub fn h23_differ(what: usize, n: usize, at: usize, _: usize) {
    let mk = || -> Vec<Cel> { (0..n).map(|i| Cel { layer: i as u16, image: 0, x: 5, y: -7, o: 200 }).collect() };
    let (mut u, mut v) = (mk(), mk());
    let (a, b) = (&mut u[at], &mut v[at]);
    let pick2 = |k: u8| {
        let (x, y) = (pick(k), pick(k));
        assume(x != y);
        (x as u16, y as u16)
    };
    let one = |x: u8, y: u8| assume(x != y);
    let mut other = 2;
    match what {
        0 => {
            (a.o, b.o) = (s8(), s8());
            one(a.o, b.o);
        }
        // the low, the high bytes, one coordinate against several fixed values
        1 | 2 => {
            let (p, q) = (s8(), s8());
            one(p, q);
            let f = |v: u8| i16::from_le_bytes(if what == 1 { [v, 0] } else { [7, v] });
            (a.x, b.x) = (f(p), f(q));
        }
        3 | 4 => {
            let (p, q) = (s8(), s8());
            one(p, q);
            let f = |v: u8| i16::from_le_bytes(if what == 3 { [v, 255] } else { [9, v] });
            (a.y, b.y) = (f(p), f(q));
        }
        5 => {
            a.x = si16();
            b.x = [0, 1, -1, 5, i16::MIN, i16::MAX, 256][pick(7)];
            assume(a.x != b.x);
        }
        6 => {
            a.y = si16();
            b.y = [0, 1, -1, 5, i16::MIN, i16::MAX, 256][pick(7)];
            assume(a.y != b.y);
        }
        // x and y exchanged
        7 => {
            (a.x, a.y) = (s8() as i16, s8() as i16);
            (b.x, b.y) = (a.y, a.x);
            assume(a.x != a.y);
        }
        8 => (a.image, b.image) = pick2(3),
        9 => {
            // the same image number cannot have two sizes in one file
            a.image = 3;
            b.image = 3;
        }
        _ => {
            // another layer, hence another image
            a.layer = 2;
        }
    }
    if what == 9 {
        other = 2 + pick(6) as u16;
        let m = file(&[&u], other);
        let k = file(&[&v], 1);
        let (Ok(a), Ok(b)) = (AsepriteFile::load(&m.b), AsepriteFile::load(&k.b)) else { return never() };
        ck(hash(&a, 4) != hash(&b, 4));
    } else {
        let m = file(&[&u, &v], other);
        let Ok(a) = AsepriteFile::load(&m.b) else { return never() };
        ck(hash(&a, 4) != hash(&a, 5));
    }
    reach(1);
}
/// the same cels on other layers, the images being the same: a hand-made file value
pub fn h23_fields(what: usize, _: usize, _: usize, _: usize) {
    let v = [Cel { layer: 0, image: 0, x: 3, y: 4, o: 5 }];
    let m = file(&[&v, &v], 2);
    let Ok(mut a) = AsepriteFile::load(&m.b) else { return never() };
    let x = pick(4);
    let c = &mut a.frames[5].cels[0];
    let n = 1 + pick(2);
    if what == 3 {
        // another cel once or twice
        let mut new = c.clone();
        new.layer_index = x;
        for _ in 0..n {
            a.frames[5].cels.push(new.clone());
        }
    }
    let c = &mut a.frames[5].cels[0];
    let differs = match what {
        3 => true,
        0 => {
            let old = c.layer_index;
            c.layer_index = x;
            old != x
        }
        1 => {
            c.size.1 = [1, 0, 2, 300][x];
            x != 0
        }
        _ => {
            let old = c.image_index;
            c.image_index = x;
            old != x
        }
    };
    // mis-sized cels may fail to render: then there is no hash
    let mut buf = [];
    let p = a.combined_frame_image(4, &mut buf);
    let q = a.combined_frame_image(5, &mut buf);
    if let (Ok(p), Ok(q)) = (p, q) {
        ck((p != q) == differs);
        reach(1);
    }
}
/// frames that hold the same n cels in another order
pub fn h23_order(n: usize, _: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 0, 1);
    let to = [pick(n as u8), pick(n as u8)];
    assume(to[0] != to[1]);
    for f in 0..3 {
        m.frame(1);
        for i in 0..n {
            if f == 0 {
                m.simple_layer();
                continue;
            }
            // in frame 2 two cels have exchanged places in the stack
            let at = if f == 1 { i } else if i == to[0] { to[1] } else if i == to[1] { to[0] } else { i };
            m.raw_cel(i as u16, 0, 0, 255, (2 * at) as i16 - i as i16, 0, 0, &[]);
        }
        m.end_frame();
    }
    // the images of frame 2 are those of frame 1
    let Ok(mut a) = AsepriteFile::load(&m.b) else { return never() };
    let first = a.frames[1].cels.clone();
    for c in a.frames[2].cels.iter_mut() {
        c.image_index = first.iter().find(|x| x.layer_index == c.layer_index).unwrap().image_index;
    }
    ck(hash(&a, 1) != hash(&a, 2));
    reach(1);
}
