use super::api::*;
use super::bl::*;
use super::mk::*;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};

fn load(m: &Mk) -> Option<AsepriteFile<'_>> {
    match AsepriteFile::load(&m.b) {
        Ok(a) => Some(a),
        Err(_) => {
            never();
            None
        }
    }
}
/// a cel of the reference: layer index in the file, z-index, blend mode, layer and cel opacity, pixel
#[derive(Clone, Copy)]
struct K {
    l: usize,
    z: i16,
    mode: u16,
    lo: u8,
    co: u8,
    p: P,
}
/// back to front
fn sort(v: &mut Vec<K>) {
    let key = |k: &K| (k.l as i64 + k.z as i64, k.z as i64);
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 && {
            let (a, b) = (key(&v[j - 1]), key(&v[j]));
            a.0 > b.0 || a.0 == b.0 && a.1 > b.1
        } {
            v.swap(j - 1, j);
            j -= 1;
        }
    }
}
fn composite(t: P, v: &[K]) -> P {
    let mut t = t;
    for k in v {
        t = blend(k.mode, t, k.p, mul(k.lo as i32, k.co as i32) as u8);
    }
    t
}
fn render(m: &Mk, f: usize, back: P, want: P) {
    let Some(a) = load(m) else { return };
    let mut t = back;
    let r = a.render_frame(f, &mut t, &LayerSelection::Visible);
    ck(r.is_ok());
    if r.is_ok() {
        ckeq(&t, &want);
        reach(1);
    }
}
const PIX: [P; 6] = [[250, 10, 30, 255], [20, 200, 40, 180], [60, 90, 240, 120], [240, 230, 10, 90], [7, 130, 120, 200], [128, 0, 255, 60]];
const MODES: [u16; 6] = [0, 1, 0, 10, 0, 2];
/// n overlapping cels under any z-index. kind 1: the layers are interleaved with groups and tilemaps;
/// kind 2: the cel chunks come in reverse order; kind 3: both
pub fn h19_order(n: usize, kind: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    m.frame(1);
    let mut at = vec![];
    let mut skipped = vec![];
    let mut count = 0;
    for i in 0..n {
        if kind & 1 != 0 {
            if i % 2 == 1 {
                m.layer(1, 2, 0, 0, 255, b"t");
                skipped.push(count);
            } else {
                m.layer(1, 1, 0, 3, 9, b"g");
            }
            count += 1;
        }
        m.layer(1, 0, 0, MODES[i], 255 - 20 * i as u8, b"l");
        at.push(count);
        count += 1;
    }
    let mut ks: Vec<K> = (0..n).map(|i| K { l: at[i], z: si16(), mode: MODES[i], lo: 255 - 20 * i as u8, co: 250 - 10 * i as u8, p: PIX[i] }).collect();
    for i in 0..n {
        let k = ks[if kind & 2 != 0 { n - 1 - i } else { i }];
        m.raw_cel(k.l as u16, 0, 0, k.co, k.z, 1, 1, &k.p);
    }
    // never drawn
    for l in skipped {
        m.raw_cel(l as u16, 0, 0, 255, 0, 1, 1, &[1, 2, 3, 255]);
    }
    m.end_frame();
    sort(&mut ks);
    let back = [90, 100, 110, 255];
    render(&m, 0, back, composite(back, &ks));
}
/// many layers, one of them with any z-index, the others with z-indices from a pattern
pub fn h19_many(n: usize, which: usize, step: usize, _: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    m.frame(1);
    let ks: Vec<K> = (0..n)
        .map(|i| K { l: i, z: if i == which { si16() } else { ((i * step) % 7) as i16 - 3 }, mode: MODES[i % 6], lo: 255 - i as u8, co: 200 + (i % 50) as u8, p: PIX[i % 6] })
        .collect();
    for k in &ks {
        m.layer(1, 0, 0, k.mode, k.lo, b"l");
    }
    for k in &ks {
        m.raw_cel(k.l as u16, 0, 0, k.co, k.z, 1, 1, &k.p);
    }
    m.end_frame();
    let mut v = ks.clone();
    sort(&mut v);
    let back = [90, 100, 110, 77];
    render(&m, 0, back, composite(back, &v));
}
/// any header flags, layer opacity, cel opacity, source and backdrop
pub fn h19_opacity(mode: usize, part: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    let bit = pick(2) as u32;
    let flags = s32() & !1 | bit;
    m.b[14..18].copy_from_slice(&flags.to_le_bytes());
    let (lo, co) = match part {
        0 => (s8(), 255),
        3 => (255, s8()),
        4 => (0, s8()),
        _ => (s8(), s8()),
    };
    let (b, s) = match part {
        0 | 3 | 4 => (sym::<4>(), sym::<4>()),
        1 => ([0; 4], [9, 99, 199, 255]),
        _ => ([50, 60, 250, 255], [9, 99, 199, 255]),
    };
    m.frame(1).layer(1, 0, 0, mode as u16, lo, b"l").raw_cel(0, 0, 0, co, 0, 1, 1, &s).end_frame();
    let eff = if bit != 0 {
        reach(2);
        lo
    } else {
        reach(3);
        255
    };
    let want = blend(mode as u16, b, s, mul(eff as i32, co as i32) as u8);
    render(&m, 0, b, want);
}
/// two cels on top of each other: the second sees the result of the first
pub fn h19_two(m0: usize, m1: usize, part: usize, _: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    let mut b = [80, 160, 240, 200];
    let mut ks = [K { l: 0, z: 0, mode: m0 as u16, lo: 255, co: 255, p: [10, 140, 200, 130] }, K { l: 1, z: 0, mode: m1 as u16, lo: 255, co: 255, p: [220, 30, 90, 180] }];
    match part {
        0 => {
            b[1] = s8();
            b[3] = s8();
        }
        1 => {
            ks[0].co = s8();
            ks[1].lo = s8();
        }
        2 => {
            ks[0].p[3] = s8();
            ks[1].co = s8();
        }
        _ => {
            ks[0].p[1] = s8();
            ks[1].p[1] = s8();
        }
    }
    m.frame(1);
    for k in &ks {
        m.layer(1, 0, 0, k.mode, k.lo, b"l");
    }
    for k in &ks {
        m.raw_cel(k.l as u16, 0, 0, k.co, k.z, 1, 1, &k.p);
    }
    m.end_frame();
    render(&m, 0, b, composite(b, &ks));
}
/// a linked cel has its own opacity, position and z-index
pub fn h19_linked(k: usize, _: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    m.frame(1);
    for i in 0..2 {
        m.layer(1, 0, 0, MODES[i], 200 + i as u8, b"l");
    }
    for i in 0..2 {
        m.raw_cel(i as u16, 3 * k as i16, 0, 17, 5, 1, 1, &PIX[i]);
    }
    m.end_frame().frame(1);
    let mut ks: Vec<K> = (0..2).map(|i| K { l: i, z: si16(), mode: MODES[i], lo: 200 + i as u8, co: s8(), p: PIX[i] }).collect();
    for c in &ks {
        m.linked_cel(c.l as u16, 0, 0, c.co, c.z, 0);
    }
    m.end_frame();
    sort(&mut ks);
    let back = [90, 100, 110, 255];
    render(&m, 1, back, composite(back, &ks));
}
