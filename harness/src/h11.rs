use super::api::*;
use super::mk::*;
use aseprite_loader::binary::file::parse_file;
use aseprite_loader::binary::palette::Palette;
use aseprite_loader::loader::AsepriteFile;

type Tab = [[u8; 4]; 256];
fn same(p: &Palette, t: &Tab) {
    let mut a = Vec::with_capacity(1024);
    let mut b = Vec::with_capacity(1024);
    for i in 0..256 {
        let c = &p.colors[i];
        a.extend_from_slice(&[c.red, c.green, c.blue, c.alpha]);
        b.extend_from_slice(&t[i]);
    }
    ckeq(&a, &b);
}
fn file(m: &Mk, want: Option<&Tab>, load: bool) {
    let f = if load { AsepriteFile::load(&m.b).ok().map(|x| x.file.palette) } else { parse_file(&m.b).ok().map(|x| x.palette) };
    match (f, want) {
        (Some(Some(p)), Some(t)) => {
            same(&p, t);
            obs(&[p.colors[0].red, p.colors[255].alpha]);
            reach(1);
        }
        (None, None) => reach(2),
        _ => never(),
    }
}
fn six(v: u8) -> u8 {
    v << 2 | v >> 4
}
/// records of one style, applied in order
#[derive(Default)]
struct Style {
    any: bool,
    bad: bool,
    set: Vec<(usize, [u8; 4])>,
}
impl Style {
    fn put(&mut self, i: usize, c: [u8; 4]) {
        if i > 255 {
            self.bad = true;
        } else {
            self.set.push((i, c));
        }
    }
}
fn resolve(n: &Style, o4: &Style, o11: &Style, ti: usize) -> Option<Tab> {
    let s = if n.any {
        n
    } else if o4.any {
        o4
    } else {
        o11
    };
    if !s.any || s.bad || s.set.is_empty() {
        return None;
    }
    let mut t = [[0u8; 4]; 256];
    for (i, c) in &s.set {
        t[*i] = *c;
    }
    t[ti][3] = 0;
    Some(t)
}
/// emits a palette record of the given kind with symbolic colours
fn rec(m: &mut Mk, kind: usize, first: usize, n: usize, st: &mut [Style; 3]) {
    match kind {
        1 => {
            st[0].any = true;
            m.chunk(PAL).u32(s32()).u32(first as u32).u32((first + n - 1) as u32).z(8);
            for i in 0..n {
                let c = sym::<4>();
                m.u16(if i % 5 == 1 { 1 } else { 0 }).by(&c);
                if i % 5 == 1 {
                    m.st(b"nm");
                }
                st[0].put(first + i, c);
            }
            m.end();
        }
        2 | 3 => {
            let k = kind - 1;
            st[k].any = true;
            m.chunk(if kind == 2 { OLD04 } else { OLD11 });
            // two packets: n colours at `first`, then one more after a gap of one
            m.u16(2).u8(first as u8).u8(n as u8);
            let n = if n == 256 { 256 } else { n };
            let mut idx = first;
            for p in 0..2 {
                if p == 1 {
                    m.u8(1).u8(1);
                    idx += 1;
                }
                for _ in 0..if p == 0 { n } else { 1 } {
                    let c = sym::<3>();
                    if kind == 3 {
                        assume(c[0] < 64 && c[1] < 64 && c[2] < 64);
                        st[k].put(idx, [six(c[0]), six(c[1]), six(c[2]), 255]);
                    } else {
                        st[k].put(idx, [c[0], c[1], c[2], 255]);
                    }
                    m.by(&c);
                    idx += 1;
                }
            }
            m.end();
        }
        _ => {}
    }
}
/// every sequence of n palette records (none / new / 8-bit / 6-bit), with a frame break at every place
pub fn h11_mix(n: usize, per: usize, load: usize, _: usize) {
    let mut m = Mk::new(IDX, 1, 1);
    let ti = [0usize, 3, 4, 255][pick(4)];
    m.b[28] = ti as u8;
    let mut st: [Style; 3] = Default::default();
    let br = pick(n as u8 + 1);
    m.frame(1);
    m.simple_layer();
    for i in 0..n {
        if i == br {
            m.end_frame().frame(1);
        }
        rec(&mut m, pick(4), 2 + i, per, &mut st);
        if i == 0 {
            m.chunk(UDATA).u32(0).end();
        }
    }
    m.end_frame();
    let t = resolve(&st[0], &st[1], &st[2], ti);
    file(&m, t.as_ref(), load != 0);
}
/// one record of n entries; symbolic first index / skip value, then a second record over part of it
pub fn h11_index(kind: usize, n: usize, second: usize, _: usize) {
    let mut m = Mk::new(IDX, 1, 1);
    let first = conc(s8() as u64) as usize;
    if kind == 1 {
        assume(first + n <= 256);
    }
    let ti = first + n - 1 + pick(2);
    assume(ti < 256);
    m.b[28] = ti as u8;
    let mut st: [Style; 3] = Default::default();
    m.frame(1);
    rec(&mut m, kind, first, n, &mut st);
    if second != 0 {
        m.end_frame().frame(1);
        rec(&mut m, kind, if first > 0 { first - 1 } else { 0 }, second, &mut st);
    }
    m.end_frame();
    let t = resolve(&st[0], &st[1], &st[2], ti);
    file(&m, t.as_ref(), false);
}
/// every transparent index over a full palette
pub fn h11_transparent(kind: usize, n: usize, _: usize, _: usize) {
    let mut m = Mk::new(IDX, 1, 1);
    let ti = s8();
    m.b[28] = ti;
    let mut st: [Style; 3] = Default::default();
    m.frame(1);
    match kind {
        1 => rec(&mut m, 1, 0, n, &mut st),
        _ => {
            st[kind - 1].any = true;
            m.chunk(if kind == 2 { OLD04 } else { OLD11 }).u16(1).u8(0).u8(n as u8);
            for i in 0..n {
                let c = sym::<3>();
                assume(c[0] < 64 && c[1] < 64 && c[2] < 64);
                st[kind - 1].put(i, if kind == 2 { [c[0], c[1], c[2], 255] } else { [six(c[0]), six(c[1]), six(c[2]), 255] });
                m.by(&c);
            }
            m.end();
        }
    }
    m.end_frame();
    let ti = conc(ti as u64) as usize;
    let t = resolve(&st[0], &st[1], &st[2], ti);
    file(&m, t.as_ref(), false);
}
/// palettes without entries, and sprites of other colour depths
pub fn h11_none(kind: usize, _: usize, _: usize, _: usize) {
    let depth = [IDX, RGBA, GRAY][pick(3)];
    let mut m = Mk::new(depth, 1, 1);
    m.b[28] = s8();
    m.frame(1);
    let mut st: [Style; 3] = Default::default();
    match kind {
        // no palette at all
        0 => {}
        // old style without packets
        1 => {
            m.chunk(OLD04).u16(0).end();
        }
        2 => {
            m.chunk(OLD11).u16(0).end();
        }
        // a valid one
        3 => rec(&mut m, 1, 0, 2, &mut st),
        4 => rec(&mut m, 2, 0, 2, &mut st),
        // running past the end
        _ => rec(&mut m, 2, 255, 1, &mut st),
    }
    m.end_frame();
    let f = parse_file(&m.b);
    if depth == IDX {
        ck(f.is_ok() == (kind == 3 || kind == 4));
        if f.is_ok() {
            ck(f.unwrap().palette.is_some());
        }
        reach(1);
    } else {
        ck(f.is_ok());
        if f.is_ok() {
            ck(f.unwrap().palette.is_none());
        }
        reach(2);
    }
}
