use super::api::*;
use super::mk::*;
use super::rd::*;
use aseprite_loader::binary::chunks::cel::CelContent;
use aseprite_loader::binary::chunks::layer::LayerFlags;
use aseprite_loader::binary::file::{parse_file, File};
use aseprite_loader::binary::raw_file::parse_raw_file;

struct L {
    flags: u16,
    ty: u16,
    child: u16,
    blend: u16,
    op: u8,
    name: [u8; 2],
}
struct C {
    layer: u16,
    x: i16,
    y: i16,
    op: u8,
    z: i16,
    ty: u16,
    px: Vec<u8>,
}
struct T {
    from: u16,
    len: u8,
    dir: u8,
    rep: u16,
    name: [u8; 2],
}
struct S {
    frame: u32,
    x: i32,
    w: u32,
    name: [u8; 2],
}
#[derive(Default)]
struct W {
    layers: Vec<L>,
    frames: Vec<(u16, Vec<C>)>,
    tags: Vec<T>,
    slices: Vec<S>,
}
fn nm(c: u8, i: usize) -> [u8; 2] {
    [c, b'0' + (i % 64) as u8]
}
fn layer(m: &mut Mk, w: &mut W, light: bool) {
    let i = w.layers.len();
    let l = if light {
        L { flags: 1, ty: 0, child: 0, blend: 0, op: i as u8, name: nm(b'l', i) }
    } else {
        // the coded fields are concrete here, C04 and C10 decide them
        L { flags: s16(), ty: (i % 2) as u16, child: s16(), blend: (i % 20) as u16, op: s8(), name: nm(b'l', i) }
    };
    m.layer(l.flags, l.ty, l.child, l.blend, l.op, &l.name);
    w.layers.push(l);
}
/// a cel on a symbolic layer
fn cel(m: &mut Mk, w: &mut W, layer: u16, ty: u16) {
    let c = C { layer, x: si16(), y: si16(), op: s8(), z: si16(), ty, px: symv(4) };
    m.cel(c.layer, c.x, c.y, c.op, ty, c.z);
    match ty {
        1 => {
            m.u16(c.px[0] as u16 | (c.px[1] as u16) << 8);
        }
        _ => {
            m.u16(1).u16(1).by(&c.px);
        }
    }
    m.end();
    w.frames.last_mut().unwrap().1.push(c);
}
fn tags(m: &mut Mk, w: &mut W, n: usize) {
    m.chunk(TAGS).u16(n as u16).z(8);
    for _ in 0..n {
        let t = T { from: s8() as u16, len: s8(), dir: w.tags.len() as u8 % 5, rep: s16(), name: nm(b't', w.tags.len()) };
        m.u16(t.from).u16(t.from + t.len as u16).u8(t.dir).u16(t.rep).z(6).by(&[1, 2, 3]).u8(0).st(&t.name);
        w.tags.push(t);
    }
    m.end();
}
fn slice(m: &mut Mk, w: &mut W) {
    let s = S { frame: s32(), x: s32() as i32, w: s32(), name: nm(b's', w.slices.len()) };
    m.chunk(SLICE).u32(1).u32(0).u32(0).st(&s.name).u32(s.frame).i32(s.x).i32(7).u32(s.w).u32(9).end();
    w.slices.push(s);
}
fn frame(m: &mut Mk, w: &mut W) {
    let d = s16();
    m.frame(d);
    w.frames.push((d, vec![]));
}
fn same(f: &File<'_>, w: &W) {
    ck(f.layers.len() == w.layers.len());
    for (l, w) in f.layers.iter().zip(&w.layers) {
        ck(l.flags.contains(LayerFlags::VISIBLE) == (w.flags & 1 != 0));
        ck(l.flags.contains(LayerFlags::BACKGROUND) == (w.flags & 8 != 0));
        ck(l.layer_type == ref_layer_type(w.ty));
        ck(l.child_level == w.child);
        ck(l.blend_mode == ref_blend(w.blend));
        ck(l.opacity == w.op);
        ckeq(l.name.as_bytes(), &w.name);
        ck(l.user_data.is_none());
    }
    ck(f.tags.len() == w.tags.len());
    for (t, w) in f.tags.iter().zip(&w.tags) {
        ck(*t.frames.start() == w.from && *t.frames.end() == w.from + w.len as u16);
        ck(dir_is(&t.animation_direction, w.dir));
        ck(t.animation_repeat == w.rep);
        ckeq(t.name.as_bytes(), &w.name);
    }
    ck(f.slices.len() == w.slices.len());
    for (s, w) in f.slices.iter().zip(&w.slices) {
        ckeq(s.name.as_bytes(), &w.name);
        ck(s.slice_keys.len() == 1);
        let k = &s.slice_keys[0];
        ck(k.frame_number == w.frame && k.x == w.x && k.y == 7 && k.width == w.w && k.height == 9);
    }
    ck(f.frames.len() == w.frames.len());
    for (f, (d, cels)) in f.frames.iter().zip(&w.frames) {
        ck(f.duration == *d);
        ck(f.cels.len() == w.layers.len());
        for (i, c) in f.cels.iter().enumerate() {
            // the last cel of this layer
            let mut want = None;
            for c in cels {
                if c.layer as usize == i {
                    want = Some(c);
                }
            }
            if !ckopt(c, want.is_some()) {
                continue;
            }
            let (c, w) = (c.as_ref().unwrap(), want.unwrap());
            ck(c.layer_index as usize == i);
            ck(c.x == w.x && c.y == w.y && c.opacity == w.op && c.z_index == w.z);
            match (&c.content, w.ty) {
                (CelContent::LinkedCel { frame_position }, 1) => ck(*frame_position == w.px[0] as u16 | (w.px[1] as u16) << 8),
                (CelContent::Image(x), 0 | 2) => {
                    ck(x.width == 1 && x.height == 1 && x.compressed == (w.ty == 2));
                    ckeq(x.data, &w.px);
                }
                _ => never(),
            }
        }
    }
}
/// the record view: the cel records of every frame in file order
fn raw_same(m: &Mk, w: &W) {
    let Ok(r) = parse_raw_file(&m.b) else { return never() };
    ck(r.frames.len() == w.frames.len());
    for (f, (d, cels)) in r.frames.iter().zip(&w.frames) {
        ck(f.duration == *d);
        let mut it = f.cels();
        for w in cels {
            let Some(c) = it.next() else { return never() };
            ck(c.layer_index == w.layer && c.x == w.x && c.y == w.y && c.z_index == w.z);
        }
        ck(it.next().is_none());
    }
}
fn run(m: &mut Mk, w: &W) {
    // what the header says about frames and file size does not matter
    fill(&mut m.b[0..4]);
    fill(&mut m.b[6..8]);
    let m = &*m;
    raw_same(m, w);
    let mut bad = false;
    for (_, cels) in &w.frames {
        for c in cels {
            bad |= c.layer as usize >= w.layers.len();
        }
    }
    match parse_file(&m.b) {
        Ok(f) => {
            ck(!bad);
            same(&f, w);
            reach(1);
        }
        Err(_) => {
            ck(bad);
            reach(2);
        }
    }
}
/// l layers and fr frames with c cels each; every cel is on a symbolic layer (any 16-bit index)
pub fn h12_cels(l: usize, fr: usize, c: usize, ty: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    let mut w = W::default();
    for i in 0..fr {
        frame(&mut m, &mut w);
        if i == 0 {
            for _ in 0..l {
                layer(&mut m, &mut w, false);
            }
        }
        for k in 0..c {
            let x = s16();
            // valid indices one by one, all the others together
            let x = if (x as usize) < l { conc(x as u64) as u16 } else { x };
            cel(&mut m, &mut w, x, if ty < 3 { ty as u16 } else { (k % 3) as u16 });
        }
        m.end_frame();
    }
    run(&mut m, &w);
}
/// every sequence of n records over fr frames: layer, cel, tags, slice, other kinds, frame break
pub fn h12_seq(n: usize, _: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    let mut w = W::default();
    frame(&mut m, &mut w);
    for _ in 0..n {
        match pick(7) {
            0 => layer(&mut m, &mut w, false),
            1 => {
                let x = pick(3) as u16;
                cel(&mut m, &mut w, x, 0);
            }
            2 => tags(&mut m, &mut w, 2),
            3 => slice(&mut m, &mut w),
            4 => {
                m.end_frame();
                frame(&mut m, &mut w);
            }
            5 => {
                m.chunk(0x7777).u16(1).u16(1).end();
            }
            _ => {
                m.palette(0, &[[1, 2, 3, 4]]);
            }
        }
    }
    m.end_frame();
    run(&mut m, &w);
}
/// many layers / frames / tags / slices
pub fn h12_many(l: usize, fr: usize, t: usize, s: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    let mut w = W::default();
    for i in 0..fr {
        frame(&mut m, &mut w);
        if i == 0 {
            for _ in 0..l {
                layer(&mut m, &mut w, true);
            }
            if t > 0 {
                tags(&mut m, &mut w, t);
            }
            for _ in 0..s {
                slice(&mut m, &mut w);
            }
        }
        for k in 0..l {
            if (k + i) % 3 == 0 {
                cel(&mut m, &mut w, k as u16, 0);
            }
        }
        m.end_frame();
    }
    run(&mut m, &w);
}
