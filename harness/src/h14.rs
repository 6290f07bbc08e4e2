use super::api::*;
use super::mk::*;
use super::rd::*;
use aseprite_loader::binary::chunks::layer::LayerType;
use aseprite_loader::loader::AsepriteFile;

#[derive(Clone)]
enum Slot {
    Empty,
    Image { w: u16, h: u16, px: Vec<u8>, compressed: bool },
    Link(u16),
    Tilemap,
    Odd,
}
struct Cel {
    x: i16,
    y: i16,
    slot: Slot,
}
fn emit(m: &mut Mk, layer: usize, c: &Cel) {
    match &c.slot {
        Slot::Empty => {}
        Slot::Image { w, h, px, compressed } => {
            m.cel(layer as u16, c.x, c.y, 255, if *compressed { 2 } else { 0 }, 0).u16(*w).u16(*h).by(px).end();
        }
        Slot::Link(f) => {
            m.cel(layer as u16, c.x, c.y, 255, 1, 0).u16(*f).end();
        }
        Slot::Tilemap => {
            m.cel(layer as u16, c.x, c.y, 255, 3, 0).u16(1).u16(1).u16(32).u32(0x1fffffff).u32(0x20000000).u32(0x40000000).u32(0x80000000).z(14).end();
        }
        Slot::Odd => {
            m.cel(layer as u16, c.x, c.y, 255, 9, 0).z(4).end();
        }
    }
}
fn image(frames: &[Vec<Cel>], f: usize, l: usize) -> Option<&Slot> {
    let s = &frames.get(f)?.get(l)?.slot;
    if matches!(s, Slot::Image { .. }) { Some(s) } else { None }
}
/// compare the loaded file with the model; `listed[l]` is the position of layer l among the listed ones
fn same(a: &AsepriteFile<'_>, frames: &[Vec<Cel>], listed: &[Option<usize>]) {
    ck(a.frames().len() == frames.len());
    let mut used = vec![];
    for (fi, (f, w)) in a.frames().iter().zip(frames).enumerate() {
        let mut n = 0;
        for (l, c) in w.iter().enumerate() {
            let Some(pos) = listed[l] else { continue };
            if matches!(c.slot, Slot::Empty) {
                continue;
            }
            n += 1;
            // exactly one cel of this frame is on that layer
            let mut hits = 0;
            for fc in &f.cels {
                if fc.layer_index != pos {
                    continue;
                }
                hits += 1;
                ck(fc.origin == (c.x, c.y));
                let (from, own) = match &c.slot {
                    Slot::Link(t) => (conc(*t as u64) as usize, false),
                    _ => (fi, true),
                };
                let Some(Slot::Image { w, h, px, compressed }) = image(frames, from, l) else {
                    never();
                    continue;
                };
                ck(fc.size == (*w, *h));
                ck(fc.image_index < a.image_count());
                if fc.image_index < a.image_count() {
                    let i = &a.images[fc.image_index];
                    ck(i.width == *w && i.height == *h && i.compressed == *compressed);
                    ckeq(i.data, px);
                    used.push((fc.image_index, from, l, own));
                }
            }
            ck(hits == 1);
        }
        ck(f.cels.len() == n);
    }
    // image cels have images of their own, links share the one of their target
    for (i, a) in used.iter().enumerate() {
        for b in &used[..i] {
            ck((a.0 == b.0) == (a.1 == b.1 && a.2 == b.2));
        }
    }
}
fn slot(kinds: u8) -> Slot {
    match pick(kinds) {
        0 => Slot::Empty,
        1 => Slot::Image { w: s16(), h: s16(), px: symv(3), compressed: sbool() },
        2 => Slot::Link(s16()),
        3 => Slot::Tilemap,
        _ => Slot::Odd,
    }
}
/// l normal layers, f frames; every cel empty, an image or a link to any frame number
pub fn h14_links(l: usize, f: usize, kinds: usize, any: usize) {
    let mut m = Mk::new(RGBA, 4, 4);
    let mut frames: Vec<Vec<Cel>> = vec![];
    for _ in 0..f {
        let mut v = vec![];
        for _ in 0..l {
            let mut c = Cel { x: si16(), y: si16(), slot: slot(kinds as u8) };
            if let Slot::Link(t) = &mut c.slot {
                // existing frames one by one; others: the first one past the end, and some more
                *t = if any != 0 { conc(*t as u64) as u16 } else { ([0, 1, 2, 3, 4, 5, 6, 7][..f + 1].iter().chain(&[255u16, 256, 32768, 65535]).copied().collect::<Vec<_>>())[pick(f as u8 + 5)] };
            }
            v.push(c);
        }
        frames.push(v);
    }
    let mut bad = false;
    for (i, v) in frames.iter().enumerate() {
        m.frame(i as u16);
        if i == 0 {
            for _ in 0..l {
                m.simple_layer();
            }
        }
        for (k, c) in v.iter().enumerate() {
            emit(&mut m, k, c);
            match &c.slot {
                Slot::Link(t) => bad |= image(&frames, *t as usize, k).is_none(),
                _ => {}
            }
        }
        m.end_frame();
    }
    match AsepriteFile::load(&m.b) {
        Ok(a) => {
            ck(!bad);
            if bad {
                return;
            }
            let listed: Vec<_> = (0..l).map(Some).collect();
            same(&a, &frames, &listed);
            obs(&[a.image_count() as u8]);
            reach(1);
        }
        Err(_) => {
            ck(bad);
            reach(2);
        }
    }
}
/// n layers of symbolic type, flags, level, blend mode, opacity, each with an image cel in both frames
pub fn h14_layers(n: usize, cels: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 4, 4);
    let mut frames: Vec<Vec<Cel>> = vec![];
    let mut listed = vec![];
    let mut ls = vec![];
    m.frame(7);
    for i in 0..n {
        let (flags, ty, blend, op) = (s16(), s16(), if i == 0 && n < 3 { s16() } else { i as u16 }, s8());
        let ty = match ty {
            0..=2 => conc(ty as u64) as u16,
            t => t,
        };
        let name = [b'A' + i as u8, b'x'];
        m.layer(flags, ty, 0, blend, op, &name);
        if ty < 2 {
            listed.push(Some(ls.len()));
            ls.push((name, ty, flags, blend));
        } else {
            listed.push(None);
        }
    }
    for f in 0..2 {
        if f == 1 {
            m.end_frame().frame(9);
        }
        let v: Vec<Cel> = (0..n)
            .map(|i| Cel { x: si16(), y: si16(), slot: if cels == 0 || (cels == 2 && (i + f) % 2 == 0) { Slot::Empty } else if f == 1 && cels == 1 { Slot::Link(0) } else { Slot::Image { w: 1 + i as u16, h: s16(), px: symv(2), compressed: false } } })
            .collect();
        for (i, c) in v.iter().enumerate() {
            emit(&mut m, i, c);
        }
        frames.push(v);
    }
    m.end_frame();
    let a = match AsepriteFile::load(&m.b) {
        Ok(a) => a,
        Err(_) => return never(),
    };
    ck(a.layers().len() == ls.len());
    for (l, (name, ty, flags, blend)) in a.layers().iter().zip(&ls) {
        ckeq(l.name.as_bytes(), name);
        ck(l.layer_type == if *ty == 0 { LayerType::Normal } else { LayerType::Group });
        ck(l.blend_mode == ref_blend(*blend));
        // no layer is enclosed by a group here: all are at the top level
        ck(l.visible == (flags & 1 != 0));
    }
    same(&a, &frames, &listed);
    ck(a.frames()[0].duration == 7 && a.frames()[1].duration == 9);
    reach(1);
}
/// a frame with an image on layer 0, and on layer 1 a cel of an arbitrary kind with a symbolic type code
pub fn h14_kinds(_: usize, _: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 4, 4);
    m.frame(1).simple_layer().simple_layer();
    m.raw_cel(0, 0, 0, 255, 0, 1, 1, &[1, 2, 3, 4]);
    let ty = s16();
    assume(ty > 3);
    m.cel(1, 0, 0, 255, ty, 0).z(4).end();
    m.end_frame();
    match AsepriteFile::load(&m.b) {
        // such a cel has no image: either an error, or it is not listed
        Ok(a) => ck(a.frames()[0].cels.len() == 1),
        Err(_) => reach(1),
    }
}
/// n tags with symbolic fields over two frames
pub fn h14_tags(n: usize, _: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 4, 4);
    m.frame(1).simple_layer().chunk(TAGS).u16(n as u16).z(8);
    let mut w = vec![];
    for i in 0..n {
        let (from, to, dir, rep) = (s16(), s16(), s8(), s16());
        assume(from <= to);
        let name = [b'a' + (i % 26) as u8, b'-'];
        m.u16(from).u16(to).u8(dir).u16(rep).z(6).by(&[9, 9, 9]).u8(0).st(&name);
        w.push((from, to, dir, rep, name));
    }
    m.end().end_frame();
    let a = match AsepriteFile::load(&m.b) {
        Ok(a) => a,
        Err(_) => return never(),
    };
    ck(a.tags().len() == n);
    for (t, w) in a.tags().iter().zip(&w) {
        ck(*t.range.start() == w.0 && *t.range.end() == w.1);
        ck(dir_is(&t.direction, w.2));
        ckeq(t.name.as_bytes(), &w.4);
        match t.repeat {
            None => ck(w.3 == 0),
            Some(x) => ck(w.3 != 0 && x == w.3),
        }
    }
    reach(1);
}
/// f frames, l layers: every third cel an image, the others link to the previous image of the layer
pub fn h14_many(f: usize, l: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 4, 4);
    let mut frames: Vec<Vec<Cel>> = vec![];
    for i in 0..f {
        m.frame(1);
        if i == 0 {
            for _ in 0..l {
                m.simple_layer();
            }
        }
        let mut v = vec![];
        for k in 0..l {
            let d = (i + k) % 3;
            let slot = if i == 0 || d == 0 { Slot::Image { w: (i * 7 + k) as u16, h: s16(), px: vec![i as u8, k as u8], compressed: true } } else { Slot::Link(i.saturating_sub(d) as u16) };
            let c = Cel { x: si16(), y: -1, slot };
            emit(&mut m, k, &c);
            v.push(c);
        }
        m.end_frame();
        frames.push(v);
    }
    let a = match AsepriteFile::load(&m.b) {
        Ok(a) => a,
        Err(_) => return never(),
    };
    let listed: Vec<_> = (0..l).map(Some).collect();
    same(&a, &frames, &listed);
    reach(1);
}
