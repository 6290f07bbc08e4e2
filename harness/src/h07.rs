use super::api::*;
use super::mk::*;
use super::rd::*;
use aseprite_loader::binary::chunk::Chunk;
use aseprite_loader::binary::chunks::{old_palette::OldPaletteChunk, palette::PaletteChunk};

struct E<'a> {
    col: &'a [u8],
    name: Option<&'a [u8]>,
}
fn refp(b: &[u8]) -> Option<(u32, u32, Vec<E<'_>>)> {
    let mut r = Rd::new(b);
    r.u32()?;
    let (first, last) = (r.u32()?, r.u32()?);
    if first > 255 || last > 255 || first > last {
        return None;
    }
    r.take(8)?;
    let n = last - first + 1;
    // one more than can fit ends in None below
    let n = conc((n as usize).min(r.left() / 6 + 1) as u64);
    let mut out = vec![];
    for _ in 0..n {
        let f = r.u16()?;
        let col = r.take(4)?;
        let name = if f & 1 != 0 { Some(r.string()?) } else { None };
        out.push(E { col, name });
    }
    Some((first, last, out))
}
fn samep(p: &PaletteChunk<'_>, w: &(u32, u32, Vec<E<'_>>)) {
    ck(*p.indices.start() as u32 == w.0);
    ck(*p.indices.end() as u32 == w.1);
    ck(p.entries.len() == w.2.len());
    for (a, b) in p.entries.iter().zip(w.2.iter()) {
        ckeq(&[a.color.red, a.color.green, a.color.blue, a.color.alpha], b.col);
        if ckopt(&a.name, b.name.is_some()) {
            ckeq(a.name.unwrap().as_bytes(), b.name.unwrap());
        }
    }
}
fn runp(p: &[u8]) {
    let b = wrap(PAL, p);
    let w = refp(p);
    match (chunk(&b), w) {
        (Some(Chunk::Palette(c)), Some(w)) => {
            samep(&c, &w);
            obs(&[w.2.len() as u8]);
            reach(1);
        }
        (None, None) => reach(2),
        _ => never(),
    }
}
/// n symbolic payload bytes
pub fn h07_any(n: usize, free: usize, _: usize, _: usize) {
    limit(free);
    runp(&symv(n));
}
/// `n` entries from `first` on, symbolic colours, some with symbolic flags and names; `cut` bytes missing
pub fn h07_many(first: usize, n: usize, step: usize, cut: usize) {
    let mut m = Mk::raw();
    m.u32(s32()).u32(first as u32).u32((first + n - 1) as u32).by(&sym::<8>());
    for i in 0..n {
        if i % step == 0 {
            let f = s16();
            let named = conc((f & 1) as u64) != 0;
            m.u16(f).by(&sym::<4>());
            if named {
                m.st(b"name");
            }
        } else {
            m.u16(i as u16 & 0xfffe).by(&sym::<4>());
        }
    }
    let l = m.b.len() - cut;
    runp(&m.b[..l]);
}
fn refo(b: &[u8]) -> Option<Vec<(u8, &[u8])>> {
    let mut r = Rd::new(b);
    let n = r.u16()?;
    if n as usize > r.left() / 5 {
        return None;
    }
    let n = conc(n as u64);
    let mut out = vec![];
    for _ in 0..n {
        let skip = r.u8()?;
        let c = r.u8()?;
        let c = if c == 0 { 256 } else { c as usize };
        out.push((skip, r.blob(3 * c)?));
    }
    Some(out)
}
fn runo(ty: u16, p: &[u8]) {
    let b = wrap(ty, p);
    let same = |o: &OldPaletteChunk, w: &Vec<(u8, &[u8])>| {
        ck(o.packets.len() == w.len());
        for (a, b) in o.packets.iter().zip(w.iter()) {
            ck(a.entries_to_skip == b.0);
            ck(a.colors.len() * 3 == b.1.len());
            for (c, d) in a.colors.iter().zip(b.1.chunks(3)) {
                ckeq(&[c.red, c.green, c.blue], d);
            }
        }
        obs(&[w.len() as u8]);
        reach(1);
    };
    match (chunk(&b), refo(p)) {
        (Some(Chunk::Palette0004(o)), Some(w)) if ty == OLD04 => same(&o, &w),
        (Some(Chunk::Palette0011(o)), Some(w)) if ty == OLD11 => same(&o, &w),
        (None, None) => reach(2),
        _ => never(),
    }
}
/// n symbolic payload bytes of an old palette chunk
pub fn h07_old_any(ty: usize, n: usize, _: usize, _: usize) {
    runo(if ty == 4 { OLD04 } else { OLD11 }, &symv(n));
}
/// np packets of k stored colours (0: 256) with symbolic skips and colours; `cut` bytes missing
pub fn h07_old_many(ty: usize, np: usize, k: usize, cut: usize) {
    let mut m = Mk::raw();
    m.u16(np as u16);
    for _ in 0..np {
        m.u8(s8()).u8(k as u8).by(&symv(3 * if k == 0 { 256 } else { k }));
    }
    let l = m.b.len() - cut;
    runo(if ty == 4 { OLD04 } else { OLD11 }, &m.b[..l]);
}
