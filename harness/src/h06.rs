use super::api::*;
use super::mk::*;
use super::rd::*;
use aseprite_loader::binary::chunk::Chunk;
use aseprite_loader::binary::chunks::{slice::{SliceChunk, SliceFlags}, tags::Tag};

struct T<'a> {
    from: u16,
    to: u16,
    dir: u8,
    rep: u16,
    col: &'a [u8],
    name: &'a [u8],
}
fn reft(b: &[u8]) -> Option<Vec<T<'_>>> {
    let mut r = Rd::new(b);
    let n = r.u16()?;
    r.take(8)?;
    // one more than can fit ends in None below
    let n = conc((n as usize).min(r.left() / 19 + 1) as u64);
    let mut out = vec![];
    for _ in 0..n {
        let (from, to) = (r.u16()?, r.u16()?);
        if from > to {
            return None;
        }
        let (dir, rep) = (r.u8()?, r.u16()?);
        r.take(6)?;
        let col = r.take(3)?;
        r.take(1)?;
        out.push(T { from, to, dir, rep, col, name: r.string()? });
    }
    Some(out)
}
fn same(t: &Tag<'_>, w: &T<'_>) {
    ck(*t.frames.start() == w.from);
    ck(*t.frames.end() == w.to);
    ck(!t.frames.is_empty());
    ck(dir_is(&t.animation_direction, w.dir));
    ck(t.animation_repeat == w.rep);
    ckeq(&t.color, w.col);
    ckeq(t.name.as_bytes(), w.name);
    ck(t.user_data.is_none());
}
fn runt(p: &[u8]) {
    let b = wrap(TAGS, p);
    let w = reft(p);
    match (chunk(&b), w) {
        (Some(Chunk::Tags(t)), Some(w)) => {
            ck(t.tags.len() == w.len());
            for (x, y) in t.tags.iter().zip(w.iter()) {
                same(x, y);
            }
            obs(&[w.len() as u8]);
            reach(1);
        }
        (None, None) => reach(2),
        _ => never(),
    }
}
/// n symbolic payload bytes
pub fn h06_tags_any(n: usize, free: usize, _: usize, _: usize) {
    limit(free);
    runt(&symv(n));
}
/// n tags with symbolic fields (in every `step`-th one) and names of len letters; `cut` bytes missing
pub fn h06_tags_many(n: usize, step: usize, len: usize, cut: usize) {
    let mut m = Mk::raw();
    m.u16(n as u16).by(&sym::<8>());
    for i in 0..n {
        if i % step == 0 {
            m.u16(s16()).u16(s16()).u8(s8()).u16(s16()).by(&sym::<6>()).by(&sym::<4>());
        } else {
            m.u16(i as u16).u16(n as u16).u8(2).u16(i as u16 ^ 0x1ff).z(6).by(&[i as u8, 1, 2, 0]);
        }
        m.st(&vec![b'a' + (i % 26) as u8; len]);
    }
    let l = m.b.len() - cut;
    runt(&m.b[..l]);
}
struct Ky {
    frame: u32,
    r: [u32; 4],
    nine: Option<[u32; 4]>,
    pivot: Option<[u32; 2]>,
}
struct S<'a> {
    flags: u32,
    name: &'a [u8],
    keys: Vec<Ky>,
}
fn refs(b: &[u8]) -> Option<S<'_>> {
    let mut r = Rd::new(b);
    let n = r.u32()?;
    let flags = r.u32()?;
    r.take(4)?;
    let name = r.string()?;
    let (nine, pivot) = (flags & 1 != 0, flags & 2 != 0);
    if n as usize > r.left() / 20 {
        return None;
    }
    let n = conc(n as u64);
    let mut keys = vec![];
    for _ in 0..n {
        keys.push(Ky {
            frame: r.u32()?,
            r: [r.u32()?, r.u32()?, r.u32()?, r.u32()?],
            nine: if nine { Some([r.u32()?, r.u32()?, r.u32()?, r.u32()?]) } else { None },
            pivot: if pivot { Some([r.u32()?, r.u32()?]) } else { None },
        });
    }
    Some(S { flags, name, keys })
}
fn sames(s: &SliceChunk<'_>, w: &S<'_>) {
    ckeq(s.name.as_bytes(), w.name);
    ck(s.flags.contains(SliceFlags::NINE_PATCH) == (w.flags & 1 != 0));
    ck(s.flags.contains(SliceFlags::PIVOT) == (w.flags & 2 != 0));
    ck(s.slice_keys.len() == w.keys.len());
    ck(s.user_data.is_none());
    for (k, w) in s.slice_keys.iter().zip(w.keys.iter()) {
        ck(k.frame_number == w.frame);
        ck(k.x == w.r[0] as i32);
        ck(k.y == w.r[1] as i32);
        ck(k.width == w.r[2]);
        ck(k.height == w.r[3]);
        if ckopt(&k.nine_patch, w.nine.is_some()) {
            let (a, b) = (k.nine_patch.unwrap(), w.nine.unwrap());
            ck(a.x == b[0] as i32);
            ck(a.y == b[1] as i32);
            ck(a.width == b[2]);
            ck(a.height == b[3]);
        }
        if ckopt(&k.pivot, w.pivot.is_some()) {
            let (a, b) = (k.pivot.unwrap(), w.pivot.unwrap());
            ck(a.x == b[0] as i32);
            ck(a.y == b[1] as i32);
        }
    }
}
fn runs(p: &[u8]) {
    let b = wrap(SLICE, p);
    let w = refs(p);
    match (chunk(&b), w) {
        (Some(Chunk::Slice(s)), Some(w)) => {
            sames(&s, &w);
            obs(&[w.keys.len() as u8, w.name.len() as u8]);
            reach(1);
        }
        (None, None) => reach(2),
        _ => never(),
    }
}
pub fn h06_slice_any(n: usize, _: usize, _: usize, _: usize) {
    runs(&symv(n));
}
/// n keys under symbolic flags, each symbolic in every `step`-th key; `cut` bytes missing
pub fn h06_slice_many(n: usize, step: usize, len: usize, cut: usize) {
    let mut m = Mk::raw();
    let f = s32();
    let w = conc((f & 3) as u64);
    m.u32(n as u32).u32(f).by(&sym::<4>()).st(&vec![b'k'; len]);
    let z = 20 + if w & 1 != 0 { 16 } else { 0 } + if w & 2 != 0 { 8 } else { 0 };
    for i in 0..n {
        if i % step == 0 {
            m.by(&symv(z));
        } else {
            for j in 0..z {
                m.u8((i * 7 + j * 13) as u8);
            }
        }
    }
    let l = m.b.len() - cut;
    runs(&m.b[..l]);
}
