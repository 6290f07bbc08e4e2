use super::api::*;
use super::mk::*;
use super::rd::*;
use aseprite_loader::binary::{chunk::Chunk, raw_file::parse_raw_file};

const KNOWN: [u16; 14] = [4, 0x11, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2016, 0x2017, 0x2018, 0x2019, 0x2020, 0x2022, 0x2023];
fn unknown(t: u16) -> bool {
    let mut r = true;
    for k in KNOWN {
        r &= t != k || t == PATH;
    }
    r
}
struct Fr {
    dur: u16,
    chunks: Vec<u16>,
}
/// reference framing of the bytes after the header; forks over sizes and counts that fit
fn ref_frames(b: &[u8]) -> Option<Vec<Fr>> {
    let mut out = vec![];
    let mut r = Rd::new(b);
    while r.left() > 0 {
        let size = r.u32()? as usize;
        if size < 4 {
            return None;
        }
        let mut f = Rd::new(r.blob(size - 4)?);
        if f.u16()? != 0xF1FA {
            return None;
        }
        let old = f.u16()?;
        let dur = f.u16()?;
        f.take(2)?;
        let new = f.u32()?;
        let n = if new == 0 { old as u32 } else { new };
        // every chunk takes at least 6 bytes
        if n > (f.left() / 6) as u32 {
            return None;
        }
        let n = conc(n as u64);
        let mut chunks = vec![];
        for _ in 0..n {
            let size = f.u32()? as usize;
            if size < 4 {
                return None;
            }
            let mut c = Rd::new(f.blob(size - 4)?);
            let ty = c.u16()?;
            assume(unknown(ty));
            chunks.push(ty);
        }
        out.push(Fr { dur, chunks });
    }
    if out.is_empty() { None } else { Some(out) }
}
fn compare(b: &[u8], body: usize) {
    let want = ref_frames(&b[body..]);
    match (parse_raw_file(b), want) {
        (Ok(f), Some(w)) => {
            reach(1);
            ck(f.frames.len() == w.len());
            obs(&[1, w.len() as u8]);
            for (x, y) in f.frames.iter().zip(w.iter()) {
                ck(x.duration == y.dur);
                ck(x.chunks.len() == y.chunks.len());
                obs(&[y.chunks.len() as u8]);
                for (c, t) in x.chunks.iter().zip(y.chunks.iter()) {
                    match c {
                        Chunk::Unsupported(u) => ck(u == t),
                        Chunk::Path => ck(*t == PATH),
                        _ => never(),
                    }
                }
            }
        }
        (Err(_), None) => {
            reach(2);
            obs(&[0]);
        }
        (a, b) => {
            let _ = (a.is_ok(), b.is_some());
            never()
        }
    }
}
/// header followed by n symbolic bytes, chunk types restricted to ones without a payload parser
pub fn h03_any(n: usize, _: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    m.z(n);
    let mut b = m.b;
    fill(&mut b[128..]);
    compare(&b, 128);
}
fn put(m: &mut Mk, kind: usize) {
    match kind {
        0 => m.chunk(OLD04).u16(1).u8(s8()).u8(1).by(&sym::<3>()),
        1 => m.chunk(OLD11).u16(1).u8(s8()).u8(1).by(&sym::<3>()),
        2 => m.chunk(LAYER).u16(s16()).u16(0).u16(s16()).z(4).u16(s16()).u8(s8()).z(3).st(b"ab"),
        3 => m.cel(s16(), si16(), si16(), s8(), 1, si16()).u16(s16()),
        4 => m.chunk(CELX).u32(s32()).by(&sym::<16>()),
        5 => m.chunk(PROFILE).u16(1).u16(s16()).u32(s32()).z(8),
        6 => m.chunk(EXTFILES).u32(1).z(8).u32(s32()).u8(s8()).z(7).st(b"f"),
        7 => m.chunk(MASK).by(&sym::<8>()).z(8).st(b"m"),
        8 => m.chunk(PATH),
        9 => m.chunk(TAGS).u16(1).z(8).u16(0).u16(1).u8(s8()).u16(s16()).z(6).by(&sym::<4>()).st(b"t"),
        10 => m.chunk(PAL).u32(1).u32(3).u32(3).z(8).u16(1).by(&sym::<4>()).st(b"n"),
        11 => m.chunk(UDATA).u32(3).st(b"u").by(&sym::<4>()),
        12 => m.chunk(SLICE).u32(1).u32(3).u32(0).st(b"s").by(&sym::<44>()),
        13 => m.chunk(TILESET).u32(s32()).u32(3).u32(s32()).by(&sym::<6>()).z(14).st(b"x").by(&sym::<8>()).u32(2).by(&sym::<2>()),
        14 => m.chunk(PROFILE).u16(2).u16(s16()).u32(s32()).z(8).u32(3).by(&sym::<3>()),
        15 => m.cel(s16(), si16(), si16(), s8(), 2, si16()).u16(s16()).u16(s16()),
        16 => m.cel(s16(), si16(), si16(), s8(), 3, si16()).u16(s16()).u16(s16()).by(&sym::<18>()).z(10),
        17 => m.chunk(UDATA).u32(4).u32(8).u32(0),
        _ => { let t = s16(); assume(unknown(t)); m.chunk(t) }
    };
}
fn is(c: &Chunk<'_>, kind: usize) -> bool {
    match c {
        Chunk::Palette0004(_) => kind == 0,
        Chunk::Palette0011(_) => kind == 1,
        Chunk::Layer(_) => kind == 2,
        Chunk::Cel(_) => kind == 3 || kind == 15 || kind == 16,
        Chunk::CelExtra(_) => kind == 4,
        Chunk::ColorProfile(_) => kind == 5 || kind == 14,
        Chunk::ExternalFiles(_) => kind == 6,
        Chunk::Mask(_) => kind == 7,
        Chunk::Path => kind == 8 || kind > 17,
        Chunk::Tags(_) => kind == 9,
        Chunk::Palette(_) => kind == 10,
        Chunk::UserData(_) => kind == 11 || kind == 17,
        Chunk::Slice(_) => kind == 12,
        Chunk::Tileset(_) => kind == 13,
        Chunk::Unsupported(_) => kind > 17,
    }
}
/// a chunk of each kind with `surplus` symbolic trailing bytes, followed by another chunk,
/// frame padding and another frame
pub fn h03_surplus(kind: usize, surplus: usize, pad: usize, _: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    let t = s16();
    assume(unknown(t) && t != PATH);
    m.frame(7);
    put(&mut m, kind);
    m.by(&symv(surplus)).end();
    m.chunk(t).by(&sym::<3>()).end();
    m.by(&symv(pad));
    m.end_frame();
    let d = s16();
    m.frame(d).chunk(t).end();
    put(&mut m, kind);
    m.by(&symv(surplus)).end();
    m.end_frame();
    match parse_raw_file(&m.b) {
        Ok(f) => {
            ck(f.frames.len() == 2);
            ck(f.frames[0].duration == 7 && f.frames[1].duration == d);
            ck(f.frames[0].chunks.len() == 2 && f.frames[1].chunks.len() == 2);
            ck(is(&f.frames[0].chunks[0], kind));
            ck(is(&f.frames[1].chunks[1], kind));
            ck(matches!(f.frames[0].chunks[1], Chunk::Unsupported(x) if x == t));
            ck(matches!(f.frames[1].chunks[0], Chunk::Unsupported(x) if x == t));
            reach(1);
        }
        Err(_) => never(),
    }
}
/// sizes above 65535: a big chunk and a big frame padding, then one more chunk and frame
pub fn h03_big(size: usize, pad: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    let t = s16();
    assume(unknown(t) && t != PATH);
    let d = s16();
    m.frame(7).chunk(0x7777).z(size).end();
    m.chunk(t).end().z(pad).end_frame().frame(d).chunk(t).end().end_frame();
    match parse_raw_file(&m.b) {
        Ok(f) => {
            ck(f.frames.len() == 2);
            ck(f.frames[1].duration == d);
            ck(f.frames[0].chunks.len() == 2 && f.frames[1].chunks.len() == 1);
            ck(matches!(f.frames[0].chunks[0], Chunk::Unsupported(0x7777)));
            ck(matches!(f.frames[0].chunks[1], Chunk::Unsupported(x) if x == t));
            ck(matches!(f.frames[1].chunks[0], Chunk::Unsupported(x) if x == t));
            reach(1);
        }
        Err(_) => never(),
    }
}
/// n chunks present; old and new count fields symbolic
pub fn h03_counts(n: usize, many: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, 1, 1);
    let t = s16();
    assume(unknown(t));
    m.frame(7);
    for _ in 0..n {
        m.chunk(t).end();
    }
    m.end_frame();
    let (old, new) = (s16(), s32());
    if many > 0 {
        // the field that counts holds a given value, the other one anything
        assume(if many == 1 { new as usize == n } else { new == 0 && old as usize == n });
    }
    m.b[134..136].copy_from_slice(&old.to_le_bytes());
    m.b[140..144].copy_from_slice(&new.to_le_bytes());
    let want = if new == 0 { old as u32 } else { new };
    match parse_raw_file(&m.b) {
        Ok(f) => {
            ck(f.frames.len() == 1);
            ck(want as usize <= n);
            ck(f.frames[0].chunks.len() == want as usize);
            reach(1);
            obs(&[f.frames[0].chunks.len() as u8]);
        }
        Err(_) => {
            ck(want as usize > n);
            reach(2);
        }
    }
}
