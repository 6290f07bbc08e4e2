use super::api::*;
use super::mk::*;
use super::rd::*;
use aseprite_loader::binary::chunk::Chunk;
use aseprite_loader::binary::chunks::{cel_extra::CelExtraFlags, color_profile::ColorProfile, external_files::ExternalFileType, tileset::TilesetFlags};
use aseprite_loader::binary::scalars::Fixed;

/// 16.16 fixed point: integer part in the high half
fn fx(f: &Fixed, v: u32) -> bool {
    f.0 as u32 == v >> 16 && f.1 as u32 == v & 0xffff
}
fn tileset(p: &[u8]) -> Option<()> {
    let b = wrap(TILESET, p);
    let refd = || {
        let mut r = Rd::new(p);
        let v = (r.u32()?, r.u32()?, r.u32()?, r.u16()?, r.u16()?, r.i16()?);
        r.take(14)?;
        let name = r.string()?;
        let ext = if v.1 & 1 != 0 { Some((r.u32()?, r.u32()?)) } else { None };
        let tiles = if v.1 & 2 != 0 {
            let n = r.u32()?;
            Some(r.blob(n as usize)?)
        } else {
            None
        };
        Some((v, name, ext, tiles))
    };
    let w = refd();
    let c = match chunk(&b) {
        Some(Chunk::Tileset(c)) => Some(c),
        None => None,
        _ => return Some(never()),
    };
    if !ckopt(&c, w.is_some()) {
        return None;
    }
    let (c, (v, name, ext, tiles)) = (c.unwrap(), w.unwrap());
    ck(c.id == v.0);
    let f = |x: TilesetFlags, bit: u32| ck(c.flags.contains(x) == (v.1 & bit != 0));
    f(TilesetFlags::EXTERNAL_FILE, 1);
    f(TilesetFlags::TILES, 2);
    f(TilesetFlags::TILE_0_EMPTY, 4);
    f(TilesetFlags::XFLIP, 8);
    f(TilesetFlags::YFLIP, 16);
    f(TilesetFlags::DFLIP, 32);
    ck(c.number_of_tiles == v.2);
    ck(c.width == v.3);
    ck(c.height == v.4);
    ck(c.base_index == v.5);
    ckeq(c.name.as_bytes(), name);
    if ckopt(&c.external_file, ext.is_some()) {
        ck(c.external_file.unwrap().external_file_id == ext.unwrap().0);
        ck(c.external_file.unwrap().tileset_id == ext.unwrap().1);
    }
    if ckopt(&c.tiles, tiles.is_some()) {
        ckeq(c.tiles.unwrap().data, tiles.unwrap());
    }
    Some(())
}
fn files(p: &[u8]) -> Option<()> {
    let b = wrap(EXTFILES, p);
    let refd = || {
        let mut r = Rd::new(p);
        let n = r.u32()?;
        r.take(8)?;
        // one more than can fit ends in None below
        let n = conc((n as usize).min(r.left() / 14 + 1) as u64);
        let mut v = vec![];
        for _ in 0..n {
            let (id, ty) = (r.u32()?, r.u8()?);
            r.take(7)?;
            v.push((id, ty, r.string()?));
        }
        Some(v)
    };
    let w = refd();
    let c = match chunk(&b) {
        Some(Chunk::ExternalFiles(c)) => Some(c),
        None => None,
        _ => return Some(never()),
    };
    if !ckopt(&c, w.is_some()) {
        return None;
    }
    let (c, w) = (c.unwrap(), w.unwrap());
    ck(c.files.len() == w.len());
    for (f, w) in c.files.iter().zip(w.iter()) {
        ck(f.entry_id == w.0);
        ck(ext_is(&f.file_type, w.1));
        ckeq(f.file_name.as_bytes(), w.2);
    }
    Some(())
}
pub fn ext_is(t: &ExternalFileType, c: u8) -> bool {
    match t {
        ExternalFileType::ExternalPalette => c == 0,
        ExternalFileType::ExternalTileset => c == 1,
        ExternalFileType::ExtensionNameForProperties => c == 2,
        // 3 is "extension name for tile management properties"; the crate may leave it unnamed
        ExternalFileType::Unknown(x) => c > 2 && *x == c,
    }
}
fn profile(p: &[u8]) -> Option<()> {
    let b = wrap(PROFILE, p);
    let refd = || {
        let mut r = Rd::new(p);
        let v = (r.u16()?, r.u16()?, r.u32()?);
        r.take(8)?;
        let icc = if v.0 == 2 {
            let n = r.u32()?;
            Some(r.blob(n as usize)?)
        } else {
            None
        };
        Some((v, icc))
    };
    let w = refd();
    let c = match chunk(&b) {
        Some(Chunk::ColorProfile(c)) => Some(c),
        None => None,
        _ => return Some(never()),
    };
    if !ckopt(&c, w.is_some()) {
        return None;
    }
    let (c, (v, icc)) = (c.unwrap(), w.unwrap());
    match c.profile {
        ColorProfile::NoColorProfile => ck(v.0 == 0),
        ColorProfile::Srgb => ck(v.0 == 1),
        ColorProfile::EmbeddedICC(d) => {
            ck(v.0 == 2);
            if let Some(w) = icc {
                ckeq(d, w);
            }
        }
        ColorProfile::Unknown(x) => ck(v.0 > 2 && x == v.0),
    }
    if ckopt(&c.fixed_gamma, v.1 & 1 != 0) {
        ck(fx(&c.fixed_gamma.unwrap(), v.2));
    }
    Some(())
}
fn mask(p: &[u8]) -> Option<()> {
    let b = wrap(MASK, p);
    let refd = || {
        let mut r = Rd::new(p);
        let v = (r.i16()?, r.i16()?, r.u16()?, r.u16()?);
        r.take(8)?;
        Some((v, r.string()?, r.rest()))
    };
    let w = refd();
    let c = match chunk(&b) {
        Some(Chunk::Mask(c)) => Some(c),
        None => None,
        _ => return Some(never()),
    };
    if !ckopt(&c, w.is_some()) {
        return None;
    }
    let (c, (v, name, data)) = (c.unwrap(), w.unwrap());
    ck(c.x == v.0);
    ck(c.y == v.1);
    ck(c.width == v.2);
    ck(c.height == v.3);
    ckeq(c.name.as_bytes(), name);
    ckeq(c.data, data);
    Some(())
}
fn extra(p: &[u8]) -> Option<()> {
    let b = wrap(CELX, p);
    let c = match chunk(&b) {
        Some(Chunk::CelExtra(c)) => Some(c),
        None => None,
        _ => return Some(never()),
    };
    if !ckopt(&c, p.len() >= 20) {
        return None;
    }
    let c = c.unwrap();
    let mut r = Rd::new(p);
    let f = r.u32()?;
    ck(c.flags.contains(CelExtraFlags::PRECISE_BOUNDS_ARE_SET) == (f & 1 != 0));
    ck(fx(&c.precise_x_position, r.u32()?));
    ck(fx(&c.precise_y_position, r.u32()?));
    ck(fx(&c.width_of_the_cel, r.u32()?));
    ck(fx(&c.height_of_the_cel, r.u32()?));
    ckeq(c.future, r.rest());
    Some(())
}
fn run(kind: usize, p: &[u8]) {
    let r = match kind {
        0 => tileset(p),
        1 => files(p),
        2 => profile(p),
        3 => mask(p),
        _ => extra(p),
    };
    obs(&[r.is_some() as u8]);
    reach(if r.is_some() { 1 } else { 2 });
}
/// n symbolic payload bytes of chunk kind k
pub fn h09_any(k: usize, n: usize, free: usize, _: usize) {
    limit(free);
    run(k, &symv(n));
}
/// long names and blobs of n bytes; `cut` bytes missing, `extra` symbolic ones added
pub fn h09_long(k: usize, n: usize, cut: usize, extra: usize) {
    let mut m = Mk::raw();
    let t = vec![b'x'; n.min(65535)];
    match k {
        0 => {
            m.by(&sym::<4>()).u32(3 | (s32() & !3)).by(&sym::<24>()).st(&t).by(&sym::<8>()).u32(n as u32).z(n);
        }
        1 => {
            m.u32(300).by(&sym::<8>());
            for i in 0..300u32 {
                if i % 100 == 1 {
                    m.by(&sym::<12>()).st(&t);
                } else {
                    m.u32(i.wrapping_mul(0x01020304)).u8(i as u8).z(7).st(b"f");
                }
            }
        }
        2 => {
            m.u16(2).by(&sym::<14>()).u32(n as u32).z(n);
        }
        3 => {
            m.by(&sym::<16>()).st(&t).z(n);
        }
        _ => {
            m.by(&sym::<20>()).z(n);
        }
    }
    let l = m.b.len() - cut;
    m.b.truncate(l);
    m.by(&symv(extra));
    run(k, &m.b);
}
