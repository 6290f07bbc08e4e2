use super::api::*;
use super::h09::ext_is;
use super::mk::*;
use super::rd::*;
use aseprite_loader::binary::chunk::{parse_chunk, Chunk};
use aseprite_loader::binary::chunks::{cel::CelContent, color_profile::ColorProfile};
use aseprite_loader::binary::{color_depth::ColorDepth, file::parse_file, raw_file::parse_raw_file};
use aseprite_loader::loader::AsepriteFile;

/// colour depth: full range; e: entry point
pub fn h10_depth(e: usize, _: usize, _: usize, _: usize) {
    let d = s16();
    let mut m = Mk::new(d, 3, 2);
    m.frame(1).palette(0, &[[1, 2, 3, 255]]).simple_layer().end_frame();
    let r = match e {
        0 => parse_raw_file(&m.b).map(|f| f.header.color_depth).ok(),
        1 => parse_file(&m.b).map(|f| f.header.color_depth).ok(),
        _ => AsepriteFile::load(&m.b).map(|f| f.file.header.color_depth).ok(),
    };
    match r {
        Some(x) => {
            let (k, v) = match x {
                ColorDepth::Rgba => (1, 32),
                ColorDepth::Grayscale => (2, 16),
                ColorDepth::Indexed => (3, 8),
                ColorDepth::Unknown(v) => (4, v),
            };
            let want = if d == 32 { 1 } else if d == 16 { 2 } else if d == 8 { 3 } else { 4 };
            ck(k == want);
            ck(v == d);
            ck(x.bpp() == d);
            // bytes per pixel of the known depths
            let size = x.pixel_size();
            if ckopt(&size, k < 4) {
                ck(size.unwrap() == if k == 1 { 4 } else if k == 2 { 2 } else { 1 });
            }
            reach(k);
            obs(&[k as u8]);
        }
        None => never(),
    }
}
/// blend mode and layer type: full range; the record parses whatever the codes
pub fn h10_layer(_: usize, _: usize, _: usize, _: usize) {
    let (ty, bl) = (s16(), s16());
    let mut m = Mk::raw();
    m.chunk(LAYER).by(&sym::<2>()).u16(ty).by(&sym::<6>()).u16(bl).by(&sym::<4>()).st(b"n").u32(s32()).end();
    match parse_chunk(&m.b) {
        Ok((_, Chunk::Layer(l))) => {
            ck(l.layer_type == ref_layer_type(ty));
            ck(l.blend_mode == ref_blend(bl));
            ckopt(&l.tileset_index, ty == 2);
            reach(1);
            obs(&[]);
        }
        _ => never(),
    }
}
/// cel type: full range, enough bytes for every kind
pub fn h10_cel(n: usize, _: usize, _: usize, _: usize) {
    let t = s16();
    let mut m = Mk::raw();
    m.cel(s16(), si16(), si16(), s8(), t, si16()).by(&symv(n)).end();
    match parse_chunk(&m.b) {
        Ok((_, Chunk::Cel(c))) => {
            let k = match &c.content {
                CelContent::Image(i) => if i.compressed { 2 } else { 0 },
                CelContent::LinkedCel { .. } => 1,
                CelContent::CompressedTilemap { .. } => 3,
                CelContent::Unknown { cel_type, data } => {
                    ck(*cel_type == t);
                    ck(data.len() == n);
                    4
                }
            };
            let want = if t > 3 { 4 } else { t };
            ck(k == want);
            reach(10 + k as u32);
            obs(&[k as u8]);
        }
        _ => never(),
    }
}
/// animation direction, colour profile type, external file type: full range
pub fn h10_misc(k: usize, _: usize, _: usize, _: usize) {
    let mut m = Mk::raw();
    match k {
        0 => {
            let d = s8();
            m.chunk(TAGS).u16(1).z(8).u16(0).u16(1).u8(d).u16(s16()).z(6).by(&sym::<4>()).st(b"t").end();
            match parse_chunk(&m.b) {
                Ok((_, Chunk::Tags(t))) => {
                    ck(t.tags.len() == 1);
                    ck(dir_is(&t.tags[0].animation_direction, d));
                    reach(1);
                }
                _ => never(),
            }
        }
        1 => {
            let t = s16();
            m.chunk(PROFILE).u16(t).u16(s16()).u32(s32()).z(8).u32(2).by(&sym::<2>()).end();
            match parse_chunk(&m.b) {
                Ok((_, Chunk::ColorProfile(c))) => {
                    match c.profile {
                        ColorProfile::NoColorProfile => ck(t == 0),
                        ColorProfile::Srgb => ck(t == 1),
                        ColorProfile::EmbeddedICC(_) => ck(t == 2),
                        ColorProfile::Unknown(x) => ck(t > 2 && x == t),
                    }
                    reach(1);
                }
                _ => never(),
            }
        }
        _ => {
            let t = s8();
            m.chunk(EXTFILES).u32(2).z(8).u32(s32()).u8(t).z(7).st(b"a").u32(s32()).u8(t).z(7).st(b"b").end();
            match parse_chunk(&m.b) {
                Ok((_, Chunk::ExternalFiles(c))) => {
                    ck(c.files.len() == 2);
                    ck(ext_is(&c.files[0].file_type, t));
                    ck(ext_is(&c.files[1].file_type, t));
                    reach(1);
                }
                _ => never(),
            }
        }
    }
}
/// chunk type: full range over a payload of n zero bytes; every type outside the
/// specification is reported with its code
pub fn h10_chunk(n: usize, _: usize, _: usize, _: usize) {
    let t = s16();
    let mut m = Mk::raw();
    m.chunk(t).z(n).end();
    match parse_chunk(&m.b) {
        Ok((rest, c)) => {
            ck(rest.is_empty());
            let want = match c {
                Chunk::Palette0004(_) => 4,
                Chunk::Palette0011(_) => 0x11,
                Chunk::Layer(_) => LAYER,
                Chunk::Cel(_) => CEL,
                Chunk::CelExtra(_) => CELX,
                Chunk::ColorProfile(_) => PROFILE,
                Chunk::ExternalFiles(_) => EXTFILES,
                Chunk::Mask(_) => MASK,
                Chunk::Path => PATH,
                Chunk::Tags(_) => TAGS,
                Chunk::Palette(_) => PAL,
                Chunk::UserData(_) => UDATA,
                Chunk::Slice(_) => SLICE,
                Chunk::Tileset(_) => TILESET,
                Chunk::Unsupported(x) => {
                    let mut known = false;
                    for k in [OLD04, OLD11, LAYER, CEL, CELX, PROFILE, EXTFILES, MASK, PATH, TAGS, PAL, UDATA, SLICE, TILESET] {
                        known |= x == k;
                    }
                    ck(!known);
                    reach(2);
                    x
                }
            };
            ck(t == want);
            reach(1);
            obs(&[(want >> 8) as u8 & 0x20]);
        }
        Err(_) => {
            // n zero bytes may be too few for a known type, but never for an unknown one
            let mut known = false;
            for k in [OLD04, OLD11, LAYER, CEL, CELX, PROFILE, EXTFILES, MASK, TAGS, PAL, UDATA, SLICE, TILESET] {
                known |= t == k;
            }
            ck(known && n < 64);
            reach(3);
        }
    }
}
