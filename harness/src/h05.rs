use super::api::*;
use super::mk::*;
use super::rd::*;
use aseprite_loader::binary::chunk::Chunk;
use aseprite_loader::binary::chunks::cel::{CelChunk, CelContent};

enum K<'a> {
    Img(u16, u16, &'a [u8], bool),
    Link(u16),
    Map(u16, u16, u16, [u32; 4], &'a [u8]),
    Other(u16, &'a [u8]),
}
struct W<'a> {
    layer: u16,
    x: i16,
    y: i16,
    op: u8,
    z: i16,
    k: K<'a>,
}
fn refc(b: &[u8]) -> Option<W<'_>> {
    let mut r = Rd::new(b);
    let (layer, x, y, op, ty, z) = (r.u16()?, r.i16()?, r.i16()?, r.u8()?, r.u16()?, r.i16()?);
    r.take(5)?;
    let k = match ty {
        0 => K::Img(r.u16()?, r.u16()?, r.rest(), false),
        1 => K::Link(r.u16()?),
        2 => K::Img(r.u16()?, r.u16()?, r.rest(), true),
        3 => {
            let (w, h, bits) = (r.u16()?, r.u16()?, r.u16()?);
            let m = [r.u32()?, r.u32()?, r.u32()?, r.u32()?];
            r.take(10)?;
            K::Map(w, h, bits, m, r.rest())
        }
        t => K::Other(t, r.rest()),
    };
    Some(W { layer, x, y, op, z, k })
}
fn same(c: &CelChunk<'_>, w: &W<'_>) {
    ck(c.layer_index == w.layer);
    ck(c.x == w.x);
    ck(c.y == w.y);
    ck(c.opacity == w.op);
    ck(c.z_index == w.z);
    ck(c.user_data.is_none());
    match (&c.content, &w.k) {
        (CelContent::Image(i), K::Img(x, y, d, comp)) => {
            reach(if *comp { 12 } else { 10 });
            ck(i.width == *x);
            ck(i.height == *y);
            ck(i.compressed == *comp);
            ckeq(i.data, d);
        }
        (CelContent::LinkedCel { frame_position }, K::Link(f)) => {
            reach(11);
            ck(frame_position == f)
        }
        (CelContent::CompressedTilemap { width, height, bits_per_tile, bitmask_tile_id, bitmask_x_flip, bitmask_y_flip, bitmask_diagonal_flip, data }, K::Map(x, y, bits, m, d)) => {
            reach(13);
            ck(width == x);
            ck(height == y);
            ck(bits_per_tile == bits);
            ck(*bitmask_tile_id == m[0]);
            ck(*bitmask_x_flip == m[1]);
            ck(*bitmask_y_flip == m[2]);
            ck(*bitmask_diagonal_flip == m[3]);
            ckeq(data, d);
        }
        (CelContent::Unknown { cel_type, data }, K::Other(t, d)) => {
            reach(14);
            ck(cel_type == t);
            ckeq(data, d);
        }
        _ => never(),
    }
}
fn run(p: &[u8]) {
    let b = wrap(CEL, p);
    match (chunk(&b), refc(p)) {
        (Some(Chunk::Cel(c)), Some(w)) => {
            same(&c, &w);
            obs(&[c.opacity]);
            reach(1);
        }
        (None, None) => reach(2),
        _ => never(),
    }
}
/// n symbolic payload bytes
pub fn h05_any(n: usize, _: usize, _: usize, _: usize) {
    run(&symv(n));
}
/// symbolic record with `n` bytes of pixel data, only the first and last two of them symbolic
pub fn h05_big(n: usize, ty: usize, _: usize, _: usize) {
    let mut p = vec![0x5a; 50 + n];
    fill(&mut p[..50]);
    let l = p.len();
    fill(&mut p[l - 2..]);
    p[7] = ty as u8;
    p[8] = (ty >> 8) as u8;
    run(&p);
}
