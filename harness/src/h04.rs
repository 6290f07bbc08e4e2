use super::api::*;
use super::mk::*;
use super::rd::*;
use aseprite_loader::binary::chunk::Chunk;
use aseprite_loader::binary::chunks::layer::{LayerChunk, LayerFlags};

struct L<'a> {
    flags: u16,
    ty: u16,
    child: u16,
    blend: u16,
    op: u8,
    name: &'a [u8],
    ts: Option<u32>,
}
fn refl(b: &[u8]) -> Option<L<'_>> {
    let mut r = Rd::new(b);
    let (flags, ty, child) = (r.u16()?, r.u16()?, r.u16()?);
    r.take(4)?;
    let blend = r.u16()?;
    let op = r.u8()?;
    r.take(3)?;
    let name = r.string()?;
    let ts = if ty == 2 { Some(r.u32()?) } else { None };
    Some(L { flags, ty, child, blend, op, name, ts })
}
fn same(l: &LayerChunk<'_>, w: &L<'_>) {
    let f = |x: LayerFlags, bit: u16| ck(l.flags.contains(x) == (w.flags & bit != 0));
    f(LayerFlags::VISIBLE, 1);
    f(LayerFlags::EDITABLE, 2);
    f(LayerFlags::LOCK_MOVEMENT, 4);
    f(LayerFlags::BACKGROUND, 8);
    f(LayerFlags::PREFER_LINKED_CELS, 16);
    f(LayerFlags::COLLAPSED, 32);
    f(LayerFlags::REFERENCE, 64);
    ck(l.layer_type == ref_layer_type(w.ty));
    ck(l.child_level == w.child);
    ck(l.blend_mode == ref_blend(w.blend));
    ck(l.opacity == w.op);
    ckeq(l.name.as_bytes(), w.name);
    if ckopt(&l.tileset_index, w.ts.is_some()) {
        ck(l.tileset_index == w.ts);
    }
    ck(l.user_data.is_none());
}
fn run(p: &[u8]) {
    let b = wrap(LAYER, p);
    let w = refl(p);
    match (chunk(&b), w) {
        (Some(Chunk::Layer(l)), Some(w)) => {
            same(&l, &w);
            obs(&[l.opacity, l.name.len() as u8]);
            reach(1);
        }
        (None, None) => reach(2),
        _ => never(),
    }
}
/// n symbolic payload bytes
pub fn h04_any(n: usize, free: usize, _: usize, _: usize) {
    limit(free);
    run(&symv(n));
}
/// long names: n concrete letters around three symbolic bytes; `cut` bytes are missing at the end
pub fn h04_name(n: usize, tilemap: usize, cut: usize, extra: usize) {
    limit(n + 3);
    let mut m = Mk::raw();
    let mut name = vec![b'n'; n + 3];
    let k = n / 2;
    fill(&mut name[k..k + 3]);
    m.by(&sym::<2>()).u16(tilemap as u16 * 2).by(&sym::<12>()).st(&name);
    if tilemap != 0 {
        m.u32(s32());
    }
    m.by(&symv(extra));
    let l = m.b.len() - cut;
    run(&m.b[..l]);
}
