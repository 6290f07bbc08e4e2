use super::api::*;
use super::bl::*;
use super::mk::*;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};

/// render one source pixel over a backdrop pixel
pub fn render(mode: u16, b: P, s: P, opacity: u8) -> Option<P> {
    let mut m = Mk::new(RGBA, 1, 1);
    m.frame(1).layer(1, 0, 0, mode, opacity, b"l").raw_cel(0, 0, 0, 255, 0, 1, 1, &s).end_frame();
    let a = match AsepriteFile::load(&m.b) {
        Ok(a) => a,
        Err(_) => {
            never();
            return None;
        }
    };
    let mut t = b;
    let r = a.render_frame(0, &mut t, &LayerSelection::Visible);
    ck(r.is_ok());
    if r.is_ok() { Some(t) } else { None }
}
/// all of backdrop, source and opacity symbolic
pub fn h20_mode(mode: usize, _: usize, _: usize, _: usize) {
    let (b, s, o) = (sym::<4>(), sym::<4>(), s8());
    let Some(t) = render(mode as u16, b, s, o) else { return };
    ckeq(&t, &blend(mode as u16, b, s, o));
    reach(1);
}

const COLORS: [[u8; 6]; 4] = [[200, 30, 90, 10, 180, 250], [0, 255, 128, 255, 0, 0], [77, 77, 77, 40, 90, 20], [255, 254, 1, 128, 128, 3]];
/// the modes that mix channels: two of the six channels symbolic, the others from COLORS
pub fn h20_hsl(mode: usize, set: usize, _: usize, _: usize) {
    let mut c = COLORS[set];
    let k = pick(15);
    let (i, j) = if k < 9 { (k / 3, 3 + k % 3) } else if k < 12 { (k - 9, (k - 8) % 3) } else { (k - 9, 3 + (k - 11) % 3) };
    c[i] = s8();
    c[j] = s8();
    let (ba, sa, o) = [(255, 255, 255), (130, 201, 100)][pick(2)];
    let (b, s) = ([c[0], c[1], c[2], ba], [c[3], c[4], c[5], sa]);
    let Some(t) = render(mode as u16, b, s, o) else { return };
    ckeq(&t, &blend(mode as u16, b, s, o));
    reach(1);
}
/// two of backdrop, source, their alphas and the opacity symbolic, the others from a list
pub fn h20_pair(mode: usize, set: usize, _: usize, _: usize) {
    let c = COLORS[set];
    let (ba, sa, o) = [(255, 255, 255), (130, 201, 100), (255, 90, 255)][pick(3)];
    let (mut b, mut s, mut o) = ([c[0], c[1], c[2], ba], [c[3], c[4], c[5], sa], o);
    let ch = pick(3);
    let k = pick(10);
    let (i, j) = [(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)][k];
    for x in [i, j] {
        match x {
            0 => b[ch] = s8(),
            1 => s[ch] = s8(),
            2 => b[3] = s8(),
            3 => s[3] = s8(),
            _ => o = s8(),
        }
    }
    let Some(t) = render(mode as u16, b, s, o) else { return };
    ckeq(&t, &blend(mode as u16, b, s, o));
    reach(1);
}
/// alphas and opacity symbolic
pub fn h20_alpha(mode: usize, set: usize, _: usize, _: usize) {
    let c = COLORS[set];
    let (b, s, o) = ([c[0], c[1], c[2], s8()], [c[3], c[4], c[5], s8()], s8());
    let Some(t) = render(mode as u16, b, s, o) else { return };
    ckeq(&t, &blend(mode as u16, b, s, o));
    reach(1);
}
