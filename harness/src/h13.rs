use super::api::*;
use super::mk::*;
use aseprite_loader::binary::chunks::user_data::UserDataChunk;
use aseprite_loader::binary::file::parse_file;

/// text of the user data: its position in the file
fn has(u: &Option<UserDataChunk<'_>>, want: Option<u8>) {
    match (u, want) {
        (Some(u), Some(w)) => {
            if ckopt(&u.text, true) {
                ckeq(u.text.unwrap().as_bytes(), &[w]);
            }
        }
        (None, None) => {}
        _ => never(),
    }
}
/// where the next user data record belongs
#[derive(Clone, Copy, PartialEq)]
enum To {
    Nowhere,
    Layer(usize),
    Cel(usize),
    Slice(usize),
    Tag(usize, usize),
    Sprite,
    /// not settled by the format: do not use
    Skip,
}
struct W {
    at: To,
    layers: Vec<Option<u8>>,
    cels: Vec<(usize, usize, Option<u8>)>,
    slices: Vec<Option<u8>>,
    tags: Vec<Option<u8>>,
    sprite: Option<u8>,
    frame: usize,
}
const KINDS: u8 = 16;
fn rec(m: &mut Mk, w: &mut W, kind: usize, pos: usize) {
    match kind {
        0 => {
            let t = b'!' + (pos % 89) as u8;
            match w.at {
                To::Nowhere => {}
                To::Layer(i) => w.layers[i] = Some(t),
                To::Cel(i) => w.cels[i].2 = Some(t),
                To::Slice(i) => w.slices[i] = Some(t),
                To::Tag(i, _) => w.tags[i] = Some(t),
                To::Sprite => {
                    // which one of two counts is not settled
                    assume(w.sprite.is_none());
                    w.sprite = Some(t)
                }
                To::Skip => assume(false),
            }
            w.at = match w.at {
                To::Tag(i, n) if i + 1 < n => To::Tag(i + 1, n),
                _ => To::Nowhere,
            };
            m.udata(t);
            return;
        }
        1 => {
            m.layer(1, 0, 0, 0, 255, b"n");
            w.layers.push(None);
            w.at = To::Layer(w.layers.len() - 1);
        }
        2 => {
            // every cel on a layer of its own
            m.raw_cel(pos as u16, 0, 0, 255, 0, 1, 1, &[1, 2, 3, 4]);
            w.cels.push((w.frame, pos, None));
            w.at = To::Cel(w.cels.len() - 1);
        }
        3 => {
            m.chunk(SLICE).u32(0).u32(0).u32(0).st(b"s").end();
            w.slices.push(None);
            w.at = To::Slice(w.slices.len() - 1);
        }
        4 | 5 | 6 => {
            let n = [2, 3, 0][kind - 4];
            m.chunk(TAGS).u16(n as u16).z(8);
            for _ in 0..n {
                m.u16(0).u16(0).u8(0).u16(0).z(6).z(4).st(b"t");
                w.tags.push(None);
            }
            m.end();
            w.at = if n == 0 { To::Nowhere } else { To::Tag(w.tags.len() - n, w.tags.len()) };
        }
        7 => {
            m.palette(0, &[[1, 2, 3, 4]]);
            w.at = if w.frame == 0 { To::Sprite } else { To::Nowhere };
        }
        8 => {
            m.chunk(OLD04).u16(0).end();
            w.at = if w.frame == 0 { To::Sprite } else { To::Nowhere };
        }
        9 => {
            m.end_frame().frame(1);
            w.frame += 1;
            w.at = To::Nowhere;
        }
        10 => {
            m.chunk(CELX).z(20).end();
            w.at = if matches!(w.at, To::Cel(_)) { To::Skip } else { To::Nowhere };
        }
        11 => {
            m.chunk(PROFILE).z(16).end();
            w.at = To::Nowhere;
        }
        12 => {
            m.chunk(MASK).z(18).end();
            w.at = To::Nowhere;
        }
        13 => {
            m.chunk(0x2fff).z(3).end();
            w.at = To::Nowhere;
        }
        14 => {
            m.chunk(EXTFILES).z(12).end();
            w.at = To::Nowhere;
        }
        _ => {
            m.chunk(TILESET).z(34).end();
            w.at = To::Nowhere;
        }
    }
}
fn finish(m: &mut Mk, w: &W) {
    m.end_frame();
    let f = match parse_file(&m.b) {
        Ok(f) => f,
        Err(_) => return never(),
    };
    ck(f.layers.len() == w.layers.len());
    for (l, w) in f.layers.iter().zip(&w.layers) {
        has(&l.user_data, *w);
    }
    ck(f.slices.len() == w.slices.len());
    for (l, w) in f.slices.iter().zip(&w.slices) {
        has(&l.user_data, *w);
    }
    ck(f.tags.len() == w.tags.len());
    for (l, w) in f.tags.iter().zip(&w.tags) {
        has(&l.user_data, *w);
    }
    for (fr, layer, u) in &w.cels {
        match &f.frames[*fr].cels[*layer] {
            Some(c) => has(&c.user_data, *u),
            None => never(),
        }
    }
    has(&f.user_data, w.sprite);
    reach(1);
}
fn start(n: usize) -> (Mk, W) {
    let mut m = Mk::new(RGBA, 1, 1);
    m.frame(1);
    let w = W { at: To::Nowhere, layers: vec![None; n + 1], cels: vec![], slices: vec![], tags: vec![], sprite: None, frame: 0 };
    for _ in 0..n + 1 {
        m.simple_layer();
    }
    // the last of these must not get what follows
    m.chunk(PATH).end();
    (m, w)
}
/// every sequence of n records of 16 kinds
pub fn h13_seq(n: usize, kinds: usize, _: usize, _: usize) {
    let (mut m, mut w) = start(n);
    for i in 0..n {
        let k = pick(if kinds == 0 { KINDS } else { kinds as u8 });
        rec(&mut m, &mut w, k, i);
    }
    finish(&mut m, &w);
}
/// records that take user data, each followed by 0..=3 user data records
pub fn h13_pairs(n: usize, _: usize, _: usize, _: usize) {
    let (mut m, mut w) = start(5 * n);
    let mut p = 0;
    for _ in 0..n {
        let k = 1 + pick(9);
        rec(&mut m, &mut w, k, p);
        p += 1;
        for _ in 0..pick(5) {
            rec(&mut m, &mut w, 0, p);
            p += 1;
        }
    }
    finish(&mut m, &w);
}
/// which records accept user data is independent of its contents: symbolic flags, text and colour
pub fn h13_content(kind: usize, _: usize, _: usize, _: usize) {
    let (mut m, mut w) = start(1);
    rec(&mut m, &mut w, kind, 0);
    let (fl, c) = (s32(), sym::<4>());
    assume(fl & 4 == 0);
    m.chunk(UDATA).u32(fl);
    if fl & 1 != 0 {
        m.st(b"Q");
    }
    if fl & 2 != 0 {
        m.by(&c);
    }
    m.end();
    m.end_frame();
    let f = match parse_file(&m.b) {
        Ok(f) => f,
        Err(_) => return never(),
    };
    let u = match w.at {
        To::Layer(i) => &f.layers[i].user_data,
        To::Cel(_) => &f.frames[0].cels[0].as_ref().unwrap().user_data,
        To::Slice(i) => &f.slices[i].user_data,
        To::Tag(i, _) => &f.tags[i].user_data,
        To::Sprite => &f.user_data,
        _ => &None,
    };
    ck(u.is_some());
    if let Some(u) = u {
        if ckopt(&u.text, fl & 1 != 0) {
            ckeq(u.text.unwrap().as_bytes(), b"Q");
        }
        if ckopt(&u.color, fl & 2 != 0) {
            let x = u.color.unwrap();
            ckeq(&[x.red, x.green, x.blue, x.alpha], &c);
        }
        ck(u.properties_maps.is_none());
    }
    reach(1);
}
/// n records that take user data of one kind, and how many of them, or which one of them, has none
pub fn h13_many(n: usize, kind: usize, _: usize, _: usize) {
    let (mut m, mut w) = start(if kind == 2 { n } else { 1 });
    if kind == 0 {
        // one tags record with n tags, then up to n + 2 user data records
        m.chunk(TAGS).u16(n as u16).z(8);
        for _ in 0..n {
            m.u16(0).u16(0).u8(0).u16(0).z(6).z(4).st(b"t");
            w.tags.push(None);
        }
        m.end();
        w.at = To::Tag(0, n);
        let k = if n <= 40 { pick(n as u8 + 3) } else { [0, 1, n / 2, n - 1, n, n + 1][pick(6)] };
        for i in 0..k {
            rec(&mut m, &mut w, 0, i);
        }
    } else {
        let skip = if n <= 40 { pick(n as u8) } else { [0, 1, n / 2, n - 2, n - 1][pick(5)] };
        for i in 0..n {
            rec(&mut m, &mut w, kind, i);
            if i != skip {
                rec(&mut m, &mut w, 0, i);
            }
            if kind == 2 && i % 7 == 3 {
                rec(&mut m, &mut w, 9, i);
            }
        }
    }
    finish(&mut m, &w);
}
