use super::api::*;
use super::mk::*;
use aseprite_loader::loader::{AsepriteFile, LayerSelection};

struct L {
    flags: u16,
    ty: u16,
    level: u16,
    opacity: u8,
    /// position among the listed layers
    at: Option<usize>,
    /// own flag and the flags of all enclosing groups
    shown: bool,
}
/// n layers with well-formed levels; kinds: 1 normal, 2 or group, 3 or tilemap
fn layers(n: usize, kinds: usize, fixed: &[(u16, u16)]) -> Vec<L> {
    let mut v: Vec<L> = vec![];
    let mut count = 0;
    for i in 0..n {
        let flags = s16();
        let (ty, level) = if let Some(f) = fixed.get(i) {
            *f
        } else {
            let ty = if kinds > 1 { pick(kinds as u8) as u16 } else { 0 };
            let max = v.last().map_or(0, |p| p.level + (p.ty == 1) as u16);
            (ty, if max == 0 { 0 } else { pick(max as u8 + 1) as u16 })
        };
        // the enclosing groups: walking back, the first layer of every lower level
        let mut shown = flags & 1 != 0;
        let mut lv = level;
        for p in v.iter().rev() {
            if p.level < lv {
                shown = shown && p.flags & 1 != 0;
                lv = p.level;
            }
        }
        let at = if ty < 2 { Some(count) } else { None };
        count += (ty < 2) as usize;
        v.push(L { flags, ty, level, opacity: s8(), at, shown });
    }
    v
}
fn color(i: usize) -> [u8; 4] {
    [(i % 250) as u8 + 1, 100, (i / 250) as u8, 255]
}
/// every layer, groups included, has a cel of one opaque pixel in its own column
fn file(v: &[L]) -> Mk {
    let mut m = Mk::new(RGBA, v.len() as u16, 1);
    m.b[14] = 0; // layer opacities do not count
    m.frame(1);
    for (i, l) in v.iter().enumerate() {
        m.layer(l.flags, l.ty, l.level, 0, l.opacity, &[b'a' + (i % 26) as u8, b'0' + (i / 26) as u8]);
    }
    for i in 0..v.len() {
        m.raw_cel(i as u16, i as i16, 0, 255, 0, 1, 1, &color(i));
    }
    m.end_frame();
    m
}
fn check(a: &AsepriteFile<'_>, v: &[L], sel: &LayerSelection, drawn: impl Fn(&L) -> bool) {
    let mut t = vec![7u8; v.len() * 4];
    let r = a.render_frame(0, &mut t, sel);
    ck(r.is_ok());
    for (i, l) in v.iter().enumerate() {
        let d = l.ty == 0 && drawn(l);
        let p = &t[i * 4..i * 4 + 4];
        if d {
            ckeq(p, &color(i));
        } else {
            ckeq(p, &[7; 4]);
        }
    }
}
fn run(v: &[L], how: usize, masklen: usize) {
    let m = file(v);
    let a = match AsepriteFile::load(&m.b) {
        Ok(a) => a,
        Err(_) => return never(),
    };
    match how {
        0 => check(&a, v, &LayerSelection::Visible, |l| l.shown),
        1 => check(&a, v, &LayerSelection::All, |_| true),
        2 => {
            let mask: Vec<bool> = (0..masklen).map(|_| sbool()).collect();
            let sel = LayerSelection::Mask(mask.clone());
            check(&a, v, &sel, |l| l.at.map_or(false, |p| p < mask.len() && mask[p]));
        }
        _ => {
            // a predicate over what is known of a layer
            let limit = s8();
            let sel = a.select_layers(|l| l.name.as_bytes()[0] & 1 == 0 || l.visible && limit < 100);
            let want: Vec<bool> = v.iter().enumerate().filter(|(_, l)| l.ty < 2).map(|(i, l)| (b'a' + (i % 26) as u8) & 1 == 0 || l.shown && limit < 100).collect();
            match &sel {
                LayerSelection::Mask(x) => {
                    ck(x.len() == want.len());
                    for (p, q) in x.iter().zip(&want) {
                        ck(p == q);
                    }
                }
                _ => never(),
            }
            check(&a, v, &sel, |l| l.at.map_or(false, |p| want[p]));
        }
    }
    reach(1);
}
/// how: 0 visible, 1 all, 2 mask of every length up to n + 1, 3 predicate
pub fn h18_layers(n: usize, kinds: usize, how: usize, _: usize) {
    let v = layers(n, kinds, &[]);
    let k = if how == 2 { pick(n as u8 + 2) } else { 0 };
    run(&v, how, k);
}
/// group trees with symbolic flags
pub fn h18_tree(shape: usize, how: usize, _: usize, _: usize) {
    let s: Vec<(u16, u16)> = match shape {
        0 => vec![(1, 0), (1, 1), (1, 2), (0, 3), (0, 2), (0, 1), (0, 0)],
        1 => vec![(1, 0), (0, 1), (1, 0), (0, 1), (2, 1), (0, 0)],
        2 => vec![(1, 0), (1, 1), (1, 0), (0, 1)],
        3 => vec![(0, 0), (1, 0), (2, 1), (1, 1), (0, 2), (2, 0), (0, 0)],
        4 => vec![(1, 0), (1, 1), (0, 2), (1, 1), (0, 2), (0, 1), (1, 0), (0, 1)],
        _ => vec![(1, 0), (0, 1), (0, 1), (1, 1), (0, 2), (0, 2), (0, 1), (0, 0), (0, 0)],
    };
    let v = layers(s.len(), 3, &s);
    run(&v, how, 5);
}
/// a chain of n groups, one inside the other, with a layer at the bottom; then one at the top
pub fn h18_deep(n: usize, _: usize, _: usize, _: usize) {
    let hidden = pick(n as u8 + 1);
    let mut v: Vec<L> = (0..n + 2)
        .map(|i| {
            let (ty, level) = if i < n { (1, i as u16) } else { (0, if i == n { n as u16 } else { 0 }) };
            let flags = (i != hidden || hidden == n) as u16;
            L { flags, ty, level, opacity: 255, at: Some(i), shown: true }
        })
        .collect();
    v[n].shown = hidden == n;
    run(&v, 0, 0);
}
/// n layers, a long mask / many columns
pub fn h18_many(n: usize, masklen: usize, _: usize, _: usize) {
    let mut v = layers(0, 1, &[]);
    for i in 0..n {
        let flags = (i % 3 != 0) as u16;
        v.push(L { flags, ty: 0, level: 0, opacity: 255, at: Some(i), shown: flags != 0 });
    }
    let m = file(&v);
    let a = match AsepriteFile::load(&m.b) {
        Ok(a) => a,
        Err(_) => return never(),
    };
    check(&a, &v, &LayerSelection::Visible, |l| l.shown);
    let x = sbool();
    let mask: Vec<bool> = (0..masklen).map(|i| if i + 1 == masklen { x } else { i % 2 == 0 }).collect();
    let sel = LayerSelection::Mask(mask.clone());
    check(&a, &v, &sel, |l| l.at.map_or(false, |p| p < mask.len() && mask[p]));
    reach(1);
}
/// layers with names of symbolic letters, selected by a list of names
pub fn h18_names(n: usize, k: usize, _: usize, _: usize) {
    let mut m = Mk::new(RGBA, n as u16, 1);
    m.frame(1);
    let name = |len: usize| -> Vec<u8> {
        (0..len)
            .map(|_| {
                let c = s8();
                assume(c < 128);
                c
            })
            .collect()
    };
    let lens = [1, 2, 0, 1];
    let names: Vec<Vec<u8>> = (0..n).map(|i| name(lens[i % 4])).collect();
    let listed: Vec<Vec<u8>> = (0..k).map(|i| name([1, 2, 0][(i + pick(2)) % 3])).collect();
    for (i, s) in names.iter().enumerate() {
        m.layer(s8() as u16, (i == 3) as u16, 0, 0, 255, s);
    }
    m.end_frame();
    let a = match AsepriteFile::load(&m.b) {
        Ok(a) => a,
        Err(_) => return never(),
    };
    let refs: Vec<&str> = listed.iter().map(|s| std::str::from_utf8(s).unwrap()).collect();
    let sel = a.select_layers_by_name(&refs);
    let LayerSelection::Mask(x) = sel else { return never() };
    ck(x.len() == n);
    for (i, s) in names.iter().enumerate() {
        let mut want = false;
        for l in &listed {
            want |= same(l, s);
        }
        ck(x[i] == want);
    }
    reach(1);
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return false;
        }
    }
    true
}
