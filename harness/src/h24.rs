use super::api::*;
use super::mk::*;
use aseprite_loader::binary::chunk::Chunk;
use aseprite_loader::binary::chunks::user_data::{parse_property, parse_value, parse_vector, PropertiesMap, UserDataChunk, Value, Vector};
use aseprite_loader::loader::AsepriteFile;

/// One step of nesting. Inside a vector: 0 a vector, 1 a vector in a mixed vector, 2 a map, 3 a map in a
/// mixed vector. Inside a map: even a vector, odd a map.
fn step(m: &mut Mk, in_map: bool, s: usize, n: u32) -> bool {
    if in_map {
        let map = s & 1 == 1;
        m.u32(n).u16(1).u8(b'p').u16(if map { 0x12 } else { 0x11 });
        map
    } else {
        m.u32(n);
        match s & 3 {
            0 => m.u16(0x11),
            1 => m.u16(0).u16(0x11),
            2 => m.u16(0x12),
            _ => m.u16(0).u16(0x12),
        };
        s & 2 != 0
    }
}
/// the steps: a pattern, or a symbolic pattern of the given period
fn steps(kind: usize, levels: usize) -> Vec<usize> {
    let mut p = vec![];
    if kind < 10 {
        p.push(kind);
    } else if kind < 20 {
        for _ in 0..kind - 10 {
            p.push(pick(4));
        }
    } else {
        // all transitions
        p.extend_from_slice(&[0, 1, 3, 0, 2, 1, 1, 0, 0, 2, 0, 3, 1]);
    }
    (0..levels).map(|i| p[i % p.len()]).collect()
}
/// user data with text and a properties block with one map
fn chunk(content: &[u8]) -> Mk {
    let mut m = Mk::raw();
    m.u32(7).st(b"t").by(&[1, 2, 3, 4]);
    m.u32(12 + content.len() as u32).u32(1).u32(5).by(content);
    m
}
fn user_data(b: &[u8]) -> Option<UserDataChunk<'_>> {
    match super::rd::chunk(b) {
        Some(Chunk::UserData(u)) => {
            ck(match u.text {
                Some(t) => t.as_bytes() == b"t",
                None => false,
            });
            ck(match &u.color {
                Some(c) => c.red == 1 && c.green == 2 && c.blue == 3 && c.alpha == 4,
                None => false,
            });
            Some(u)
        }
        _ => {
            never();
            None
        }
    }
}
enum At<'a, 'b> {
    V(&'b Vector<'a>),
    M(&'b PropertiesMap<'a>),
}
fn prop<'a, 'b>(p: &'b PropertiesMap<'a>) -> Option<&'b Value<'a>> {
    if p.properties.len() != 1 || p.properties[0].name != "p" {
        return None;
    }
    Some(&p.properties[0].value)
}
fn down<'a, 'b>(at: At<'a, 'b>, s: usize) -> Option<At<'a, 'b>> {
    let v = match at {
        At::M(p) => prop(p)?,
        At::V(v) => match (v, s & 3) {
            (Vector::Vector(x), 0) if x.len() == 1 => return Some(At::V(&x[0])),
            (Vector::PropertiesMap(x), 2) if x.len() == 1 => return Some(At::M(&x[0])),
            (Vector::Mixed(x), 1 | 3) if x.len() == 1 => &x[0],
            _ => return None,
        },
    };
    match v {
        Value::Vector(x) => Some(At::V(x)),
        Value::PropertiesMap(x) if x.extension_entry_id == 0 => Some(At::M(x)),
        _ => None,
    }
}
/// nesting of `levels` with a number of any value inside decodes if levels <= 32, and anyway is decoded
/// rightly or rejected
pub fn h24_levels(levels: usize, kind: usize, _: usize, _: usize) {
    let s = steps(kind, levels);
    let leaf = s32();
    let mut m = Mk::raw();
    let mut in_map = true;
    for k in &s {
        in_map = step(&mut m, in_map, *k, 1);
    }
    // the innermost vector or map holds a number
    m.u32(1);
    if in_map {
        m.u16(1).u8(b'p');
    }
    m.u16(7).u32(leaf);
    let c = chunk(&m.b);
    let w = super::rd::wrap(0x2020, &c.b);
    let Some(u) = user_data(&w) else { return };
    match u.properties_maps {
        Some(Ok((_, maps))) => {
            ck(maps.len() == 1);
            let mut at = At::M(&maps[0]);
            ck(maps[0].extension_entry_id == 5);
            for k in &s {
                match down(at, *k) {
                    Some(x) => at = x,
                    None => return never(),
                }
            }
            match at {
                At::M(p) => match prop(p) {
                    Some(Value::Uint32(x)) => ck(*x == leaf),
                    _ => never(),
                },
                At::V(Vector::Uint32(x)) => ck(x.len() == 1 && x[0] == leaf),
                _ => never(),
            }
            reach(1);
        }
        Some(Err(_)) => {
            ck(levels > 32);
            reach(2);
        }
        None => never(),
    }
}
/// very deep nesting, complete or cut off, through every entry point; call depth is limited by the check
pub fn h24_deep(levels: usize, kind: usize, via: usize, cut: usize) {
    let s = steps(kind, levels);
    let mut m = Mk::raw();
    let mut in_map = via < 2;
    let n = if cut == 2 { 2 } else { 1 };
    for k in &s {
        in_map = step(&mut m, in_map, *k, n);
    }
    if cut == 0 {
        // an empty map or vector of bytes inside
        m.u32(0);
        if !in_map {
            m.u16(3);
        }
    }
    match via {
        0 => {
            let c = chunk(&m.b);
            let w = super::rd::wrap(0x2020, &c.b);
    if let Some(u) = user_data(&w) {
                ck(u.properties_maps.is_some());
                reach(1);
            }
        }
        1 => {
            let c = chunk(&m.b);
            let mut f = Mk::new(RGBA, 1, 1);
            f.frame(1).simple_layer().chunk(UDATA).by(&c.b).end().end_frame();
            match AsepriteFile::load(&f.b) {
                Ok(a) => {
                    ck(a.file.layers[0].user_data.is_some());
                    reach(1);
                }
                Err(_) => never(),
            }
        }
        2 => {
            let _ = parse_vector(&m.b);
            reach(1);
        }
        3 => {
            let mut v = vec![0x11, 0];
            v.extend_from_slice(&m.b);
            let _ = parse_value(&v);
            reach(1);
        }
        _ => {
            let mut v = vec![1, 0, b'p', 0x11, 0];
            v.extend_from_slice(&m.b);
            let _ = parse_property(&v);
            reach(1);
        }
    }
}
/// any bytes below a number of levels
pub fn h24_any(levels: usize, kind: usize, n: usize, _: usize) {
    let s = steps(kind, levels);
    let mut m = Mk::raw();
    let mut in_map = true;
    for k in &s {
        in_map = step(&mut m, in_map, *k, 1);
    }
    m.by(&symv(n));
    let c = chunk(&m.b);
    let w = super::rd::wrap(0x2020, &c.b);
    if let Some(u) = user_data(&w) {
        reach(match u.properties_maps {
            Some(Ok(_)) => 1,
            _ => 2,
        });
    }
}
