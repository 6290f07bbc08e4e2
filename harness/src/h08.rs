use super::api::*;
use super::mk::*;
use super::rd::*;
use aseprite_loader::binary::chunk::Chunk;
use aseprite_loader::binary::chunks::user_data::{PropertiesMap, UserDataChunk, Value, Vector};
use aseprite_loader::binary::scalars::{Fixed, Point, Rect, Size};

fn fx(f: &Fixed, v: u32) -> bool {
    f.0 as u32 == v >> 16 && f.1 as u32 == v & 0xffff
}
/// smallest encoding of a value of this type
fn minsize(ty: u16) -> usize {
    match ty {
        0 => 3,
        1 | 2 | 3 => 1,
        4 | 5 | 0xd => 2,
        6 | 7 | 0xa | 0xb | 0x12 => 4,
        0x11 => 6,
        8 | 9 | 0xc | 0xe | 0xf => 8,
        _ => 16,
    }
}
fn code(r: &mut Rd<'_>) -> Option<u16> {
    let t = r.u16()?;
    if t > 0x13 {
        return None;
    }
    Some(conc(t as u64) as u16)
}
/// a count of things that take at least `min` bytes; one more than can fit ends in None anyway
fn many(r: &mut Rd<'_>, min: usize) -> Option<usize> {
    let n = r.u32()? as usize;
    let m = r.left() / min + 1;
    Some(conc(n.min(m) as u64) as usize)
}
fn point(r: &mut Rd<'_>, p: Option<&Point>) -> Option<()> {
    let (x, y) = (r.i32()?, r.i32()?);
    if let Some(p) = p {
        ck(p.x == x && p.y == y);
    }
    Some(())
}
fn size(r: &mut Rd<'_>, p: Option<&Size>) -> Option<()> {
    let (x, y) = (r.i32()?, r.i32()?);
    if let Some(p) = p {
        ck(p.width == x && p.height == y);
    }
    Some(())
}
fn rect(r: &mut Rd<'_>, p: Option<&Rect>) -> Option<()> {
    point(r, p.map(|p| &p.point))?;
    size(r, p.map(|p| &p.size))
}
macro_rules! scalar {
    ($r:expr, $v:expr, $var:ident, $w:expr, $ok:expr) => {{
        let w = $w;
        match $v {
            None => {}
            Some(Value::$var(x)) => ck($ok(x, w)),
            _ => never(),
        }
        Some(())
    }};
}
/// decode a value of type `ty`; compare it with `v`
fn value(r: &mut Rd<'_>, ty: u16, v: Option<&Value<'_>>) -> Option<()> {
    match ty {
        1 => scalar!(r, v, Bool, r.u8()?, |x: &bool, w: u8| *x == (w != 0)),
        2 => scalar!(r, v, Int8, r.u8()?, |x: &i8, w: u8| *x as u8 == w),
        3 => scalar!(r, v, Uint8, r.u8()?, |x: &u8, w: u8| *x == w),
        4 => scalar!(r, v, Int16, r.i16()?, |x: &i16, w: i16| *x == w),
        5 => scalar!(r, v, Uint16, r.u16()?, |x: &u16, w: u16| *x == w),
        6 => scalar!(r, v, Int32, r.i32()?, |x: &i32, w: i32| *x == w),
        7 => scalar!(r, v, Uint32, r.u32()?, |x: &u32, w: u32| *x == w),
        8 => scalar!(r, v, Int64, r.u64()?, |x: &i64, w: u64| *x as u64 == w),
        9 => scalar!(r, v, Uint64, r.u64()?, |x: &u64, w: u64| *x == w),
        0xa => scalar!(r, v, Fixed, r.u32()?, |x: &Fixed, w: u32| fx(x, w)),
        0xb => scalar!(r, v, Float, r.u32()?, |x: &f32, w: u32| x.to_bits() == w),
        0xc => scalar!(r, v, Double, r.u64()?, |x: &f64, w: u64| x.to_bits() == w),
        0xd => {
            let s = r.string()?;
            match v {
                None => {}
                Some(Value::String(x)) => ckeq(x.as_bytes(), s),
                _ => never(),
            }
            Some(())
        }
        0xe => match v {
            None => point(r, None),
            Some(Value::Point(p)) => point(r, Some(p)),
            _ => Some(never()),
        },
        0xf => match v {
            None => size(r, None),
            Some(Value::Size(p)) => size(r, Some(p)),
            _ => Some(never()),
        },
        0x10 => match v {
            None => rect(r, None),
            Some(Value::Rect(p)) => rect(r, Some(p)),
            _ => Some(never()),
        },
        0x11 => match v {
            None => vector(r, None),
            Some(Value::Vector(p)) => vector(r, Some(p)),
            _ => Some(never()),
        },
        0x12 => match v {
            None => props(r, None),
            Some(Value::PropertiesMap(p)) => {
                ck(p.extension_entry_id == 0);
                props(r, Some(p))
            }
            _ => Some(never()),
        },
        0x13 => {
            let s = r.take(16)?;
            match v {
                None => {}
                Some(Value::Uuid(x)) => ckeq(&x.to_le_bytes(), s),
                _ => never(),
            }
            Some(())
        }
        _ => None,
    }
}
macro_rules! elems {
    ($r:expr, $v:expr, $n:expr, $var:ident, $read:expr, $ok:expr) => {{
        let xs = match $v {
            None => None,
            Some(Vector::$var(x)) => {
                ck(x.len() == $n);
                Some(x)
            }
            _ => return Some(never()),
        };
        for i in 0..$n {
            let w = $read;
            if let Some(x) = xs {
                if i < x.len() {
                    ck($ok(&x[i], w));
                }
            }
        }
    }};
}
macro_rules! nested {
    ($r:expr, $v:expr, $n:expr, $var:ident, $f:expr) => {{
        let xs = match $v {
            None => None,
            Some(Vector::$var(x)) => {
                ck(x.len() == $n);
                Some(x)
            }
            _ => return Some(never()),
        };
        for i in 0..$n {
            $f($r, xs.and_then(|x| x.get(i)))?;
        }
    }};
}
fn vector(r: &mut Rd<'_>, v: Option<&Vector<'_>>) -> Option<()> {
    let n = r.u32()? as usize;
    let ty = code(r)?;
    let m = r.left() / minsize(ty) + 1;
    let n = conc(n.min(m) as u64) as usize;
    match ty {
        0 => nested!(r, v, n, Mixed, |r: &mut Rd<'_>, v: Option<&Value<'_>>| {
            let ty = code(r)?;
            value(r, ty, v)
        }),
        1 => elems!(r, v, n, Bool, r.u8()?, |x: &bool, w: u8| *x == (w != 0)),
        2 => elems!(r, v, n, Int8, r.u8()?, |x: &i8, w: u8| *x as u8 == w),
        3 => elems!(r, v, n, Uint8, r.u8()?, |x: &u8, w: u8| *x == w),
        4 => elems!(r, v, n, Int16, r.i16()?, |x: &i16, w: i16| *x == w),
        5 => elems!(r, v, n, Uint16, r.u16()?, |x: &u16, w: u16| *x == w),
        6 => elems!(r, v, n, Int32, r.i32()?, |x: &i32, w: i32| *x == w),
        7 => elems!(r, v, n, Uint32, r.u32()?, |x: &u32, w: u32| *x == w),
        8 => elems!(r, v, n, Int64, r.u64()?, |x: &i64, w: u64| *x as u64 == w),
        9 => elems!(r, v, n, Uint64, r.u64()?, |x: &u64, w: u64| *x == w),
        0xa => elems!(r, v, n, Fixed, r.u32()?, |x: &Fixed, w: u32| fx(x, w)),
        0xb => elems!(r, v, n, Float, r.u32()?, |x: &f32, w: u32| x.to_bits() == w),
        0xc => elems!(r, v, n, Double, r.u64()?, |x: &f64, w: u64| x.to_bits() == w),
        0xd => nested!(r, v, n, String, |r: &mut Rd<'_>, v: Option<&&str>| {
            let s = r.string()?;
            if let Some(x) = v {
                ckeq(x.as_bytes(), s);
            }
            Some(())
        }),
        0xe => nested!(r, v, n, Point, point),
        0xf => nested!(r, v, n, Size, size),
        0x10 => nested!(r, v, n, Rect, rect),
        0x11 => nested!(r, v, n, Vector, vector),
        0x12 => nested!(r, v, n, PropertiesMap, |r: &mut Rd<'_>, v: Option<&PropertiesMap<'_>>| {
            if let Some(m) = v {
                ck(m.extension_entry_id == 0);
            }
            props(r, v)
        }),
        _ => nested!(r, v, n, Uuid, |r: &mut Rd<'_>, v: Option<&u128>| {
            let s = r.take(16)?;
            if let Some(x) = v {
                ckeq(&x.to_le_bytes(), s);
            }
            Some(())
        }),
    }
    Some(())
}
fn props(r: &mut Rd<'_>, m: Option<&PropertiesMap<'_>>) -> Option<()> {
    let n = many(r, 5)?;
    if let Some(m) = m {
        ck(m.properties.len() == n);
    }
    for i in 0..n {
        let name = r.string()?;
        let ty = code(r)?;
        let p = m.and_then(|m| m.properties.get(i));
        if let Some(p) = p {
            ckeq(p.name.as_bytes(), name);
        }
        value(r, ty, p.map(|p| &p.value))?;
    }
    Some(())
}
fn maps(r: &mut Rd<'_>, n: usize, v: Option<&[PropertiesMap<'_>]>) -> Option<()> {
    for i in 0..n {
        let id = r.u32()?;
        let m = v.and_then(|v| v.get(i));
        if let Some(m) = m {
            ck(m.extension_entry_id == id);
        }
        props(r, m)?;
    }
    Some(())
}
enum P<'a> {
    None,
    /// declared size below 8
    Small,
    Maps(usize, Option<()>, &'a [u8]),
}
fn refud(b: &[u8]) -> Option<(u32, Option<&[u8]>, Option<&[u8]>, P<'_>)> {
    let mut r = Rd::new(b);
    let f = r.u32()?;
    let text = if f & 1 != 0 { Some(r.string()?) } else { None };
    let col = if f & 2 != 0 { Some(r.take(4)?) } else { None };
    let p = if f & 4 != 0 {
        let size = r.u32()? as usize;
        let n = r.u32()? as usize;
        if size < 8 {
            P::Small
        } else {
            let body = r.blob(size - 8)?;
            let mut q = Rd::new(body);
            let m = q.left() / 8 + 1;
            let n = conc(n.min(m) as u64) as usize;
            P::Maps(n, maps(&mut q, n, None), body)
        }
    } else {
        P::None
    };
    Some((f, text, col, p))
}
fn same(u: &UserDataChunk<'_>, text: Option<&[u8]>, col: Option<&[u8]>, p: &P<'_>) {
    if ckopt(&u.text, text.is_some()) {
        ckeq(u.text.unwrap().as_bytes(), text.unwrap());
    }
    if ckopt(&u.color, col.is_some()) {
        let c = u.color.unwrap();
        ckeq(&[c.red, c.green, c.blue, c.alpha], col.unwrap());
    }
    match (p, &u.properties_maps) {
        (P::None, None) => reach(10),
        (P::Small, Some(Err(_))) => reach(11),
        (P::Maps(_, None, _), Some(Err(_))) => reach(12),
        (P::Maps(n, Some(_), body), Some(Ok((_, v)))) => {
            ck(v.len() == *n);
            maps(&mut Rd::new(body), *n, Some(v));
            reach(13);
        }
        _ => never(),
    }
}
fn run(p: &[u8]) {
    let b = wrap(UDATA, p);
    let w = refud(p);
    match (chunk(&b), w) {
        (Some(Chunk::UserData(u)), Some((_, text, col, p))) => {
            same(&u, text, col, &p);
            reach(1);
        }
        (None, None) => reach(2),
        // a size that cannot be right may also invalidate the record
        (None, Some((_, _, _, P::Small))) => reach(3),
        // a size reaching past the end of the record: the text and colour may still be given
        (Some(Chunk::UserData(u)), None) => ck(matches!(u.properties_maps, Some(Err(_)))),
        _ => never(),
    }
}
/// n symbolic payload bytes
pub fn h08_any(n: usize, free: usize, _: usize, _: usize) {
    limit(free);
    run(&symv(n));
}
fn head(m: &mut Mk, flags: u32) {
    m.u32(flags);
    if flags & 1 != 0 {
        m.st(b"ab");
    }
    if flags & 2 != 0 {
        m.by(&[1, 2, 3, 4]);
    }
}
/// one map, one property `p` of n symbolic bytes (type, value, and what follows)
pub fn h08_value(n: usize, free: usize, flags: usize, _: usize) {
    limit(free);
    let mut m = Mk::raw();
    head(&mut m, flags as u32);
    m.u32(8 + 8 + 3 + n as u32).u32(1).u32(s32()).u32(1).st(b"p").by(&symv(n));
    run(&m.b);
}
/// one property of a given type with symbolic contents of n bytes
pub fn h08_type(ty: usize, n: usize, extra: usize, _: usize) {
    let mut m = Mk::raw();
    head(&mut m, 7);
    m.u32(8 + 8 + 3 + 2 + n as u32).u32(1).u32(7).u32(1).st(b"p").u16(ty as u16).by(&symv(n)).by(&symv(extra));
    run(&m.b);
}
/// a homogeneous vector: symbolic count, element type ty, n symbolic bytes
pub fn h08_vec(ty: usize, n: usize, cnt: usize, _: usize) {
    let mut m = Mk::raw();
    head(&mut m, 4);
    m.u32(8 + 8 + 3 + 2 + 6 + n as u32).u32(1).u32(7).u32(1).st(b"p").u16(0x11);
    m.u32(if cnt == 0 { s32() } else { cnt as u32 }).u16(ty as u16).by(&symv(n));
    run(&m.b);
}
/// two maps with several properties and every scalar type once; symbolic ids, values, block size and counts
pub fn h08_big(sel: usize, cut: usize, _: usize, _: usize) {
    let mut m = Mk::raw();
    let mut b = Mk::raw();
    b.u32(s32()).u32(7);
    for ty in [1u16, 2, 4, 6, 8, 0xa, 0xd] {
        b.st(&[b'a' + ty as u8]).u16(ty);
        if ty == 0xd {
            b.st(b"text");
        } else {
            b.by(&symv(minsize(ty)));
        }
    }
    b.u32(s32()).u32(12);
    for ty in [3u16, 5, 7, 9, 0xb, 0xc, 0xe, 0xf, 0x10, 0x13] {
        b.st(&[b'a' + ty as u8]).u16(ty).by(&symv(minsize(ty)));
    }
    // a vector of maps, and a map with a mixed vector
    b.st(b"v").u16(0x11).u32(2).u16(0x12);
    b.u32(1).st(b"x").u16(6).u32(s32());
    b.u32(0);
    b.st(b"m").u16(0x12).u32(2).st(b"y").u16(0x11).u32(3).u16(0).u16(2).u8(s8()).u16(0xd).st(b"zz").u16(0x11).u32(1).u16(0x11).u32(2).u16(4).u16(s16()).u16(s16());
    b.st(b"w").u16(0x13).by(&sym::<16>());
    let n = b.b.len() as u32;
    head(&mut m, 7);
    match sel {
        0 => m.u32(8 + n).u32(2),
        // any size
        1 => m.u32(s32()).u32(2),
        // any number of maps
        _ => m.u32(8 + n).u32(s32()),
    };
    m.by(&b.b[..b.b.len() - cut]).z(if sel == 1 { 5 } else { 0 });
    run(&m.b);
}
/// many properties with long names
pub fn h08_long(n: usize, len: usize, _: usize, _: usize) {
    let mut m = Mk::raw();
    let name = vec![b'k'; len];
    let mut b = Mk::raw();
    b.u32(s32()).u32(n as u32);
    for i in 0..n {
        b.st(&name).u16(6).u32(if i % 50 == 0 { s32() } else { i as u32 });
    }
    m.u32(4).u32(8 + b.b.len() as u32).u32(1).by(&b.b);
    run(&m.b);
}
/// text and colour: n letters around three symbolic bytes
pub fn h08_text(n: usize, cut: usize, _: usize, _: usize) {
    limit(n + 3);
    let mut t = vec![b't'; n + 3];
    fill(&mut t[n / 2..n / 2 + 3]);
    let mut m = Mk::raw();
    m.u32(s32() | 1).st(&t).by(&sym::<4>());
    let l = m.b.len() - cut;
    run(&m.b[..l]);
}
