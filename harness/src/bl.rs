//! Aseprite's "new" blend functions for RGBA (doc/blend_funcs.cpp), the reference for rendering.
#![allow(dead_code)]
pub type P = [u8; 4];

/// a * b / 255, rounded
pub fn mul(a: i32, b: i32) -> i32 {
    let t = a * b + 0x80;
    ((t >> 8) + t) >> 8
}
fn div(a: i32, b: i32) -> i32 {
    (a * 255 + b / 2) / b
}
pub fn normal(b: P, s: P, opacity: u8) -> P {
    if b[3] == 0 {
        return [s[0], s[1], s[2], mul(s[3] as i32, opacity as i32) as u8];
    }
    if s[3] == 0 {
        return b;
    }
    let sa = mul(s[3] as i32, opacity as i32);
    let ra = sa + b[3] as i32 - mul(b[3] as i32, sa);
    let c = |i: usize| {
        let (b, s) = (b[i] as i32, s[i] as i32);
        (b + (s - b) * sa / ra) as u8
    };
    [c(0), c(1), c(2), ra as u8]
}
fn merge(b: P, s: P, opacity: i32) -> P {
    let mix = |b: u8, s: u8| (b as i32 + mul(s as i32 - b as i32, opacity)) as u8;
    let a = mix(b[3], s[3]);
    if a == 0 {
        return [0; 4];
    }
    if b[3] == 0 {
        [s[0], s[1], s[2], a]
    } else if s[3] == 0 {
        [b[0], b[1], b[2], a]
    } else {
        [mix(b[0], s[0]), mix(b[1], s[1]), mix(b[2], s[2]), a]
    }
}
fn hard_light(b: i32, s: i32) -> i32 {
    if s < 128 {
        mul(b, s << 1)
    } else {
        let s = (s << 1) - 255;
        b + s - mul(b, s)
    }
}
fn soft_light(b: i32, s: i32) -> i32 {
    let b = b as f64 / 255.0;
    let s = s as f64 / 255.0;
    let d = if b <= 0.25 { ((16.0 * b - 12.0) * b + 4.0) * b } else { b.sqrt() };
    let r = if s <= 0.5 { b - (1.0 - 2.0 * s) * b * (1.0 - b) } else { b + (2.0 * s - 1.0) * (d - b) };
    (r * 255.0 + 0.5) as u32 as i32
}
/// one channel of the separable modes
fn channel(mode: u16, b: i32, s: i32) -> i32 {
    match mode {
        1 => mul(b, s),
        2 => b + s - mul(b, s),
        3 => hard_light(s, b),
        4 => b.min(s),
        5 => b.max(s),
        6 => {
            let s = 255 - s;
            if b == 0 {
                0
            } else if b >= s {
                255
            } else {
                div(b, s)
            }
        }
        7 => {
            if b == 255 {
                255
            } else if 255 - b >= s {
                0
            } else {
                255 - div(255 - b, s)
            }
        }
        8 => hard_light(b, s),
        9 => soft_light(b, s),
        10 => (b - s).abs(),
        11 => b + s - 2 * mul(b, s),
        16 => (b + s).min(255),
        17 => (b - s).max(0),
        _ => {
            if b == 0 {
                0
            } else if b >= s {
                255
            } else {
                div(b, s)
            }
        }
    }
}
type C = [f64; 3];
fn lum(c: C) -> f64 {
    0.3 * c[0] + 0.59 * c[1] + 0.11 * c[2]
}
fn lo(a: f64, b: f64) -> f64 {
    if a < b { a } else { b }
}
fn hi(a: f64, b: f64) -> f64 {
    if a > b { a } else { b }
}
fn min3(c: C) -> f64 {
    lo(c[0], lo(c[1], c[2]))
}
fn max3(c: C) -> f64 {
    hi(c[0], hi(c[1], c[2]))
}
fn sat(c: C) -> f64 {
    max3(c) - min3(c)
}
fn set_lum(c: C, l: f64) -> C {
    let d = l - lum(c);
    let mut c = [c[0] + d, c[1] + d, c[2] + d];
    let l = lum(c);
    let (n, x) = (min3(c), max3(c));
    // the guards only matter for rounding errors (the original divides by zero there)
    if n < 0.0 && l > n {
        for v in c.iter_mut() {
            *v = l + (((*v - l) * l) / (l - n));
        }
    }
    if x > 1.0 && x > l {
        for v in c.iter_mut() {
            *v = l + (((*v - l) * (1.0 - l)) / (x - l));
        }
    }
    c
}
/// the original picks minimum, middle and maximum by these comparisons, ties included
fn set_sat(c: C, s: f64) -> C {
    let [r, g, b] = c;
    let min = if r < lo(g, b) { 0 } else if g < b { 1 } else { 2 };
    let max = if r > hi(g, b) { 0 } else if g > b { 1 } else { 2 };
    let mid = if r > g {
        if g > b { 1 } else if r > b { 2 } else { 0 }
    } else if g > b {
        if b > r { 2 } else { 0 }
    } else {
        1
    };
    let mut c = c;
    if c[max] > c[min] {
        c[mid] = ((c[mid] - c[min]) * s) / (c[max] - c[min]);
        c[max] = s;
    } else {
        c[mid] = 0.0;
        c[max] = 0.0;
    }
    c[min] = 0.0;
    c
}
fn float(p: P) -> C {
    [p[0] as f64 / 255.0, p[1] as f64 / 255.0, p[2] as f64 / 255.0]
}
/// the source as the mode changes it, before normal blending
fn source(mode: u16, b: P, s: P) -> P {
    if (12..16).contains(&mode) {
        let (fb, fs) = (float(b), float(s));
        let c = match mode {
            12 => set_lum(set_sat(fs, sat(fb)), lum(fb)),
            13 => set_lum(set_sat(fb, sat(fs)), lum(fb)),
            14 => set_lum(fs, lum(fb)),
            _ => set_lum(fb, lum(fs)),
        };
        return [(c[0] * 255.0) as u8, (c[1] * 255.0) as u8, (c[2] * 255.0) as u8, s[3]];
    }
    let c = |i: usize| channel(mode, b[i] as i32, s[i] as i32) as u8;
    [c(0), c(1), c(2), s[3]]
}
pub fn blend(mode: u16, b: P, s: P, opacity: u8) -> P {
    let n = normal(b, s, opacity);
    if mode == 0 || b[3] == 0 {
        return n;
    }
    let x = normal(b, source(mode, b, s), opacity);
    let m = merge(n, x, b[3] as i32);
    let total = mul(s[3] as i32, opacity as i32);
    merge(m, x, mul(b[3] as i32, total))
}
