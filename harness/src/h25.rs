use super::api::*;
use super::mk::*;
use aseprite_loader::binary::chunks::cel::CelContent;
use aseprite_loader::binary::chunks::user_data::{PropertiesMap, UserDataChunk, Value, Vector};
use aseprite_loader::binary::file::{parse_file, File};
use aseprite_loader::binary::scalars::{Point, Rect, Size};
use aseprite_loader::loader::{AsepriteFile, LayerSelection};

/// everything a file means, as bytes
struct Dg(Vec<u8>);
impl Dg {
    fn n(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn s(&mut self, v: &[u8]) {
        self.n(v.len() as u64);
        self.0.extend_from_slice(v);
    }
    fn point(&mut self, p: &Point) {
        self.n(p.x as u64);
        self.n(p.y as u64);
    }
    fn size(&mut self, p: &Size) {
        self.n(p.width as u64);
        self.n(p.height as u64);
    }
    fn rect(&mut self, r: &Rect) {
        self.point(&r.point);
        self.size(&r.size);
    }
    fn many<T>(&mut self, v: &[T], f: impl Fn(&mut Dg, &T)) {
        self.n(v.len() as u64);
        for x in v {
            f(self, x);
        }
    }
    fn map(&mut self, m: &PropertiesMap<'_>) {
        self.n(m.extension_entry_id as u64);
        self.many(&m.properties, |d, p| {
            d.s(p.name.as_bytes());
            d.value(&p.value);
        });
    }
    fn value(&mut self, v: &Value<'_>) {
        match v {
            Value::Bool(x) => self.n(*x as u64),
            Value::Int8(x) => self.n(*x as u64),
            Value::Uint8(x) => self.n(*x as u64),
            Value::Int32(x) => self.n(*x as u64),
            Value::Double(x) => self.n(x.to_bits()),
            Value::String(x) => self.s(x.as_bytes()),
            Value::Vector(x) => self.vector(x),
            Value::PropertiesMap(x) => self.map(x),
            Value::Uuid(x) => self.s(&x.to_le_bytes()),
            _ => self.n(0xdead),
        }
    }
    fn vector(&mut self, v: &Vector<'_>) {
        match v {
            Vector::Mixed(x) => self.many(x, |d, x| d.value(x)),
            Vector::Point(x) => self.many(x, |d, x| d.point(x)),
            Vector::Rect(x) => self.many(x, |d, x| d.rect(x)),
            _ => self.n(0xbeef),
        }
    }
    fn udata(&mut self, u: &Option<UserDataChunk<'_>>) {
        let Some(u) = u else { return self.n(7) };
        self.s(u.text.unwrap_or("none").as_bytes());
        if let Some(c) = &u.color {
            self.s(&[c.red, c.green, c.blue, c.alpha]);
        }
        match &u.properties_maps {
            None => self.n(1),
            Some(Err(_)) => self.n(2),
            Some(Ok((rest, m))) => {
                self.n(rest.len() as u64);
                self.many(m, |d, m| d.map(m));
            }
        }
    }
    #[allow(deprecated)]
    fn file(&mut self, f: &File<'_>) {
        if let Some(p) = &f.palette {
            for c in &p.colors {
                self.0.extend_from_slice(&[c.red, c.green, c.blue, c.alpha]);
            }
        }
        self.many(&f.layers, |d, l| {
            d.n(l.flags.bits() as u64);
            d.n(l.child_level as u64);
            d.s(&[l.opacity]);
            d.s(l.name.as_bytes());
            d.n(l.tileset_index.map_or(u64::MAX, |x| x as u64));
            d.udata(&l.user_data);
        });
        self.many(&f.frames, |d, f| {
            d.n(f.duration as u64);
            d.many(&f.cels, |d, c| {
                let Some(c) = c else { return d.n(0) };
                d.n(c.layer_index as u64);
                d.n(c.x as u64);
                d.n(c.y as u64);
                d.n(c.z_index as u64);
                d.s(&[c.opacity]);
                match &c.content {
                    CelContent::Image(i) => {
                        d.n(i.width as u64);
                        d.n(i.height as u64);
                        d.n(i.compressed as u64);
                        d.s(i.data);
                    }
                    CelContent::LinkedCel { frame_position } => d.n(*frame_position as u64),
                    _ => never(),
                }
                d.udata(&c.user_data);
            });
        });
        self.many(&f.tags, |d, t| {
            d.n(*t.frames.start() as u64);
            d.n(*t.frames.end() as u64);
            d.n(t.animation_repeat as u64);
            d.s(t.name.as_bytes());
            d.udata(&t.user_data);
        });
        self.many(&f.slices, |d, s| {
            d.s(s.name.as_bytes());
            d.n(s.flags.bits() as u64);
            d.many(&s.slice_keys, |d, k| {
                d.n(k.frame_number as u64);
                d.n(k.x as u64);
                d.n(k.y as u64);
                d.n(k.width as u64);
                d.n(k.height as u64);
                if let Some(n) = &k.nine_patch {
                    d.n(n.x as u64);
                    d.n(n.y as u64);
                    d.n(n.width as u64);
                    d.n(n.height as u64);
                }
                if let Some(p) = &k.pivot {
                    d.n(p.x as u64);
                    d.n(p.y as u64);
                }
            });
            d.udata(&s.user_data);
        });
        self.udata(&f.user_data);
    }
    fn sprite(&mut self, a: &AsepriteFile<'_>) {
        self.file(&a.file);
        self.many(&a.layers, |d, l| {
            d.s(l.name.as_bytes());
            d.s(&[l.opacity, l.visible as u8]);
        });
        self.many(&a.tags, |d, t| {
            d.s(t.name.as_bytes());
            d.n(*t.range.start() as u64);
            d.n(*t.range.end() as u64);
            d.n(t.repeat.map_or(u64::MAX, |x| x as u64));
        });
        self.many(&a.frames, |d, f| {
            d.n(f.duration as u64);
            d.many(&f.cels, |d, c| {
                d.n(c.layer_index as u64);
                d.n(c.image_index as u64);
                d.n(c.origin.0 as u64);
                d.n(c.origin.1 as u64);
                d.n(c.size.0 as u64);
                d.n(c.size.1 as u64);
                d.s(&[c.opacity]);
            });
        });
        for i in 0..a.images.len() {
            let mut t = vec![9; a.images[i].width as usize * a.images[i].height as usize * 4];
            ck(a.load_image(i, &mut t).is_ok());
            self.s(&t);
        }
        let (w, h) = a.size();
        for f in 0..a.frames.len() {
            for s in [LayerSelection::All, LayerSelection::Visible] {
                let mut t = vec![0; w as usize * h as usize * 4];
                ck(a.render_frame(f, &mut t, &s).is_ok());
                self.s(&t);
            }
        }
    }
}
fn digest(b: &[u8], via: usize) -> Option<Vec<u8>> {
    let mut d = Dg(vec![]);
    match via {
        1 => d.file(&parse_file(b).ok()?),
        _ => d.sprite(&AsepriteFile::load(b).ok()?),
    }
    Some(d.0)
}
fn depth_of(d: usize) -> u16 {
    [RGBA, GRAY, IDX][d]
}
/// the same meaning as the plain sample?
fn same(m: &Mk, depth: usize, via: usize) {
    let Some(a) = digest(&sample(depth_of(depth), b"ab").b, via) else { return never() };
    match digest(&m.b, via) {
        Some(b) => {
            obs(&[b.len() as u8]);
            ck(a.len() == b.len());
            ckeq(&a, &b);
            reach(1);
        }
        None => never(),
    }
}
/// all reserved fields and the header bytes that do not matter have any value
pub fn h25_reserved(depth: usize, via: usize, _: usize, _: usize) {
    let mut m = sample(depth_of(depth), b"ab");
    for (p, n) in std::mem::take(&mut m.res) {
        fill(&mut m.b[p..p + n]);
    }
    fill(&mut m.b[0..4]);
    fill(&mut m.b[6..8]);
    fill(&mut m.b[29..32]);
    fill(&mut m.b[44..128]);
    same(&m, depth, via);
}
/// an unknown chunk of any type in one of the places that do not separate a record from its user data
pub fn h25_unknown(depth: usize, via: usize, from: usize, n: usize) {
    let mut m = Mk::new(depth_of(depth), 4, 3);
    m.gap = from + pick(n as u8);
    let m = sample_on(m, b"ab");
    // the place exists
    ck(m.gap == 0);
    same(&m, depth, via);
}
/// one to seven surplus bytes at the end of one chunk or frame
pub fn h25_surplus(depth: usize, via: usize, from: usize, n: usize) {
    let mut m = Mk::new(depth_of(depth), 4, 3);
    m.tail = from + pick(n as u8);
    let m = sample_on(m, b"ab");
    ck(m.tails >= m.tail);
    same(&m, depth, via);
}
/// any old chunk count in frames with a new one
pub fn h25_count(depth: usize, via: usize, _: usize, _: usize) {
    let mut m = sample(depth_of(depth), b"ab");
    let mut at = 128;
    while at < m.b.len() {
        fill(&mut m.b[at + 6..at + 8]);
        at += m.b[at] as usize | (m.b[at + 1] as usize) << 8;
    }
    same(&m, depth, via);
}
