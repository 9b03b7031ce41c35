//! C23: schemas embedded in binaries. Images are built here byte by byte (raw, ELF, Mach-O, PE), some are
//! damaged, and what comes out is compared with what went in; the allocator reports the largest request.
use super::write::hostile;
use crate::alloc;
use crate::rng::Rng;
use crate::run::*;
use std::collections::BTreeMap;

const V2: &[u8; 16] = b"STYX_SCHEMA_V2\0\0";
const V1: &[u8; 16] = b"STYX_SCHEMAS_V1\0";

fn text(r: &mut Rng) -> String {
    let mut s = format!("meta {{ id s{}, version {}.0.0 }}\n", r.below(50), r.below(9));
    match r.below(12) {
        0 => return String::new(),
        1 => return "x".into(),
        2 => return hostile(r),
        3 => {
            for i in 0..r.range(500, 3000) {
                s.push_str(&format!("field{i} @string\n"));
            }
        }
        4 => s.push_str(&" ".repeat(r.range(1000, 400_000))),
        5 => {
            for _ in 0..r.range(20, 400) {
                s.push(char::from_u32(r.below(0x2000) as u32 + 1).unwrap_or('?'));
            }
        }
        _ => {
            s.push_str("schema { @ @object{");
            for i in 0..r.range(1, 12) {
                s.push_str(&format!(" f{i} {}", r.pick(&["@string", "@int", "@optional(@bool)", "@seq(@string)", "@map(@string @int)"])));
                s.push(',');
            }
            s.push_str(" z @unit } }\n");
            s.push_str(&hostile(r));
        }
    }
    s
}
fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(5) {
        0 => vec![0; n],
        1 => vec![b'S'; n],
        2 => (0..n).map(|i| V2[i % 16]).collect(),
        _ => (0..n).map(|_| r.next() as u8).collect(),
    }
}
/// Bytes that hold no schema but may look like the start of one.
fn filler(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 3, 16, 40, 56, 64, 500]);
    let mut b = bytes(r, n);
    if r.pct(50) {
        let m: &[u8] = if r.pct(60) { V2 } else { V1 };
        match r.below(6) {
            0 => b.extend_from_slice(&m[..r.below(16)]),
            1 => {
                b.extend_from_slice(&m[..r.range(1, 16)]);
                b.extend_from_slice(m);
                b.push(1);
            }
            2 => {
                // a magic with hostile lengths
                b.extend_from_slice(m);
                if m == V1 {
                    b.extend_from_slice(&(r.next() as u16).to_le_bytes());
                }
                let c = r.below(40);
                b.extend_from_slice(&len(r, c).to_le_bytes());
                b.extend_from_slice(&(c as u32).to_le_bytes());
                let h = bytes(r, 32);
                b.extend_from_slice(&h);
                b.extend_from_slice(&len(r, c).to_le_bytes());
                let x = bytes(r, c);
                b.extend_from_slice(&x);
            }
            3 => {
                b.extend_from_slice(m);
                b.extend_from_slice(&len(r, 9).to_le_bytes());
                b.extend_from_slice(&len(r, 9).to_le_bytes());
            }
            4 => {
                b.extend_from_slice(m);
                let n = r.below(70);
                let x = bytes(r, n);
                b.extend_from_slice(&x);
            }
            _ => b.extend_from_slice(m),
        }
    }
    b
}
fn len(r: &mut Rng, near: usize) -> u32 {
    match r.below(8) {
        0 => u32::MAX,
        1 => i32::MAX as u32,
        2 => 0,
        3 => 0x4000_0000,
        4 => near as u32 + r.below(6) as u32,
        5 => (near as u32).wrapping_sub(r.below(6) as u32),
        6 => u32::MAX - r.below(80) as u32,
        _ => r.next() as u32,
    }
}
/// The parts of an image in order, remembering where each blob lies.
struct Image {
    data: Vec<u8>,
    /// (start, end, texts, v1)
    blobs: Vec<(usize, usize, Vec<String>, bool)>,
}
fn v1(ts: &[String]) -> Vec<u8> {
    let mut b = V1.to_vec();
    b.extend_from_slice(&(ts.len() as u16).to_le_bytes());
    for t in ts {
        b.extend_from_slice(&styx_embed::build_embedded_blob(t)[16..]);
    }
    b
}
fn raw(r: &mut Rng) -> Image {
    let mut im = Image { data: filler(r), blobs: vec![] };
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 5]);
    for _ in 0..n {
        let (b, ts, old) = if r.pct(20) {
            let ts: Vec<String> = (0..r.range(1, 3)).map(|_| text(r)).collect();
            (v1(&ts), ts, true)
        } else {
            let t = text(r);
            (styx_embed::build_embedded_blob(&t), vec![t], false)
        };
        let at = im.data.len();
        im.data.extend_from_slice(&b);
        im.blobs.push((at, im.data.len(), ts, old));
        if r.pct(60) {
            let f = filler(r);
            im.data.extend_from_slice(&f);
        }
    }
    im
}
fn expected(im: &Image) -> Vec<String> {
    let pick = |old: bool| im.blobs.iter().filter(move |b| b.3 == old).flat_map(|b| b.2.clone());
    pick(false).chain(pick(true)).collect()
}
fn shift(im: &mut Image, front: Vec<u8>, back: Vec<u8>) {
    let n = front.len();
    let mut d = front;
    d.extend_from_slice(&im.data);
    d.extend_from_slice(&back);
    im.data = d;
    for b in &mut im.blobs {
        b.0 += n;
        b.1 += n;
    }
}
struct W {
    b: Vec<u8>,
    big: bool,
    wide: bool,
}
impl W {
    fn int(&mut self, v: u64, n: usize) {
        let x = v.to_be_bytes();
        let mut x = x[8 - n..].to_vec();
        if !self.big {
            x.reverse();
        }
        self.b.extend_from_slice(&x);
    }
    fn u16(&mut self, v: u64) {
        self.int(v, 2)
    }
    fn u32(&mut self, v: u64) {
        self.int(v, 4)
    }
    fn ptr(&mut self, v: u64) {
        self.int(v, if self.wide { 8 } else { 4 })
    }
    fn name(&mut self, s: &str, n: usize) {
        let mut b = s.as_bytes().to_vec();
        b.resize(n, 0);
        self.b.extend_from_slice(&b);
    }
}
fn elf(r: &mut Rng, im: &mut Image, name: &str) {
    let (big, wide) = (r.pct(20), r.pct(70));
    let names = ["", ".text", ".styx_schema", name, ".shstrtab"];
    let mut strs = vec![];
    let mut at = vec![];
    for n in names {
        at.push(strs.len() as u64);
        strs.extend_from_slice(n.as_bytes());
        strs.push(0);
    }
    let eh = if wide { 64 } else { 52 };
    let before = bytes(r, 24);
    let sec = eh + before.len();
    let strat = sec + im.data.len();
    let shoff = strat + strs.len();
    let mut w = W { b: vec![], big, wide };
    w.b.extend_from_slice(&[0x7f, b'E', b'L', b'F', if wide { 2 } else { 1 }, if big { 2 } else { 1 }, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    w.u16(2);
    w.u16(if big { 21 } else { 62 });
    w.u32(1);
    w.ptr(0);
    w.ptr(0);
    w.ptr(shoff as u64);
    w.u32(0);
    w.u16(eh as u64);
    w.u16(if wide { 56 } else { 32 });
    w.u16(0);
    w.u16(if wide { 64 } else { 40 });
    w.u16(5);
    w.u16(4);
    assert_eq!(w.b.len(), eh);
    w.b.extend_from_slice(&before);
    let mut t = W { b: strs.clone(), big, wide };
    for (i, n) in at.iter().enumerate() {
        let (ty, off, size) = match i {
            0 => (0u64, 0, 0),
            3 => (1, sec, im.data.len()),
            4 => (3, strat, strs.len()),
            _ => (1, eh, before.len()),
        };
        t.u32(*n);
        t.u32(ty);
        t.ptr(0);
        t.ptr(0);
        t.ptr(off as u64);
        t.ptr(size as u64);
        t.u32(0);
        t.u32(0);
        t.ptr(1);
        t.ptr(0);
    }
    shift(im, w.b, t.b);
}
fn macho_bytes(base: usize, name: &str, blob: &[u8]) -> (Vec<u8>, usize) {
    let mut w = W { b: vec![], big: false, wide: true };
    let cmd = 72 + 80 * 2;
    let off = 32 + cmd * 2;
    for x in [0xfeedfacfu64, 0x0100_0007, 3, 2, 2, 2 * cmd as u64, 0, 0] {
        w.u32(x);
    }
    for seg in ["__TEXT", "__DATA"] {
        w.u32(0x19);
        w.u32(cmd as u64);
        w.name(seg, 16);
        for x in [0, 0x1000, off as u64, if seg == "__DATA" { blob.len() as u64 } else { 0 }] {
            w.ptr(x);
        }
        for x in [7, 7, 2, 0] {
            w.u32(x);
        }
        for sect in ["__data", if seg == "__DATA" { name } else { "__text" }] {
            w.name(sect, 16);
            w.name(seg, 16);
            w.ptr(0);
            w.ptr(if sect == name { blob.len() as u64 } else { 0 });
            w.u32(off as u64);
            for _ in 0..7 {
                w.u32(0);
            }
        }
    }
    assert_eq!(w.b.len(), off);
    (w.b, base + off)
}
fn macho(im: &mut Image, name: &str) {
    let (h, _) = macho_bytes(0, name, &im.data);
    shift(im, h, vec![]);
}
fn fat(r: &mut Rng, im: &mut Image, name: &str) {
    let (h, _) = macho_bytes(0, name, &im.data);
    let mut one = h.clone();
    one.extend_from_slice(&im.data);
    let mut w = W { b: vec![], big: true, wide: false };
    let gap = r.below(64);
    let first = 8 + 40 + gap;
    w.u32(0xcafebabe);
    w.u32(2);
    for i in 0..2usize {
        for x in [0x0100_0007u64 + 5 * i as u64, 3, (first + i * one.len()) as u64, one.len() as u64, 0] {
            w.u32(x);
        }
    }
    w.b.extend(vec![0; gap]);
    w.b.extend_from_slice(&h);
    shift(im, w.b, one);
}
fn pe(r: &mut Rng, im: &mut Image, name: &str) {
    let mut w = W { b: vec![], big: false, wide: false };
    w.name("MZ", 60);
    w.u32(64 + 64);
    w.b.extend(vec![0; 64]);
    w.name("PE", 4);
    w.u16(0x8664);
    w.u16(2);
    for _ in 0..3 {
        w.u32(0);
    }
    w.u16(0);
    w.u16(2);
    let gap = r.below(40);
    let off = w.b.len() + 80 + gap;
    for n in [".text", name] {
        w.name(n, 8);
        w.u32(im.data.len() as u64);
        w.u32(0x1000);
        w.u32(if n == name { im.data.len() as u64 } else { 0 });
        w.u32(off as u64);
        for _ in 0..4 {
            w.u32(0);
        }
    }
    w.b.extend(vec![0; gap]);
    shift(im, w.b, vec![0; 8]);
}
fn count(v: &[String]) -> BTreeMap<&str, usize> {
    let mut m = BTreeMap::new();
    for s in v {
        *m.entry(s.as_str()).or_default() += 1;
    }
    m
}
fn show(d: &[u8]) -> String {
    let h: String = d.iter().take(400).map(|b| format!("{b:02x}")).collect();
    format!("{} bytes: {h}", d.len())
}
type Got = Result<Vec<String>, String>;
/// Both readers of an image in memory, under the panic and allocation monitors.
fn read(c: &mut Case, d: &[u8], object: bool) -> Option<Got> {
    alloc::reset();
    let got = c.guard(|| if object { styx_embed::extract_schemas_from_object(d) } else { styx_embed::extract_schemas(d) });
    let big = alloc::largest();
    if big > d.len() * 256 + (8 << 20) {
        c.fail("allocation", format!("reading {} bytes asked for {big} bytes at once", d.len()), &show(d));
    }
    match got {
        Err(m) => {
            c.fail("panic", m, &show(d));
            None
        }
        Ok(Ok(v)) if v.is_empty() => {
            c.fail("empty", "success without a schema", &show(d));
            None
        }
        Ok(Ok(v)) => Some(Ok(v)),
        Ok(Err(e)) => Some(Err(e.to_string())),
    }
}
fn exact(c: &mut Case, im: &Image, object: bool) {
    let want = expected(im);
    let Some(got) = read(c, &im.data, object) else { return };
    match got {
        Err(_) if want.is_empty() => c.count("none"),
        Err(e) => c.fail("lost", format!("{} schemas embedded, extraction says: {e}", want.len()), &show(&im.data)),
        Ok(v) if count(&v) == count(&want) => {
            c.add("extracted", v.len());
            // within one format the order is that of the image
            if v != want {
                c.fail("order", "the schemas come in another order than in the image", &show(&im.data));
            }
        }
        Ok(v) => c.fail(
            "differs",
            format!("embedded {} schemas of {:?} bytes, extracted {} of {:?}", want.len(), want.iter().map(|s| s.len()).collect::<Vec<_>>(), v.len(), v.iter().map(|s| s.len()).collect::<Vec<_>>()),
            &show(&im.data),
        ),
    }
}
/// Wraps the image; (a section to look at?, two copies of everything?)
fn wrap(c: &mut Case, im: &mut Image) -> (bool, bool) {
    let k = c.r.below(10);
    let named = c.r.pct(85);
    let n = |s: &'static str| if named { s } else { ".other" };
    match k {
        0..=2 => {
            elf(&mut c.r, im, n(".styx_schemas"));
            c.count("elf");
        }
        3 | 4 => {
            macho(im, n("__styx_schemas"));
            c.count("macho");
        }
        5 => {
            // without the section the scan sees both architectures
            fat(&mut c.r, im, "__styx_schemas");
            c.count("fat");
            return (true, true);
        }
        6 | 7 => {
            pe(&mut c.r, im, n(".styx"));
            c.count("pe");
        }
        _ => {
            c.count("raw");
            return (false, false);
        }
    }
    (named, false)
}
pub fn clean(c: &mut Case) {
    let mut im = raw(&mut c.r);
    let n = im.blobs.len();
    exact(c, &im, false);
    let (section, twice) = wrap(c, &mut im);
    exact(c, &im, true);
    if !twice {
        exact(c, &im, false);
    }
    if section {
        c.count("section");
    }
    if c.idx % 64 == 5 {
        file(c, &im);
    }
    let key = format!("{}:{:?}", im.data.len(), im.blobs.iter().map(|b| (b.0, b.1)).collect::<Vec<_>>());
    c.eval(if n > 0 { Some(&key) } else { None });
    c.sample(&format!("{n} blobs in {} bytes", im.data.len()));
}
fn file(c: &mut Case, im: &Image) {
    let p = std::env::temp_dir().join(format!("vcore-embed-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::write(&p, &im.data).unwrap();
    let a = c.guard(|| styx_embed::extract_schemas_from_file(&p).map_err(|e| e.to_string()));
    let _ = std::fs::remove_file(&p);
    let b = c.guard(|| styx_embed::extract_schemas_from_object(&im.data).map_err(|e| e.to_string()));
    match (a, b) {
        (Err(m), _) => c.fail("file:panic", m, &show(&im.data)),
        (Ok(a), Ok(b)) if a.is_ok() != b.is_ok() || a.as_ref().ok() != b.as_ref().ok() => c.fail("file", format!("from the file {a:?}, from memory {b:?}"), &show(&im.data)),
        _ => c.count("files"),
    }
}
pub fn damaged(c: &mut Case) {
    let mut im = raw(&mut c.r);
    let inner = im.blobs.first().map(|b| b.0).unwrap_or(0)..im.data.len();
    let before = im.data.len();
    let (section, twice) = if c.r.pct(60) { wrap(c, &mut im) } else { (false, false) };
    let object = im.data.len() != before;
    let orig = expected(&im);
    let mut hit: Vec<(usize, usize)> = vec![];
    for _ in 0..*c.r.pick(&[1usize, 1, 1, 2, 4]) {
        if im.data.is_empty() {
            break;
        }
        let n = im.data.len();
        match c.r.below(8) {
            0 => {
                let at = c.r.below(n);
                im.data.truncate(at);
                hit.push((at, n));
            }
            1 | 2 if !im.blobs.is_empty() => {
                // a length field
                let b = c.r.below(im.blobs.len());
                let (s, old) = (im.blobs[b].0, im.blobs[b].3);
                let f = s + 16 + if old { 2 } else { 0 } + *c.r.pick(&[0usize, 4, 40, 40]);
                let near = im.blobs[b].2[0].len();
                let v = len(&mut c.r, near).to_le_bytes();
                if f + 4 <= n {
                    im.data[f..f + 4].copy_from_slice(&v);
                    hit.push((f, f + 4));
                    c.count("length-field");
                }
            }
            3 if !im.blobs.is_empty() => {
                // both the declared and the stored length
                let b = c.r.below(im.blobs.len());
                let (s, old) = (im.blobs[b].0, im.blobs[b].3);
                let f = s + 16 + if old { 2 } else { 0 };
                let v = len(&mut c.r, 9).to_le_bytes();
                if f + 44 <= n {
                    im.data[f..f + 4].copy_from_slice(&v);
                    im.data[f + 40..f + 44].copy_from_slice(&v);
                    hit.push((f, f + 44));
                    c.count("both-lengths");
                }
            }
            4 if object => {
                // the headers of the container
                let at = c.r.below(n.min(inner.start + 480));
                let k = *c.r.pick(&[1usize, 2, 4, 8]);
                let v: Vec<u8> = if c.r.pct(50) { vec![0xff; 8] } else { c.r.next().to_le_bytes().to_vec() };
                for i in 0..k.min(n - at) {
                    im.data[at + i] = v[i];
                }
                hit.push((0, n));
                c.count("headers");
            }
            5 if object => {
                // the tables at the end
                let at = n - 1 - c.r.below(n.min(400));
                let v = *c.r.pick(&[0xffu8, 0x7f, 0x80, 0x00, 0x01]);
                for i in at..(at + c.r.range(1, 8)).min(n) {
                    im.data[i] = v;
                }
                hit.push((0, n));
                c.count("tables");
            }
            6 => {
                let at = c.r.below(n);
                im.data[at] ^= 1 << c.r.below(8);
                hit.push((at, at + 1));
            }
            _ => {
                let at = c.r.below(n);
                let k = c.r.range(1, 40).min(n - at);
                let x = bytes(&mut c.r, k);
                im.data[at..at + k].copy_from_slice(&x);
                hit.push((at, at + k));
            }
        }
    }
    // a blob no damage touched, in its own place
    let whole: Vec<String> = im.blobs.iter().filter(|b| !hit.iter().any(|h| h.0 < b.1 && b.0 < h.1)).flat_map(|b| b.2.clone()).collect();
    for how in [false, true] {
        let Some(got) = read(c, &im.data, how) else { continue };
        let got = got.unwrap_or_default();
        let (g, o) = (count(&got), count(&orig));
        for (s, n) in &g {
            let most = o.get(s).copied().unwrap_or(0) * if twice { 2 } else { 1 };
            if most == 0 {
                c.fail("changed", format!("a schema of {} bytes came out that nobody put in: {:?}", s.len(), s.chars().take(80).collect::<String>()), &show(&im.data));
            } else if *n > most {
                c.fail("twice", format!("{n} copies of a schema embedded {most} times"), &show(&im.data));
            }
        }
        // damage to the container may hide its section; a scan still finds what is whole
        if !how || !object || (!section && !hit.iter().any(|h| h.0 == 0)) {
            for (s, n) in &count(&whole) {
                if g.get(s).copied().unwrap_or(0) < *n {
                    c.fail("lost-whole", format!("an undamaged schema of {} bytes is not found (object reader: {how})", s.len()), &show(&im.data));
                }
            }
            c.add("whole-found", whole.len());
        }
    }
    c.eval(Some(&format!("{:?}{}", hit, im.data.len())));
    c.count("damaged");
}
pub fn c23() -> Spec {
    Spec {
        prop: "C23",
        rule: "images built byte by byte (raw, ELF 32/64 both endians, Mach-O, fat Mach-O, PE; V1 and V2 blobs; filler that imitates blobs), clean or damaged; extracted schemas against embedded ones, panics and the largest allocation. Distinct by layout of blobs and damage",
        streams: vec![
            Stream { name: "clean", f: clean, quick: 10_000, thorough: 300_000 },
            Stream { name: "damaged", f: damaged, quick: 30_000, thorough: 900_000 },
        ],
        must: &["extracted", "damaged", "elf", "macho", "fat", "pe", "section", "files", "length-field", "both-lengths", "headers", "whole-found"],
    }
}
