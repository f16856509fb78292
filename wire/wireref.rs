//! The reference for messages on the wire: values, the documented encoding, what a reader makes of
//! bytes, and the cases that are compared with the generated code (C01 - C04).
//!
//! Written from README.md (`Binary encoding`), independent of the generated code. Where a reader is
//! free (malformed bytes) `decode` says what the code of the pinned commit does.
use std::io::BufRead;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Unit, F64, U64, S64, Bool, Bytes, Str, Arr(Box<Ty>), Decl(usize) }
#[derive(Clone, Debug)]
pub struct Field { pub index: u64, pub rule: u8, pub ty: Ty } // rule: 0 required, 1 asymmetric, 2 optional
#[derive(Clone, Debug)]
pub struct Decl { pub name: &'static str, pub choice: bool, pub fields: Vec<Field> }
#[derive(Clone, Debug, PartialEq)]
pub enum V { Unit, F(u64), U(u64), S(i64), B(bool), Bytes(Vec<u8>), Str(String), Arr(Vec<V>), Struct(Vec<Option<V>>), Choice(usize, Box<V>, Option<Box<V>>) }

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
}

pub const BASE: [u128; 11] = [0, 0, 128, 16_512, 2_113_664, 270_549_120, 34_630_287_488, 4_432_676_798_592, 567_382_630_219_904, 72_624_976_668_147_840, 1 << 64];

// ---- the encoding -------------------------------------------------------------------------------
pub fn varint(n: u64) -> Vec<u8> {
    let mut k = 1;
    while u128::from(n) >= BASE[k + 1] { k += 1; }
    let w = u128::from(n) - BASE[k];
    let bits: u128 = if k == 9 { w << 8 } else { (w << k) | (1 << (k - 1)) };
    (0..k).map(|i| (bits >> (8 * i)) as u8).collect()
}
pub fn zigzag(n: i64) -> u64 { if n >= 0 { n as u64 * 2 } else { (-(i128::from(n)) * 2 - 1) as u64 } }
pub fn unzigzag(n: u64) -> i64 { if n % 2 == 0 { (n / 2) as i64 } else { -((n / 2) as i64) - 1 } }
pub fn header(index: u64, size: usize, varint_mode: bool) -> Vec<u8> {
    let mode = if size == 0 { 0 } else if size == 8 { 1 } else if varint_mode { 2 } else { 3 };
    let mut r = varint(index * 4 + mode);
    if mode == 3 { r.extend(varint(size as u64)); }
    r
}
fn small(n: u64, field: bool) -> Vec<u8> {
    if field && n == 0 { vec![] } else if field && n >= 567_382_630_219_904 { n.to_le_bytes().to_vec() } else { varint(n) }
}
pub fn encode(d: &[Decl], ty: &Ty, v: &V, field: bool, strict: bool) -> Vec<u8> {
    match (ty, v) {
        (Ty::Unit, V::Unit) => vec![],
        (Ty::F64, V::F(x)) => if field && *x == 0 { vec![] } else { x.to_le_bytes().to_vec() },
        (Ty::U64, V::U(x)) => small(*x, field),
        (Ty::S64, V::S(x)) => small(zigzag(*x), field),
        (Ty::Bool, V::B(x)) => small(u64::from(*x), field),
        (Ty::Bytes, V::Bytes(x)) => x.clone(),
        (Ty::Str, V::Str(x)) => x.as_bytes().to_vec(),
        (Ty::Arr(t), V::Arr(x)) => match **t {
            Ty::Unit => small(x.len() as u64, field),
            Ty::F64 | Ty::U64 | Ty::S64 | Ty::Bool => x.iter().flat_map(|e| encode(d, t, e, false, strict)).collect(),
            _ => x.iter().flat_map(|e| { let p = encode(d, t, e, false, strict); let mut r = varint(p.len() as u64); r.extend(p); r }).collect(),
        },
        (Ty::Decl(i), V::Struct(fs)) => {
            let mut r = vec![];
            for (f, v) in d[*i].fields.iter().zip(fs) { if let Some(v) = v { r.extend(one(d, f, v, strict)); } }
            r
        }
        (Ty::Decl(i), V::Choice(c, p, fb)) => {
            let mut r = one(d, &d[*i].fields[*c], p, strict);
            if let Some(fb) = fb { r.extend(encode(d, ty, fb, field, strict)); }
            r
        }
        _ => panic!("value does not fit its type"),
    }
}
// a field with its header; the documentation has the length of an array of units in the varint mode
pub fn one(d: &[Decl], f: &Field, v: &V, strict: bool) -> Vec<u8> {
    let p = encode(d, &f.ty, v, true, strict);
    let integer = matches!(f.ty, Ty::U64 | Ty::S64 | Ty::Bool) || strict && f.ty == Ty::Arr(Box::new(Ty::Unit));
    let mut r = header(f.index, p.len(), integer);
    r.extend(p);
    r
}

// ---- what a reader makes of bytes ------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum E { Eof, Bad, Hostile(&'static str) }
/// `torn`: something is cut off, and a reader may as well report an error
pub struct Rd<'a> { pub b: &'a [u8], pub pos: usize, pub torn: bool }
impl Rd<'_> {
    fn bytes(&mut self, n: usize, end: usize) -> Result<Vec<u8>, E> {
        let end = end.min(self.b.len());
        if n > end - self.pos { self.pos = end; return Err(E::Eof); }
        self.pos += n;
        Ok(self.b[self.pos - n..self.pos].to_vec())
    }
    fn varint(&mut self, end: usize) -> Result<u64, E> {
        let first = self.bytes(1, end)?[0];
        let k = first.trailing_zeros() as usize + 1;
        let more = self.bytes(k - 1, end)?;
        let mut x: u128 = u128::from(first);
        for (i, b) in more.iter().enumerate() { x |= u128::from(*b) << (8 * (i + 1)); }
        let w = if k == 9 { x >> 8 } else { x >> k };
        Ok((BASE[k] + w) as u64)
    }
    fn header(&mut self, end: usize) -> Result<(u64, usize), E> {
        let tag = self.varint(end)?;
        Ok((tag / 4, match tag % 4 {
            0 => 0,
            1 => 8,
            2 => { if self.pos >= end { return Err(E::Eof); } self.b[self.pos].trailing_zeros() as usize + 1 }
            _ => self.varint(end)? as usize,
        }))
    }
}
const BIG: usize = 1 << 20;
fn sub(r: &mut Rd, size: usize, end: usize) -> usize { if size > end - r.pos { r.torn = true; end } else { r.pos + size } }
fn value(d: &[Decl], ty: &Ty, size: usize, field: bool, r: &mut Rd, end: usize, depth: usize) -> Result<V, E> {
    let int = |r: &mut Rd| -> Result<u64, E> {
        if field && size == 0 { Ok(0) } else if field && size == 8 { Ok(u64::from_le_bytes(r.bytes(8, end)?.try_into().unwrap())) } else { r.varint(end) }
    };
    Ok(match ty {
        Ty::Unit => V::Unit,
        Ty::F64 => if field && size == 0 { V::F(0) } else { V::F(u64::from_le_bytes(r.bytes(8, end)?.try_into().unwrap())) },
        Ty::U64 => V::U(int(r)?),
        Ty::S64 => V::S(unzigzag(int(r)?)),
        Ty::Bool => V::B(int(r)? != 0),
        Ty::Bytes | Ty::Str => {
            if size > BIG { return Err(E::Hostile("the size of a string or of bytes is huge")); }
            let n = end - r.pos;
            let b = r.bytes(n, end)?;
            if *ty == Ty::Bytes { V::Bytes(b) } else { V::Str(String::from_utf8(b).map_err(|_| E::Bad)?) }
        }
        Ty::Arr(t) => match **t {
            Ty::Unit => {
                let n = int(r)?;
                if n > 1 << 12 { return Err(E::Hostile("the length of an array of units is huge")); }
                V::Arr(vec![V::Unit; n as usize])
            }
            Ty::F64 | Ty::U64 | Ty::S64 | Ty::Bool => {
                if **t == Ty::F64 && size > BIG { return Err(E::Hostile("the size of an array of floating-point numbers is huge")); }
                let mut x = vec![];
                loop { let at = r.pos; match value(d, t, 0, false, r, end, depth) { Ok(v) => x.push(v), Err(E::Eof) => { r.torn |= at < end; break } Err(e) => return Err(e) } }
                V::Arr(x)
            }
            _ => {
                let mut x = vec![];
                loop {
                    let at = r.pos;
                    let size = match r.varint(end) { Ok(n) => n as usize, Err(E::Eof) => { r.torn |= at < end; break } Err(e) => return Err(e) };
                    let e = sub(r, size, end);
                    x.push(value(d, t, size, false, r, e, depth)?);
                }
                V::Arr(x)
            }
        },
        Ty::Decl(i) => message(d, *i, r, end, depth)?,
    })
}
fn message(d: &[Decl], i: usize, r: &mut Rd, end: usize, depth: usize) -> Result<V, E> {
    if depth > 64 { return Err(E::Hostile("deep nesting")); }
    let skip = |r: &mut Rd, size: usize| -> Result<(), E> {
        if size > end - r.pos { return Err(E::Hostile("an unknown field is longer than the message")); }
        r.pos += size;
        Ok(())
    };
    let fields = &d[i].fields;
    if d[i].choice {
        loop {
            let (index, size) = r.header(end)?;
            let e = sub(r, size, end);
            let Some(c) = fields.iter().position(|f| f.index == index) else { skip(r, size)?; continue };
            let p = value(d, &fields[c].ty, size, true, r, e, depth + 1)?;
            if fields[c].rule < 2 { r.pos = end; return Ok(V::Choice(c, Box::new(p), None)); }
            let fb = message(d, i, r, end, depth + 1)?;
            return Ok(V::Choice(c, Box::new(p), Some(Box::new(fb))));
        }
    }
    let mut x: Vec<Option<V>> = vec![None; fields.len()];
    loop {
        let at = r.pos;
        let (index, size) = match r.header(end) { Ok(h) => h, Err(E::Eof) => { r.torn |= at < end; break } Err(e) => return Err(e) };
        let e = sub(r, size, end);
        match fields.iter().position(|f| f.index == index) {
            None => skip(r, size)?,
            Some(c) => { let p = value(d, &fields[c].ty, size, true, r, e, depth + 1)?; if x[c].is_none() { x[c] = Some(p); } }
        }
    }
    if fields.iter().zip(&x).any(|(f, v)| f.rule == 0 && v.is_none()) { return Err(E::Bad); }
    Ok(V::Struct(x))
}
pub fn decode(d: &[Decl], i: usize, b: &[u8]) -> (Result<V, E>, bool) { let mut r = Rd { b, pos: 0, torn: false }; let v = message(d, i, &mut r, b.len(), 0); (v, r.torn) }
// what the reader of a written value holds
pub fn inview(d: &[Decl], ty: &Ty, v: &V) -> V {
    match (ty, v) {
        (Ty::Arr(t), V::Arr(x)) => V::Arr(x.iter().map(|e| inview(d, t, e)).collect()),
        (Ty::Decl(i), V::Struct(fs)) => V::Struct(d[*i].fields.iter().zip(fs).map(|(f, v)| v.as_ref().map(|v| inview(d, &f.ty, v))).collect()),
        (Ty::Decl(i), V::Choice(c, p, fb)) => {
            let f = &d[*i].fields[*c];
            V::Choice(*c, Box::new(inview(d, &f.ty, p)), if f.rule == 2 { fb.as_ref().map(|b| Box::new(inview(d, ty, b))) } else { None })
        }
        _ => v.clone(),
    }
}

// ---- values -----------------------------------------------------------------------------------------
pub fn number(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(4),
        1 => { let k = 2 + r.below(8) as usize; (BASE[k] as u64).wrapping_add(r.below(3)).wrapping_sub(1) }
        2 => (1u64 << r.below(64)).wrapping_add(r.below(3)).wrapping_sub(1),
        3 => u64::MAX - r.below(3),
        4 => { let s = r.below(64); r.next() >> s }
        _ => r.below(300),
    }
}
fn length(r: &mut Rng, room: usize) -> usize {
    let n = match r.below(12) { 0 => 0, 1 => 8, 2 => 7 + r.below(3) as usize, 3 => 126 + r.below(4) as usize, 4 if r.below(6) == 0 => 16_510 + r.below(4) as usize, _ => r.below(6) as usize };
    n.min(room)
}
// values of a size that is dealt with in no time: beyond so many parts everything is as small as it can be
const PARTS: usize = 20_000;
thread_local! { static MADE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
pub fn make(d: &[Decl], ty: &Ty, r: &mut Rng, room: usize) -> V { MADE.with(|m| m.set(0)); part(d, ty, r, room) }
fn part(d: &[Decl], ty: &Ty, r: &mut Rng, room: usize) -> V {
    let many = MADE.with(|m| { m.set(m.get() + 1); m.get() > PARTS });
    let room = if many { 0 } else { room };
    match ty {
        Ty::Unit => V::Unit,
        Ty::F64 => V::F(match r.below(8) { 0 => 0, 1 => 1 << 63, 2 => f64::NAN.to_bits(), 3 => f64::INFINITY.to_bits(), 4 => 1, 5 => 1.0f64.to_bits(), 6 => (-0.5f64).to_bits(), _ => r.next() }),
        Ty::U64 => V::U(number(r)),
        Ty::S64 => V::S(match r.below(8) { 0 => i64::MIN, 1 => i64::MAX, 2 => -1, _ => unzigzag(number(r)) }),
        Ty::Bool => V::B(r.below(2) == 1),
        Ty::Bytes => { let n = length(r, room); V::Bytes((0..n).map(|_| r.next() as u8).collect()) }
        Ty::Str => { let n = length(r, room); V::Str((0..n).map(|_| ['a', 'b', 'é', '好', '🙂', '\0', ' '][if n > 100 { 0 } else { r.below(7) as usize }]).collect()) }
        Ty::Arr(t) => { let n = length(r, if **t == Ty::Unit { if many { 0 } else { 20_000 } } else { room / 8 }).min(4096); V::Arr((0..n).map(|_| part(d, t, r, room / 8)).collect()) }
        Ty::Decl(i) if d[*i].choice => {
            let fs = &d[*i].fields;
            let mut chain = vec![];
            loop {
                let c = r.below(fs.len() as u64) as usize;
                let c = if chain.len() > 4 || many { fs.iter().position(|f| f.rule == 0).unwrap() } else { c };
                let p = part(d, &fs[c].ty, r, room / 2);
                chain.push((c, p));
                if fs[c].rule == 0 { break; }
            }
            let mut v: Option<Box<V>> = None;
            while let Some((c, p)) = chain.pop() { v = Some(Box::new(V::Choice(c, Box::new(p), v.take()))); }
            *v.unwrap()
        }
        Ty::Decl(i) => V::Struct(d[*i].fields.iter().map(|f| if f.rule == 2 && (many || r.below(2) == 0) { None } else { Some(part(d, &f.ty, r, room / 2)) }).collect()),
    }
}

// ---- the generated code, seen through values ------------------------------------------------------------
pub struct Ops {
    pub decl: usize,
    // a written value: the size reported, the bytes, the value as the reader holds it
    pub write: fn(&V, &mut dyn std::io::Write) -> (usize, std::io::Result<()>, V),
    pub read: fn(&mut dyn BufRead) -> std::io::Result<V>,
}
// the functions all messages use
pub struct Base {
    pub zigzag_encode: fn(i64) -> u64,
    pub zigzag_decode: fn(u64) -> i64,
    pub size_from_value: fn(u64) -> usize,
    pub size_from_first: fn(u8) -> u32,
    pub put: fn(u64, &mut dyn std::io::Write) -> std::io::Result<()>,
    pub get: fn(&mut dyn BufRead) -> std::io::Result<u64>,
    pub header_size: fn(u64, usize, bool) -> usize,
    pub put_header: fn(&mut dyn std::io::Write, u64, usize, bool) -> std::io::Result<()>,
    pub get_header: fn(&mut dyn BufRead) -> std::io::Result<(u64, usize)>,
}
// a reader that hands out its bytes in small pieces
pub struct Pieces<'a> { pub b: &'a [u8], pub pos: usize, pub step: usize }
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.step).min(self.b.len() - self.pos);
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Pieces<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> { Ok(&self.b[self.pos..(self.pos + self.step).min(self.b.len())]) }
    fn consume(&mut self, n: usize) { assert!(n <= self.step && n <= self.b.len() - self.pos, "more was consumed than was handed out"); self.pos += n; }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn brief<T: std::fmt::Debug>(v: &T) -> String { let s = format!("{v:?}"); s.chars().take(300).collect() }

// ---- the cases; each gives what is wrong -----------------------------------------------------------------
pub fn base_case(f: &Base, seed: u64) -> Option<String> {
    let mut r = Rng(seed);
    let n = number(&mut r);
    let e = varint(n);
    let mut out = vec![];
    if (f.put)(n, &mut out).is_err() || out != e { return Some(format!("{n} is encoded as {} and not as {}", hex(&out), hex(&e))); }
    if (f.size_from_value)(n) != e.len() { return Some(format!("the size of {n} is given as {} and not {}", (f.size_from_value)(n), e.len())); }
    if (f.size_from_first)(e[0]) as usize != e.len() { return Some(format!("the first byte of {} is taken to mean {} bytes", hex(&e), (f.size_from_first)(e[0]))); }
    let tail = 1 + r.below(4) as usize;
    let mut b = e.clone();
    b.extend((0..tail).map(|_| r.next() as u8));
    let mut p = Pieces { b: &b, pos: 0, step: 1 + r.below(12) as usize };
    match (f.get)(&mut p) { Ok(m) if m == n && p.pos == e.len() => {} x => return Some(format!("{} is decoded as {x:?}, {} bytes consumed; it stands for {n} in {} bytes", hex(&b), p.pos, e.len())) }
    // any encoding at all
    let mut any: Vec<u8> = (0..9).map(|_| if r.below(4) == 0 { 255 } else { r.next() as u8 }).collect();
    any[0] = ((1u16 << r.below(9)) * (1 + 2 * r.below(256) as u16 % 512)) as u8;
    let want = Rd { b: &any, pos: 0, torn: false }.varint(9).unwrap();
    let mut p = Pieces { b: &any, pos: 0, step: 1 + r.below(12) as usize };
    match (f.get)(&mut p) { Ok(m) if m == want && p.pos == any[0].trailing_zeros() as usize + 1 => {} x => return Some(format!("{} is decoded as {x:?} and not as {want}, {} bytes consumed", hex(&any), p.pos)) }
    let cut = r.below(e.len() as u64) as usize;
    if let Ok(m) = (f.get)(&mut Pieces { b: &e[..cut], pos: 0, step: 9 }) { return Some(format!("the truncated encoding {} is decoded as {m}", hex(&e[..cut]))); }
    let s = unzigzag(n);
    if (f.zigzag_encode)(s) != n { return Some(format!("{s} is mapped to {} and not {n}", (f.zigzag_encode)(s))); }
    if (f.zigzag_decode)(n) != s { return Some(format!("{n} is mapped back to {} and not {s}", (f.zigzag_decode)(n))); }
    let index = number(&mut r) >> 2;
    let integer = r.below(2) == 1;
    let size = if integer { e.len() } else { match r.below(4) { 0 => 8, 1 => r.below(20) as usize, _ => number(&mut r) as usize } };
    let h = header(index, size, integer);
    let mut out = vec![];
    if (f.put_header)(&mut out, index, size, integer).is_err() || out != h { return Some(format!("the header for index {index}, size {size}, integer {integer} is {} and not {}", hex(&out), hex(&h))); }
    if (f.header_size)(index, size, integer) != h.len() { return Some(format!("the size of the header for index {index}, size {size}, integer {integer} is given as {} and not {}", (f.header_size)(index, size, integer), h.len())); }
    let mut b = h.clone();
    b.extend(&e);
    let mut p = Pieces { b: &b, pos: 0, step: 1 + r.below(12) as usize };
    match (f.get_header)(&mut p) { Ok(x) if x == (index, size) && p.pos == h.len() => {} x => return Some(format!("the header {} is read as {x:?}, {} bytes consumed; it is index {index} and size {size}", hex(&h), p.pos)) }
    None
}
fn same(a: &V, b: &V) -> bool { a == b }
pub fn write_case(d: &[Decl], o: &Ops, seed: u64, strict: bool) -> Option<String> {
    let mut r = Rng(seed);
    let ty = Ty::Decl(o.decl);
    let room = if r.below(16) == 0 { 40_000 } else { 700 };
    let v = make(d, &ty, &mut r, room);
    let want = encode(d, &ty, &v, true, strict);
    let mut out = vec![];
    let (size, res, seen) = (o.write)(&v, &mut out);
    if let Err(e) = res { return Some(format!("writing {} fails: {e}", brief(&v))); }
    if out != want { let i = out.iter().zip(&want).take_while(|(a, b)| a == b).count(); return Some(format!("{} is written as {} bytes and not as the documented {}; they differ from byte {i}: {} and not {}", brief(&v), out.len(), want.len(), hex(&out[i..(i + 12).min(out.len())]), hex(&want[i..(i + 12).min(want.len())]))); }
    if size != out.len() { return Some(format!("the size of {} is given as {size}, and {} bytes are written", brief(&v), out.len())); }
    let view = inview(d, &ty, &v);
    if !same(&seen, &view) { return Some(format!("{} is turned into {} for a reader", brief(&v), brief(&seen))); }
    let step = 1 + r.below(64) as usize;
    match (o.read)(&mut Pieces { b: &out, pos: 0, step }) {
        Ok(w) if same(&w, &view) => {}
        x => return Some(format!("{} is read back as {}", brief(&v), brief(&x))),
    }
    None
}
// bytes: the reader agrees with `decode`
pub fn read_case(d: &[Decl], o: &Ops, b: &[u8], step: usize, strict: bool) -> Option<String> {
    let (want, torn) = decode(d, o.decl, b);
    if let Err(E::Hostile(_)) = want { if !strict { return None; } }
    let got = std::panic::catch_unwind(|| (o.read)(&mut Pieces { b, pos: 0, step }));
    let Ok(got) = got else { return Some(format!("reading {} panics", hex(b))) };
    if let Err(E::Hostile(_)) = want { return None; }
    match (&want, &got) {
        (Ok(v), Ok(w)) if same(v, w) => None,
        (Err(_), Err(_)) => None,
        (Ok(_), Err(_)) if torn => None,
        _ => Some(format!("{} is read as {} and not as {}", hex(b), brief(&got), brief(&want))),
    }
}
// a declaration as another version of the program has it
pub fn evolve(d: &[Decl], i: usize, r: &mut Rng) -> Vec<Decl> {
    let mut d: Vec<Decl> = d.to_vec();
    let n = d.len();
    for j in 0..n { if j == i || r.below(3) == 0 { change(&mut d, j, r); } }
    d
}
fn change(d: &mut [Decl], i: usize, r: &mut Rng) {
    let prim = |r: &mut Rng| [Ty::Unit, Ty::F64, Ty::U64, Ty::S64, Ty::Bool, Ty::Bytes, Ty::Str, Ty::Arr(Box::new(Ty::Str)), Ty::Arr(Box::new(Ty::Unit)), Ty::Arr(Box::new(Ty::U64))][r.below(10) as usize].clone();
    let x = &mut d[i];
    for _ in 0..1 + r.below(3) {
        // right behind the ones there are; such that a narrower type would take it for one of them; anywhere
        let top = x.fields.iter().map(|f| f.index + 1).max().unwrap_or(0);
        let some = if x.fields.is_empty() { 0 } else { x.fields[r.below(x.fields.len() as u64) as usize].index };
        let index = match r.below(7) { 4 => top + r.below(2), 5 => top, 6 => some + (1 << [6, 7, 8, 14, 16, 30, 32, 48][r.below(8) as usize]), 0 => 31 + r.below(3), 1 => 4_126 + r.below(4), 2 => number(r) >> 2, _ => r.below(40) };
        let index = index & ((1 << 62) - 1);
        if x.fields.iter().all(|f| f.index != index) { let at = r.below(x.fields.len() as u64 + 1) as usize; let ty = prim(r); x.fields.insert(at, Field { index, rule: r.below(3) as u8, ty }); }
    }
    if !x.choice && !x.fields.is_empty() && r.below(2) == 0 { let at = r.below(x.fields.len() as u64) as usize; x.fields.remove(at); }
    for k in 0..x.fields.len() { if r.below(3) == 0 { let other = r.below(x.fields.len() as u64) as usize; x.fields.swap(k, other); } }
    if x.choice && x.fields.iter().all(|f| f.rule != 0) { let k = r.below(x.fields.len() as u64) as usize; x.fields[k].rule = 0; }
    if x.choice { for f in &mut x.fields { if r.below(3) == 0 { f.rule = 2; } } if x.fields.iter().all(|f| f.rule != 0) { let k = r.below(x.fields.len() as u64) as usize; x.fields[k].rule = 0; } }
}
// bytes another version writes: unknown fields, other orders, repetitions, missing fields
pub fn evolved_bytes(d: &[Decl], i: usize, seed: u64, again: bool) -> Vec<u8> {
    let mut r = Rng(seed);
    let e = evolve(d, i, &mut r);
    if e[i].choice && e[i].fields.is_empty() { return vec![]; }
    let v = make(&e, &Ty::Decl(i), &mut r, 2_000);
    let V::Struct(fs) = &v else { return encode(&e, &Ty::Decl(i), &v, true, false) };
    let mut parts: Vec<Vec<u8>> = vec![];
    for (f, v) in e[i].fields.iter().zip(fs) {
        if r.below(12) == 0 { continue; }
        if let Some(v) = v { parts.push(one(&e, f, v, false)); }
        if again && r.below(6) == 0 { let w = make(&e, &f.ty, &mut r, 500); parts.push(one(&e, f, &w, false)); }
    }
    for k in 0..parts.len() { let j = r.below(parts.len() as u64) as usize; if r.below(2) == 0 { parts.swap(k, j); } }
    parts.concat()
}
pub fn arbitrary_bytes(d: &[Decl], i: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng(seed);
    if r.below(8) == 0 { let n = r.below(24); return (0..n).map(|_| if r.below(3) == 0 { (r.below(8) << 1) as u8 | 1 } else { r.next() as u8 }).collect(); }
    if d[i].choice && d[i].fields.is_empty() { return vec![]; }
    let mut b = if r.below(2) == 0 { evolved_bytes(d, i, r.next(), true) } else { let v = make(d, &Ty::Decl(i), &mut r, 400); encode(d, &Ty::Decl(i), &v, true, false) };
    for _ in 0..r.below(3) {
        let n = b.len() as u64;
        match r.below(5) {
            0 if n > 0 => { b.truncate(r.below(n) as usize); }
            1 if n > 0 => { let k = r.below(n) as usize; b[k] ^= 1 << r.below(8); }
            2 if n > 0 => { let k = r.below(n) as usize; b[k] = r.next() as u8; }
            3 => { let k = r.below(n + 1) as usize; let x = match r.below(3) { 0 => 0, 1 => 3, _ => r.next() as u8 }; b.insert(k, x); }
            4 if n > 0 => { let k = r.below(n) as usize; b.remove(k); }
            _ => {}
        }
    }
    b
}

// ---- for the TypeScript side (C05) ----------------------------------------------------------------------
fn plain(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' | '\\' => { o.push('\\'); o.push(c); } c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
pub fn json(v: &V) -> String {
    let list = |x: &[V]| x.iter().map(json).collect::<Vec<_>>().join(",");
    match v {
        V::Unit => "null".into(),
        V::F(x) => format!("{{\"f\":\"{x}\"}}"),
        V::U(x) => format!("{{\"i\":\"{x}\"}}"),
        V::S(x) => format!("{{\"i\":\"{x}\"}}"),
        V::B(x) => format!("{x}"),
        V::Bytes(x) => format!("{{\"x\":\"{}\"}}", hex(x)),
        V::Str(x) => plain(x),
        V::Arr(x) => format!("[{}]", list(x)),
        V::Struct(x) => format!("{{\"m\":[{}]}}", x.iter().map(|y| match y { None => "0".into(), Some(y) => format!("[{}]", json(y)) }).collect::<Vec<_>>().join(",")),
        V::Choice(c, p, fb) => format!("{{\"c\":[{c},{},{}]}}", json(p), fb.as_ref().map_or("0".into(), |b| json(b))),
    }
}
// JavaScript has one NaN
fn odd_nan(v: &V) -> bool {
    match v {
        V::F(x) => f64::from_bits(*x).is_nan() && *x != 0x7ff8_0000_0000_0000,
        V::Arr(x) => x.iter().any(odd_nan),
        V::Struct(x) => x.iter().flatten().any(odd_nan),
        V::Choice(_, p, fb) => odd_nan(p) || fb.as_ref().is_some_and(|b| odd_nan(b)),
        _ => false,
    }
}
// what the Rust code writes for a value, and what it makes of it; what it reads in bytes of another version
pub fn ts_case(d: &[Decl], o: &Ops, case: &str) -> Option<String> {
    let (kind, arg) = case.split_once(':').unwrap();
    if kind == "tswrite" {
        let seed: u64 = arg.parse().unwrap();
        let mut r = Rng(seed);
        let room = if r.below(16) == 0 { 20_000 } else { 700 };
        let v = make(d, &Ty::Decl(o.decl), &mut r, room);
        if odd_nan(&v) { return None; }
        let mut out = vec![];
        let (size, res, _) = (o.write)(&v, &mut out);
        if res.is_err() || size != out.len() { return None; }
        let seen = (o.read)(&mut &out[..]).ok()?;
        Some(format!("W\t{}\t{}\t{}", hex(&out), json(&v), json(&seen)))
    } else {
        let b = unhex(arg);
        let seen = (o.read)(&mut &b[..]).ok();
        if seen.as_ref().is_some_and(odd_nan) { return None; }
        Some(format!("R\t{}\t0\t{}", hex(&b), seen.map_or("0".into(), |v| json(&v))))
    }
}

// ---- the driver ------------------------------------------------------------------------------------------
pub fn main(schemas: Vec<(Vec<Decl>, Base, Vec<Ops>)>) {
    use std::sync::{atomic::{AtomicU64, Ordering}, Arc, Mutex};
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let say = |s: usize, o: usize, case: &str, m: &str| println!("VIOLATION\t{s}\t{o}\t{case}\t{}", m.replace(['\n', '\t'], " "));
    if a[1] == "replay" {
        // replay SCHEMA TYPE CASE STRICT
        let (d, f, ops) = &schemas[a[2].parse::<usize>().unwrap()];
        let t: usize = a[3].parse().unwrap();
        let strict = a[5] == "1";
        let (kind, arg) = a[4].split_once(':').unwrap();
        let m = match kind {
            "base" => base_case(f, arg.parse().unwrap()),
            "write" => write_case(d, &ops[t], arg.parse().unwrap(), strict),
            "read" => [1, 3, 4096].iter().find_map(|s| read_case(d, &ops[t], &unhex(arg), *s, strict)),
            "deep" => {
                // the case nests by its first field, which is optional
                let b = header(d[ops[t].decl].fields[0].index, 0, true).repeat(arg.parse().unwrap());
                read_case(d, &ops[t], &b, 4096, strict)
            }
            "tswrite" | "tsread" => { if let Some(l) = ts_case(d, &ops[t], a[4].as_str()) { println!("{}\t{t}\t{}\t{l}", a[2], a[4]); } None }
            "must-fail" => match (ops[t].read)(&mut &unhex(arg)[..]) { Ok(v) => Some(format!("the truncated message {arg} is read as {}", brief(&v))), Err(_) => None },
            _ => panic!(),
        };
        if let Some(m) = m { say(a[2].parse().unwrap(), t, &a[4], &m); }
        return;
    }
    let mode = a[1].clone();
    let trace = std::env::var("WIRE_TRACE").is_ok();
    let seed: u64 = a[2].parse().unwrap();
    let end = std::time::Instant::now() + std::time::Duration::from_millis(a[3].parse().unwrap());
    let count = Arc::new(AtomicU64::new(0));
    let current: Arc<Mutex<String>> = Arc::new(Mutex::new(String::new()));
    {
        // a case that does not come back
        let (count, current) = (count.clone(), current.clone());
        std::thread::spawn(move || {
            let mut last = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_secs(20));
                let now = count.load(Ordering::SeqCst);
                if now == last && now > 0 { println!("{}", current.lock().unwrap()); std::process::exit(3); }
                last = now;
            }
        });
    }
    let mut r = Rng(seed);
    let mut good = 0u64;
    let mut bytes = 0usize;
    while std::time::Instant::now() < end {
        for (s, (d, f, ops)) in schemas.iter().enumerate() {
            if mode == "c01" {
                for _ in 0..50 {
                    let c = r.next();
                    count.fetch_add(1, Ordering::SeqCst);
                    let m = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| base_case(f, c))).unwrap_or_else(|_| Some("a panic".into()));
                    if let Some(m) = m { say(s, 0, &format!("base:{c}"), &m); return; }
                }
                continue;
            }
            for (t, o) in ops.iter().enumerate() {
                if mode == "c05" {
                    if d[o.decl].choice && d[o.decl].fields.is_empty() { continue; }
                    let c = if r.below(3) > 0 { format!("tswrite:{}", r.next()) } else { format!("tsread:{}", hex(&evolved_bytes(d, o.decl, r.next(), false))) };
                    count.fetch_add(1, Ordering::SeqCst);
                    let l = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ts_case(d, o, &c))).unwrap_or(None);
                    if let Some(l) = l { good += 1; bytes += l.len(); println!("{s}\t{t}\t{c}\t{l}"); }
                    if bytes > 24_000_000 { println!("DONE\t{}\t{good}", count.load(Ordering::SeqCst)); return; }
                    continue;
                }
                let c = r.next();
                count.fetch_add(1, Ordering::SeqCst);
                if mode == "c02" {
                    if d[o.decl].choice && d[o.decl].fields.is_empty() { continue; }
                    *current.lock().unwrap() = format!("VIOLATION\t{s}\t{t}\twrite:{c}\tdoes not come back");
                    if trace { eprintln!("{}", current.lock().unwrap()); }
                    let m = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| write_case(d, o, c, false))).unwrap_or_else(|_| Some("a panic".into()));
                    good += 1;
                    if let Some(m) = m { say(s, t, &format!("write:{c}"), &m); return; }
                } else {
                    let b = if mode == "c03" { evolved_bytes(d, o.decl, c, true) } else { arbitrary_bytes(d, o.decl, c) };
                    *current.lock().unwrap() = format!("VIOLATION\t{s}\t{t}\tread:{}\tdoes not come back", hex(&b));
                    if decode(d, o.decl, &b).0.is_ok() { good += 1; }
                    if let Some(m) = read_case(d, o, &b, [1, 3, 4096][(c % 3) as usize], false) { say(s, t, &format!("read:{}", hex(&b)), &m); return; }
                }
            }
        }
    }
    println!("DONE\t{}\t{good}", count.load(Ordering::SeqCst));
}
