//! Archive (directory tree) model, independent PKG1/PKG2 encoders, generators and a comparator.
use crate::img::*;
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use wz_reader::{WzNodeArc, WzNodeCast};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Body {
    Prop(Vec<(S, V)>),
    /// a script, stored behind a 0x01 byte
    Lua(String),
    /// "#Property" packed text
    Packed(Vec<u8>),
}

/// Name mode bits as in `S`: bit0 wide, bit1 long length, bit2 stored elsewhere (type 2 entry).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum E {
    Dir { name: S, kids: Vec<E>, cks: i32 },
    Img { name: S, body: Body, cks: i32 },
    /// placeholder entry (type 1)
    Skip([u8; 10]),
}

/// Where every stored thing ended up.
#[derive(Clone, Debug, PartialEq)]
pub enum Laid {
    Dir { name: String, offset: usize, size: usize, opos: usize, kids: Vec<Laid> },
    Img { name: String, offset: usize, size: usize, opos: usize, body: Body },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Layout {
    /// order keys for blocks; position in file follows the sorted keys
    pub order: Vec<u8>,
    /// gap before a block
    pub gaps: Vec<u8>,
    pub tail: u8,
    /// a hole of so many bytes before one of the blocks (a sparse file; names are stored in place then)
    #[serde(default)]
    pub hole: (u8, u32),
}

/// File contents with a hole at a position.
pub struct Holed {
    pub bytes: Vec<u8>,
    pub at: usize,
    pub hole: usize,
}
impl Holed {
    pub fn len(&self) -> usize {
        self.bytes.len() + self.hole
    }
    pub fn write(&self, path: &std::path::Path) -> std::io::Result<()> {
        use std::io::{Seek, SeekFrom, Write};
        let mut f = std::fs::File::create(path)?;
        f.write_all(&self.bytes[..self.at])?;
        f.seek(SeekFrom::Current(self.hole as i64))?;
        f.write_all(&self.bytes[self.at..])?;
        f.set_len(self.len() as u64)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pkg1 {
    pub text: Vec<u8>,
    pub version: i32,
    pub encver: bool,
    pub iv: [u8; 4],
    pub root: Vec<E>,
    pub layout: Layout,
}

pub enum Fmt<'a> {
    Pkg1 { fstart: u32, hash: u32 },
    Pkg2(&'a P2),
}

/// PKG2 parameters the encoder needs.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct P2 {
    /// 0..=6: 1202, 1201, 1200, 1199, 1198, 1197, 1196
    pub profile: u8,
    pub hash: u64,
    pub hash1: u64,
    pub fstart: u32,
    /// the encrypted entry count to use for each directory in the 32-bit form
    pub counts: Vec<i32>,
    pub low16: u16,
}

impl P2 {
    pub fn is64(&self) -> bool {
        self.profile == 0
    }
    /// the 8-byte key of first names, when the profile encrypts them its own way
    pub fn name_key(&self) -> Option<[u8; 8]> {
        let k: u64 = match self.profile {
            0 => self.hash1 ^ self.hash ^ 0x66B57FEE317FD3DF,
            1..=3 => key1199(self.hash1 as u32, self.hash as u32) as u64,
            4 => 0xDEADBEEF,
            _ => return None,
        };
        let b = k.to_le_bytes();
        Some([b[0], b[1], b[1], b[2], b[2], b[3], b[3], b[4]])
    }
    pub fn enc_offset(&self, pos: u32, target: u32) -> u32 {
        let h = self.hash as u32;
        let h1 = self.hash1 as u32;
        let p = !pos.wrapping_sub(self.fstart);
        let t = target.wrapping_sub(self.fstart);
        const C: u32 = 0x581C3F6D;
        let ones = h1.wrapping_mul(0x0101_0101);
        match self.profile {
            6 => {
                let k = (p.wrapping_mul(h).wrapping_sub(C) ^ ones).rotate_left((h ^ h1) & 31);
                t ^ k
            }
            4 | 5 => {
                let k = (p.wrapping_mul(h ^ h1).wrapping_sub(C) ^ ones).rotate_left((h ^ h1) & 31);
                !(t ^ k)
            }
            1..=3 => {
                let pre = h ^ h1;
                let m = mix(pre ^ 0x6D4C3B2A) ^ 0x91E10DA5;
                let k = (p.wrapping_mul(pre.wrapping_add(m ^ 0xA7E3C093)).wrapping_sub(C) ^ ones ^ m.wrapping_mul(0x9E3779B9))
                    .rotate_left((pre ^ m) & 31);
                !(t ^ k)
            }
            0 => {
                let pre = h ^ h1;
                let m = pre ^ 0x33BBBB33;
                let k = (p.wrapping_mul(pre.wrapping_add(m ^ 0xA7E3C093)).wrapping_sub(C) ^ ones ^ m.wrapping_mul(0x9E3779B9)).rotate_left(19);
                !(t ^ k)
            }
            _ => unreachable!(),
        }
    }
}

pub fn mix(mut k: u32) -> u32 {
    k ^= k >> 16;
    k = k.wrapping_mul(0x7FEB352D);
    k ^= k >> 15;
    k = k.wrapping_mul(0x846CA68B);
    k ^ (k >> 16)
}
pub fn key1199(hash1: u32, hash: u32) -> u32 {
    mix(mix(hash1 ^ hash ^ 0x6D4C3B2A) ^ 0x4F4CB34A)
}
/// hash2 for which `hash` is a valid hash of the profile, given hash1
pub fn hash2_for(profile: u8, hash1: u64, hash: u64) -> u64 {
    let (h1, t) = (hash1 as u32, hash as u32);
    let v45 = || {
        let base = h1 ^ t;
        let m = mix(base ^ 0x6D4C3B2A) ^ 0x91E10DA5;
        let rb = h1 ^ (m & 0xffff).wrapping_add(t).wrapping_add(0x1A2B3C4D);
        rb.rotate_left(((m ^ t) & 15) + (h1 & 15)) ^ base.wrapping_add(m)
    };
    match profile {
        0 => hash1 ^ hash ^ 0xABCDEF0123456789,
        1 | 3 => !v45() as u64,
        2 => (v45() ^ 0x2A2C818B) as u64,
        4 => !((h1 ^ t.wrapping_add(0x1A2B3C4D)).rotate_left((t & 15) + (h1 & 15)) ^ t ^ h1) as u64,
        5 => ((h1 ^ t.wrapping_add(0x1A2B3C4D)).rotate_left(t & 31) ^ t) as u64,
        6 => (h1.rotate_left(7) ^ t) as u64,
        _ => unreachable!(),
    }
}

struct Block<'a> {
    kids: Option<&'a [E]>,
    bytes: Vec<u8>,
    size: usize,
    pos: usize,
    /// child block numbers, in entry order (skips excluded)
    sub: Vec<usize>,
    /// where the offset of this block is stored
    opos: usize,
}

/// A 32-bit PKG2 list can't be told from anything else when nothing is in it, such a directory has no size.
fn stored_size(b: &Block, p2: Option<&P2>) -> usize {
    match (b.kids, p2) {
        (Some([]), Some(p)) if !p.is64() => 0,
        _ => b.size,
    }
}

pub fn encode_body(b: &Body, iv: [u8; 4]) -> Vec<u8> {
    match b {
        Body::Prop(t) => encode_image(t, iv),
        Body::Lua(s) => {
            let mut w = W::default();
            w.u8(1);
            w.wz_int(s.len() as i32, false);
            let mut d = s.as_bytes().to_vec();
            xor_stream(&mut d, iv);
            w.bytes(&d);
            w.0
        }
        Body::Packed(d) => {
            let mut v = b"#Property".to_vec();
            v.extend_from_slice(d);
            v
        }
    }
}

fn int_len(v: i32) -> usize {
    if (-127..=127).contains(&v) {
        1
    } else {
        5
    }
}

/// bytes of a name inside an entry
fn name_bytes(s: &S, iv: [u8; 4]) -> Vec<u8> {
    let mut w = W::default();
    w.wz_str(&s.0, iv, s.1 & 1 != 0, s.1 & 2 != 0);
    w.0
}
fn pkg2_name(s: &S, key: [u8; 8], wide_len: bool) -> Vec<u8> {
    let u: Vec<u16> = s.0.encode_utf16().collect();
    let mut w = W::default();
    if wide_len {
        w.i16(-(u.len() as i16));
    } else {
        w.u8((-(u.len() as i32)) as i8 as u8);
    }
    let b: Vec<u8> = u.iter().flat_map(|c| c.to_le_bytes()).enumerate().map(|(i, b)| b ^ key[i % 8]).collect();
    w.bytes(&b);
    w.0
}

fn entry_parts(e: &E) -> (&S, u8, i32) {
    match e {
        E::Dir { name, cks, .. } => (name, 3, *cks),
        E::Img { name, cks, .. } => (name, 4, *cks),
        E::Skip(_) => unreachable!(),
    }
}

/// Lay out blocks after `head` (which ends where the root listing starts) and encode everything.
pub fn encode_tree(head: Vec<u8>, root: &[E], iv: [u8; 4], fmt: &Fmt, layout: &Layout) -> (Vec<u8>, Vec<Laid>) {
    let (h, l) = encode_holed(head, root, iv, fmt, layout);
    assert_eq!(h.hole, 0, "HARNESS-ERROR");
    (h.bytes, l)
}
pub fn encode_holed(head: Vec<u8>, root: &[E], iv: [u8; 4], fmt: &Fmt, layout: &Layout) -> (Holed, Vec<Laid>) {
    let mut blocks: Vec<Block> = vec![];
    fn add<'a>(kids: Option<&'a [E]>, bytes: Vec<u8>, blocks: &mut Vec<Block<'a>>, iv: [u8; 4]) -> usize {
        let id = blocks.len();
        blocks.push(Block { kids, bytes, size: 0, pos: 0, sub: vec![], opos: 0 });
        if let Some(l) = kids {
            let mut sub = vec![];
            for e in l {
                match e {
                    E::Dir { kids, .. } => sub.push(add(Some(kids), vec![], blocks, iv)),
                    E::Img { body, .. } => sub.push(add(None, encode_body(body, iv), blocks, iv)),
                    E::Skip(_) => {}
                }
            }
            blocks[id].sub = sub;
        }
        id
    }
    add(Some(root), vec![], &mut blocks, iv);
    // sizes, children first (children always have higher numbers)
    let p2 = match fmt {
        Fmt::Pkg2(p) => Some(*p),
        _ => None,
    };
    for i in (0..blocks.len()).rev() {
        let size = match blocks[i].kids {
            None => blocks[i].bytes.len(),
            Some(l) => {
                let mut n = 0usize;
                let mut si = 0;
                let mut first = true;
                let cnt_len = match p2 {
                    None => int_len(l.len() as i32),
                    Some(p) if p.is64() => {
                        let c = count64(p, l.len());
                        if (-127..=127).contains(&c) {
                            1
                        } else {
                            9
                        }
                    }
                    Some(p) => int_len(count32(p, i)),
                };
                n += cnt_len;
                for e in l {
                    match e {
                        E::Skip(_) => n += 11,
                        e => {
                            let (name, _, cks) = entry_parts(e);
                            let child = &blocks[blocks[i].sub[si]];
                            si += 1;
                            n += 1 + int_len(stored_size(child, p2) as i32) + int_len(cks) + 4;
                            n += match p2 {
                                None if name.1 & 4 != 0 && layout.hole.1 == 0 => 4,
                                None => name_bytes(name, iv).len(),
                                Some(p) if first && p.name_key().is_some() => pkg2_name(name, p.name_key().unwrap(), p.is64()).len(),
                                Some(_) => name_bytes(name, iv).len(),
                            };
                            first = false;
                        }
                    }
                }
                if let Some(p) = p2 {
                    if !p.is64() {
                        n += cnt_len;
                    }
                }
                n
            }
        };
        blocks[i].size = size;
    }
    // positions
    let mut order: Vec<usize> = (1..blocks.len()).collect();
    if !layout.order.is_empty() {
        order.sort_by_key(|i| layout.order[*i % layout.order.len()]);
    }
    let mut at = head.len();
    blocks[0].pos = at;
    at += blocks[0].size;
    let (mut cut, mut hole) = (at, 0);
    for (k, &i) in order.iter().enumerate() {
        if !layout.gaps.is_empty() {
            at += layout.gaps[i % layout.gaps.len()] as usize;
        }
        if layout.hole.1 > 0 && k == layout.hole.0 as usize % order.len() {
            (cut, hole) = (at, layout.hole.1 as usize);
            at += hole;
        }
        blocks[i].pos = at;
        at += blocks[i].size;
    }
    let phys = |pos: usize| if pos >= cut + hole { pos - hole } else { pos };
    at -= hole;
    // string pool for type-2 names
    let mut buf = head;
    let head_len = buf.len();
    buf.resize(at, 0xE7);
    let mut pool: std::collections::HashMap<(String, u8, bool), usize> = Default::default();
    for i in 0..blocks.len() {
        let bytes = match blocks[i].kids {
            None => std::mem::take(&mut blocks[i].bytes),
            Some(l) => {
                let pos0 = blocks[i].pos;
                let mut w = W::default();
                let mut si = 0;
                let mut first = true;
                match p2 {
                    None => w.wz_int(l.len() as i32, false),
                    Some(p) if p.is64() => w.wz_int64(count64(p, l.len()), false),
                    Some(p) => w.wz_int(count32(p, i), false),
                }
                for e in l {
                    let e = match e {
                        E::Skip(d) => {
                            w.u8(1);
                            w.bytes(d);
                            continue;
                        }
                        e => e,
                    };
                    let (name, ty, cks) = entry_parts(e);
                    let cid = blocks[i].sub[si];
                    let (csize, cpos) = (stored_size(&blocks[cid], p2), blocks[cid].pos);
                    si += 1;
                    match fmt {
                        Fmt::Pkg1 { fstart, hash } => {
                            if name.1 & 4 != 0 && hole == 0 {
                                w.u8(2);
                                let key = (name.0.clone(), ty, name.1 & 1 != 0);
                                let p = *pool.entry(key).or_insert_with(|| {
                                    let p = buf.len();
                                    buf.push(ty);
                                    buf.extend_from_slice(&name_bytes(name, iv));
                                    p
                                });
                                w.i32(p as i32 - *fstart as i32);
                            } else {
                                w.u8(ty);
                                // an inline entry can also serve later by-offset entries of the same name
                                let p = pos0 + w.pos() - 1;
                                pool.entry((name.0.clone(), ty, name.1 & 1 != 0)).or_insert(p);
                                w.bytes(&name_bytes(name, iv));
                            }
                            w.wz_int(csize as i32, false);
                            w.wz_int(cks, false);
                            let p = pos0 + w.pos();
                            blocks[cid].opos = p;
                            w.u32(enc_offset_pkg1(*fstart, p as u32, *hash, cpos as u32));
                        }
                        Fmt::Pkg2(p) => {
                            w.u8(ty);
                            match p.name_key() {
                                Some(k) if first => w.bytes(&pkg2_name(name, k, p.is64())),
                                _ => w.bytes(&name_bytes(name, iv)),
                            }
                            w.wz_int(csize as i32, false);
                            w.wz_int(cks, false);
                        }
                    }
                    first = false;
                }
                if let Some(p) = p2 {
                    if !p.is64() {
                        w.wz_int(count32(p, i), false);
                    }
                    for s in blocks[i].sub.clone() {
                        let pos = pos0 + w.pos();
                        blocks[s].opos = pos;
                        w.u32(p.enc_offset(pos as u32, blocks[s].pos as u32));
                    }
                }
                w.0
            }
        };
        let pos = phys(blocks[i].pos);
        let end = pos + bytes.len();
        if buf.len() < end {
            buf.resize(end, 0xE7);
        }
        buf[pos..end].copy_from_slice(&bytes);
    }
    let _ = head_len;
    buf.resize(buf.len() + layout.tail as usize, 0xE7);
    fn laid(id: usize, l: &[E], blocks: &[Block], p2: Option<&P2>) -> Vec<Laid> {
        let mut si = 0;
        let mut out = vec![];
        for e in l {
            let b = blocks[id].sub.get(si).copied();
            match e {
                E::Skip(_) => continue,
                E::Dir { name, kids, .. } => {
                    let b = b.unwrap();
                    out.push(Laid::Dir { name: name.0.clone(), offset: blocks[b].pos, size: stored_size(&blocks[b], p2), opos: blocks[b].opos, kids: laid(b, kids, blocks, p2) });
                }
                E::Img { name, body, .. } => {
                    let b = b.unwrap();
                    out.push(Laid::Img { name: name.0.clone(), offset: blocks[b].pos, size: blocks[b].size, opos: blocks[b].opos, body: body.clone() });
                }
            }
            si += 1;
        }
        out
    }
    let l = laid(0, root, &blocks, p2);
    (Holed { bytes: buf, at: cut, hole }, l)
}

fn count32(p: &P2, block: usize) -> i32 {
    p.counts[block % p.counts.len()]
}
fn count64(p: &P2, n: usize) -> i64 {
    (((n as i64) << 16) | p.low16 as i64) ^ p.hash1 as i64 ^ p.hash as i64 ^ 0x550EC4DD02C468EC
}

impl Pkg1 {
    pub fn hash(&self) -> u32 {
        version_hash(self.version as u32)
    }
    pub fn fstart(&self) -> usize {
        16 + self.text.len()
    }
    pub fn encode(&self) -> (Vec<u8>, Vec<Laid>) {
        let (h, l) = self.encode_holed();
        assert_eq!(h.hole, 0, "HARNESS-ERROR");
        (h.bytes, l)
    }
    pub fn encode_holed(&self) -> (Holed, Vec<Laid>) {
        let mut w = W::default();
        w.bytes(b"PKG1");
        w.bytes(&[0; 8]);
        w.u32(self.fstart() as u32);
        w.bytes(&self.text);
        if self.encver {
            w.u16(encver(self.hash()) as u16);
        }
        let (mut h, l) = encode_holed(w.0, &self.root, self.iv, &Fmt::Pkg1 { fstart: self.fstart() as u32, hash: self.hash() }, &self.layout);
        let fsize = (h.len() - self.fstart()) as u64;
        h.bytes[4..12].copy_from_slice(&fsize.to_le_bytes());
        (h, l)
    }
}

// ------------------------------------------------------------------ comparator

/// Whether another version hash also puts every root entry inside the file (then the archive itself is ambiguous).
pub fn hash_fits(laid: &[Laid], bytes: &[u8], fstart: usize, hash: u32) -> bool {
    laid.iter().all(|l| {
        let (Laid::Dir { opos, size, .. } | Laid::Img { opos, size, .. }) = l;
        let enc = u32::from_le_bytes(bytes[*opos..*opos + 4].try_into().unwrap());
        // enc_offset_pkg1 is an involution up to the additive part
        let off = (enc ^ (enc_offset_pkg1(fstart as u32, *opos as u32, hash, (fstart as u32).wrapping_mul(2)))).wrapping_add(fstart as u32 * 2);
        off as usize + size <= bytes.len()
    })
}

pub fn laid_name(l: &Laid) -> &str {
    match l {
        Laid::Dir { name, .. } | Laid::Img { name, .. } => name,
    }
}

/// Compare the children of `node` with the stored tree; `parse_images` also checks contents.
pub fn cmp_dir(node: &WzNodeArc, l: &[Laid], path: &str, parse_images: bool) -> Result<(), String> {
    let r = node.read().unwrap();
    if r.children.len() != l.len() {
        let names: Vec<String> = r.children.keys().map(|k| k.to_string()).collect();
        return Err(format!("{path}: expected {} entries, got {}: {:?}", l.len(), r.children.len(), names));
    }
    for e in l {
        let name = laid_name(e);
        let p = format!("{path}/{name}");
        let Some(c) = r.at(name) else { return Err(format!("{p}: missing")) };
        {
            let cr = c.read().unwrap();
            if cr.name.as_str() != name {
                return Err(format!("{p}: node name {:?}", cr.name.as_str()));
            }
            match cr.parent.upgrade() {
                Some(par) if std::sync::Arc::ptr_eq(&par, node) => {}
                Some(_) => return Err(format!("{p}: parent link points to another node")),
                None => return Err(format!("{p}: parent link is dangling")),
            }
        }
        match e {
            Laid::Dir { offset, size, kids, .. } => {
                {
                    let cr = c.read().unwrap();
                    let Some(d) = cr.try_as_directory() else { return Err(format!("{p}: expected a directory")) };
                    if (d.offset, d.block_size) != (*offset, *size) {
                        return Err(format!("{p}: offset/size {}/{} expected {offset}/{size}", d.offset, d.block_size));
                    }
                }
                cmp_dir(&c, kids, &p, parse_images)?;
            }
            Laid::Img { offset, size, body, .. } => {
                {
                    let cr = c.read().unwrap();
                    let Some(i) = cr.try_as_image() else { return Err(format!("{p}: expected an image")) };
                    if (i.offset, i.block_size) != (*offset, *size) {
                        return Err(format!("{p}: offset/size {}/{} expected {offset}/{size}", i.offset, i.block_size));
                    }
                    use wz_reader::WzImageHeaderType as H;
                    let (kind, want) = (i.get_header_type(), match body {
                        Body::Prop(_) => H::WithoutOffset,
                        Body::Lua(_) => H::PlainText,
                        Body::Packed(_) => H::PackText,
                    });
                    if kind != want {
                        return Err(format!("{p}: header kind {kind:?}, expected {want:?}"));
                    }
                }
                if parse_images {
                    c.write().unwrap().parse(&c).map_err(|e| format!("{p}: image parse: {e}"))?;
                    cmp_body(&c, body, &p)?;
                }
            }
        }
    }
    Ok(())
}

/// Whether a script encrypted with `iv` also looks like text under a key tried earlier.
pub fn lua_ambiguous(s: &str, iv: [u8; 4]) -> bool {
    let n = s.len().min(64);
    let own = stream(iv, n);
    for k in [IV_EMS, IV_GMS, IV_BMS] {
        if k == iv {
            return false;
        }
        let ks = stream(k, n);
        let d: Vec<u8> = s.as_bytes()[..n].iter().enumerate().map(|(i, b)| b ^ own[i] ^ ks[i]).collect();
        match std::str::from_utf8(&d) {
            Ok(_) => return true,
            // cut in the middle of a character
            Err(e) if e.error_len().is_none() => return true,
            Err(_) => {}
        }
    }
    true
}

/// Compare a parsed image node with its stored body.
pub fn cmp_body(node: &WzNodeArc, body: &Body, p: &str) -> Result<(), String> {
    match body {
        Body::Prop(t) => cmp_list(node, t, p, true),
        Body::Lua(s) => {
            let r = node.read().unwrap();
            let Some(c) = r.at("Script") else { return Err(format!("{p}: no Script child")) };
            if r.children.len() != 1 {
                return Err(format!("{p}: {} children", r.children.len()));
            }
            let cr = c.read().unwrap();
            let Some(l) = cr.try_as_lua() else { return Err(format!("{p}: Script is not a lua value")) };
            if s.len() < 64 {
                // too short for the key to be certain; C15 decides those that are
                return l.extract_lua().map(|_| ()).or(Ok(()));
            }
            match l.extract_lua() {
                Ok(g) if &g == s => Ok(()),
                Ok(g) => Err(format!("{p}: script {:?} expected {:?}", g, s)),
                Err(e) => Err(format!("{p}: script error {e}")),
            }
        }
        Body::Packed(d) => {
            let r = node.read().unwrap();
            let Some(c) = r.at("text.txt") else { return Err(format!("{p}: no text.txt child")) };
            let cr = c.read().unwrap();
            let Some(l) = cr.try_as_raw_data() else { return Err(format!("{p}: text is not raw data")) };
            if l.get_buffer() == &d[..] {
                Ok(())
            } else {
                Err(format!("{p}: packed text differs: got {} bytes, expected {}", l.get_buffer().len(), d.len()))
            }
        }
    }
}

// ------------------------------------------------------------------ generators

pub fn ename(sfx: &'static str, allow_ref: bool) -> BoxedStrategy<S> {
    (
        prop_oneof![
            5 => "[A-Za-z0-9_]{1,12}".prop_map(|s| s.to_string()),
            2 => any_text().prop_map(|s| s.replace('/', "_")),
            1 => (prop_oneof![Just(121usize), Just(122), Just(123), Just(124), Just(130)]).prop_map(|n| "n".repeat(n)),
        ],
        (any_mode(), prop_oneof![8 => Just(0u8), 1 => (0u8..4).prop_map(|k| 16 | k << 5)]).prop_map(|(a, b)| a | b),
    )
        .prop_map(move |(a, m)| {
            let mut a = if a.is_empty() { "e".to_string() } else { a };
            if sfx == ".img" && m & 16 != 0 {
                // the end of a name decides what it is, not the middle
                a.push_str([".txt", ".lua", ".img", ".wz"][(m >> 5) as usize & 3]);
            }
            a.push_str(sfx);
            S(a, if allow_ref { m & 7 } else { m & 3 })
        })
        .boxed()
}

/// image trees small enough to keep archives cheap
pub fn small_tree() -> BoxedStrategy<Vec<(S, V)>> {
    tree_with(full_leaf(Uols::None), 2, 8)
}

pub fn script_text() -> BoxedStrategy<String> {
    prop_oneof![
        vec(0x20u8..0x7f, 0..80).prop_map(|v| String::from_utf8(v).unwrap()),
        vec(any_text(), 0..6).prop_map(|v| v.join("\n")),
    ]
    .boxed()
}

pub fn img_body() -> BoxedStrategy<Body> {
    small_tree().prop_map(Body::Prop).boxed()
}

pub fn dedup_e(l: Vec<E>) -> Vec<E> {
    let mut seen = std::collections::HashSet::new();
    l.into_iter()
        .map(|mut e| {
            match &mut e {
                E::Dir { name, kids, .. } => {
                    while !seen.insert(name.0.clone()) {
                        name.0.push('~');
                    }
                    *kids = dedup_e(std::mem::take(kids));
                }
                E::Img { name, .. } => {
                    while !seen.insert(name.0.clone()) {
                        name.0.insert(0, '~');
                    }
                }
                E::Skip(_) => {}
            }
            e
        })
        .collect()
}

pub fn entries(pkg1: bool, depth: u32, size: u32, lua: bool) -> BoxedStrategy<Vec<E>> {
    let leaf = {
        let img = (ename(".img", pkg1), img_body(), i32_edge()).prop_map(|(name, body, cks)| E::Img { name, body, cks });
        let l = (ename(".lua", pkg1), script_text(), i32_edge()).prop_map(|(name, s, cks)| E::Img { name, body: Body::Lua(s), cks });
        let p = (ename(".img", pkg1), blob(60), i32_edge()).prop_map(|(name, d, cks)| E::Img { name, body: Body::Packed(d), cks });
        let skip = any::<[u8; 10]>().prop_map(E::Skip);
        let (wl, ws) = (if lua { 1 } else { 0 }, if pkg1 { 1 } else { 0 });
        prop_oneof![8 => img, wl => l, wl => p, ws => skip]
    };
    let node = leaf.prop_recursive(depth, size, 5, move |inner| {
        (ename("", pkg1), vec(inner, 0..5), i32_edge()).prop_map(|(name, kids, cks)| E::Dir { name, kids, cks }).boxed()
    });
    let min = if pkg1 { 0 } else { 1 };
    vec(node, min..6).prop_map(dedup_e).boxed()
}

/// many entries: long entry counts, 256 and 512 included, in the root or below it
pub fn wide(pkg1: bool) -> BoxedStrategy<Vec<E>> {
    (prop_oneof![2 => Just(127usize), 2 => Just(128), 2 => Just(255), 2 => Just(256), 2 => Just(257), 2 => Just(512), 6 => 100usize..300, 1 => 1000usize..6000], 0u8..4, prop::option::weighted(0.4, ename("", pkg1)))
        .prop_map(move |(n, m, sub)| {
            let l: Vec<E> = (0..n)
                .map(|i| E::Img { name: S(format!("{i}.img"), m), body: Body::Prop(vec![(S("v".into(), 0), V::Int(i as i32, false, false))]), cks: 0 })
                .collect();
            match sub {
                Some(name) => vec![E::Dir { name, kids: l, cks: 0 }],
                None => l,
            }
        })
        .boxed()
}

/// entries at the bottom of a chain of directories, some of which hold an image too
pub fn deep_dirs(pkg1: bool) -> BoxedStrategy<Vec<E>> {
    let sib = (ename(".img", pkg1), img_body(), i32_edge()).prop_map(|(name, body, cks)| E::Img { name, body, cks });
    (entries(pkg1, 2, 6, false), vec((ename("", pkg1), prop::option::weighted(0.3, sib), i32_edge()), 10..=120))
        .prop_map(|(mut t, l)| {
            for (name, sib, cks) in l {
                t = vec![E::Dir { name, kids: t, cks }];
                t.extend(sib);
                t = dedup_e(t);
            }
            t
        })
        .boxed()
}

/// `entries`, now and then very wide or very deep
pub fn root_entries(pkg1: bool, depth: u32, size: u32, lua: bool) -> BoxedStrategy<Vec<E>> {
    prop_oneof![16 => entries(pkg1, depth, size, lua), 2 => wide(pkg1), 1 => deep_dirs(pkg1)].boxed()
}

pub fn layout() -> BoxedStrategy<Layout> {
    (vec(any::<u8>(), 0..7), vec(prop_oneof![3 => Just(0u8), 1 => 0u8..40], 0..5), prop_oneof![Just(0u8), 0u8..50])
        .prop_map(|(order, gaps, tail)| Layout { order, gaps, tail, hole: (0, 0) })
        .boxed()
}

pub fn header_text() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        Just(b"Package file v1.0 Copyright 2002 Wizet, ZMS\0".to_vec()),
        vec(any::<u8>(), 0..120),
        vec(any::<u8>(), 0..4)
    ]
    .boxed()
}

/// versions the detection covers
pub fn guessable_version(encver: bool) -> BoxedStrategy<i32> {
    if encver {
        (1i32..=2000).boxed()
    } else {
        (770i32..=780).boxed()
    }
}

pub fn region_of(iv: [u8; 4]) -> Option<wz_reader::version::WzMapleVersion> {
    use wz_reader::version::WzMapleVersion::*;
    match iv {
        IV_GMS => Some(GMS),
        IV_EMS => Some(EMS),
        IV_BMS => Some(BMS),
        _ => None,
    }
}

pub fn first_named(l: &[E]) -> Option<&S> {
    match l.first()? {
        E::Dir { name, .. } | E::Img { name, .. } => Some(name),
        E::Skip(_) => None,
    }
}

/// Region keys under which the first entry's name decodes to pure ASCII (what detection can go by).
pub fn plausible_keys(first: &S, iv: [u8; 4]) -> Vec<[u8; 4]> {
    let wide = first.1 & 1 != 0 || !first.0.is_ascii();
    [IV_BMS, IV_GMS, IV_EMS]
        .into_iter()
        .filter(|k| {
            let (cipher, stream_k): (Vec<u8>, Vec<u8>) = if wide {
                let b = enc_unicode(&first.0.encode_utf16().collect::<Vec<_>>(), iv);
                let n = b.len();
                (b, stream(*k, n)[..n].to_vec())
            } else {
                let b = enc_ascii(first.0.as_bytes(), iv);
                let n = b.len();
                (b, stream(*k, n)[..n].to_vec())
            };
            let x: Vec<u8> = cipher.iter().zip(&stream_k).map(|(a, b)| a ^ b).collect();
            if wide {
                x.chunks(2).enumerate().all(|(i, c)| (u16::from_le_bytes([c[0], c[1]]) ^ 0xAAAAu16.wrapping_add(i as u16)) < 0x80)
            } else {
                x.iter().enumerate().all(|(i, b)| (b ^ 0xAAu8.wrapping_add(i as u8)) < 0x80)
            }
        })
        .collect()
}

pub fn count_e(l: &[E]) -> usize {
    l.iter()
        .map(|e| match e {
            E::Dir { kids, .. } => 1 + count_e(kids),
            E::Img { .. } => 1,
            E::Skip(_) => 0,
        })
        .sum()
}
pub fn has_e(l: &[E], p: &dyn Fn(&E) -> bool) -> bool {
    l.iter().any(|e| p(e) || matches!(e, E::Dir { kids, .. } if has_e(kids, p)))
}
pub fn depth_e(l: &[E]) -> usize {
    l.iter()
        .map(|e| match e {
            E::Dir { kids, .. } => 1 + depth_e(kids),
            _ => 1,
        })
        .max()
        .unwrap_or(0)
}
