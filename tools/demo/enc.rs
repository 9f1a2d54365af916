//! Small writers for the wz formats, for the zero (BMS) key unless a keystream is given.
#![allow(dead_code)]
use std::sync::Arc;
use wz_reader::{WzImage, WzNode, WzNodeArc, WzReader};

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(&mut self, v: u8) -> &mut W { self.0.push(v); self }
    pub fn u16(&mut self, v: u16) -> &mut W { self.0.extend(v.to_le_bytes()); self }
    pub fn i32(&mut self, v: i32) -> &mut W { self.0.extend(v.to_le_bytes()); self }
    pub fn u32(&mut self, v: u32) -> &mut W { self.0.extend(v.to_le_bytes()); self }
    pub fn i64(&mut self, v: i64) -> &mut W { self.0.extend(v.to_le_bytes()); self }
    pub fn raw(&mut self, v: &[u8]) -> &mut W { self.0.extend_from_slice(v); self }
    pub fn int(&mut self, v: i32) -> &mut W {
        if v > -128 && v <= 127 { self.u8(v as i8 as u8) } else { self.u8(0x80); self.i32(v) }
    }
    pub fn long_int(&mut self, v: i32) -> &mut W { self.u8(0x80); self.i32(v) }
    /// single-byte string with its length
    pub fn str(&mut self, s: &str) -> &mut W {
        if s.is_empty() { return self.u8(0); }
        if !s.is_ascii() { return self.wstr(s); }
        let n = s.len();
        if n < 128 { self.u8(-(n as i32) as i8 as u8); } else { self.u8(0x80); self.i32(n as i32); }
        for (i, b) in s.bytes().enumerate() { self.u8(b ^ 0xAAu8.wrapping_add(i as u8)); }
        self
    }
    /// UTF-16 string with its length
    pub fn wstr(&mut self, s: &str) -> &mut W {
        let u: Vec<u16> = s.encode_utf16().collect();
        if u.len() < 127 { self.u8(u.len() as u8); } else { self.u8(0x7F); self.i32(u.len() as i32); }
        for (i, c) in u.iter().enumerate() { self.u16(c ^ 0xAAAAu16.wrapping_add(i as u16)); }
        self
    }
    /// string block stored in place
    pub fn block(&mut self, s: &str) -> &mut W { self.u8(0); self.str(s) }
    /// extended property: tag 9, size, body
    pub fn ext(&mut self, body: W) -> &mut W { self.u8(9); self.u32(body.0.len() as u32); self.raw(&body.0) }
}
pub fn w() -> W { W::default() }

/// header of an extended property
pub fn kind(name: &str) -> W { let mut x = w(); x.u8(0x73).str(name); x }

/// image bytes: header and the given list body (count and entries)
pub fn image(list: W) -> Vec<u8> {
    let mut x = w();
    x.u8(0x73).str("Property").u16(0).raw(&list.0);
    x.0
}
pub fn node_of(name: &str, bytes: &[u8]) -> WzNodeArc {
    let reader = Arc::new(WzReader::from_buff(bytes).with_iv([0; 4]));
    let img = WzImage::new(&name.into(), 0, bytes.len(), &reader);
    WzNode::new(&name.into(), img, None).into_lock()
}
pub fn parse(n: &WzNodeArc) -> bool { n.write().unwrap().parse(n).is_ok() }

pub fn hash(v: u32) -> u32 { v.to_string().bytes().fold(0u32, |a, b| a.wrapping_mul(32).wrapping_add(b as u32 + 1)) }
pub fn encver(h: u32) -> u16 { (!(h >> 24 ^ h >> 16 ^ h >> 8 ^ h) & 0xFF) as u16 }
pub fn enc_offset(fstart: u32, pos: u32, hash: u32, target: u32) -> u32 {
    let mut o = !(pos.wrapping_sub(fstart));
    o = o.wrapping_mul(hash).wrapping_sub(0x581C3F6D);
    o = o.rotate_left(o & 0x1F);
    (target.wrapping_sub(fstart.wrapping_mul(2))) ^ o
}

pub enum E { Dir(&'static str, Vec<E>), Img(&'static str, Vec<u8>) }
/// PKG1 archive: header text, version, entries; blocks in depth-first order
pub fn pkg1(text: &[u8], version: u32, root: &[E]) -> Vec<u8> {
    let h = hash(version);
    let fstart = 16 + text.len() as u32;
    let mut x = w();
    x.raw(b"PKG1").i64(0).u32(fstart).raw(text).u16(encver(h));
    let mut out = x.0;
    dir(&mut out, root, fstart, h);
    let n = out.len() as i64 - fstart as i64;
    out[4..12].copy_from_slice(&n.to_le_bytes());
    out
}
fn dir(out: &mut Vec<u8>, es: &[E], fstart: u32, h: u32) {
    let mut x = w();
    x.int(es.len() as i32);
    out.append(&mut x.0);
    let mut fix = vec![];
    for e in es {
        let mut x = w();
        match e {
            E::Dir(n, _) => x.u8(3).str(n).int(1),
            E::Img(n, b) => x.u8(4).str(n).long_int(b.len() as i32),
        };
        x.int(0);
        out.append(&mut x.0);
        fix.push(out.len());
        out.extend([0; 4]);
    }
    for (e, p) in es.iter().zip(fix) {
        let at = out.len() as u32;
        let o = enc_offset(fstart, p as u32, h, at);
        out[p..p + 4].copy_from_slice(&o.to_le_bytes());
        match e {
            E::Dir(_, k) => dir(out, k, fstart, h),
            E::Img(_, b) => out.extend_from_slice(b),
        }
    }
}
pub fn open(name: &str, bytes: &[u8], version: Option<i32>) -> Result<WzNodeArc, String> {
    let p = std::path::Path::new(&std::env::var("DEMO_SCRATCH").unwrap()).join(name);
    std::fs::write(&p, bytes).unwrap();
    let n = WzNode::from_wz_file(&p, None).map_err(|e| e.to_string())?;
    let n = match version {
        None => n,
        Some(v) => WzNode::from_wz_file_full(&p, Some(wz_reader::version::WzMapleVersion::BMS), Some(v), None, None).map_err(|e| e.to_string())?,
    };
    let n = n.into_lock();
    n.write().unwrap().parse(&n).map_err(|e| e.to_string())?;
    Ok(n)
}
