//! Reference implementations written from the format description, independent of the crate under test.
use aes::cipher::{generic_array::GenericArray, BlockEncrypt, KeyInit};
use std::collections::HashMap;
use std::sync::{Arc, LazyLock, Mutex};

/// The 32-byte AES key of the format: one meaningful byte of the published 128-byte user key per 16-byte row.
pub const AES_KEY: [u8; 32] = {
    let src = [0x13u8, 0x08, 0x06, 0xB4, 0x1B, 0x0F, 0x33, 0x52];
    let mut k = [0u8; 32];
    let mut i = 0;
    while i < 8 {
        k[i * 4] = src[i];
        i += 1;
    }
    k
};

pub const IV_GMS: [u8; 4] = [0x4D, 0x23, 0xC7, 0x2B];
pub const IV_EMS: [u8; 4] = [0xB9, 0x7D, 0x63, 0xE9];
pub const IV_BMS: [u8; 4] = [0; 4];

/// keystream: block_0 = E(iv x4), block_{n} = E(block_{n-1}); an all-zero iv means no encryption
pub fn keystream(iv: [u8; 4], aes_key: &[u8; 32], len: usize) -> Vec<u8> {
    if iv == [0; 4] {
        return vec![0; len];
    }
    let c = aes::Aes256::new(GenericArray::from_slice(aes_key));
    let mut block = [0u8; 16];
    for (i, b) in block.iter_mut().enumerate() {
        *b = iv[i % 4];
    }
    let mut out = Vec::with_capacity(len + 16);
    while out.len() < len {
        let mut g = GenericArray::clone_from_slice(&block);
        c.encrypt_block(&mut g);
        block.copy_from_slice(&g);
        out.extend_from_slice(&block);
    }
    out.truncate(len);
    out
}

static STREAMS: LazyLock<Mutex<HashMap<[u8; 4], Arc<Vec<u8>>>>> = LazyLock::new(Default::default);

/// Cached keystream for an iv with the default key, at least `len` long.
pub fn stream(iv: [u8; 4], len: usize) -> Arc<Vec<u8>> {
    let mut m = STREAMS.lock().unwrap();
    if let Some(s) = m.get(&iv) {
        if s.len() >= len {
            return s.clone();
        }
    }
    let s = Arc::new(keystream(iv, &AES_KEY, len.max(2048).next_power_of_two()));
    if m.len() > 4000 {
        m.clear();
    }
    m.insert(iv, s.clone());
    s
}

pub fn xor_stream(data: &mut [u8], iv: [u8; 4]) {
    let s = stream(iv, data.len());
    for (b, k) in data.iter_mut().zip(s.iter()) {
        *b ^= *k;
    }
}

/// body (without length prefix) of an encrypted single-byte string
pub fn enc_ascii(s: &[u8], iv: [u8; 4]) -> Vec<u8> {
    let mut v: Vec<u8> = s.iter().enumerate().map(|(i, b)| b ^ (0xAAu8).wrapping_add(i as u8)).collect();
    xor_stream(&mut v, iv);
    v
}
/// body of an encrypted UTF-16 string
pub fn enc_unicode(s: &[u16], iv: [u8; 4]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len() * 2);
    for (i, c) in s.iter().enumerate() {
        v.extend_from_slice(&(c ^ 0xAAAAu16.wrapping_add(i as u16)).to_le_bytes());
    }
    xor_stream(&mut v, iv);
    v
}

pub fn version_hash(v: u32) -> u32 {
    v.to_string().bytes().fold(0u32, |h, c| h.wrapping_mul(32).wrapping_add(c as u32).wrapping_add(1))
}
pub fn encver(hash: u32) -> u8 {
    let b = hash.to_be_bytes();
    0xff ^ b[0] ^ b[1] ^ b[2] ^ b[3]
}

/// The value to store at file position `pos` so that it decodes to absolute offset `target` (PKG1).
pub fn enc_offset_pkg1(fstart: u32, pos: u32, hash: u32, target: u32) -> u32 {
    let k = !(pos.wrapping_sub(fstart));
    let k = k.wrapping_mul(hash).wrapping_sub(0x581C_3F6D);
    let k = k.rotate_left(k & 0x1f);
    // decoded = (k ^ enc) + 2*fstart
    target.wrapping_sub(fstart.wrapping_mul(2)) ^ k
}

// ------------------------------------------------------------------ little-endian writer

#[derive(Default, Clone)]
/// Bytes so far, and a stretch of zeros in them that is only noted (where it starts, how long it is).
pub struct W(pub Vec<u8>, pub Option<(usize, usize)>);
impl W {
    pub fn u8(&mut self, v: u8) {
        self.0.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn i16(&mut self, v: i16) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn i32(&mut self, v: i32) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn i64(&mut self, v: i64) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    pub fn bytes(&mut self, v: &[u8]) {
        self.0.extend_from_slice(v)
    }
    pub fn pos(&self) -> usize {
        self.0.len() + self.1.map_or(0, |h| h.1)
    }
    pub fn hole(&mut self, len: usize) {
        assert!(self.1.is_none());
        self.1 = Some((self.0.len(), len));
    }
    pub fn patch_u32(&mut self, at: usize, v: u32) {
        let at = self.1.filter(|h| at >= h.0 + h.1).map_or(at, |h| at - h.1);
        self.0[at..at + 4].copy_from_slice(&v.to_le_bytes());
    }
    /// compressed int: one byte when it fits (and `long` is not forced), else 0x80 + value
    pub fn wz_int(&mut self, v: i32, long: bool) {
        if !long && (-127..=127).contains(&v) {
            self.u8(v as i8 as u8);
        } else {
            self.u8(0x80);
            self.i32(v);
        }
    }
    pub fn wz_int64(&mut self, v: i64, long: bool) {
        if !long && (-127..=127).contains(&v) {
            self.u8(v as i8 as u8);
        } else {
            self.u8(0x80);
            self.i64(v);
        }
    }
    /// wz string with length prefix. `wide` forces UTF-16, `long` forces the 4-byte length.
    pub fn wz_str(&mut self, s: &str, iv: [u8; 4], wide: bool, long: bool) {
        if s.is_empty() {
            self.u8(0);
            return;
        }
        if s.is_ascii() && !wide {
            let n = s.len();
            if n > 127 || long {
                self.u8(0x80);
                self.i32(n as i32);
            } else {
                self.u8((-(n as i32)) as i8 as u8);
            }
            let b = enc_ascii(s.as_bytes(), iv);
            self.bytes(&b);
        } else {
            let u: Vec<u16> = s.encode_utf16().collect();
            let n = u.len();
            if n >= 127 || long {
                self.u8(0x7f);
                self.i32(n as i32);
            } else {
                self.u8(n as u8);
            }
            let b = enc_unicode(&u, iv);
            self.bytes(&b);
        }
    }
}
