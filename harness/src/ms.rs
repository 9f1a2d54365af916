//! .ms archives: independent ciphers, key derivations and encoders.
use crate::refs::W;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

// ------------------------------------------------------------------ SNOW 2.0

struct Tables {
    sbox: [u8; 256],
    alpha: [u32; 256],
    alpha_inv: [u32; 256],
}
fn gmul(mut a: u8, mut b: u8, poly: u16) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        let hi = a & 0x80 != 0;
        a <<= 1;
        if hi {
            a ^= poly as u8;
        }
        b >>= 1;
    }
    r
}
fn gpow(b: u8, n: u32, poly: u16) -> u8 {
    (0..n).fold(1, |r, _| gmul(r, b, poly))
}
fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut sbox = [0u8; 256];
        for x in 0..=255u8 {
            let inv = if x == 0 { 0 } else { gpow(x, 254, 0x11B) };
            sbox[x as usize] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        // beta is a root of x^8+x^7+x^5+x^3+1; alpha of x^4+b^23x^3+b^245x^2+b^48x+b^239
        let p = 0x1A9;
        let tab = |e: [u32; 4]| {
            let k = e.map(|n| gpow(2, n, p));
            core::array::from_fn(|c| u32::from_be_bytes(k.map(|k| gmul(c as u8, k, p))))
        };
        Tables { sbox, alpha: tab([23, 245, 48, 239]), alpha_inv: tab([16, 39, 6, 64]) }
    })
}

/// SNOW 2.0 with a 128 bit key and no IV. Key bytes are taken as signed numbers when they are
/// packed into words, as the format's own implementation does.
pub struct Snow {
    s: [u32; 16],
    r1: u32,
    r2: u32,
}
impl Snow {
    pub fn new(key: &[u8; 16]) -> Snow {
        let w = |i: usize| (0..4).fold(0u32, |a, j| a | ((key[i * 4 + j] as i8 as i32 as u32) << (24 - 8 * j)));
        let k = [w(3), w(2), w(1), w(0)];
        let mut s = [0u32; 16];
        for i in 0..4 {
            s[i] = !k[i];
            s[4 + i] = k[i];
            s[8 + i] = !k[i];
            s[12 + i] = k[i];
        }
        let mut x = Snow { s, r1: 0, r2: 0 };
        for _ in 0..32 {
            let f = x.fsm();
            x.clock(f);
        }
        // one clocking whose output is not used
        x.clock(0);
        x
    }
    fn fsm(&self) -> u32 {
        self.s[15].wrapping_add(self.r1) ^ self.r2
    }
    fn clock(&mut self, feed: u32) {
        let t = tables();
        let a = |w: u32| (w << 8) ^ t.alpha[(w >> 24) as usize];
        let b = |w: u32| (w >> 8) ^ t.alpha_inv[(w & 255) as usize];
        let new = a(self.s[0]) ^ self.s[2] ^ b(self.s[11]) ^ feed;
        let r1 = self.r2.wrapping_add(self.s[5]);
        // AES round function without the key: SubBytes then MixColumns on one column
        let x: [u8; 4] = self.r1.to_le_bytes().map(|v| t.sbox[v as usize]);
        let m = |i: usize| gmul(x[i], 2, 0x11B) ^ gmul(x[(i + 1) % 4], 3, 0x11B) ^ x[(i + 2) % 4] ^ x[(i + 3) % 4];
        self.r2 = u32::from_le_bytes([m(0), m(1), m(2), m(3)]);
        self.r1 = r1;
        self.s.rotate_left(1);
        self.s[15] = new;
    }
    pub fn next(&mut self) -> u32 {
        let z = self.fsm() ^ self.s[0];
        self.clock(0);
        z
    }
    /// whole words only
    pub fn encrypt(&mut self, d: &mut [u8]) {
        for c in d.chunks_exact_mut(4) {
            let v = u32::from_le_bytes(c.try_into().unwrap()).wrapping_add(self.next());
            c.copy_from_slice(&v.to_le_bytes());
        }
    }
}

// ------------------------------------------------------------------ ChaCha20

pub fn chacha_block(key: &[u8; 32], counter: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[i * 4..i * 4 + 4].try_into().unwrap());
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[i * 4..i * 4 + 4].try_into().unwrap());
    }
    let mut x = s;
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        for (r1, r2) in [(16, 12), (8, 7)] {
            x[a] = x[a].wrapping_add(x[b]);
            x[d] = (x[d] ^ x[a]).rotate_left(r1);
            x[c] = x[c].wrapping_add(x[d]);
            x[b] = (x[b] ^ x[c]).rotate_left(r2);
        }
    };
    for _ in 0..10 {
        q(0, 4, 8, 12);
        q(1, 5, 9, 13);
        q(2, 6, 10, 14);
        q(3, 7, 11, 15);
        q(0, 5, 10, 15);
        q(1, 6, 11, 12);
        q(2, 7, 8, 13);
        q(3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[i * 4..i * 4 + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
    }
    out
}
/// RFC 8439, 2.3.2
pub fn chacha_ok() -> bool {
    let key: [u8; 32] = core::array::from_fn(|i| i as u8);
    let nonce = [0, 0, 0, 9, 0, 0, 0, 0x4a, 0, 0, 0, 0];
    chacha_block(&key, 1, &nonce)[..8] == [0x10, 0xf1, 0xe7, 0xe4, 0xd1, 0x3b, 0x59, 0x15]
}

const BASE: [u8; 32] = [
    123, 47, 53, 72, 67, 149, 2, 185, 174, 145, 166, 225, 216, 214, 36, 180, 51, 16, 29, 61, 193, 187, 198, 244, 165, 254, 179, 105, 107, 86, 228, 117,
];

/// A stream the reader consumes in pieces: blocks are numbered from 0, and the number starts over
/// whenever a piece ends on a block boundary.
struct ChachaPieces {
    key: [u8; 32],
    block: [u8; 64],
    used: usize,
    counter: u32,
    pub blocks: usize,
    out: Vec<u8>,
}
impl ChachaPieces {
    fn new(key: [u8; 32]) -> Self {
        ChachaPieces { key, block: [0; 64], used: 64, counter: 0, blocks: 0, out: vec![] }
    }
    fn piece(&mut self, d: &[u8]) {
        for b in d {
            if self.used == 64 {
                self.block = chacha_block(&self.key, self.counter, &[0; 12]);
                self.counter += 1;
                self.blocks += 1;
                self.used = 0;
            }
            self.out.push(b ^ self.block[self.used]);
            self.used += 1;
        }
        if self.used == 64 {
            self.counter = 0;
        }
    }
}

// ------------------------------------------------------------------ archives

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    pub name: String,
    pub check_sum: i32,
    pub flags: i32,
    pub unk: [i32; 4],
    pub key: [u8; 16],
    pub data: Vec<u8>,
    /// how much longer than the data the stored block is
    pub slack: Slack,
    /// blocks of 1024 left free before
    pub gap: u8,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Slack {
    /// up to the next multiple of 1024
    Kilo,
    /// one kilobyte more than that
    More,
    /// up to the next multiple of 4
    Word,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ms {
    pub v2: bool,
    pub name: String,
    pub salt: String,
    /// source of all filler bytes
    pub noise: Vec<u8>,
    pub entries: Vec<Entry>,
    /// order of the data blocks
    pub order: Vec<u8>,
    /// so many blocks of nothing before one of the data blocks (a sparse file)
    #[serde(default)]
    pub hole: (u8, u32),
}

pub struct Stored {
    pub start: usize,
    pub size_aligned: usize,
}

fn sum(s: &str) -> usize {
    s.bytes().map(|b| b as usize).sum()
}

impl Ms {
    fn noise(&self, n: usize, at: usize) -> Vec<u8> {
        (0..n).map(|i| self.noise[(i + at) % self.noise.len()]).collect()
    }
    pub fn rand_count(&self) -> usize {
        sum(&self.name.to_ascii_lowercase()) % 312 + 30
    }
    fn salted(&self) -> Vec<u8> {
        format!("{}{}", self.name.to_ascii_lowercase(), self.salt).into_bytes()
    }
    /// key_hash of the salt
    fn salt_hash(&self) -> u32 {
        self.salt.bytes().fold(0x811C9DC5, |h: u32, b| (h ^ b as u32).wrapping_mul(0x01000193))
    }
    fn image_key<const N: usize>(&self, e: &Entry) -> [u8; N] {
        let digits: Vec<usize> = self.salt_hash().to_string().bytes().map(|b| (b - b'0') as usize).collect();
        let d = |i: usize| digits[i % digits.len()];
        // the characters of the name (those of version 1 are ASCII here)
        let name: Vec<u8> = e.name.encode_utf16().map(|c| c as u8).collect();
        core::array::from_fn(|i| {
            let f = d(i) % 2 + e.key[(d(i + 2) + i) % 16] as usize + (d(i + 1) + i) % 5;
            (i + name[i % name.len()] as usize * f) as u8
        })
    }
    fn stored_len(e: &Entry) -> usize {
        let n = e.data.len();
        match e.slack {
            Slack::Kilo => n.div_ceil(1024) * 1024,
            Slack::More => n.div_ceil(1024) * 1024 + 1024,
            Slack::Word => n.div_ceil(4) * 4,
        }
    }
    fn encrypt_image(&self, e: &Entry) -> Vec<u8> {
        let mut d = e.data.clone();
        d.extend(self.noise(Self::stored_len(e) - d.len(), d.len()));
        let head = d.len().min(1024);
        if self.v2 {
            let mut key: [u8; 32] = self.image_key(e);
            key.iter_mut().zip(BASE).for_each(|(a, b)| *a ^= b);
            let h = self.salt_hash();
            let mut k = [h, h >> 1, (h >> 1) ^ 0x6C].map(|v| v.to_le_bytes()).concat();
            for (i, b) in k.iter_mut().enumerate() {
                let i = i as i32;
                *b ^= (-i + 11 * (i / 11) + ((90 + 43 * i) ^ (i >> 2)) + ((8 * i) ^ (17 * i))) as u8;
            }
            let mut nonce = [0u8; 12];
            nonce[4..].copy_from_slice(&k[..8]);
            let counter = u32::from_le_bytes(k[8..].try_into().unwrap());
            for (i, c) in d[..head].chunks_mut(64).enumerate() {
                let b = chacha_block(&key, counter.wrapping_add(i as u32), &nonce);
                c.iter_mut().zip(b).for_each(|(x, y)| *x ^= y);
            }
        } else {
            let key: [u8; 16] = self.image_key(e);
            Snow::new(&key).encrypt(&mut d);
            Snow::new(&key).encrypt(&mut d[..head]);
        }
        d
    }
    /// the file and where each entry's data lies
    pub fn encode(&self) -> (Vec<u8>, Vec<Stored>) {
        self.encode_with(&[])
    }
    /// with some of the stored numbers replaced: (entry, field, value), entry 255 being the header;
    /// field 0 is the length of the name, 1.. the numbers in stored order
    pub fn encode_with(&self, over: &[(u8, u8, i32)]) -> (Vec<u8>, Vec<Stored>) {
        let (h, stored) = self.encode_holed(over);
        assert!(h.hole == 0);
        (h.bytes, stored)
    }
    pub fn encode_holed(&self, over: &[(u8, u8, i32)]) -> (crate::arc::Holed, Vec<Stored>) {
        let starts = self.starts();
        let w = self.head(over, &starts);
        if self.entries.is_empty() {
            return (crate::arc::Holed { at: w.0.len(), bytes: w.0, hole: 0 }, vec![]);
        }
        let hole = self.hole.1 as usize;
        // the first block behind the hole
        let behind = self.sorted().get(self.hole.0 as usize % self.entries.len()).map_or(0, |i| starts[*i]);
        let base = w.pos().div_ceil(1024) * 1024;
        let mut out = w.0;
        let pad = self.noise(base - out.len(), 11);
        out.extend(pad);
        let mut stored = vec![];
        for (e, s) in self.entries.iter().zip(&starts) {
            let behind = *s >= behind && hole > 0;
            let start = base + (s - if behind { hole } else { 0 }) * 1024;
            let d = self.encrypt_image(e);
            if out.len() < start + d.len() {
                let f = self.noise(start + d.len() - out.len(), 13);
                out.extend(f);
            }
            out[start..start + d.len()].copy_from_slice(&d);
            stored.push(Stored { start: base + s * 1024, size_aligned: d.len() });
        }
        let at = if hole > 0 { base + (behind - hole) * 1024 } else { out.len() };
        (crate::arc::Holed { bytes: out, at, hole: hole * 1024 }, stored)
    }
    /// where the table of entries ends
    pub fn table_end(&self) -> usize {
        self.head(&[], &vec![0; self.entries.len()]).pos()
    }
    /// makes the last name longer until the table of entries ends on a multiple of 1024
    /// (tables of version 2 always end on an odd position)
    fn end_on_boundary(&mut self) {
        let Some(k) = self.entries.len().checked_sub(1) else { return };
        let want = self.table_end();
        let old = self.entries[k].name.clone();
        let extra = (1024 - want % 1024) % 1024 / 2;
        for x in extra.saturating_sub(1)..=extra + 1 {
            self.entries[k].name = format!("{old}{}", "z".repeat(x));
            if self.table_end() % 1024 == 0 {
                return;
            }
        }
        self.entries[k].name = old;
    }
    /// the entries in the order their data lies in
    fn sorted(&self) -> Vec<usize> {
        let mut order: Vec<usize> = (0..self.entries.len()).collect();
        if !self.order.is_empty() {
            order.sort_by_key(|i| self.order[i % self.order.len()]);
        }
        order
    }
    fn starts(&self) -> Vec<usize> {
        let order = self.sorted();
        let mut starts = vec![0usize; self.entries.len()];
        let mut at = 0;
        for (k, i) in order.iter().enumerate() {
            let e = &self.entries[*i];
            at += e.gap as usize;
            if k == self.hole.0 as usize % order.len() {
                at += self.hole.1 as usize;
            }
            starts[*i] = at;
            at += Self::stored_len(e).div_ceil(1024);
        }
        starts
    }
    /// everything up to the end of the table of entries
    fn head(&self, over: &[(u8, u8, i32)], starts: &[usize]) -> W {
        let put = |entry: usize, field: u8, v: i32| over.iter().find(|o| o.0 as usize == entry && o.1 == field).map_or(v, |o| o.2);
        let name = self.name.to_ascii_lowercase();
        let salted = self.salted();
        let salt = self.salt.as_bytes();
        let mut w = W::default();
        let rand = self.noise(self.rand_count(), 0);
        w.bytes(&rand);
        let n = put(255, 0, self.entries.len() as i32);
        if self.v2 {
            let half: Vec<u8> = rand.iter().map(|b| ((*b as i8) >> 1) as u8).collect();
            w.u8(4 ^ half[0]);
            w.u8(salt.len() as u8 ^ half[0]);
            w.bytes(&self.noise(3, 5));
            for (i, c) in salt.iter().enumerate() {
                w.u8(half[i] ^ c ^ 0x4B);
                w.bytes(&self.noise(1, i));
            }
            let key = core::array::from_fn(|i| salted[i % salted.len()].wrapping_add(i as u8) ^ BASE[i]);
            let mut c = ChachaPieces::new(key);
            c.piece(&self.noise(4, 3));
            c.piece(&n.to_le_bytes());
            w.bytes(&c.out);
            w.bytes(&self.noise(sum(&name) * 3 % 212 + 64, 7));
        } else {
            let mut len = self.noise(4, 5);
            len[0] = salt.len() as u8 ^ rand[0];
            w.bytes(&len);
            let mut total = 0i32;
            for (i, c) in salt.iter().enumerate() {
                let ch = u16::from_le_bytes([rand[i] ^ c, self.noise(1, i)[0]]);
                total = total.wrapping_add(ch as i32);
                w.u16(ch);
            }
            let hash = i32::from_le_bytes(len.try_into().unwrap()).wrapping_add(2).wrapping_add(n).wrapping_add(total);
            let mut h = W::default();
            h.i32(hash);
            h.u8(2);
            h.i32(n);
            h.bytes(&self.noise(3, 1));
            let key = core::array::from_fn(|i| salted[i % salted.len()].wrapping_add(i as u8));
            Snow::new(&key).encrypt(&mut h.0);
            // nine bytes count; the cipher works on words, so the last three are filler
            w.bytes(&h.0);
            w.bytes(&self.noise(sum(&name) * 3 % 212 + 33 - 3, 7));
        }
        // entries
        let key2 = |i: usize| (i as u8).wrapping_add(((i % 3 + 2) as u8).wrapping_mul(salted[salted.len() - 1 - i % salted.len()]));
        let mut pieces = vec![];
        for (k, (e, start)) in self.entries.iter().zip(starts).enumerate() {
            let u: Vec<u16> = e.name.encode_utf16().collect();
            pieces.push(put(k, 0, u.len() as i32).to_le_bytes().to_vec());
            pieces.push(u.iter().flat_map(|c| c.to_le_bytes()).collect());
            for (f, v) in [e.check_sum, e.flags, *start as i32, e.data.len() as i32, Self::stored_len(e) as i32, e.unk[0], e.unk[1]].into_iter().enumerate() {
                pieces.push(put(k, f as u8 + 1, v).to_le_bytes().to_vec());
            }
            pieces.push(e.key.to_vec());
            if self.v2 {
                pieces.push(e.unk[2].to_le_bytes().to_vec());
                pieces.push(e.unk[3].to_le_bytes().to_vec());
            }
        }
        if self.v2 {
            let mut c = ChachaPieces::new(core::array::from_fn(|i| BASE[i] ^ key2(i)));
            pieces.iter().for_each(|p| c.piece(p));
            // the rest of the last block
            let pad = c.blocks * 64 - c.out.len();
            w.bytes(&c.out);
            w.bytes(&self.noise(pad, 2));
        } else {
            let mut plain = pieces.concat();
            while plain.len() % 4 != 0 {
                plain.push(0x5A);
            }
            Snow::new(&core::array::from_fn(key2)).encrypt(&mut plain);
            w.bytes(&plain);
        }
        w
    }
}

pub fn ms(v2: bool, data: BoxedStrategy<Vec<u8>>) -> BoxedStrategy<Ms> {
    let name = prop_oneof![
        3 => (proptest::sample::select(vec!["Mob", "Map", "Character", "Data", "Sound", "Etc", "Skill"]), 0u32..100000).prop_map(|(a, n)| format!("{a}_{n:05}.ms")),
        1 => "[a-zA-Z0-9_~ ]{1,60}\\.(ms|MS|mS)",
        1 => "[ -.0-~]{1,20}\\.ms",
    ];
    let salt = prop_oneof![
        3 => "[ -~]{1,40}",
        1 => "[a-z0-9]{0,3}",
        1 => "[ -~]{60,140}",
        1 => proptest::collection::vec(0u8..0x80, 0..30).prop_map(|v| String::from_utf8(v).unwrap()),
    ];
    let ename = prop_oneof![
        3 => "(Mob|Map/Map[0-9]|Skill|Effect)/[0-9]{1,8}\\.img",
        1 => "[!-~]{1,50}\\.img",
        1 => "[a-z]{1,3}",
    ];
    let wide = prop_oneof![1 => Just(String::new()), if v2 { 1 } else { 0 } => "[가-힣ぁ-ん一-丿à-ÿ£-¿！-～]{1,12}"];
    let ename = (ename, wide, any::<bool>()).prop_map(|(n, w, back)| if back { format!("{n}{w}") } else { format!("{w}{n}") });
    let entry = (ename, any::<i32>(), any::<i32>(), any::<[i32; 4]>(), any::<[u8; 16]>(), data, prop_oneof![4 => Just(Slack::Kilo), 1 => Just(Slack::More), 1 => Just(Slack::Word)], prop_oneof![3 => Just(0u8), 1 => 0u8..3])
        .prop_map(|(name, check_sum, flags, unk, key, data, slack, gap)| Entry { name, check_sum, flags, unk, key, data, slack, gap });
    let noise = prop_oneof![6 => vec(any::<u8>(), 400), 1 => vec(any::<u8>(), 1..8), 1 => Just(vec![0xFF; 3]), 1 => Just(vec![0u8])];
    (name, salt, noise, prop_oneof![15 => vec(entry.clone(), 0..6), 1 => vec(entry, 20..150)], vec(any::<u8>(), 0..4), prop::bool::weighted(0.2), prop_oneof![60 => Just(1usize), 1 => 60usize..350])
        .prop_map(move |(name, salt, noise, mut entries, order, boundary, times)| {
            if times > 1 && (1..6).contains(&entries.len()) {
                // a great many of them
                entries = (0..times).flat_map(|i| entries.iter().map(move |e| Entry { name: format!("{i}{}", e.name), data: e.data[..e.data.len().min(40)].to_vec(), ..e.clone() })).collect();
            }
            let mut m = Ms { v2, name, salt, noise, entries, order, hole: (0, 0) };
            let cap = m.rand_count().min(255);
            m.salt.truncate(cap);
            let mut seen = std::collections::HashSet::new();
            m.entries.retain(|e| seen.insert(e.name.clone()));
            if boundary && !v2 {
                m.end_on_boundary();
            }
            m
        })
        .boxed()
}
