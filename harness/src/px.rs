//! Canvas pixel formats: generators, the stored form, and reference decoders.
use crate::refs::*;
use flate2::write::ZlibEncoder;
use flate2::Compression;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum F {
    Bgra4444,
    Bgra8888,
    Argb1555,
    Rgb565,
    Rgb565x16,
    Dxt3,
    Dxt3Sm,
    Dxt5,
    Bc7,
    R16,
    Rgba1010102,
}
pub const ALL: [F; 11] = [
    F::Bgra4444,
    F::Bgra8888,
    F::Argb1555,
    F::Rgb565,
    F::Rgb565x16,
    F::Dxt3,
    F::Dxt3Sm,
    F::Dxt5,
    F::Bc7,
    F::R16,
    F::Rgba1010102,
];

impl F {
    pub fn code(self) -> u32 {
        match self {
            F::Bgra4444 => 1,
            F::Bgra8888 => 2,
            F::Argb1555 => 257,
            F::Rgb565 => 513,
            F::Rgb565x16 => 517,
            F::Dxt3 => 1026,
            F::Dxt3Sm => 3,
            F::Dxt5 => 2050,
            F::Bc7 => 4098,
            F::R16 => 769,
            F::Rgba1010102 => 2562,
        }
    }
    /// ways real files split the code over the two stored numbers
    pub fn parts(self, split: u8) -> (i32, i8) {
        let c = self.code() as i32;
        let low = (c & 0xff) as i8;
        match split % 3 {
            0 => (c, 0),
            1 => (c - low as i32, low),
            _ => {
                let k = (low / 2).max(0);
                (c - k as i32, k)
            }
        }
    }
    fn blocks(self) -> bool {
        matches!(self, F::Dxt3 | F::Dxt3Sm | F::Dxt5 | F::Bc7)
    }
    /// bytes of pixel data an image of this size holds
    pub fn len(self, w: u32, h: u32) -> usize {
        let (w, h) = (w as usize, h as usize);
        match self {
            F::Bgra4444 | F::Argb1555 | F::Rgb565 | F::R16 => w * h * 2,
            F::Bgra8888 | F::Rgba1010102 => w * h * 4,
            F::Rgb565x16 => (w / 16) * (h / 16) * 2,
            _ => w.div_ceil(4) * h.div_ceil(4) * 16,
        }
    }
}

fn n4(x: u8) -> u16 {
    x as u16 * 17
}
fn n5(x: u16) -> u16 {
    let x = x & 31;
    (x * 8) + (x / 4)
}
fn n6(x: u16) -> u16 {
    let x = x & 63;
    (x * 4) + (x / 16)
}
fn rgb565(v: u16) -> [u16; 3] {
    [n5(v / 2048), n6(v / 32), n5(v)]
}
fn le16(d: &[u8], i: usize) -> u16 {
    d[i] as u16 + 256 * d[i + 1] as u16
}

/// colour of pixel k (0..16, row major) of a DXT block's colour half
fn dxt_color(b: &[u8], k: usize) -> [u16; 3] {
    let (c0, c1) = (le16(b, 0), le16(b, 2));
    let sel = (b[4 + k / 4] >> (2 * (k % 4))) & 3;
    let (p, q) = (rgb565(c0), rgb565(c1));
    let mix = |f: &dyn Fn(u16, u16) -> u16| [f(p[0], q[0]), f(p[1], q[1]), f(p[2], q[2])];
    match (sel, c0 > c1) {
        (0, _) => p,
        (1, _) => q,
        (2, true) => mix(&|a, b| (2 * a + b + 1) / 3),
        (3, true) => mix(&|a, b| (a + 2 * b + 1) / 3),
        (2, false) => mix(&|a, b| (a + b) / 2),
        _ => [0, 0, 0],
    }
}
fn dxt3_alpha(b: &[u8], k: usize) -> u16 {
    n4((b[k / 2] >> (4 * (k % 2))) & 15)
}
fn dxt5_alpha(b: &[u8], k: usize) -> u16 {
    let (a0, a1) = (b[0] as u32, b[1] as u32);
    let mut bits = 0u64;
    for i in 0..6 {
        bits |= (b[2 + i] as u64) << (8 * i);
    }
    let i = ((bits >> (3 * k)) & 7) as u32;
    (match i {
        0 => a0,
        1 => a1,
        _ if a0 > a1 => ((8 - i) * a0 + (i - 1) * a1 + 3) / 7,
        6 => 0,
        7 => 255,
        _ => ((6 - i) * a0 + (i - 1) * a1 + 2) / 5,
    }) as u16
}

/// BC7 mode 6 (one subset, 7+1 bit endpoints, 4-bit indices) from the format's definition; other modes through the
/// texture decoder, one block at a time.
fn bc7_block(b: &[u8]) -> [[u16; 4]; 16] {
    let mut out = [[0u16; 4]; 16];
    if b[0] & 0x7f == 0x40 {
        let mut v = 0u128;
        for i in 0..16 {
            v |= (b[i] as u128) << (8 * i);
        }
        let mut at = 7;
        let mut take = |n: usize| {
            let x = ((v >> at) & ((1 << n) - 1)) as u32;
            at += n;
            x
        };
        let mut e = [[0u32; 2]; 4];
        for c in e.iter_mut() {
            for x in c.iter_mut() {
                *x = take(7) * 2;
            }
        }
        let p = [take(1), take(1)];
        for c in e.iter_mut() {
            c[0] += p[0];
            c[1] += p[1];
        }
        const W4: [u32; 16] = [0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64];
        for (k, o) in out.iter_mut().enumerate() {
            let w = W4[take(if k == 0 { 3 } else { 4 }) as usize];
            for c in 0..4 {
                o[c] = (((64 - w) * e[c][0] + w * e[c][1] + 32) >> 6) as u16;
            }
        }
        return out;
    }
    let mut px = [0u32; 16];
    texture2ddecoder::decode_bc7_block(b, &mut px);
    for (o, p) in out.iter_mut().zip(px) {
        let q = p.to_le_bytes();
        *o = [q[2] as u16, q[1] as u16, q[0] as u16, q[3] as u16];
    }
    out
}

/// Reference pixels, row major; 8-bit channels except R16.
pub fn decode(f: F, w: u32, h: u32, d: &[u8]) -> Vec<[u16; 4]> {
    let mut out = Vec::with_capacity((w * h) as usize);
    let bw = w.div_ceil(4) as usize;
    let bc7: Vec<[[u16; 4]; 16]> = if f == F::Bc7 { d.chunks_exact(16).map(bc7_block).collect() } else { vec![] };
    for y in 0..h as usize {
        for x in 0..w as usize {
            let i = y * w as usize + x;
            out.push(match f {
                F::Bgra4444 => [n4(d[2 * i + 1] & 15), n4(d[2 * i] >> 4), n4(d[2 * i] & 15), n4(d[2 * i + 1] >> 4)],
                F::Bgra8888 => [d[4 * i + 2] as u16, d[4 * i + 1] as u16, d[4 * i] as u16, d[4 * i + 3] as u16],
                F::Argb1555 => {
                    let v = le16(d, 2 * i);
                    [n5(v / 1024), n5(v / 32), n5(v), if v >= 0x8000 { 255 } else { 0 }]
                }
                F::Rgb565 => {
                    let c = rgb565(le16(d, 2 * i));
                    [c[0], c[1], c[2], 255]
                }
                F::Rgb565x16 => {
                    let c = rgb565(le16(d, 2 * ((y / 16) * (w as usize / 16) + x / 16)));
                    [c[0], c[1], c[2], 255]
                }
                F::R16 => [le16(d, 2 * i), 0, 0, 0xffff],
                F::Rgba1010102 => {
                    let v = u32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap());
                    let c = |s: u32| ((v >> s) % 1024 / 4) as u16;
                    [c(0), c(10), c(20), (v >> 30) as u16 * 85]
                }
                F::Dxt3 | F::Dxt3Sm | F::Dxt5 => {
                    let b = &d[((y / 4) * bw + x / 4) * 16..][..16];
                    let k = (y % 4) * 4 + x % 4;
                    let c = dxt_color(&b[8..], k);
                    [c[0], c[1], c[2], if f == F::Dxt5 { dxt5_alpha(b, k) } else { dxt3_alpha(b, k) }]
                }
                F::Bc7 => bc7[(y / 4) * bw + x / 4][(y % 4) * 4 + x % 4],
            });
        }
    }
    out
}

/// How the inflated data is kept in the file.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Store {
    /// zlib stream with this level
    Plain(u8),
    /// zlib stream cut at these places (modulo what is left), every chunk encrypted from the start of the key
    Chunks(u8, Vec<u16>),
}

pub fn zlib(data: &[u8], level: u8) -> Vec<u8> {
    let mut e = ZlibEncoder::new(Vec::new(), Compression::new(level as u32 % 10));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub fn store(data: &[u8], s: &Store, iv: [u8; 4]) -> Vec<u8> {
    match s {
        Store::Plain(l) => zlib(data, *l),
        Store::Chunks(l, cuts) => {
            let z = zlib(data, *l);
            let mut rest = &z[..];
            let mut out = vec![];
            let mut put = |c: &[u8]| {
                out.extend_from_slice(&(c.len() as i32).to_le_bytes());
                let mut c = c.to_vec();
                xor_stream(&mut c, iv);
                out.extend_from_slice(&c);
            };
            for c in cuts {
                let n = (*c as usize).min(rest.len());
                put(&rest[..n]);
                rest = &rest[n..];
            }
            if !rest.is_empty() {
                put(rest);
            }
            out
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Canvas {
    pub f: F,
    pub split: u8,
    pub w: u32,
    pub h: u32,
    pub data: Vec<u8>,
    pub store: Store,
}
impl Canvas {
    pub fn stored(&self, iv: [u8; 4]) -> Vec<u8> {
        store(&self.data, &self.store, iv)
    }
    pub fn pixels(&self) -> Vec<[u16; 4]> {
        decode(self.f, self.w, self.h, &self.data)
    }
}

pub fn any_store() -> BoxedStrategy<Store> {
    let cut = prop_oneof![
        3 => 0u16..8, 3 => 1u16..300, 1 => Just(376u16), 1 => Just(0x5E78), 1 => Just(4096u16), 1 => any::<u16>()
    ];
    prop_oneof![
        1 => (0u8..10).prop_map(Store::Plain),
        1 => (0u8..10, vec(cut, 0..6)).prop_map(|(l, c)| Store::Chunks(l, c)),
    ]
    .boxed()
}

fn size(f: F, big: bool) -> BoxedStrategy<(u32, u32)> {
    if f == F::Rgb565x16 {
        return (1u32..5, 1u32..5).prop_map(|(a, b)| (a * 16, b * 16)).boxed();
    }
    let one = move || {
        if big {
            (60u32..200).boxed()
        } else {
            prop_oneof![4 => 1u32..12, 2 => 1u32..40, 2 => (1u32..9).prop_map(|x| x * 4)].boxed()
        }
    };
    (one(), one()).boxed()
}

fn content(f: F, n: usize) -> BoxedStrategy<Vec<u8>> {
    let rnd = vec(any::<u8>(), n);
    if f.blocks() {
        let c565 = || prop_oneof![3 => any::<u16>(), 1 => proptest::sample::select(vec![0u16, 0xffff, 0xf800, 0x07e0, 0x001f, 0x8410])];
        // blocks with meaningful headers: equal colours, ordered and reversed end points, all BC7 modes
        let block = (any::<[u8; 16]>(), c565(), c565(), 0u8..9, any::<bool>()).prop_map(move |(mut b, c0, c1, m, eq)| {
            if f == F::Bc7 {
                b[0] = if m < 8 { (((b[0] as u16) << (m + 1)) as u8) | (1 << m) } else { b[0] };
            } else {
                let c1 = if eq && m < 3 { c0 } else { c1 };
                b[8..10].copy_from_slice(&c0.to_le_bytes());
                b[10..12].copy_from_slice(&c1.to_le_bytes());
                if m == 8 {
                    b[1] = b[0];
                }
            }
            b
        });
        return prop_oneof![
            1 => rnd,
            3 => vec(block, n / 16).prop_map(|v| v.concat()),
        ]
        .boxed();
    }
    prop_oneof![
        4 => rnd,
        1 => any::<[u8; 4]>().prop_map(move |p| p.iter().cycle().take(n).copied().collect()),
        1 => vec(proptest::sample::select(vec![0u8, 0xff, 0x0f, 0xf0, 0x80, 0x7f]), n),
    ]
    .boxed()
}

/// `f` picked from all formats, or one of the given
pub fn canvas(big: bool) -> BoxedStrategy<Canvas> {
    (proptest::sample::select(ALL.to_vec()), 0u8..3)
        .prop_flat_map(move |(f, split)| (Just(f), Just(split), size(f, big)))
        .prop_flat_map(|(f, split, (w, h))| (Just((f, split, w, h)), content(f, f.len(w, h)), any_store()))
        .prop_map(|((f, split, w, h), data, store)| Canvas { f, split, w, h, data, store })
        .boxed()
}

/// Check an extracted image against reference pixels.
pub fn cmp_image(img: &image::DynamicImage, f: F, w: u32, h: u32, want: &[[u16; 4]]) -> Result<(), String> {
    if (img.width(), img.height()) != (w, h) {
        return Err(format!("{f:?}: image is {}x{}, canvas {w}x{h}", img.width(), img.height()));
    }
    let got: Vec<[u16; 4]> = if f == F::R16 {
        img.to_rgba16().pixels().map(|p| p.0).collect()
    } else {
        img.to_rgba8().pixels().map(|p| p.0.map(|c| c as u16)).collect()
    };
    for (i, (g, e)) in got.iter().zip(want).enumerate() {
        if g != e {
            return Err(format!("{f:?} {w}x{h}: pixel ({},{}) is {g:?}, expected {e:?}", i as u32 % w, i as u32 / w));
        }
    }
    Ok(())
}
