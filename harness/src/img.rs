//! Image (property tree) model, its independent encoder, generators and a comparator against parsed nodes.
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use wz_reader::{WzNodeArc, WzNodeCast};

/// A string together with how it is to be written.
/// mode bit0: force UTF-16, bit1: force long length, bit2: by offset reference, bit3: alternate tag byte
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct S(pub String, pub u8);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum V {
    Null,
    Short(i16, bool),
    Int(i32, bool, bool),
    Long(i64, bool),
    /// stored in the one-byte form
    FloatByte(u8),
    Float(u32),
    Double(u64),
    Str(S),
    Sub(Vec<(S, V)>),
    Vector(i32, i32),
    Convex(Vec<V>),
    Uol(S),
    Canvas { kids: Option<Vec<(S, V)>>, w: i32, h: i32, f1: i32, f2: i8, pages: i32, data: Vec<u8> },
    Sound { dur: i32, header: Vec<u8>, data: Vec<u8> },
    Raw { ver: u8, kids: Option<Vec<(S, V)>>, data: Vec<u8> },
    Video(Vec<u8>),
    /// extended block of a type the reader does not know
    Unknown(String, Vec<u8>),
}

pub struct Enc {
    pub w: W,
    pub base: usize,
    pub iv: [u8; 4],
    seen: HashMap<(String, bool), usize>,
    pending: Vec<(usize, String, u8)>,
    /// number of strings written as a reference
    pub refs: usize,
    /// tag numbers rotate: 2/11 and 3/19
    pub type_tag: u8,
    /// a hole to leave at the end of the n-th block that can have one (the payload of a sound grows by it)
    hole: Option<(usize, usize)>,
}

impl Enc {
    pub fn new(base: usize, iv: [u8; 4]) -> Enc {
        Enc { w: W::default(), base, iv, seen: HashMap::new(), pending: vec![], refs: 0, type_tag: 0x73, hole: None }
    }
    fn rel(&self) -> usize {
        self.w.pos()
    }
    /// bytes that are skipped by a reader: mostly 0, sometimes anything
    fn junk(&mut self) -> u8 {
        let x = (self.w.pos() as u32).wrapping_mul(2654435761) ^ (self.w.0.last().copied().unwrap_or(0) as u32).wrapping_mul(0x9E3779B1);
        let x = x ^ (x >> 15);
        if x & 3 == 0 { (x >> 8) as u8 } else { 0 }
    }
    pub fn str_block(&mut self, s: &S, type_name: bool) {
        let alt = (s.1 & 8 != 0) != type_name;
        let wide = s.1 & 1 != 0 || !s.0.is_ascii();
        if s.1 & 4 != 0 {
            self.refs += 1;
            self.w.u8(if alt { 0x1B } else { 0x01 });
            let at = self.w.pos();
            if let Some(p) = self.seen.get(&(s.0.clone(), wide)) {
                self.w.u32(*p as u32);
            } else {
                self.w.u32(0);
                self.pending.push((at, s.0.clone(), s.1));
            }
        } else {
            self.w.u8(if alt { 0x73 } else { 0x00 });
            let p = self.rel();
            self.seen.entry((s.0.clone(), wide)).or_insert(p);
            self.w.wz_str(&s.0, self.iv, wide, s.1 & 2 != 0);
        }
    }
    pub fn list(&mut self, l: &[(S, V)]) {
        self.w.wz_int(l.len() as i32, false);
        for (n, v) in l {
            self.str_block(n, false);
            self.value(v);
        }
    }
    fn value(&mut self, v: &V) {
        match v {
            V::Null => self.w.u8(0),
            V::Short(x, alt) => {
                self.w.u8(if *alt { 11 } else { 2 });
                self.w.i16(*x);
            }
            V::Int(x, alt, long) => {
                self.w.u8(if *alt { 19 } else { 3 });
                self.w.wz_int(*x, *long);
            }
            V::Long(x, long) => {
                self.w.u8(20);
                self.w.wz_int64(*x, *long);
            }
            V::FloatByte(b) => {
                self.w.u8(4);
                self.w.u8(*b);
            }
            V::Float(bits) => {
                self.w.u8(4);
                self.w.u8(0x80);
                self.w.u32(*bits);
            }
            V::Double(bits) => {
                self.w.u8(5);
                self.w.bytes(&bits.to_le_bytes());
            }
            V::Str(s) => {
                self.w.u8(8);
                self.str_block(s, false);
            }
            _ => {
                self.w.u8(9);
                let at = self.w.pos();
                self.w.u32(0);
                self.ext(v, 0);
                if !matches!(v, V::Sound { .. }) && self.hole_here() {
                    self.leave_hole();
                }
                let len = self.w.pos() - at - 4;
                self.w.patch_u32(at, len as u32);
            }
        }
    }
    /// is it this block's turn
    fn hole_here(&mut self) -> bool {
        match &mut self.hole {
            Some((0, _)) => true,
            Some((SOUND, _)) => false,
            Some((n, _)) => {
                *n -= 1;
                false
            }
            None => false,
        }
    }
    fn leave_hole(&mut self) {
        let (_, len) = self.hole.take().unwrap();
        self.w.hole(len);
    }
    fn ext(&mut self, v: &V, mode: u8) {
        let tname = |e: &mut Enc, n: &str| e.str_block(&S(n.into(), mode), true);
        match v {
            V::Sub(l) => {
                tname(self, "Property");
                let (a, b) = (self.junk(), self.junk());
                self.w.bytes(&[a, b]);
                self.list(l);
            }
            V::Vector(x, y) => {
                tname(self, "Shape2D#Vector2D");
                self.w.wz_int(*x, false);
                self.w.wz_int(*y, false);
            }
            V::Convex(l) => {
                tname(self, "Shape2D#Convex2D");
                self.w.wz_int(l.len() as i32, false);
                for (i, x) in l.iter().enumerate() {
                    // the type name of later points is usually a reference to the first one
                    self.ext(x, if i > 0 { 4 } else { 0 });
                }
            }
            V::Uol(s) => {
                tname(self, "UOL");
                let a = self.junk();
                self.w.u8(a);
                self.str_block(s, false);
            }
            V::Canvas { kids, w, h, f1, f2, pages, data } => {
                tname(self, "Canvas");
                let a = self.junk();
                self.w.u8(a);
                match kids {
                    Some(l) => {
                        self.w.u8(1);
                        let (a, b) = (self.junk(), self.junk());
                        self.w.bytes(&[a, b]);
                        self.list(l);
                    }
                    None => self.w.u8(0),
                }
                self.w.wz_int(*w, false);
                self.w.wz_int(*h, false);
                self.w.wz_int(*f1, false);
                self.w.u8(*f2 as u8);
                self.w.wz_int(*pages, false);
                // a number and bytes without a known meaning: anything
                let n = self.junk();
                self.w.wz_int(if n & 3 == 0 { (n as i32).wrapping_mul(0x01010101) } else { 0 }, n & 7 == 1);
                let (a, b, c) = (self.junk(), self.junk(), self.junk());
                self.w.bytes(&[a, b]);
                self.w.i32(data.len() as i32 + 1);
                self.w.u8(c);
                self.w.bytes(data);
            }
            V::Sound { dur, header, data } => {
                tname(self, "Sound_DX8");
                let a = self.junk();
                self.w.u8(a);
                let more = self.hole.filter(|h| h.0 == SOUND).map_or(0, |h| h.1);
                self.w.wz_int((data.len() + more) as i32, false);
                self.w.wz_int(*dur, false);
                self.w.bytes(header);
                self.w.bytes(data);
                if more > 0 {
                    self.leave_hole();
                }
            }
            V::Raw { ver, kids, data } => {
                tname(self, "RawData");
                self.w.u8(*ver);
                if *ver == 1 {
                    match kids {
                        Some(l) => {
                            self.w.u8(1);
                            let (a, b) = (self.junk(), self.junk());
                            self.w.bytes(&[a, b]);
                            self.list(l);
                        }
                        None => self.w.u8(0),
                    }
                }
                self.w.wz_int(data.len() as i32, false);
                self.w.bytes(data);
            }
            V::Video(data) => {
                tname(self, "Canvas#Video");
                self.w.bytes(&[0, 0, 1]);
                self.w.wz_int(data.len() as i32, false);
                self.w.bytes(data);
            }
            V::Unknown(t, data) => {
                tname(self, t);
                self.w.bytes(data);
            }
            _ => unreachable!("not an extended value"),
        }
    }
    pub fn finish(self) -> Vec<u8> {
        self.finish_w().0
    }
    fn finish_w(mut self) -> W {
        let pend = std::mem::take(&mut self.pending);
        for (at, s, mode) in pend {
            let wide = mode & 1 != 0 || !s.is_ascii();
            let p = match self.seen.get(&(s.clone(), wide)) {
                Some(p) => *p,
                None => {
                    let p = self.rel();
                    self.w.wz_str(&s, self.iv, wide, mode & 2 != 0);
                    self.seen.insert((s.clone(), wide), p);
                    p
                }
            };
            self.w.patch_u32(at, p as u32);
        }
        self.w
    }
}

/// Encode a whole image; offsets in it are relative to its own start.
pub fn encode_image(tree: &[(S, V)], iv: [u8; 4]) -> Vec<u8> {
    let mut e = Enc::new(0, iv);
    e.w.u8(0x73);
    e.w.wz_str("Property", iv, false, false);
    e.w.u16(0);
    e.list(tree);
    e.finish()
}

/// the first sound takes the hole
pub const SOUND: usize = usize::MAX;
/// An image with a hole at the end of one of its blocks; None if it has no such block.
pub fn encode_image_holed(tree: &[(S, V)], iv: [u8; 4], nth: usize, hole: usize) -> Option<crate::arc::Holed> {
    let mut e = Enc::new(0, iv);
    e.hole = Some((nth, hole));
    e.w.u8(0x73);
    e.w.wz_str("Property", iv, false, false);
    e.w.u16(0);
    e.list(tree);
    let W(bytes, at) = e.finish_w();
    at.map(|(at, hole)| crate::arc::Holed { bytes, at, hole })
}

// ------------------------------------------------------------------ generators

pub fn any_text() -> BoxedStrategy<String> {
    prop_oneof![
        5 => vec(0x20u8..0x7f, 0..12).prop_map(|v| String::from_utf8(v).unwrap()),
        2 => vec(prop_oneof![
                (0x20u32..0x7f), (0xA0u32..0x250), (0x3040u32..0x30ff), (0xAC00u32..0xD7A3), (0x4E00u32..0x9FFF), (0x1F300u32..0x1F64F)
            ].prop_map(|c| char::from_u32(c).unwrap_or('?')), 0..12).prop_map(|v| v.into_iter().collect()),
        1 => (prop_oneof![Just(126usize), Just(127), Just(128), Just(129), 120usize..300], any::<bool>(), 0x21u8..0x7e)
            .prop_map(|(n, wide, c)| if wide { std::iter::repeat_n('가', n).collect() } else { (0..n).map(|i| (0x21 + ((c as usize + i) % 0x5d)) as u8 as char).collect() }),
        1 => proptest::char::any().prop_map(|c| c.to_string()),
    ]
    .boxed()
}

/// far longer than names or values usually are; repetitive, so that a replay stays small
pub fn long_text() -> BoxedStrategy<String> {
    let n = prop_oneof![
        2 => 120usize..300,
        2 => 4080usize..4120,
        2 => 32750usize..32780,
        3 => 65520usize..65560,
        2 => 66000usize..140_000,
        1 => (1usize << 20) - 10..(1 << 20) + 10,
    ];
    (n, prop_oneof![2 => "[ -.0-~]{1,9}", 1 => "[가-힣]{1,5}", 1 => Just("\u{1F600}".to_string())])
        .prop_map(|(n, s)| s.chars().cycle().take(n).collect())
        .boxed()
}

pub fn any_mode() -> impl Strategy<Value = u8> {
    prop_oneof![5 => Just(0u8), 2 => Just(4u8), 2 => 0u8..16]
}

pub fn any_s() -> BoxedStrategy<S> {
    (any_text(), any_mode()).prop_map(|(a, b)| S(a, b)).boxed()
}

/// names: short and frequently colliding across levels (so references are shared), never containing '/'
pub fn any_name() -> BoxedStrategy<S> {
    (
        prop_oneof![
            4 => (0u8..12).prop_map(|i| i.to_string()),
            4 => proptest::sample::select(vec!["origin", "delay", "info", "icon", "iconRaw", "stand", "name", "z", "_hash", "info2", "x", "Property", "Canvas", "0_0"]).prop_map(|s| s.to_string()),
            2 => any_text().prop_map(|s| s.replace('/', "_")),
        ],
        any_mode(),
    )
        .prop_map(|(a, b)| S(a, b))
        .boxed()
}

pub fn i32_edge() -> BoxedStrategy<i32> {
    prop_oneof![
        4 => -130i32..=130,
        2 => any::<i32>(),
        1 => proptest::sample::select(vec![i32::MIN, i32::MAX, -128, 127, 128, -129, -127, 255, 256, 0]),
    ]
    .boxed()
}
pub fn i64_edge() -> BoxedStrategy<i64> {
    prop_oneof![
        3 => -130i64..=130,
        2 => any::<i64>(),
        1 => proptest::sample::select(vec![i64::MIN, i64::MAX, -128, 127, 128, i32::MAX as i64 + 1, i32::MIN as i64 - 1]),
    ]
    .boxed()
}
pub fn blob(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![3 => vec(any::<u8>(), 0..24), 1 => vec(any::<u8>(), 0..max)].boxed()
}

/// make sibling names unique (keeping the first), as every real property list has
pub fn dedup(l: Vec<(S, V)>) -> Vec<(S, V)> {
    let mut seen = std::collections::HashSet::new();
    let mut out = Vec::with_capacity(l.len());
    for (mut n, v) in l {
        let mut k = 0;
        let base = n.0.clone();
        while !seen.insert(n.0.clone()) {
            k += 1;
            n.0 = format!("{base}~{k}");
        }
        out.push((n, v));
    }
    out
}

pub fn scalar() -> BoxedStrategy<V> {
    prop_oneof![
        1 => Just(V::Null),
        3 => (any::<i16>(), any::<bool>()).prop_map(|(a, b)| V::Short(a, b)),
        5 => (i32_edge(), any::<bool>(), prop::bool::weighted(0.2)).prop_map(|(a, b, c)| V::Int(a, b, c)),
        3 => (i64_edge(), prop::bool::weighted(0.2)).prop_map(|(a, c)| V::Long(a, c)),
        1 => prop_oneof![Just(0u8), 0u8..=127, 0x81u8..=255].prop_map(V::FloatByte),
        2 => any::<u32>().prop_map(V::Float),
        2 => any::<u64>().prop_map(V::Double),
        6 => any_s().prop_map(V::Str),
        3 => (i32_edge(), i32_edge()).prop_map(|(a, b)| V::Vector(a, b)),
    ]
    .boxed()
}

/// How UOL leaves are generated.
#[derive(Clone, Copy, PartialEq)]
pub enum Uols {
    None,
    Dangling,
}

pub fn media_leaf() -> BoxedStrategy<V> {
    prop_oneof![
        2 => (any::<i32>(), prop_oneof![Just(0x46usize), Just(0x52usize), 0usize..0x80], vec(any::<u8>(), 0x80), blob(200))
            .prop_map(|(dur, hl, h, data)| V::Sound { dur, header: h[..hl].to_vec(), data }),
        1 => blob(300).prop_map(V::Video),
        1 => (proptest::sample::select(vec!["Foo", "Shape2D#Circle", "Property2", "canvas", ""]), blob(40)).prop_map(|(a, b)| V::Unknown(a.to_string(), b)),
    ]
    .boxed()
}

pub fn canvas_meta() -> BoxedStrategy<(i32, i32, i32, i8, i32)> {
    (
        0i32..2000,
        0i32..2000,
        prop_oneof![Just(1), Just(2), Just(257), Just(513), Just(517), Just(1026), Just(2050), Just(4098), 0i32..5000],
        0i8..=4,
        0i32..300,
    )
        .boxed()
}

pub fn tree_with(leaf: BoxedStrategy<V>, depth: u32, size: u32) -> BoxedStrategy<Vec<(S, V)>> {
    let node = leaf.prop_recursive(depth, size, 6, move |inner| {
        let list = vec((any_name(), inner.clone()), 0..6).prop_map(dedup);
        prop_oneof![
            6 => list.clone().prop_map(V::Sub),
            2 => (prop::option::weighted(0.8, list.clone()), canvas_meta(), vec(any::<u8>(), 2..40))
                .prop_map(|(kids, (w, h, f1, f2, pages), data)| V::Canvas { kids, w, h, f1, f2, pages, data }),
            1 => prop_oneof![
                8 => vec((i32_edge(), i32_edge()).prop_map(|(a, b)| V::Vector(a, b)), 0..6),
                1 => vec((i32_edge(), i32_edge()).prop_map(|(a, b)| V::Vector(a, b)), 9..24),
                1 => (100usize..300, any::<i32>()).prop_map(|(n, k)| (0..n as i32).map(|i| V::Vector(i, i.wrapping_mul(k))).collect()),
            ].prop_map(V::Convex),
            1 => (prop_oneof![Just(1u8), Just(1u8), Just(0u8), 2u8..=255], prop::option::of(list.clone()), blob(64))
                .prop_map(|(ver, kids, data)| V::Raw { ver, kids: if ver == 1 { kids } else { None }, data }),
        ]
        .boxed()
    });
    vec((any_name(), node), 0..9).prop_map(dedup).boxed()
}

/// payload of more than 64 KiB, so that the block around it is too
pub fn big_leaf() -> BoxedStrategy<V> {
    (65500usize..150_000, any::<u32>(), 0u8..3)
        .prop_map(|(n, seed, kind)| {
            let mut x = seed | 1;
            let data: Vec<u8> = (0..n)
                .map(|_| {
                    x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                    (x >> 24) as u8
                })
                .collect();
            match kind {
                0 => V::Video(data),
                1 => V::Raw { ver: 0, kids: None, data },
                _ => V::Sound { dur: seed as i32, header: vec![seed as u8; 0x52], data },
            }
        })
        .boxed()
}

/// a tree in which some list holds a big payload, with properties on both sides of it
pub fn big_tree(leaf: BoxedStrategy<V>) -> BoxedStrategy<Vec<(S, V)>> {
    (tree_with(leaf, 2, 8), big_leaf(), any_name(), 0usize..9, any_name(), any::<bool>())
        .prop_map(|(mut t, b, n, at, m, inside)| {
            let at = at % (t.len() + 1);
            if inside {
                let l = t.split_off(at);
                let mut k = vec![(n, b)];
                k.extend(t.iter().take(2).cloned());
                t.push((m, V::Sub(dedup(k))));
                t.extend(l);
            } else {
                t.insert(at, (n, b));
            }
            dedup(t)
        })
        .boxed()
}

/// a tree at the bottom of a chain of containers: `levels` of them, with a sibling here and there
pub fn deep_tree(leaf: BoxedStrategy<V>, levels: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<(S, V)>> {
    let level = (any_name(), 0u8..8, prop::option::weighted(0.2, (any_name(), leaf.clone())), any::<bool>());
    (tree_with(leaf, 3, 8), vec(level, levels))
        .prop_map(|(mut t, l)| {
            for (name, kind, sib, first) in l {
                let v = match kind {
                    0 => V::Canvas { kids: Some(t), w: 1, h: 1, f1: 2, f2: 0, pages: 0, data: vec![0x78, 0x9c, 1] },
                    1 => V::Raw { ver: 1, kids: Some(t), data: vec![1, 2, 3] },
                    _ => V::Sub(t),
                };
                t = vec![(name, v)];
                if let Some(s) = sib {
                    t.insert(if first { 0 } else { 1 }, s);
                }
                t = dedup(t);
            }
            t
        })
        .boxed()
}

pub fn full_leaf(uols: Uols) -> BoxedStrategy<V> {
    match uols {
        Uols::None => prop_oneof![6 => scalar(), 1 => media_leaf()].boxed(),
        Uols::Dangling => prop_oneof![
            8 => scalar(),
            1 => media_leaf(),
            1 => (any_text(), any_mode()).prop_map(|(t, m)| V::Uol(S(format!("~none~{}", t), m))),
        ]
        .boxed(),
    }
}

pub fn any_tree() -> BoxedStrategy<Vec<(S, V)>> {
    prop_oneof![
        4 => tree_with(full_leaf(Uols::Dangling), 4, 40),
        1 => tree_with(full_leaf(Uols::Dangling), 9, 40),
        1 => vec((any_name(), scalar()), 100..200).prop_map(dedup),
        1 => deep_tree(full_leaf(Uols::Dangling), 20..=124),
        1 => big_tree(full_leaf(Uols::Dangling)),
    ]
    .boxed()
}

pub fn any_iv() -> BoxedStrategy<[u8; 4]> {
    prop_oneof![
        3 => Just(IV_GMS), 3 => Just(IV_EMS), 3 => Just(IV_BMS),
        1 => any::<[u8; 4]>(),
        1 => (0usize..4, 1u8..=255).prop_map(|(i, b)| { let mut v = [0u8; 4]; v[i] = b; v }),
    ]
    .boxed()
}
pub fn region_iv() -> BoxedStrategy<[u8; 4]> {
    prop_oneof![Just(IV_GMS), Just(IV_EMS), Just(IV_BMS)].boxed()
}

// ------------------------------------------------------------------ comparator

pub fn count(t: &[(S, V)]) -> usize {
    t.iter().map(|(_, v)| 1 + count_v(v)).sum()
}
fn count_v(v: &V) -> usize {
    match v {
        V::Sub(l) => count(l),
        V::Canvas { kids: Some(l), .. } | V::Raw { kids: Some(l), .. } => count(l),
        V::Convex(l) => l.len(),
        _ => 0,
    }
}
pub fn depth(t: &[(S, V)]) -> usize {
    t.iter()
        .map(|(_, v)| {
            1 + match v {
                V::Sub(l) => depth(l),
                V::Canvas { kids: Some(l), .. } | V::Raw { kids: Some(l), .. } => depth(l),
                V::Convex(_) => 1,
                _ => 0,
            }
        })
        .max()
        .unwrap_or(0)
}
pub fn has(t: &[(S, V)], p: &dyn Fn(&S, &V) -> bool) -> bool {
    t.iter().any(|(n, v)| {
        p(n, v)
            || match v {
                V::Sub(l) => has(l, p),
                V::Canvas { kids: Some(l), .. } | V::Raw { kids: Some(l), .. } => has(l, p),
                _ => false,
            }
    })
}

/// Children of a container value in the model, by name.
pub fn kids(v: &V) -> Vec<(String, &V)> {
    match v {
        V::Sub(l) => l.iter().map(|(n, v)| (n.0.clone(), v)).collect(),
        V::Canvas { kids: Some(l), .. } | V::Raw { kids: Some(l), .. } => l.iter().map(|(n, v)| (n.0.clone(), v)).collect(),
        V::Convex(l) => l.iter().enumerate().map(|(i, v)| (i.to_string(), v)).collect(),
        _ => vec![],
    }
}

pub fn cmp_list(node: &WzNodeArc, l: &[(S, V)], path: &str, check_parent: bool) -> Result<(), String> {
    let m: Vec<(String, &V)> = l.iter().map(|(n, v)| (n.0.clone(), v)).collect();
    cmp_children(node, &m, path, check_parent)
}

pub fn cmp_children(node: &WzNodeArc, m: &[(String, &V)], path: &str, check_parent: bool) -> Result<(), String> {
    let r = node.read().unwrap();
    if r.children.len() != m.len() {
        let names: Vec<String> = r.children.keys().map(|k| k.to_string()).collect();
        return Err(format!("{path}: expected {} children, got {}: {:?}", m.len(), r.children.len(), names));
    }
    for (n, v) in m {
        let Some(c) = r.at(n) else {
            return Err(format!("{path}: child {n:?} missing"));
        };
        let p = format!("{path}/{n}");
        {
            let cr = c.read().unwrap();
            if cr.name.as_str() != n {
                return Err(format!("{p}: node name is {:?}", cr.name.as_str()));
            }
            if check_parent {
                match cr.parent.upgrade() {
                    Some(par) if std::sync::Arc::ptr_eq(&par, node) => {}
                    Some(_) => return Err(format!("{p}: parent link points to another node")),
                    None => return Err(format!("{p}: parent link is dangling")),
                }
            }
        }
        cmp_value(&c, v, &p, check_parent)?;
    }
    Ok(())
}

macro_rules! want {
    ($p:expr, $c:expr, $($t:tt)*) => { if !($c) { return Err(format!("{}: {}", $p, format!($($t)*))); } };
}

/// Compare a node with the model value (kind, value, children).
pub fn cmp_value(node: &WzNodeArc, v: &V, p: &str, check_parent: bool) -> Result<(), String> {
    {
        let r = node.read().unwrap();
        let shown = || format!("{:?}", r.object_type).chars().take(120).collect::<String>();
        match v {
            V::Null | V::Unknown(..) => want!(p, r.is_null(), "expected Null, got {}", shown()),
            V::Short(x, _) => want!(p, r.try_as_short() == Some(x), "expected Short {x}, got {}", shown()),
            V::Int(x, ..) => want!(p, r.try_as_int() == Some(x), "expected Int {x}, got {}", shown()),
            V::Long(x, _) => want!(p, r.try_as_long() == Some(x), "expected Long {x}, got {}", shown()),
            V::FloatByte(b) => want!(p, r.try_as_float().map(|f| f.to_bits()) == Some((*b as f32).to_bits()), "expected Float {b}, got {}", shown()),
            V::Float(b) => want!(p, r.try_as_float().map(|f| f.to_bits()) == Some(*b), "expected Float bits {b:x}, got {}", shown()),
            V::Double(b) => want!(p, r.try_as_double().map(|f| f.to_bits()) == Some(*b), "expected Double bits {b:x}, got {}", shown()),
            V::Str(s) => {
                want!(p, r.try_as_uol().is_none(), "expected String, got UOL");
                match r.try_as_string().map(|w| w.get_string()) {
                    Some(Ok(g)) => want!(p, g == s.0, "expected String {:?}, got {g:?}", s.0),
                    o => want!(p, false, "expected String {:?}, got {o:?} / {}", s.0, shown()),
                }
            }
            V::Uol(s) => match r.try_as_uol().map(|w| w.get_string()) {
                Some(Ok(g)) => want!(p, g == s.0, "expected UOL {:?}, got {g:?}", s.0),
                o => want!(p, false, "expected UOL {:?}, got {o:?} / {}", s.0, shown()),
            },
            V::Vector(x, y) => want!(p, r.try_as_vector2d().map(|v| (v.0, v.1)) == Some((*x, *y)), "expected Vector {x},{y}, got {}", shown()),
            V::Sub(_) => want!(p, r.is_sub_property(), "expected Property, got {}", shown()),
            V::Convex(_) => want!(p, r.is_convex(), "expected Convex, got {}", shown()),
            V::Canvas { w, h, f1, f2, pages, data, .. } => {
                let Some(png) = r.try_as_png() else { return Err(format!("{p}: expected PNG, got {}", shown())) };
                want!(p, (png.width, png.height) == (*w as u32, *h as u32), "PNG size {}x{}", png.width, png.height);
                want!(p, png.pages == *pages, "PNG pages {} expected {pages}", png.pages);
                let fm = wz_reader::property::WzPngFormat::from((*f1 as u32).wrapping_add(*f2 as u32));
                want!(p, png.format() == fm, "PNG format {:?} expected {fm:?}", png.format());
                let hd = u16::from_le_bytes([data[0], data[1]]) as i32;
                want!(p, png.header == hd, "PNG header {:x} expected {hd:x}", png.header);
            }
            V::Sound { dur, header, data } => {
                let Some(s) = r.try_as_sound() else { return Err(format!("{p}: expected Sound, got {}", shown())) };
                want!(p, s.duration == *dur as u32, "duration {} expected {dur}", s.duration);
                let exp = expected_sound(*dur as u32, header, data);
                want!(p, s.sound_type == exp.0, "sound type {:?} expected {:?}", s.sound_type, exp.0);
                want!(p, s.get_buffer() == exp.1, "sound buffer differs");
            }
            V::Raw { data, .. } => {
                let Some(s) = r.try_as_raw_data() else { return Err(format!("{p}: expected RawData, got {}", shown())) };
                want!(p, s.get_buffer() == &data[..], "raw data differs");
            }
            V::Video(data) => {
                let Some(s) = r.try_as_video() else { return Err(format!("{p}: expected Video, got {}", shown())) };
                want!(p, s.get_buffer() == &data[..], "video data differs");
            }
        }
    }
    cmp_children(node, &kids(v), p, check_parent)
}

pub fn expected_sound(dur: u32, header: &[u8], data: &[u8]) -> (wz_reader::property::WzSoundType, Vec<u8>) {
    use wz_reader::property::WzSoundType::*;
    if header.len() == 0x46 {
        let freq = u32::from_le_bytes(header[0x38..0x3c].try_into().unwrap());
        if freq == data.len() as u32 && dur == 1000 {
            return (Binary, data.to_vec());
        }
        let mut out = Vec::new();
        out.extend_from_slice(b"RIFF");
        out.extend_from_slice(&(data.len() as u32 + 36).to_le_bytes());
        out.extend_from_slice(b"WAVEfmt ");
        out.extend_from_slice(&16u32.to_le_bytes());
        out.extend_from_slice(&header[0x34..0x44]);
        out.extend_from_slice(b"data");
        out.extend_from_slice(&(data.len() as u32).to_le_bytes());
        out.extend_from_slice(data);
        (Wav, out)
    } else {
        (Mp3, data.to_vec())
    }
}

// ------------------------------------------------------------------ in-memory images

use std::sync::Arc;
use wz_reader::{WzImage, WzNode, WzReader};

/// Build a reader over `bytes` with the given iv.
pub fn mem_reader(bytes: &[u8], iv: [u8; 4]) -> Arc<WzReader> {
    Arc::new(WzReader::from_buff(bytes).with_iv(iv))
}

/// An unparsed image node named `name` over bytes embedded at `offset`.
pub fn image_node(name: &str, bytes: &[u8], offset: usize, iv: [u8; 4]) -> WzNodeArc {
    let mut buf = vec![0xEEu8; offset];
    buf.extend_from_slice(bytes);
    let rd = mem_reader(&buf, iv);
    let img = WzImage::new(&name.into(), offset, bytes.len(), &rd);
    WzNode::new(&name.into(), img, None).into_lock()
}

pub fn parsed(name: &str, bytes: &[u8], offset: usize, iv: [u8; 4]) -> Result<WzNodeArc, String> {
    let n = image_node(name, bytes, offset, iv);
    n.write().unwrap().parse(&n).map_err(|e| format!("parse failed: {e}"))?;
    Ok(n)
}
