//! C16 / C17 .ms archives
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::ms::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use wz_reader::ms::snow2_decryptor::Snow2Decryptor;
use wz_reader::{MsFile, WzNode, WzNodeCast, WzObjectType};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C {
    pub ms: Ms,
    /// entries that hold a property image
    pub trees: Vec<Option<Vec<(S, V)>>>,
    pub parse: Vec<u8>,
}
fn payload() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        18 => blob(600).prop_map(|mut v| { v.push(7); v }),
        18 => (prop_oneof![Just(1024usize), Just(2048), Just(64), Just(960), Just(4096)], 0usize..10, any::<u8>()).prop_map(|(n, d, x)| (0..n + d - 5).map(|i| (i as u8).wrapping_mul(31) ^ x).collect()),
        1 => (65000usize..140_000, any::<u8>()).prop_map(|(n, x)| (0..n).map(|i| ((i * i) >> 7) as u8 ^ x).collect()),
        6 => (1usize..9000, any::<u8>()).prop_map(|(n, x)| (0..n).map(|i| ((i * i) >> 3) as u8 ^ x).collect()),
    ]
    .boxed()
}
pub fn case(v2: bool) -> BoxedStrategy<C> {
    (ms(v2, payload()), vec(prop::option::weighted(0.6, prop_oneof![4 => tree_with(full_leaf(Uols::Dangling), 3, 20), 1 => vec((any_name(), scalar()), 60..200).prop_map(dedup)]), 6), vec(any::<u8>(), 0..8))
        .prop_map(|(mut ms, mut trees, parse)| {
            trees.truncate(ms.entries.len());
            for (e, t) in ms.entries.iter_mut().zip(&trees) {
                if let Some(t) = t {
                    e.data = encode_image(t, [0; 4]);
                }
            }
            C { ms, trees, parse }
        })
        .boxed()
}

/// data of some entries far behind the others
pub fn huge(v2: bool) -> BoxedStrategy<C> {
    let blocks = prop_oneof![2 => 16_000u32..70_000, 2 => 2_000_000u32..2_200_000, 1 => 4_190_000u32..4_200_000, 3 => 0u32..8_000_000];
    (case(v2), any::<u8>(), blocks)
        .prop_map(|(mut c, k, n)| {
            c.ms.hole = (k, n);
            c
        })
        .boxed()
}

pub fn archive(c: &C, o: &mut Obs) -> Result<(), String> {
    let m = &c.ms;
    o.nontrivial = m.entries.len() >= 2;
    o.class_if(m.entries.is_empty(), "no entries");
    o.class_if(m.entries.iter().any(|e| e.data.len() > 1024), "longer than the doubly encrypted part");
    o.class_if(m.entries.iter().any(|e| e.data.len() % 1024 == 0), "multiple of 1024");
    o.class_if(m.entries.iter().any(|e| e.name.encode_utf16().count() % 2 == 1), "entry name of odd length");
    o.class_if(m.entries.len() >= 20, "20+ entries");
    o.class_if(m.entries.len() > 256, "more than 256 entries");
    o.class_if(m.entries.len() > 1000, "more than 1000 entries");
    o.class_if(m.entries.iter().any(|e| e.data.len() > 65536), "more than 64 KiB");
    o.class_if(m.entries.iter().any(|e| !e.name.is_ascii()), "entry name beyond ASCII");
    o.class_if(m.salt.len() >= 128, "salt of 128 and more");
    o.class_if(m.salt.is_empty(), "no salt");
    o.class_if(m.salt.len() > m.rand_count(), "salt longer than the filler");
    o.class_if(!m.entries.is_empty() && m.table_end() % 1024 == 0, "entry table ends on a multiple of 1024");
    o.class_if(c.trees.iter().flatten().count() > 1, "several images");
    o.class_if(m.hole.1 >= 1 << 21, "beyond 2 GiB");
    o.class_if(m.hole.1 >= 1 << 22, "beyond 4 GiB");
    if m.v2 && !chacha_ok() {
        return Err("HARNESS-ERROR reference cipher".into());
    }
    let (h, stored) = m.encode_holed(&[]);
    let _one = (h.hole > 0).then(|| super::c01::HUGE.lock().unwrap_or_else(|e| e.into_inner()));
    let sc = Scratch::new();
    let path = sc.0.join(&m.name);
    h.write(&path).map_err(|e| format!("HARNESS-ERROR {e}"))?;
    let node = WzNode::from_ms_file(&path, None).map_err(|e| format!("open: {e}"))?.into_lock();
    {
        let r = node.read().unwrap();
        let stem = std::path::Path::new(&m.name).file_stem().unwrap().to_str().unwrap();
        if r.name.as_str() != stem {
            return Err(format!("node name {:?}", r.name.as_str()));
        }
        let WzObjectType::MsFile(f) = &r.object_type else { return Err("root is no .ms file".into()) };
        let h = &f.header;
        if h.key_salt != m.salt || h.entry_count as usize != m.entries.len() || (h.ms_file_version == 2) != m.v2 {
            return Err(format!("header: salt {:?}, {} entries, version {}", h.key_salt, h.entry_count, h.ms_file_version));
        }
    }
    node.write().unwrap().parse(&node).map_err(|e| format!("parse: {e}"))?;
    let r = node.read().unwrap();
    if r.children.len() != m.entries.len() {
        return Err(format!("{} children, {} entries stored", r.children.len(), m.entries.len()));
    }
    for (e, s) in m.entries.iter().zip(&stored) {
        let x = r.at(&e.name).ok_or_else(|| format!("entry {:?} missing", e.name))?;
        let x = x.read().unwrap();
        let WzObjectType::MsImage(i) = &x.object_type else { return Err(format!("{:?} is no .ms image", e.name)) };
        let t = &i.meta;
        if x.name.as_str() != e.name || t.entry_name != e.name || t.key_salt != m.salt {
            return Err(format!("{:?}: names {:?} {:?}", e.name, x.name.as_str(), t.entry_name));
        }
        let unk = if m.v2 { e.unk } else { [e.unk[0], e.unk[1], 0, 0] };
        if (t.check_sum, t.flags, t.size as usize, t.size_aligned as usize, [t.unk1, t.unk2, t.unk3, t.unk4], t.entry_key) != (e.check_sum, e.flags, e.data.len(), s.size_aligned, unk, e.key) {
            return Err(format!("{:?}: stored metadata differs: {t:?}", e.name));
        }
        // the absolute position is not kept in full beyond 2 GiB
        let start = if s.start < 1 << 31 { t.start_pos as usize } else { s.start };
        if (i.offset, i.block_size, start) != (s.start, s.size_aligned, s.start) {
            return Err(format!("{:?}: data found at {}+{}, stored at {}+{}", e.name, i.offset, i.block_size, s.start, s.size_aligned));
        }
        match x.parent.upgrade() {
            Some(p) if std::sync::Arc::ptr_eq(&p, &node) => {}
            _ => return Err(format!("{:?}: parent is not the archive", e.name)),
        }
    }
    // images in any order, some more than once
    let order: Vec<usize> = c.parse.iter().map(|k| *k as usize % m.entries.len().max(1)).chain(0..m.entries.len()).collect();
    if m.entries.is_empty() {
        return Ok(());
    }
    for i in order {
        let e = &m.entries[i];
        let x = r.at(&e.name).unwrap();
        if let WzObjectType::MsImage(i) = &x.read().unwrap().object_type {
            let w = i.to_wz_image();
            if w.name.as_str() != e.name || w.offset != 0 || w.block_size != e.data.len() || w.is_parsed {
                return Err(format!("{:?}: image {:?} at {} of {} bytes", e.name, w.name.as_str(), w.offset, w.block_size));
            }
            let d = w.reader.get_slice_or_error(0..w.block_size).map_err(|x| format!("{:?}: {x}", e.name))?;
            if d != &e.data[..] {
                let at = d.iter().zip(&e.data).position(|(a, b)| a != b);
                return Err(format!("{:?}: decoded bytes differ, first at {at:?} of {}", e.name, e.data.len()));
            }
        }
        if let Some(Some(t)) = c.trees.get(i) {
            x.write().unwrap().parse(&x).map_err(|x| format!("{:?}: parse: {x}", e.name))?;
            if x.read().unwrap().try_as_image().is_none() {
                return Err(format!("{:?} is no image after parsing", e.name));
            }
            cmp_list(&x, t, &e.name, true)?;
        }
    }
    Ok(())
}

fn v1() -> BoxedStrategy<C> {
    case(false)
}
fn huge1() -> BoxedStrategy<C> {
    huge(false)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cipher {
    key: [u8; 16],
    data: Vec<u8>,
    cuts: Vec<u16>,
}
fn cipher_strat() -> BoxedStrategy<Cipher> {
    let key = prop_oneof![4 => any::<[u8; 16]>(), 1 => any::<[u8; 16]>().prop_map(|k| k.map(|b| b & 0x7f)), 1 => Just([0u8; 16]), 1 => Just([0x80; 16])];
    (key, prop_oneof![vec(any::<u8>(), 0..300), vec(any::<u8>(), 1000..3000)], vec(any::<u16>(), 0..6)).prop_map(|(key, data, cuts)| Cipher { key, data, cuts }).boxed()
}
fn cipher(c: &Cipher, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = c.data.len() > 64;
    o.class_if(c.data.len() % 4 != 0, "not a multiple of the word size");
    o.class_if(c.key.iter().any(|b| *b >= 0x80), "key byte above 127");
    let whole = c.data.len() / 4 * 4;
    let mut enc = c.data.clone();
    Snow::new(&c.key).encrypt(&mut enc);
    // in one go
    let mut d = enc.clone();
    let left = Snow2Decryptor::new(c.key).decrypt_slice(&mut d);
    if left != c.data.len() - whole {
        return Err(format!("{left} bytes reported as left over"));
    }
    if d != c.data {
        let at = d.iter().zip(&c.data).position(|(a, b)| a != b);
        return Err(format!("decrypted data differs, first at {at:?} of {}", d.len()));
    }
    if Snow2Decryptor::new(c.key).make_decrypt_slice(&enc) != c.data {
        return Err("make_decrypt_slice differs from decrypt_slice".into());
    }
    // in pieces of whole words
    let mut cuts: Vec<usize> = c.cuts.iter().map(|x| *x as usize % (whole / 4 + 1) * 4).collect();
    cuts.push(whole);
    cuts.sort();
    let mut s = Snow2Decryptor::new(c.key);
    let mut at = 0;
    let mut d = enc.clone();
    for (i, end) in cuts.into_iter().enumerate() {
        if i % 2 == 0 {
            s.decrypt_slice(&mut d[at..end]);
        } else {
            for w in d[at..end].chunks_exact_mut(4) {
                let v = s.decrypt_block(&u32::from_le_bytes(w.try_into().unwrap()));
                w.copy_from_slice(&v.to_le_bytes());
            }
        }
        at = end;
    }
    if d != c.data {
        return Err("decrypting in pieces gives another result".into());
    }
    Ok(())
}

/// A valid archive damaged so that it is neither version.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bad {
    pub ms: Ms,
    pub how: u8,
    pub at: u16,
    pub bit: u8,
}
pub fn bad(v2: bool) -> BoxedStrategy<Bad> {
    (ms(v2, blob(40)), 0u8..3, any::<u16>(), 1u8..=255).prop_map(|(ms, how, at, bit)| Bad { ms, how, at, bit }).boxed()
}
pub fn refused(c: &Bad, o: &mut Obs) -> Result<(), String> {
    let (mut b, _) = c.ms.encode();
    let rand = c.ms.rand_count();
    let mark = |b: &[u8]| b[rand] ^ ((b[0] as i8) >> 1) as u8;
    match c.how {
        // hash, version and count of version 1; the mark of version 2
        0 if !c.ms.v2 => {
            let h = rand + 4 + c.ms.salt.len() * 2;
            // the first two words: hash, version and the low part of the count
            b[h + c.at as usize % 4] ^= c.bit;
            o.class("hash damaged");
        }
        0 | 1 if c.ms.v2 => {
            b[rand] ^= c.bit;
            o.class("version mark damaged");
        }
        1 => {
            let n = c.at as usize % rand;
            b.truncate(n);
            o.class("cut inside the filler");
        }
        _ => {
            let n = rand + 4;
            b.truncate(c.at as usize % n);
            o.class("cut before the salt");
        }
    }
    if b.len() > rand && mark(&b) == 4 && !(c.ms.v2 && c.how < 2) && c.how == 0 {
        // happens to look like version 2, which has no checksum
        o.class("looks like version 2 (not judged)");
        return Ok(());
    }
    o.nontrivial = b.len() > 30;
    let sc = Scratch::new();
    let path = sc.write(&c.ms.name, &b);
    match MsFile::from_file(&path) {
        Err(_) => Ok(()),
        Ok(f) => Err(format!("opened as version {} with {} entries", f.header.ms_file_version, f.header.entry_count)),
    }
}
fn bad1() -> BoxedStrategy<Bad> {
    bad(false)
}

pub fn property() -> Property {
    Property {
        id: "C16",
        subs: vec![
            check!("archive", "at least two entries", 200, 3000, v1, archive),
            check!("huge", "at least two entries", 60, 1000, huge1, archive),
            check!("cipher", "more than one round of keys", 300, 6000, cipher_strat, cipher),
            check!("refused", "some bytes left", 100, 1000, bad1, refused),
        ],
        assumptions: &[
            "file names and salts are ASCII, as in every archive known; entry names are ASCII",
            "the cipher packs key bytes as signed numbers (the format's own implementation does; the code says so explicitly)",
        ],
        threads: 8,
    }
}
