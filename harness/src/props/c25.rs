//! C25 archive headers
use super::c03::{pkg2, Head, Pkg2};
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use wz_reader::version::PKGVersion;
use wz_reader::*;

/// what a header says, by the definition of the three formats
#[derive(Debug, PartialEq, Clone)]
struct Model {
    v2: bool,
    fsize: u64,
    fstart: usize,
    data_start: usize,
    encver: Option<u16>,
    hash: (u64, u64),
    /// 0 plain, 1 scattered in 68 bytes, 2 scattered in 150 bytes
    kind: u8,
}

fn u(b: &[u8], at: usize, n: usize) -> Option<u64> {
    let s = b.get(at..at.checked_add(n)?)?;
    let mut v = [0; 8];
    v[..n].copy_from_slice(s);
    Some(u64::from_le_bytes(v))
}
fn pick(b: &[u8], at: &[usize]) -> u64 {
    at.iter().rev().fold(0, |v, i| v << 8 | b[*i] as u64)
}

fn model(b: &[u8]) -> Option<Model> {
    let id = b.get(..4)?;
    if id == b"PKG1" || id == b"PKG2" {
        let v2 = id == b"PKG2";
        let fsize = u(b, 4, 8)?;
        let fstart = u(b, 12, 4)? as usize;
        let mut m = Model { v2, fsize, fstart, data_start: fstart, encver: None, hash: (0, 0), kind: 0 };
        if v2 {
            m.hash = (u(b, fstart, 4)?, u(b, fstart + 4, 4)?);
            m.data_start += 8;
        } else if let (Some(x), true) = (u(b, fstart, 2), fsize >= 2) {
            // a number of entries in its long form starts with 0x80
            let count = u(b, fstart + 1, 4).unwrap_or(0) as u32 as i32;
            let is_count = x == 0x80 && count > 0 && count % 256 == 0 && count < 0x10000;
            if x < 0x100 && !is_count {
                m.encver = Some(x as u16);
                m.data_start += 2;
            }
        }
        return Some(m);
    }
    let rand = |n: usize, size: &[usize], h1: &[usize], h2: &[usize], kind| {
        if b.len() < n || pick(b, size) != (b.len() - n) as u64 {
            return None;
        }
        Some(Model { v2: true, fsize: (b.len() - n) as u64, fstart: n, data_start: n, encver: None, hash: (pick(b, h1), pick(b, h2)), kind })
    };
    rand(
        150,
        &[0x12, 0x09, 0x02, 0x95],
        &[0x48, 0x24, 0x0F, 0x31, 0x46, 0x47, 0x63, 0x67],
        &[0x8E, 0x8C, 0x93, 0x0E, 0x64, 0x7B, 0x2E, 0x4D],
        2,
    )
    .or_else(|| rand(68, &[0x15, 0x19, 0x39, 0x41], &[0x43, 0x1A, 0x30, 0x10], &[0x2D, 0x07, 0x3F, 0x2E], 1))
}

fn cmp(how: &str, h: &WzHeader, m: &Model) -> Result<(), String> {
    let kind = match (h.flags.contains(WzHeaderFlag::PKG2_RANDOM_HEADER64), h.flags.contains(WzHeaderFlag::PKG2_RANDOM_HEADER)) {
        (false, false) => 0,
        (false, true) => 1,
        (true, false) => 2,
        _ => 9,
    };
    let got = Model { v2: h.ident == PKGVersion::V2, fsize: h.fsize, fstart: h.fstart, data_start: h.data_start, encver: h.encrypt_version, hash: (h.hash1, h.hash2), kind };
    if h.ident == PKGVersion::Unknown || got != *m {
        return Err(format!("{how}: {:?} {got:?}, the file says {m:?}", h.ident));
    }
    if h.hash1_u32() != m.hash.0 as u32 || h.hash2_u32() != m.hash.1 as u32 || h.is_pkg2_64() != (kind == 2) {
        return Err(format!("{how}: hashes {:x} {:x}, 64 bit: {}", h.hash1_u32(), h.hash2_u32(), h.is_pkg2_64()));
    }
    Ok(())
}

fn judge(b: &[u8]) -> Result<(), String> {
    let m = model(b);
    match (WzHeader::read_from_buf(b), &m) {
        (Ok((h, n)), Some(m)) => {
            cmp("read_from_buf", &h, m)?;
            if n != m.fstart {
                return Err(format!("header of {n} bytes, stated {}", m.fstart));
            }
        }
        (Err(_), None) => {}
        (Ok((h, _)), None) => return Err(format!("no header, but read as {h:?}")),
        (Err(e), Some(m)) => return Err(format!("{m:?} refused: {e}")),
    }
    let keys = GLOBAL_STRING_DECRYPTOR.get_decryptor_by_iv([0; 4]);
    let rd = WzReader::from_buff(b);
    let created = rd.create_header();
    let slice = WzSliceReader::new_with_header(b, &keys);
    let sub = rd.create_slice_reader();
    for (how, h) in [("reader", &rd.header), ("create_header", &created), ("slice reader", &slice.header), ("slice of a reader", &sub.header)] {
        match &m {
            Some(m) => cmp(how, h, m)?,
            None if h.ident == PKGVersion::Unknown && (h.fstart, h.fsize, h.data_start) == (0, 0, 0) => {}
            None => return Err(format!("{how}: no header, but {h:?}")),
        }
    }
    // the parts on their own
    let part = |how: &str, got: Option<u64>, exp: Option<u64>| if got == exp { Ok(()) } else { Err(format!("{how}: {got:?}, stored {exp:?}")) };
    part("get_wz_fsize", WzHeader::get_wz_fsize(b).ok(), u(b, 4, 8))?;
    part("get_wz_fstart", WzHeader::get_wz_fstart(b).ok().map(|x| x as u64), u(b, 12, 4))?;
    let id = match b.get(..4) {
        None => None,
        Some(b"PKG1") => Some(PKGVersion::V1),
        Some(b"PKG2") => Some(PKGVersion::V2),
        Some(_) => Some(PKGVersion::Unknown),
    };
    if WzHeader::get_ident(b).ok() != id {
        return Err(format!("get_ident: {:?}, stored {id:?}", WzHeader::get_ident(b).ok()));
    }
    let head = u(b, 12, 4).and_then(|n| b.get(..n as usize)).unwrap_or(&[]);
    if WzHeader::get_header_slice(b) != head {
        return Err(format!("header slice of {} bytes, stated {}", WzHeader::get_header_slice(b).len(), head.len()));
    }
    Ok(())
}

// ------------------------------------------------------------------ any bytes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    id: u8,
    fsize: u64,
    text: Vec<u8>,
    fstart: Option<u32>,
    body: Vec<u8>,
    /// state the size of a scattered header so that it fits
    fit: u8,
    cut: Option<u16>,
}
fn raw_strat() -> BoxedStrategy<Raw> {
    let head = prop_oneof![
        2 => (any::<u8>(), Just(0u8)).prop_map(|(a, b)| vec![a, b]),
        2 => (prop_oneof![Just(0u8), 0u8..20, any::<u8>()], prop_oneof![Just(0u8), Just(1), 0u8..4], any::<u8>()).prop_map(|(a, b, c)| vec![0x80, 0, a, b, c & 1]),
        1 => (0u8..20, 0u8..3, any::<bool>()).prop_map(|(a, b, n)| vec![0x80, 0, a, 0, b, if n { 0x80 } else { 0 }]),
        1 => vec(any::<u8>(), 0..10),
        1 => vec(any::<u8>(), 0..3),
    ];
    let body = (head, prop_oneof![3 => vec(any::<u8>(), 0..60), 1 => vec(any::<u8>(), 60..400)]).prop_map(|(mut h, t)| {
        h.extend(t);
        h
    });
    (
        0u8..8,
        prop_oneof![4 => any::<u64>(), 2 => 0u64..4, 1 => 0u64..1000],
        header_text(),
        prop_oneof![6 => Just(None), 1 => any::<u32>().prop_map(Some), 2 => (0u32..500).prop_map(Some)],
        body,
        0u8..4,
        prop_oneof![6 => Just(None), 1 => any::<u16>().prop_map(Some)],
    )
        .prop_map(|(id, fsize, text, fstart, body, fit, cut)| Raw { id, fsize, text, fstart, body, fit, cut })
        .boxed()
}
fn raw_bytes(c: &Raw) -> Vec<u8> {
    let mut w = W::default();
    w.bytes(match c.id {
        0..=2 => b"PKG1",
        3..=4 => b"PKG2",
        5 => b"PKG3",
        _ => &[0x93, 0xC1, 0x10, 0x01],
    });
    w.bytes(&c.fsize.to_le_bytes());
    w.u32(c.fstart.unwrap_or(16 + c.text.len() as u32));
    w.bytes(&c.text);
    w.bytes(&c.body);
    let mut b = w.0;
    if let Some(k) = c.cut {
        b.truncate(k as usize % (b.len() + 1));
    }
    if c.id > 4 {
        let n = b.len();
        let mut put = |base: usize, at: [usize; 4]| {
            if n >= base {
                for (x, i) in ((n - base) as u32).to_le_bytes().iter().zip(at) {
                    b[i] = *x;
                }
            }
        };
        if c.fit & 1 != 0 {
            put(68, [0x15, 0x19, 0x39, 0x41]);
        }
        if c.fit & 2 != 0 {
            put(150, [0x12, 0x09, 0x02, 0x95]);
        }
    }
    b
}
fn raw(c: &Raw, o: &mut Obs) -> Result<(), String> {
    let b = raw_bytes(c);
    let m = model(&b);
    o.nontrivial = m.is_some();
    o.class(match &m {
        None => "no header",
        Some(m) => match (m.v2, m.kind, m.encver) {
            (false, _, Some(0x80)) => "version field of 0x80",
            (false, _, Some(_)) => "version field",
            (false, ..) => "no version field",
            (_, 0, _) => "plain PKG2",
            (_, 1, _) => "scattered in 68 bytes",
            _ => "scattered in 150 bytes",
        },
    });
    o.class_if(m.as_ref().is_some_and(|m| !m.v2 && u(&b, m.fstart, 2) == Some(0x80) && m.encver.is_none() && m.fsize > 1), "an entry count that starts with 0x80");
    judge(&b)
}

// ------------------------------------------------------------------ whole archives

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Arc2 {
    P1(Pkg1),
    P2(Pkg2),
}
fn arc_strat() -> BoxedStrategy<Arc2> {
    prop_oneof![
        1 => any::<bool>().prop_flat_map(|encver| {
            (header_text(), guessable_version(encver), Just(encver), region_iv(), entries(true, 2, 8, false), layout())
                .prop_map(|(text, version, encver, iv, root, layout)| Arc2::P1(Pkg1 { text, version, encver, iv, root, layout }))
        }),
        1 => pkg2(1).prop_map(Arc2::P2),
    ]
    .boxed()
}
fn archive(c: &Arc2, o: &mut Obs) -> Result<(), String> {
    let (bytes, m) = match c {
        Arc2::P1(p) => {
            let b = p.encode().0;
            let n = p.fstart();
            let e = p.encver.then(|| encver(p.hash()) as u16);
            o.class(if p.encver { "PKG1 with version field" } else { "PKG1 without version field" });
            let m = Model { v2: false, fsize: (b.len() - n) as u64, fstart: n, data_start: n + if p.encver { 2 } else { 0 }, encver: e, hash: (0, 0), kind: 0 };
            // an entry list without a version field in front that reads like one, or the other way round
            if model(&b).map(|m| m.encver.is_some()) != Some(p.encver) {
                o.class("version field cannot be told");
                return Ok(());
            }
            (b, m)
        }
        Arc2::P2(p) => {
            let b = p.encode().0;
            let n = p.p.fstart as usize;
            let kind = match p.head {
                Head::Plain => 0,
                Head::Rand32 => 1,
                Head::Rand64 => 2,
            };
            o.class(["plain PKG2", "scattered in 68 bytes", "scattered in 150 bytes"][kind as usize]);
            let lim = |x: u64| if kind == 2 { x } else { x as u32 as u64 };
            let m = Model { v2: true, fsize: (b.len() - n) as u64, fstart: n, data_start: p.data_start(), encver: None, hash: (lim(p.p.hash1), lim(p.hash2())), kind };
            (b, m)
        }
    };
    if model(&bytes).as_ref() != Some(&m) {
        // the noise of a scattered header made it look like the other one
        if m.kind == 1 {
            return Ok(());
        }
        return Err(format!("HARNESS-ERROR model {:?} of {m:?}", model(&bytes)));
    }
    o.nontrivial = true;
    judge(&bytes)?;
    let sc = Scratch::new();
    let path = sc.write("Arc.wz", &bytes);
    let n = WzNode::from_wz_file(&path, None).map_err(|e| format!("open: {e}"))?;
    let f = n.try_as_file().ok_or("no file node")?;
    cmp("opened file", &f.reader.header, &m)?;
    if n.name.as_str() != "Arc" || (f.offset, f.block_size, f.is_parsed) != (m.data_start, bytes.len(), false) {
        return Err(format!("opened as {:?}, {}+{}", n.name.as_str(), f.offset, f.block_size));
    }
    let w = &f.wz_file_meta;
    if w.path != path.to_str().unwrap() || w.patch_version != -1 {
        return Err(format!("opened from {:?} with version {}", w.path, w.patch_version));
    }
    if f.reader.get_ref_slice() != &bytes[..] || f.reader.get_slice(0..bytes.len()) != &bytes[..] {
        return Err("the reader holds other bytes than the file".into());
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C25",
        threads: 8,
        assumptions: &["whether a PKG1 archive has a version field is told by the rule every reader of the format uses: a 16-bit value above 255, or 0x80 followed by an entry count, is no version field"],
        subs: vec![
            check!("raw", "any bytes with and without a header of one of the four forms, cut or not; non-trivial: there is a header", 8000, 100000, raw_strat, raw),
            check!("archive", "archives opened from a file; non-trivial: header form can be told", 2500, 30000, arc_strat, archive),
        ],
    }
}
