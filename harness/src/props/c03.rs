//! C03 PKG2 archives for every profile and cache history
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use wz_reader::util::profile::{get_all_pkg2_profiles, Pkg2Profile, PKG2_PROFILE_CACHE};
use wz_reader::{WzNode, WzNodeCast};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Head {
    Plain,
    Rand32,
    Rand64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pkg2 {
    pub head: Head,
    pub p: P2,
    /// header text (plain) or noise the random header is made of
    pub noise: Vec<u8>,
    pub iv: [u8; 4],
    pub root: Vec<E>,
    pub layout: Layout,
}

impl Pkg2 {
    pub fn hash2(&self) -> u64 {
        hash2_for(self.p.profile, self.p.hash1, self.p.hash)
    }
    pub fn data_start(&self) -> usize {
        self.p.fstart as usize + if self.head == Head::Plain { 8 } else { 0 }
    }
    pub fn encode(&self) -> (Vec<u8>, Vec<Laid>) {
        let (h, l) = self.encode_holed();
        assert_eq!(h.hole, 0, "HARNESS-ERROR");
        (h.bytes, l)
    }
    pub fn encode_holed(&self) -> (Holed, Vec<Laid>) {
        let h1 = self.p.hash1.to_le_bytes();
        let h2 = self.hash2().to_le_bytes();
        let mut head;
        match self.head {
            Head::Plain => {
                let mut w = W::default();
                w.bytes(b"PKG2");
                w.bytes(&[0; 8]);
                w.u32(self.p.fstart);
                w.bytes(&self.noise);
                w.bytes(&h1[..4]);
                w.bytes(&h2[..4]);
                head = w.0;
            }
            Head::Rand32 => {
                head = self.noise.iter().cycle().take(68).copied().collect::<Vec<u8>>();
                for (i, at) in [0x43, 0x1A, 0x30, 0x10].into_iter().enumerate() {
                    head[at] = h1[i];
                }
                for (i, at) in [0x2D, 0x07, 0x3F, 0x2E].into_iter().enumerate() {
                    head[at] = h2[i];
                }
            }
            Head::Rand64 => {
                head = self.noise.iter().cycle().take(150).copied().collect::<Vec<u8>>();
                for (i, at) in [0x48, 0x24, 0x0F, 0x31, 0x46, 0x47, 0x63, 0x67].into_iter().enumerate() {
                    head[at] = h1[i];
                }
                for (i, at) in [0x8E, 0x8C, 0x93, 0x0E, 0x64, 0x7B, 0x2E, 0x4D].into_iter().enumerate() {
                    head[at] = h2[i];
                }
            }
        }
        let hl = head.len();
        let (mut f, l) = encode_holed(head, &self.root, self.iv, &Fmt::Pkg2(&self.p), &self.layout);
        let all = f.len();
        let b = &mut f.bytes;
        match self.head {
            Head::Plain => {
                let n = (all - self.p.fstart as usize) as u64;
                b[4..12].copy_from_slice(&n.to_le_bytes());
            }
            Head::Rand32 => {
                let n = ((all - hl) as u32).to_le_bytes();
                for (i, at) in [0x15, 0x19, 0x39, 0x41].into_iter().enumerate() {
                    b[at] = n[i];
                }
            }
            Head::Rand64 => {
                let n = ((all - hl) as u32).to_le_bytes();
                for (i, at) in [0x12, 0x09, 0x02, 0x95].into_iter().enumerate() {
                    b[at] = n[i];
                }
            }
        }
        (f, l)
    }
    /// The key the first entry's bytes suggest, read the way any opener has to: a region key if they
    /// are an ordinary ASCII string under it, else the fixed 1198 key.
    pub fn suggested(&self, bytes: &[u8]) -> Option<u8> {
        let at = |i: usize| bytes.get(i).copied();
        let int_end = |i: usize| Some(i + if at(i)? == 0x80 { 5 } else { 1 });
        let mut out = None;
        let first = || -> Option<Option<u8>> {
            let i = int_end(self.data_start())?;
            if !matches!(at(i)?, 3 | 4) {
                return Some(None);
            }
            let l = at(i + 1)? as i8;
            if l == 0 {
                return Some(None);
            }
            let (start, n, wide) = match l {
                127 => (i + 6, 2 * u32::from_le_bytes(bytes.get(i + 2..i + 6)?.try_into().ok()?) as usize, true),
                -128 => (i + 6, u32::from_le_bytes(bytes.get(i + 2..i + 6)?.try_into().ok()?) as usize, false),
                l if l > 0 => (i + 2, 2 * l as usize, true),
                l => (i + 2, -(l as i32) as usize, false),
            };
            let d = bytes.get(start..start.checked_add(n)?)?;
            for (k, iv) in [IV_BMS, IV_GMS, IV_EMS].into_iter().enumerate() {
                let ks = stream(iv, n);
                let x: Vec<u8> = d.iter().zip(ks.iter()).map(|(a, b)| a ^ b).collect();
                let ok = if wide {
                    x.chunks(2).enumerate().all(|(i, c)| (u16::from_le_bytes([c[0], c[1]]) ^ 0xAAAAu16.wrapping_add(i as u16)) < 0x80)
                } else {
                    x.iter().enumerate().all(|(i, b)| (b ^ 0xAAu8.wrapping_add(i as u8)) < 0x80)
                };
                if ok {
                    return Some(Some(k as u8));
                }
            }
            Some(None)
        };
        if let Some(Some(k)) = first() {
            out = Some(k);
        }
        if out.is_none() {
            let second = || -> Option<bool> {
                let i = int_end(self.data_start())?;
                let l = at(i + 1)? as i8;
                if l >= 0 {
                    return Some(false);
                }
                let n = 2 * -(l as i32) as usize;
                let key = [0xEF, 0xBE, 0xBE, 0xAD, 0xAD, 0xDE, 0xDE, 0];
                let d = bytes.get(i + 2..i + 2 + n)?;
                Some(d.chunks(2).enumerate().all(|(j, c)| u16::from_le_bytes([c[0] ^ key[(2 * j) % 8], c[1] ^ key[(2 * j + 1) % 8]]) < 0x80))
            };
            if second() == Some(true) {
                out = Some(3);
            }
        }
        out
    }
    /// what `suggested` has to be for the archive to be openable without doubt
    pub fn expected_key(&self) -> Option<u8> {
        match self.p.profile {
            0..=3 => None,
            4 => Some(3),
            _ => Some([IV_BMS, IV_GMS, IV_EMS].iter().position(|k| *k == self.iv).unwrap() as u8),
        }
    }
}

fn enc_count(sub: bool) -> BoxedStrategy<i32> {
    // the byte that starts it must not look like an entry type; negative ones only at the top
    if sub {
        prop_oneof![5i32..=127, Just(0), 128i32..=i32::MAX].boxed()
    } else {
        prop_oneof![5i32..=127, any::<i32>().prop_map(|v| if (-200..=200).contains(&v) { v * 1000 - 777_777 } else { v }), -127i32..0].boxed()
    }
}

pub fn pkg2(min_root: usize) -> BoxedStrategy<Pkg2> {
    (0u8..7)
        .prop_flat_map(move |profile| {
            let is64 = profile == 0;
            let head = if is64 { Just(Head::Rand64).boxed() } else { prop_oneof![Just(Head::Plain), Just(Head::Rand32)].boxed() };
            let iv = if profile >= 5 { region_iv() } else { Just(IV_BMS).boxed() };
            let h = if is64 {
                (any::<u64>(), any::<u64>()).boxed()
            } else {
                (any::<u32>(), prop_oneof![8 => 1u32.., 1 => Just(1u32), 1 => Just(u32::MAX)]).prop_map(|(a, b)| (a as u64, b as u64)).boxed()
            };
            let first = "[A-Za-z0-9_]{6,24}".prop_map(|s| S(s, 0));
            (
                head,
                iv,
                h,
                (vec(any::<u8>(), 1..200), header_text()),
                root_entries(false, 3, 16, profile >= 5),
                first,
                (enc_count(false), vec(enc_count(true), 1..5), any::<u16>()),
                layout(),
            )
                .prop_map(move |(head, iv, (hash1, hash), (mut noise, text), mut root, first, (c0, mut counts, low16), layout)| {
                    let fstart = match head {
                        Head::Plain => {
                            noise = text;
                            16 + noise.len() as u32
                        }
                        Head::Rand32 => 68,
                        Head::Rand64 => 150,
                    };
                    if noise.starts_with(b"PKG") {
                        noise[0] ^= 1;
                    }
                    if let Some(E::Dir { name, .. } | E::Img { name, .. }) = root.first_mut() {
                        let img = name.0.ends_with(".img");
                        let lua = name.0.ends_with(".lua");
                        *name = S(if img { format!("{}.img", first.0) } else if lua { format!("{}.lua", first.0) } else { first.0 }, 0);
                    }
                    let mut i = 0;
                    while root.len() < min_root {
                        i += 1;
                        root.push(E::Img { name: S(format!("~pad{i}.img"), 0), body: Body::Prop(vec![]), cks: 0 });
                    }
                    let root = dedup_e(fix_names(root, profile, true));
                    // block numbers follow entry order: block 0 is the root, whose count comes first
                    counts.insert(0, c0);
                    let n = counts.len();
                    let mut all = vec![c0];
                    for k in 1..4096.min(count_e(&root) + 2) {
                        all.push(counts[1 + k % (n - 1)]);
                    }
                    let hash = if hash == 0 { 1 } else { hash };
                    Pkg2 { head, p: P2 { profile, hash, hash1, fstart, counts: all, low16 }, noise, iv, root, layout }
                })
        })
        .boxed()
}

/// first names of a directory have a one-byte length in the profiles with their own name cipher
fn fix_names(l: Vec<E>, profile: u8, root: bool) -> Vec<E> {
    l.into_iter()
        .enumerate()
        .map(|(i, e)| {
            let short = |mut s: S| {
                if i == 0 && profile <= 4 {
                    let mut u: Vec<u16> = s.0.encode_utf16().collect();
                    if u.len() > 110 {
                        let sfx = if s.0.ends_with(".lua") { ".lua" } else if s.0.ends_with(".img") { ".img" } else { "" };
                        u.truncate(100);
                        s.0 = String::from_utf16_lossy(&u) + sfx;
                    }
                }
                let _ = root;
                s
            };
            match e {
                E::Dir { name, kids, cks } => E::Dir { name: short(name), kids: fix_names(kids, profile, false), cks },
                E::Img { name, body, cks } => E::Img { name: short(name), body, cks },
                e => e,
            }
        })
        .collect()
}

pub fn seed(profile: u8, hash: u64) -> Pkg2Profile {
    Pkg2Profile::new(get_all_pkg2_profiles()[profile as usize].clone(), hash)
}

pub fn open_cmp(c: &Pkg2, bytes: &[u8], laid: &[Laid]) -> Result<(), String> {
    let sc = Scratch::new();
    let path = sc.write("Arc.wz", bytes);
    cmp_file(c, &path, laid)
}
fn cmp_file(c: &Pkg2, path: &std::path::Path, laid: &[Laid]) -> Result<(), String> {
    let n = WzNode::from_wz_file_full(path, None, None, None, None).map_err(|e| format!("open: {e}"))?.into_lock();
    n.write().unwrap().parse(&n).map_err(|e| format!("parse: {e}"))?;
    {
        let r = n.read().unwrap();
        let m = &r.try_as_file().ok_or("not a file")?.wz_file_meta;
        let k = m.hash as u64;
        if k != c.p.hash && !(0..7).any(|p| hash2_for(p, c.p.hash1, k) == c.hash2()) {
            return Err(format!("hash {k:x} (stored {:x}) does not satisfy the header", c.p.hash));
        }
    }
    cmp_dir(&n, laid, "", true)
}

pub fn classify(c: &Pkg2, o: &mut Obs) -> bool {
    o.class(["1202", "1201", "1200", "1199", "1198", "1197", "1196"][c.p.profile as usize]);
    o.class(match c.head {
        Head::Plain => "plain header",
        Head::Rand32 => "random 32-bit header",
        Head::Rand64 => "random 64-bit header",
    });
    o.class_if(depth_e(&c.root) >= 3, "depth 3+");
    o.class_if(has_e(&c.root, &|e| matches!(e, E::Dir { kids, .. } if kids.is_empty())), "empty directory");
    o.class_if(has_e(&c.root, &|e| matches!(e, E::Dir { kids, .. } if first_named(kids).is_some_and(|s| !s.0.is_ascii()))), "foreign first name in a subdirectory");
    o.nontrivial = count_e(&c.root) >= 2;
    let (b, _) = c.encode_holed();
    if c.suggested(&b.bytes) != c.expected_key() {
        o.nontrivial = false;
        o.class("key ambiguous");
        return false;
    }
    true
}

fn single(c: &Pkg2, o: &mut Obs) -> Result<(), String> {
    if !classify(c, o) {
        return Ok(());
    }
    let (bytes, laid) = c.encode();
    let own = if c.p.is64() { vec![] } else { vec![seed(c.p.profile, c.p.hash)] };
    let _cached = Cached::new(own);
    open_cmp(c, &bytes, &laid)
}

/// one of the names in the root is made far longer than names are
fn long_strat() -> BoxedStrategy<Pkg2> {
    (pkg2(1), long_text(), any::<u8>())
        .prop_map(|(mut c, t, at)| {
            let own = c.p.name_key().is_some();
            let named = c.root.iter().filter(|e| !matches!(e, E::Skip(_))).count().max(1);
            let mut nth = at as usize % named;
            let mut room = usize::MAX;
            if own && nth == 0 {
                // the first name has a length of its own: one byte, or two
                if c.p.is64() {
                    room = 32767;
                } else {
                    nth = 1;
                }
            }
            if let Some(E::Dir { name, .. } | E::Img { name, .. }) = c.root.iter_mut().filter(|e| !matches!(e, E::Skip(_))).nth(nth) {
                room = room.saturating_sub(name.0.encode_utf16().count());
                let mut u: Vec<u16> = t.encode_utf16().collect();
                u.truncate(room);
                while u.last().is_some_and(|x| (0xD800..0xDC00).contains(x)) {
                    u.pop();
                }
                name.0.insert_str(0, &String::from_utf16_lossy(&u));
            }
            c
        })
        .boxed()
}
fn long(c: &Pkg2, o: &mut Obs) -> Result<(), String> {
    let len = |e: &E| match e {
        E::Dir { name, .. } | E::Img { name, .. } => name.0.chars().count(),
        _ => 0,
    };
    o.class_if(c.root.iter().any(|e| len(e) > 65535), "name over 65535 characters");
    o.class_if(c.p.is64() && c.root.first().is_some_and(|e| len(e) > 4096), "first name over 4096 characters");
    single(c, o)
}

fn huge_strat() -> BoxedStrategy<Pkg2> {
    let hole = prop_oneof![
        2 => 0x7fff_0000u32..0x8001_0000,
        2 => 0x8001_0000u32..0xfffe_0000,
        1 => 0x0100_0000u32..0x7fff_0000,
    ];
    (pkg2(1), hole, any::<u8>())
        .prop_map(|(mut c, hole, at)| {
            c.layout.hole = (at, hole);
            c
        })
        .boxed()
}
fn huge(c: &Pkg2, o: &mut Obs) -> Result<(), String> {
    if !classify(c, o) {
        return Ok(());
    }
    let (h, laid) = c.encode_holed();
    if h.len() > u32::MAX as usize {
        o.nontrivial = false;
        return Ok(());
    }
    o.class_if(h.len() > 1 << 31, "beyond 2 GiB");
    let _one = crate::props::c01::HUGE.lock().unwrap_or_else(|e| e.into_inner());
    let own = if c.p.is64() { vec![] } else { vec![seed(c.p.profile, c.p.hash)] };
    let _cached = Cached::new(own);
    let sc = Scratch::new();
    let path = sc.0.join("Arc.wz");
    h.write(&path).map_err(|e| format!("HARNESS-ERROR {e}"))?;
    cmp_file(c, &path, &laid)
}

/// entries this case put in the shared profile cache, taken out again at its end
pub struct Cached(Vec<Pkg2Profile>);
impl Cached {
    pub fn new(l: Vec<Pkg2Profile>) -> Self {
        PKG2_PROFILE_CACHE.write().unwrap().extend(l.iter().cloned());
        Cached(l)
    }
}
impl Drop for Cached {
    fn drop(&mut self) {
        let mut c = PKG2_PROFILE_CACHE.write().unwrap_or_else(|e| e.into_inner());
        for q in &self.0 {
            if let Some(i) = c.iter().position(|p| p.hash == q.hash && p.profile.name == q.profile.name) {
                c.remove(i);
            }
        }
    }
}

/// What another (profile, hash) the header admits makes of the top level: Some(same offsets?) if every
/// entry stays plausible, None if it is ruled out.
fn other_reading(c: &Pkg2, bytes: &[u8], laid: &[Laid], profile: u8, hash: u64) -> Option<bool> {
    let q = P2 { profile, hash, ..c.p.clone() };
    let mut same = true;
    for l in laid {
        let (offset, size, opos, dir) = match l {
            Laid::Dir { offset, size, opos, .. } => (*offset, *size, *opos, true),
            Laid::Img { offset, size, opos, .. } => (*offset, *size, *opos, false),
        };
        let enc = u32::from_le_bytes(bytes[opos as usize..opos as usize + 4].try_into().unwrap());
        let o = c.p.fstart.wrapping_add(q.enc_offset(opos as u32, c.p.fstart) ^ enc) as usize;
        same &= o == offset as usize;
        if o.checked_add(size as usize).is_none_or(|e| e > bytes.len()) {
            return None;
        }
        let b = *bytes.get(o)?;
        let ok = if dir { b < 0x80 || (b == 0x80 && bytes.get(o + 4).is_some_and(|x| *x < 0x80)) } else { matches!(b, 0x73 | 0x01 | 0x23) };
        if !ok {
            return None;
        }
    }
    Some(same)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    arcs: Vec<Pkg2>,
    /// which archive is opened, in order
    opens: Vec<u8>,
    decoys_first: bool,
}
fn hist_strat() -> BoxedStrategy<Hist> {
    (vec(pkg2(2), 1..4), vec(any::<u8>(), 1..7), any::<bool>())
        .prop_map(|(arcs, opens, decoys_first)| Hist { arcs, opens, decoys_first })
        .boxed()
}

fn history(h: &Hist, o: &mut Obs) -> Result<(), String> {
    let mut ok = true;
    for a in &h.arcs {
        ok &= classify(a, o);
    }
    if !ok {
        o.nontrivial = false;
        return Ok(());
    }
    o.nontrivial = h.opens.len() >= 2;
    // every archive's own hash, and every other (profile, hash) that also satisfies its header
    let mut own = vec![];
    let mut decoys = vec![];
    for a in &h.arcs {
        let (h1, h2) = (a.p.hash1, a.hash2());
        if a.p.is64() {
            continue;
        }
        own.push(seed(a.p.profile, a.p.hash));
        let profiles = get_all_pkg2_profiles();
        for k in [4usize, 5, 6] {
            for hash in profiles[k].get_hash_iter(h1, h2) {
                // (7-8 differ in nothing else)
                if k as u8 != a.p.profile || hash != a.p.hash {
                    decoys.push(Pkg2Profile::new(profiles[k].clone(), hash));
                }
            }
        }
        for k in [1u8, 2, 3] {
            if hash2_for(k, h1, a.p.hash) == h2 && !(a.p.profile == k) && !(matches!(a.p.profile, 1 | 3) && matches!(k, 1 | 3)) {
                decoys.push(seed(k, a.p.hash));
            }
        }
    }
    o.class_if(decoys.len() >= 2, "2+ misleading cache entries");
    for a in &h.arcs {
        let (bytes, laid) = a.encode();
        for d in decoys.iter().chain(&own) {
            let k = get_all_pkg2_profiles().iter().position(|p| p.name == d.profile.name).unwrap() as u8;
            if a.p.is64() || hash2_for(k, a.p.hash1, d.hash) != a.hash2() || (k, d.hash) == (a.p.profile, a.p.hash) {
                continue;
            }
            match other_reading(a, &bytes, &laid, k, d.hash) {
                None => {}
                Some(true) => o.class("a second hash gives the same offsets"),
                Some(false) => {
                    o.class("hash ambiguous");
                    o.nontrivial = false;
                    return Ok(());
                }
            }
        }
    }
    let mut all = vec![];
    if h.decoys_first {
        all.extend(decoys);
        all.extend(own);
    } else {
        all.extend(own);
        all.extend(decoys);
    }
    let _cached = Cached::new(all);
    let mut res = Ok(());
    for k in &h.opens {
        let a = &h.arcs[*k as usize % h.arcs.len()];
        let (bytes, laid) = a.encode();
        if let Err(e) = open_cmp(a, &bytes, &laid) {
            res = Err(format!("profile #{}: {e}", a.p.profile));
            break;
        }
    }
    res
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cand {
    profile: u8,
    hash1: u64,
    hash: u64,
    other: u64,
}
fn cand_strat() -> BoxedStrategy<Cand> {
    (0u8..7, any::<u64>(), any::<u64>(), any::<u64>(), any::<u8>())
        .prop_map(|(profile, hash1, hash, other, k)| {
            let m = |v: u64| if profile == 0 { v } else { v & 0xffff_ffff };
            let hash = match k {
                0..=9 => 0,
                10..=19 => u64::MAX,
                20..=60 => hash & 0xff,
                _ => hash,
            };
            let hash1 = if k & 1 == 0 && k < 40 { hash1 & 0x1f } else { hash1 };
            Cand { profile, hash1: m(hash1), hash: m(hash), other: m(if k % 3 == 0 { hash ^ (1 << (other % 64)) } else { other }) }
        })
        .boxed()
}
fn candidates(c: &Cand, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = true;
    let p = &get_all_pkg2_profiles()[c.profile as usize];
    let h2 = hash2_for(c.profile, c.hash1, c.hash);
    for (h, what) in [(c.hash, "its hash"), (c.other, "another hash")] {
        let want = hash2_for(c.profile, c.hash1, h) == h2;
        let got = Pkg2Profile::new(p.clone(), h).verify_hash(c.hash1, h2);
        if want != got {
            return Err(format!("{} verify_hash({:x},{h2:x}) of {what} {h:x}: {got}, expected {want}", p.name, c.hash1));
        }
    }
    if (1..=3).contains(&c.profile) {
        o.class("relation only");
        return Ok(());
    }
    let l: Vec<u64> = p.get_hash_iter(c.hash1, h2).collect();
    o.class_if(l.len() >= 2, "2+ candidates");
    if !l.contains(&c.hash) {
        return Err(format!("{}: hash {:x} satisfies hash1 {:x} hash2 {h2:x} but is not tried ({l:x?})", p.name, c.hash, c.hash1));
    }
    for (i, h) in l.iter().enumerate() {
        if hash2_for(c.profile, c.hash1, *h) != h2 {
            return Err(format!("{}: candidate {h:x} does not satisfy hash1 {:x} hash2 {h2:x}", p.name, c.hash1));
        }
        if l[..i].contains(h) {
            return Err(format!("{}: candidate {h:x} tried twice", p.name));
        }
    }
    if (4..=6).contains(&c.profile) {
        // the iterator over the three generations that can be solved
        let all: std::collections::BTreeSet<u64> = wz_reader::version::pkg2::VersionGen::new(c.hash1 as u32, h2 as u32).map(u64::from).collect();
        let each: Vec<Vec<u64>> = (4..=6).map(|k| get_all_pkg2_profiles()[k].get_hash_iter(c.hash1, h2).collect()).collect();
        o.class_if(each.iter().any(|g| g.is_empty()) && all.len() > 1, "a generation has no candidate, another has");
        if all != each.iter().flatten().copied().collect() {
            return Err(format!("all generations of hash1 {:x} hash2 {h2:x}: {all:x?} tried, expected {each:x?}", c.hash1));
        }
    }
    Ok(())
}

fn brute_strat() -> BoxedStrategy<Cand> {
    (1u8..=3, any::<u32>(), prop_oneof![1 => any::<u32>(), 1 => Just(u32::MAX)])
        .prop_map(|(profile, hash1, hash)| Cand { profile, hash1: hash1 as u64, hash: hash as u64, other: 0 })
        .boxed()
}
fn brute(c: &Cand, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = true;
    let p = &get_all_pkg2_profiles()[c.profile as usize];
    let h2 = hash2_for(c.profile, c.hash1, c.hash);
    let mut l: Vec<u64> = p.get_hash_iter(c.hash1, h2).collect();
    if !l.contains(&c.hash) {
        return Err(format!("{}: hash {:x} satisfies hash1 {:x} hash2 {h2:x} but is not tried ({l:x?})", p.name, c.hash, c.hash1));
    }
    for h in &l {
        if hash2_for(c.profile, c.hash1, *h) != h2 {
            return Err(format!("{}: candidate {h:x} does not satisfy the header", p.name));
        }
    }
    let n = l.len();
    l.sort();
    l.dedup();
    if l.len() != n {
        return Err("a candidate is tried twice".into());
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C03",
        threads: 8,
        assumptions: &[
            "the encrypted 32-bit entry count does not start with a byte that is an entry type, and is not negative for a subdirectory (its cipher is unknown)",
            "the candidate search of the brute-force profiles is reached through the profile cache in the archive checks",
        ],
        subs: vec![
            check!("archive", "one random archive of a random profile and header kind, decoded and compared; non-trivial: 2+ entries", 6000, 80000, || pkg2(1), single),
            check!("history", "1-3 archives opened repeatedly with a cache that also holds every other (profile, hash) their headers admit; non-trivial: 2+ opens", 1500, 20000, hist_strat, history),
            check!("long", "archives with one name of up to a million characters; non-trivial: 2+ entries", 200, 5000, long_strat, long),
            check!("huge", "sparse archives of up to 4 GiB with a hole before one of the blocks; non-trivial: 2+ entries", 200, 6000, huge_strat, huge),
            check!("candidates", "planted hash: relation, completeness, soundness, no repetition", 3000, 60000, cand_strat, candidates),
            check!("bruteforce", "whole 32-bit search of profiles 1199-1201 with a planted hash", 1, 12, brute_strat, brute),
        ],
    }
}
