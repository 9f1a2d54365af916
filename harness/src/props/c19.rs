//! C19 damaged and hostile files
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::mem;
use crate::ms::*;
use crate::props::c03;
use crate::px;
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::sync::Arc;
use wz_reader::property::{get_image, resolve_string_from_node, WzLua, WzPng, WzRawData, WzSound, WzSoundType, WzVideo};
use wz_reader::util::profile::get_all_pkg2_profiles;
use wz_reader::util::string_decryptor::pkg2_decryptor::get_kmst1199_key;
use wz_reader::util::walk_node;
use wz_reader::version::WzMapleVersion;
use wz_reader::{reader, util, Reader, WzDirectory, WzHeader, WzImage, WzNode, WzNodeArc, WzNodeCast, WzObjectType, WzReader, WzSliceReader};

// ------------------------------------------------------------------ limits

const MIB: usize = 1 << 20;
/// A node takes a few hundred bytes and needs at least two of the file; names can be shared.
fn parse_limit(len: usize) -> usize {
    4 * MIB + 2048 * len
}
/// Deflate expands at most 1032 times, and the pixels made of it are some bytes each.
fn extract_limit(len: usize, pixels: usize) -> usize {
    16 * MIB + 16384 * len + 16 * pixels
}
fn limited<R>(what: &str, limit: usize, f: impl FnOnce() -> R) -> Result<R, String> {
    let (r, top) = mem::peak(f);
    if top > limit {
        return Err(format!("{what} asked for {top} bytes of memory, {limit} would be in proportion"));
    }
    Ok(r)
}

// ------------------------------------------------------------------ using whatever was opened

/// Everything that can be had from a single node.
fn extract(node: &WzNodeArc, len: usize) -> Result<(), String> {
    let r = node.read().unwrap();
    limited("building paths", parse_limit(len), || {
        let _ = (r.get_full_path(), r.get_path_from_root(), r.get_path_from_image());
        let _ = (r.get_parent_wz_image(), r.get_base_wz_file());
    })?;
    if let Some(s) = r.try_as_string() {
        let _ = limited("reading a string", parse_limit(len), || s.get_string())?;
    }
    if let Some(s) = r.try_as_sound() {
        let b = limited("reading a sound", parse_limit(len), || s.get_buffer())?;
        if b.len() > len + 44 {
            return Err(format!("a sound of {} bytes from a file of {len}", b.len()));
        }
        let _ = s.get_wav_header();
        let mut out = std::io::Cursor::new(vec![]);
        let _ = limited("writing a sound", parse_limit(len), || s.write_to(&mut out))?;
    }
    if let Some(l) = r.try_as_lua() {
        let _ = limited("reading a script", parse_limit(len), || l.extract_lua())?;
    }
    if let Some(d) = r.try_as_raw_data() {
        if d.get_buffer().len() > len {
            return Err("raw data longer than the file".into());
        }
    }
    if let Some(d) = r.try_as_video() {
        if d.get_buffer().len() > len {
            return Err("a video longer than the file".into());
        }
    }
    if let Some(p) = r.try_as_png() {
        let px = p.width as usize * p.height as usize;
        let img = mem::peak(|| p.extract_png().map(|i| (i.width(), i.height())));
        let limit = extract_limit(len, if img.0.is_ok() { px } else { 0 });
        if img.1 > limit {
            return Err(format!("a {}x{} canvas asked for {} bytes, {limit} would be in proportion", p.width, p.height, img.1));
        }
        if let Ok(s) = img.0 {
            if s != (p.width, p.height) {
                return Err(format!("a {}x{} canvas became an image of {s:?}", p.width, p.height));
            }
        }
    }
    drop(r);
    let _ = resolve_string_from_node(node);
    Ok(())
}

/// more links than this can put so many paths into a tree that walking it takes for ever
const MANY_UOLS: usize = 8;
const MANY_NODES: usize = 150_000;

/// Go through the tree without walk_node. Says whether going on is sensible.
fn survey(node: &WzNodeArc, len: usize, seen: &Cell<usize>, most: &Cell<usize>, depth: usize) -> Result<bool, String> {
    seen.set(seen.get() + 1);
    most.set(most.get().max(depth));
    if seen.get() > MANY_NODES || depth > 2000 {
        return Ok(false);
    }
    let mut uols = 0;
    if let Some(i) = node.read().unwrap().try_as_image() {
        if let Ok(r) = limited("parsing an image", parse_limit(len), || i.resolve_children(None))? {
            uols = r.1.len();
        }
    }
    let _ = limited("parsing", parse_limit(len), || node.write().unwrap().parse(node))?;
    let is_image = node.read().unwrap().try_as_image().is_some();
    if is_image && uols > MANY_UOLS {
        node.write().unwrap().unparse();
        return Ok(false);
    }
    let kids: Vec<WzNodeArc> = node.read().unwrap().children.values().cloned().collect();
    let mut fine = true;
    for k in kids {
        if !survey(&k, len, seen, most, depth + 1)? {
            fine = false;
            break;
        }
    }
    if is_image {
        node.write().unwrap().unparse();
    }
    Ok(fine)
}

/// Parse, walk, read, extract and export, all without a crash. `lookups` are paths to try.
fn exercise(node: &WzNodeArc, len: usize, lookups: &[String], o: &mut Obs) -> Result<(), String> {
    let (seen, most) = (Cell::new(0), Cell::new(0));
    let fine = survey(node, len, &seen, &most, 0)?;
    o.nontrivial = seen.get() > 3;
    o.class_if(seen.get() > 1, "has children");
    o.class_if(seen.get() > 1000, "more than 1000 nodes");
    o.class_if(most.get() > 16, "deeper than 16");
    if !fine {
        o.class("too many links or nodes to walk (walk not judged)");
        return Ok(());
    }
    limited("walking", 2 * parse_limit(len) + 64 * seen.get(), || walk_node(node, true, &|_| {}))?;
    let err = RefCell::new(None);
    let n = Cell::new(0);
    let paths = RefCell::new(vec![]);
    walk_node(node, true, &|x| {
        n.set(n.get() + 1);
        if n.get() <= 4000 && err.borrow().is_none() {
            if let Err(e) = extract(x, len) {
                *err.borrow_mut() = Some(e);
            }
            if paths.borrow().len() < 40 {
                paths.borrow_mut().push(x.read().unwrap().get_path_from_root());
            }
        }
    });
    if let Some(e) = err.into_inner() {
        return Err(e);
    }
    // everything parsed at once, links among canvases followed
    let keep = RefCell::new(vec![]);
    parse_all(node, &keep, 0);
    let all = keep.into_inner();
    for x in all.iter().take(300) {
        if let Err(e) = img_of(x, len) {
            return Err(e);
        }
    }
    {
        let r = node.read().unwrap();
        for p in paths.into_inner().iter().chain(lookups) {
            let rel = p.trim_start_matches('/').split_once('/').map_or(p.as_str(), |x| x.1);
            for p in [p.as_str(), rel] {
                let _ = (r.at_path(p), r.at_path_relative(p), r.at_relative(p));
            }
        }
    }
    for x in &all {
        let r = x.read().unwrap();
        if let Some(i) = r.try_as_image() {
            for p in lookups {
                if let Ok(Ok(f)) = limited("a direct lookup", parse_limit(len), || i.at_path(p)) {
                    extract(&f, len)?;
                }
            }
        }
        let kids: Vec<String> = r.children.keys().map(|k| k.to_string()).collect();
        drop(r);
        if x.read().unwrap().try_as_image().is_some() {
            for k in kids.iter().take(20) {
                let r = x.read().unwrap();
                if let Some(i) = r.try_as_image() {
                    if let Ok(f) = i.at_path(k) {
                        drop(r);
                        extract(&f, len)?;
                    }
                }
            }
        }
    }
    if all.len() < 3000 {
        let r = node.read().unwrap();
        let _ = r.to_json();
        let _ = r.to_simple_json();
    }
    for p in lookups {
        let r = node.read().unwrap();
        if matches!(r.object_type, WzObjectType::Image(_) | WzObjectType::File(_)) {
            let _ = r.at_path_parsed(p);
        }
    }
    drop(all);
    node.write().unwrap().unparse();
    let _ = node.write().unwrap().parse(node);
    Ok(())
}
fn img_of(x: &WzNodeArc, len: usize) -> Result<(), String> {
    if x.read().unwrap().try_as_png().is_none() {
        return Ok(());
    }
    let r = mem::peak(|| get_image(x).map(|i| i.width() as usize * i.height() as usize));
    let limit = extract_limit(len, r.0.as_ref().map_or(0, |p| *p)) + parse_limit(len);
    if r.1 > limit {
        return Err(format!("get_image asked for {} bytes, {limit} would be in proportion", r.1));
    }
    Ok(())
}
fn parse_all(node: &WzNodeArc, out: &RefCell<Vec<WzNodeArc>>, depth: usize) {
    if out.borrow().len() > 5000 || depth > 1000 {
        return;
    }
    let _ = node.write().unwrap().parse(node);
    out.borrow_mut().push(Arc::clone(node));
    let kids: Vec<WzNodeArc> = node.read().unwrap().children.values().cloned().collect();
    for k in kids {
        parse_all(&k, out, depth + 1);
    }
}

fn lookups() -> BoxedStrategy<Vec<String>> {
    let seg = prop_oneof![4 => any_name().prop_map(|s| s.0), 1 => Just("..".to_string()), 1 => Just(String::new()), 1 => (0u8..4).prop_map(|i| i.to_string())];
    vec(vec(seg, 1..5).prop_map(|v| v.join("/")), 0..4).boxed()
}

// ------------------------------------------------------------------ damage

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) enum Mut {
    /// overwrite a little-endian number of 1, 2, 4 or 8 bytes
    Num(u16, u8, i64),
    /// a compressed integer in its long form
    Long(u16, i32),
    Xor(u16, u8),
    Insert(u16, Vec<u8>),
    Delete(u16, u16),
    /// copy a range to another place, over what is there
    Copy(u16, u16, u8),
    /// repeat a range
    Repeat(u16, u8, u8),
    Cut(u16),
}
fn place(at: u16, len: usize) -> usize {
    // the low values address the first bytes, the rest is spread over the file
    if at < 0x2000 {
        at as usize % 128 % len.max(1)
    } else {
        (at as usize - 0x2000) * len / 0xE000
    }
}
pub(super) fn damage(b: &mut Vec<u8>, muts: &[Mut]) {
    for m in muts {
        let n = b.len();
        if n == 0 {
            return;
        }
        let over = |b: &mut Vec<u8>, at: usize, d: &[u8]| {
            for (i, x) in d.iter().enumerate() {
                if let Some(p) = b.get_mut(at + i) {
                    *p = *x;
                }
            }
        };
        match m {
            Mut::Num(at, w, v) => over(b, place(*at, n), &v.to_le_bytes()[..1 << (w % 4)]),
            Mut::Long(at, v) => {
                let mut d = vec![0x80];
                d.extend(v.to_le_bytes());
                over(b, place(*at, n), &d);
            }
            Mut::Xor(at, x) => b[place(*at, n).min(n - 1)] ^= *x,
            Mut::Insert(at, d) => {
                let at = place(*at, n);
                b.splice(at..at, d.iter().copied());
            }
            Mut::Delete(at, k) => {
                let at = place(*at, n);
                b.drain(at..(at + *k as usize % 64).min(n));
            }
            Mut::Copy(from, to, k) => {
                let from = place(*from, n);
                let d = b[from..(from + *k as usize).min(n)].to_vec();
                over(b, place(*to, n), &d);
            }
            Mut::Repeat(at, k, times) => {
                let at = place(*at, n);
                let d = b[at..(at + *k as usize).min(n)].repeat(*times as usize % 8);
                b.splice(at..at, d);
            }
            Mut::Cut(at) => b.truncate(place(*at, n)),
        }
    }
}
fn extreme() -> BoxedStrategy<i64> {
    prop_oneof![
        4 => proptest::sample::select(vec![
            0i64, 1, -1, 2, 0x7f, 0x80, -128, -127, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff,
            0x7fff_fffe, -0x8000_0000, 0x8000_0001, 0xffff_fff0, 0x3fff_ffff, 0x4000_0000, 0x5555_5555, i64::MIN, i64::MAX, 0x0100_0000_0000]),
        2 => 0i64..300,
        2 => any::<i32>().prop_map(|v| v as i64),
        1 => any::<i64>(),
    ]
    .boxed()
}
fn extreme32() -> BoxedStrategy<i32> {
    extreme().prop_map(|v| v as i32).boxed()
}
fn one_mut() -> BoxedStrategy<Mut> {
    let at = || any::<u16>();
    prop_oneof![
        5 => (at(), 0u8..4, extreme()).prop_map(|(a, w, v)| Mut::Num(a, w, v)),
        3 => (at(), extreme32()).prop_map(|(a, v)| Mut::Long(a, v)),
        4 => (at(), 1u8..=255).prop_map(|(a, v)| Mut::Xor(a, v)),
        1 => (at(), vec(any::<u8>(), 1..20)).prop_map(|(a, v)| Mut::Insert(a, v)),
        2 => (at(), 1u16..64).prop_map(|(a, v)| Mut::Delete(a, v)),
        2 => (at(), at(), 1u8..80).prop_map(|(a, b, v)| Mut::Copy(a, b, v)),
        1 => (at(), 1u8..80, 1u8..8).prop_map(|(a, b, v)| Mut::Repeat(a, b, v)),
        2 => at().prop_map(Mut::Cut),
    ]
    .boxed()
}
pub(super) fn muts() -> BoxedStrategy<Vec<Mut>> {
    prop_oneof![3 => vec(one_mut(), 1..3), 1 => vec(one_mut(), 1..9)].boxed()
}

// ------------------------------------------------------------------ ways of opening

#[derive(Clone, Debug, Serialize, Deserialize)]
struct How {
    way: u8,
    region: u8,
    patch: Option<i32>,
    iv: [u8; 4],
    lookups: Vec<String>,
    /// for the directories of 32-bit PKG2 archives
    hash: Option<u32>,
    profile: u8,
    rekey: bool,
}
fn how() -> BoxedStrategy<How> {
    let patch = prop_oneof![4 => 1i32..2000, 1 => extreme32()];
    (any::<u8>(), 0u8..6, prop::option::weighted(0.4, patch), any_iv(), lookups(), any::<(Option<u32>, u8, bool)>())
        .prop_map(|(way, region, patch, iv, lookups, (hash, profile, rekey))| How { way, region, patch, iv, lookups, hash, profile, rekey })
        .boxed()
}
fn region(n: u8) -> Option<WzMapleVersion> {
    [None, Some(WzMapleVersion::GMS), Some(WzMapleVersion::EMS), Some(WzMapleVersion::BMS), Some(WzMapleVersion::UNKNOWN), None][n as usize % 6]
}
/// the caller's node: whatever of the ways the bytes are good for, starting with the given one
fn archive_ways(sc: &Scratch, b: &[u8], h: &How, o: &mut Obs) -> Result<(), String> {
    let path = sc.write("Base.wz", b);
    let key = util::string_decryptor::GLOBAL_STRING_DECRYPTOR.get_decryptor_by_iv(h.iv);
    let r = limited("opening", parse_limit(b.len()), || match h.way % 4 {
        0 => WzNode::from_wz_file(&path, None),
        1 => WzNode::from_wz_file_full(&path, region(h.region), h.patch, None, None),
        2 => WzNode::from_wz_file_full(&path, None, h.patch, None, Some(&key)),
        _ => WzNode::from_wz_file_full(&path, region(h.region), None, None, None),
    })?;
    match r {
        Ok(n) => {
            let n = match as_directory(&n, h)? {
                Some(dir) => {
                    o.class("root directory of a 32-bit PKG2 archive");
                    dir
                }
                None => n.into_lock(),
            };
            let r = limited("parsing an archive", parse_limit(b.len()), || n.write().unwrap().parse(&n))?;
            o.class(if r.is_ok() { "parsed" } else { "opened, refused when parsed" });
            exercise(&n, b.len(), &h.lookups, o)
        }
        Err(_) => {
            o.class("refused");
            Ok(())
        }
    }
}
/// Parsing a PKG2 archive with 32-bit hashes tries all 2^32 of them, as its format demands, when
/// none fits: too slow here, so its root directory is used with one hash and profile instead.
fn as_directory(file: &WzNode, h: &How) -> Result<Option<WzNodeArc>, String> {
    let f = file.try_as_file().ok_or("HARNESS-ERROR not a file")?;
    let header = f.reader.create_header();
    if header.ident != util::version::PKGVersion::V2 || header.is_pkg2_64() {
        return Ok(None);
    }
    let mut dir = WzDirectory::new(f.offset, f.block_size, &f.reader, false);
    if dir.prepare_entries().is_err() {
        return Ok(None);
    }
    let hash = match h.hash {
        Some(x) => x as u64,
        None => 0x1234_5678,
    };
    let profiles = get_all_pkg2_profiles();
    let profile = profiles[h.profile as usize % profiles.len()].clone();
    // otherwise the keys are shared with every other reader
    if h.rekey && !f.wz_file_meta.string_decryptor_verified {
        let key = get_kmst1199_key(header.hash1 as u32, hash as u32) as u64;
        f.reader.pkg2_keys.write().unwrap().set_iv(key, profile.decryptor_type);
    }
    let mut dir = WzDirectory::new(f.offset, f.block_size, &f.reader, false).with_hash(hash);
    dir.profile = profile;
    Ok(Some(WzNode::new(&"root".into(), dir, None).into_lock()))
}
fn image_ways(sc: &Scratch, b: &[u8], iv: [u8; 4], name: &str, at: usize, h: &How, o: &mut Obs) -> Result<(), String> {
    let len = b.len();
    let n = match h.way % 8 {
        0 | 1 => {
            let path = sc.write(name, b);
            let r = limited("opening", parse_limit(len), || match h.region {
                0..=2 => WzNode::from_img_file(&path, None, None),
                3 => WzNode::from_img_file(&path, region(h.region), None),
                _ => WzNode::from_img_file_with_iv(&path, iv, None),
            })?;
            match r {
                Ok(n) => n.into_lock(),
                Err(_) => {
                    o.class("refused");
                    return Ok(());
                }
            }
        }
        2 => {
            // an image the archive claims to lie elsewhere
            let rd = mem_reader(b, iv);
            let off = h.patch.unwrap_or(3) as u32 as usize;
            WzNode::new(&name.into(), WzImage::new(&name.into(), off, h.iv[0] as usize * 7, &rd), None).into_lock()
        }
        _ => image_node(name, b, at, iv),
    };
    let r = n.write().unwrap().parse(&n);
    o.class(if r.is_ok() { "parsed" } else { "opened, refused when parsed" });
    n.write().unwrap().unparse();
    exercise(&n, len + at, &h.lookups, o)
}

// ------------------------------------------------------------------ mutated archives

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Src {
    P1(Pkg1),
    P2(c03::Pkg2),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arch {
    src: Src,
    /// entries whose stored offset is made to lead to another stored thing: (entry, target, shift)
    moved: Vec<(u8, u8, i8)>,
    muts: Vec<Mut>,
    how: How,
}
fn arch() -> BoxedStrategy<Arch> {
    let how = (how(), prop::bool::weighted(0.8)).prop_map(|(mut h, plain)| {
        if plain {
            h.patch = None;
        }
        h
    });
    // one that leaves the first part, where the directories mostly are, alone
    let late = vec((0x5000u16..=0xffff, one_mut()), 1..6).prop_map(|v| {
        v.into_iter()
            .map(|(at, m)| match m {
                Mut::Num(_, a, b) => Mut::Num(at, a, b),
                Mut::Long(_, a) => Mut::Long(at, a),
                Mut::Xor(_, a) => Mut::Xor(at, a),
                Mut::Copy(a, _, n) => Mut::Copy(a, at, n),
                Mut::Cut(_) => Mut::Cut(at),
                _ => Mut::Xor(at, 0x80),
            })
            .collect::<Vec<_>>()
    });
    let p1 = prop::bool::weighted(0.7)
        .prop_flat_map(|encver| (header_text(), guessable_version(encver), Just(encver), region_iv(), entries(true, 4, 24, true), layout()))
        .prop_map(|(text, version, encver, iv, root, layout)| Src::P1(Pkg1 { text, version, encver, iv, root, layout }));
    let p2 = c03::pkg2(1).prop_map(Src::P2);
    let moved = prop_oneof![2 => Just(vec![]), 1 => vec((any::<u8>(), any::<u8>(), prop_oneof![4 => Just(0i8), 1 => any::<i8>()]), 1..4)];
    (prop_oneof![3 => p1, 1 => p2], moved, prop_oneof![3 => muts(), 4 => late, 1 => Just(vec![])], how).prop_map(|(src, moved, muts, how)| Arch { src, moved, muts, how }).boxed()
}
fn flat(l: &[Laid], out: &mut Vec<(usize, usize)>) {
    for e in l {
        match e {
            Laid::Dir { offset, opos, kids, .. } => {
                out.push((*opos, *offset));
                flat(kids, out);
            }
            Laid::Img { offset, opos, .. } => out.push((*opos, *offset)),
        }
    }
}
fn archive(c: &Arch, o: &mut Obs) -> Result<(), String> {
    let (mut b, laid) = match &c.src {
        Src::P1(p) => p.encode(),
        Src::P2(p) => p.encode(),
    };
    let mut all = vec![];
    flat(&laid, &mut all);
    for (e, t, d) in &c.moved {
        if all.is_empty() {
            break;
        }
        let at = all[*e as usize % all.len()].0;
        let root = match &c.src {
            Src::P1(p) => p.fstart() + if p.encver { 2 } else { 0 },
            Src::P2(p) => p.data_start(),
        };
        let to = if *t < 40 { root } else { all[*t as usize % all.len()].1 };
        let to = to.wrapping_add_signed(*d as isize) as u32;
        let v = match &c.src {
            Src::P1(p) => enc_offset_pkg1(p.fstart() as u32, at as u32, p.hash(), to),
            Src::P2(p) => p.p.enc_offset(at as u32, to),
        };
        b[at..at + 4].copy_from_slice(&v.to_le_bytes());
        o.class("entry led elsewhere");
    }
    damage(&mut b, &c.muts);
    if b.len() > 60_000 {
        return Ok(());
    }
    o.class(match &c.src {
        Src::P1(_) => "PKG1",
        Src::P2(_) => "PKG2",
    });
    let mut h = c.how.clone();
    if let Src::P2(p) = &c.src {
        // mostly the right hash, profile and keys
        h.hash = h.hash.filter(|x| x % 4 == 0).or(Some(p.p.hash as u32));
        if h.profile < 200 {
            h.profile = p.p.profile;
        }
        h.rekey |= (1..=4).contains(&h.profile);
    }
    archive_ways(&Scratch::new(), &b, &h, o)
}

// ------------------------------------------------------------------ directories that contain each other

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Graph {
    version: i32,
    iv: [u8; 4],
    /// entries of each directory: a directory number, or an image from 200 on
    dirs: Vec<Vec<u8>>,
    given: bool,
    tail: u16,
    /// directories only hold later ones
    dag: bool,
}
fn graph() -> BoxedStrategy<Graph> {
    let entry = prop_oneof![6 => 0u8..12, 1 => 200u8..202];
    (1i32..2000, region_iv(), vec(vec(entry, 0..6), 1..12), any::<bool>(), prop_oneof![Just(0u16), 0u16..4000], any::<bool>())
        .prop_map(|(version, iv, dirs, given, tail, dag)| {
            let n = dirs.len();
            // the last one can hold no other
            let dirs = dirs.into_iter().enumerate().map(|(i, d)| if dag && i + 1 == n { d.into_iter().map(|_| 200).collect() } else { d }).collect();
            Graph { version, iv, dirs, given, tail, dag }
        })
        .boxed()
}
impl Graph {
    fn target(&self, from: usize, e: u8) -> usize {
        let n = self.dirs.len();
        if self.dag {
            from + 1 + e as usize % (n - from - 1)
        } else {
            e as usize % n
        }
    }
}
fn graph_file(g: &Graph) -> Vec<u8> {
    let hash = version_hash(g.version as u32);
    let mut w = W::default();
    w.bytes(b"PKG1");
    w.bytes(&[0; 8]);
    w.u32(16);
    w.u16(encver(hash) as u16);
    let body = encode_image(&[(S("a".into(), 0), V::Int(1, false, false))], g.iv);
    let entry_len = 1 + 3 + 5 + 1 + 4;
    let mut at = w.pos();
    let mut pos = vec![];
    for d in &g.dirs {
        pos.push(at);
        at += 1 + d.len() * entry_len;
    }
    let img = at;
    for (from, d) in g.dirs.iter().enumerate() {
        w.wz_int(d.len() as i32, false);
        for (i, e) in d.iter().enumerate() {
            let (ty, to, size) = if *e >= 200 {
                (4, img, body.len())
            } else {
                let t = g.target(from, *e);
                (3, pos[t], 1 + g.dirs[t].len() * entry_len)
            };
            w.u8(ty);
            w.wz_str(&format!("{}{}", (b'a' + i as u8) as char, if ty == 3 { 'd' } else { 'i' }), g.iv, false, false);
            w.wz_int(size as i32, true);
            w.wz_int(0, false);
            let p = w.pos();
            w.u32(enc_offset_pkg1(16, p as u32, hash, to as u32));
        }
    }
    w.bytes(&body);
    w.bytes(&vec![0xE7; g.tail as usize]);
    let n = (w.pos() - 16) as u64;
    w.0[4..12].copy_from_slice(&n.to_le_bytes());
    w.0
}
fn directories(g: &Graph, o: &mut Obs) -> Result<(), String> {
    let b = graph_file(g);
    // what the directories hold when every path is followed
    fn unfold(g: &Graph, d: usize, depth: usize, left: &mut i64) -> bool {
        *left -= g.dirs[d].len() as i64;
        depth <= 40 && *left >= 0 && g.dirs[d].iter().filter(|e| **e < 200).all(|e| unfold(g, g.target(d, *e), depth + 1, left))
    }
    let mut once = vec![false; g.dirs.len()];
    fn tree(g: &Graph, d: usize, once: &mut [bool]) -> bool {
        !std::mem::replace(&mut once[d], true) && g.dirs[d].iter().filter(|e| **e < 200).all(|e| tree(g, g.target(d, *e), once))
    }
    let plain = tree(g, 0, &mut once);
    let finite = unfold(g, 0, 0, &mut 100_000);
    o.class(if plain {
        "plain tree"
    } else if finite {
        "shared directories"
    } else {
        "endless or huge"
    });
    let sc = Scratch::new();
    let path = sc.write("Loop.wz", &b);
    let r = WzNode::from_wz_file_full(&path, wz_region(g.iv), if g.given { Some(g.version) } else { None }, None, None);
    let n = match r {
        Ok(n) => n.into_lock(),
        Err(_) if !plain => return Ok(()),
        Err(e) => return Err(format!("open: {e}")),
    };
    let r = limited("parsing an archive", parse_limit(b.len()), || n.write().unwrap().parse(&n))?;
    o.class(if r.is_ok() { "parsed" } else { "refused" });
    if plain && g.given {
        r.map_err(|e| format!("a plain tree of directories is refused: {e}"))?;
    }
    let mut ob = Obs::default();
    exercise(&n, b.len(), &["ad/ad/ad/ai".to_string(), "bd/ad".to_string()], &mut ob)?;
    o.nontrivial = !plain;
    Ok(())
}
fn wz_region(iv: [u8; 4]) -> Option<WzMapleVersion> {
    region_of(iv)
}

// ------------------------------------------------------------------ mutated images

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Image {
    tree: Vec<(S, V)>,
    kind: u8,
    iv: [u8; 4],
    name: String,
    at: u8,
    muts: Vec<Mut>,
    how: How,
}
fn image() -> BoxedStrategy<Image> {
    let name = prop_oneof![6 => Just("a.img"), 1 => Just("a.lua"), 1 => Just("a.txt"), 1 => Just("a")];
    let uol = prop_oneof![
        any_text(),
        vec(prop_oneof![3 => Just("..".to_string()), 3 => any_name().prop_map(|s| s.0), 1 => Just(String::new())], 1..6).prop_map(|v| v.join("/")),
    ];
    let leaf = prop_oneof![8 => scalar(), 2 => media_leaf(), 1 => (uol, any_mode()).prop_map(|(t, m)| V::Uol(S(t, m)))].boxed();
    let tree = prop_oneof![3 => tree_with(leaf.clone(), 4, 24), 1 => tree_with(leaf, 8, 60)];
    (tree, 0u8..12, any_iv(), name, 0u8..20, muts(), how())
        .prop_map(|(tree, kind, iv, name, at, muts, how)| Image { tree, kind, iv, name: name.to_string(), at, muts, how })
        .boxed()
}
fn images(c: &Image, o: &mut Obs) -> Result<(), String> {
    let mut b = match c.kind {
        0 => encode_body(&Body::Lua("print('안녕') -- ".repeat(9)), c.iv),
        1 => encode_body(&Body::Packed(b"a = { b = 1 }".to_vec()), c.iv),
        _ => encode_image(&c.tree, c.iv),
    };
    damage(&mut b, &c.muts);
    if b.len() > 60_000 {
        return Ok(());
    }
    image_ways(&Scratch::new(), &b, c.iv, &c.name, c.at as usize, &c.how, o)
}

// ------------------------------------------------------------------ images of wild structure

type Over = Option<i32>;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Nm {
    Plain(String),
    Raw(u8, i8, i32, Vec<u8>),
    Ref(u8, i32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum X {
    Num(u8, Vec<u8>),
    Str(Nm),
    /// an extended value and a stated size for it
    Ext(Over, Box<X>),
    Sub(Over, Vec<(Nm, X)>),
    Canvas { flag: u8, kids: Option<(Over, Vec<(Nm, X)>)>, w: i32, h: i32, f1: i32, f2: i8, pages: i32, size: Over, data: Vec<u8> },
    Convex(Over, Vec<X>),
    Sound { size: Over, dur: i32, header: Vec<u8>, data: Vec<u8> },
    Raw { ver: u8, flag: u8, kids: Option<(Over, Vec<(Nm, X)>)>, size: Over, data: Vec<u8> },
    Video(Over, Vec<u8>),
    Uol(Nm),
    Vector(i32, i32),
    Other(Nm, Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wild {
    iv: [u8; 4],
    count: Over,
    list: Vec<(Nm, X)>,
    at: u8,
    how: How,
    /// which of the odd things are written, by their order; without it all
    odd: Option<Vec<u8>>,
}
struct WEnc<'a>(&'a mut W, [u8; 4], &'a Option<Vec<u8>>, usize);
impl WEnc<'_> {
    /// whether the next odd thing is written
    fn odd(&mut self) -> bool {
        self.3 += 1;
        self.2.as_ref().is_none_or(|l| l.iter().any(|i| *i as usize + 1 == self.3))
    }
    fn over(&mut self, o: &Over) -> Over {
        o.filter(|_| self.odd())
    }
    fn name(&mut self, n: &Nm) {
        match n {
            Nm::Raw(..) | Nm::Ref(..) if !self.odd() => self.name(&Nm::Plain("n".into())),
            Nm::Plain(s) => {
                self.0.u8(0);
                self.0.wz_str(s, self.1, !s.is_ascii(), false);
            }
            Nm::Raw(tag, len, long, d) => {
                self.0.u8(*tag);
                self.0.u8(*len as u8);
                if matches!(*len, i8::MIN | i8::MAX) {
                    self.0.i32(*long);
                }
                self.0.bytes(d);
            }
            Nm::Ref(tag, off) => {
                self.0.u8(*tag);
                self.0.i32(*off);
            }
        }
    }
    fn tname(&mut self, s: &str) {
        self.0.u8(0x73);
        self.0.wz_str(s, self.1, false, false);
    }
    fn list(&mut self, count: &Over, l: &[(Nm, X)]) {
        let count = self.over(count);
        self.0.wz_int(count.unwrap_or(l.len() as i32), false);
        for (n, x) in l {
            self.name(n);
            self.value(x);
        }
    }
    fn value(&mut self, x: &X) {
        match x {
            X::Num(t, _) if !matches!(t, 0 | 2..=5 | 20) && !self.odd() => self.0.u8(0),
            X::Num(t, d) => {
                self.0.u8(*t);
                self.0.bytes(d);
            }
            X::Str(n) => {
                self.0.u8(8);
                self.name(n);
            }
            X::Ext(size, x) => {
                self.0.u8(9);
                let at = self.0.pos();
                self.0.u32(0);
                self.ext(x);
                let n = self.0.pos() - at - 4;
                let size = self.over(size);
                self.0.patch_u32(at, size.map_or(n as u32, |s| s as u32));
            }
            x => self.value(&X::Ext(None, Box::new(x.clone()))),
        }
    }
    fn blob(&mut self, size: &Over, d: &[u8]) {
        let size = self.over(size);
        self.0.wz_int(size.unwrap_or(d.len() as i32), false);
        self.0.bytes(d);
    }
    fn kids(&mut self, flag: u8, kids: &Option<(Over, Vec<(Nm, X)>)>) {
        let flag = if flag > 1 && self.odd() { flag } else { 0 };
        self.0.u8(if kids.is_some() { 1 } else { flag });
        if let Some((c, l)) = kids {
            self.0.u16(0);
            self.list(c, l);
        }
    }
    fn ext(&mut self, x: &X) {
        match x {
            X::Ext(_, x) => self.ext(x),
            X::Num(..) | X::Str(_) | X::Other(..) if !self.odd() => self.ext(&X::Vector(3, -3)),
            X::Num(..) | X::Str(_) => self.tname("Nothing"),
            X::Sub(c, l) => {
                self.tname("Property");
                self.0.u16(0);
                self.list(c, l);
            }
            X::Canvas { flag, kids, w, h, f1, f2, pages, size, data } => {
                self.tname("Canvas");
                self.0.u8(0);
                self.kids(*flag, kids);
                for v in [w, h, f1] {
                    self.0.wz_int(*v, false);
                }
                self.0.u8(*f2 as u8);
                self.0.wz_int(*pages, false);
                self.0.wz_int(0, false);
                self.0.u16(0);
                let size = self.over(size);
                self.0.i32(size.unwrap_or(data.len() as i32 + 1));
                self.0.u8(0);
                self.0.bytes(data);
            }
            X::Convex(c, l) => {
                self.tname("Shape2D#Convex2D");
                let c = self.over(c);
                self.0.wz_int(c.unwrap_or(l.len() as i32), false);
                l.iter().for_each(|x| self.ext(x));
            }
            X::Sound { size, dur, header, data } => {
                self.tname("Sound_DX8");
                self.0.u8(0);
                let size = self.over(size);
                self.0.wz_int(size.unwrap_or(data.len() as i32), false);
                self.0.wz_int(*dur, false);
                let mut header = header.clone();
                if !self.odd() {
                    header.resize(header.len().max(52), 0);
                    header[51] = (header.len() - 52) as u8;
                }
                self.0.bytes(&header);
                self.0.bytes(data);
            }
            X::Raw { ver, flag, kids, size, data } => {
                self.tname("RawData");
                let ver = if *ver > 1 && !self.odd() { 1 } else { *ver };
                self.0.u8(ver);
                if ver == 1 {
                    self.kids(*flag, kids);
                }
                self.blob(size, data);
            }
            X::Video(size, data) => {
                self.tname("Canvas#Video");
                self.0.bytes(&[0, 0, 1]);
                self.blob(size, data);
            }
            X::Uol(n) => {
                self.tname("UOL");
                self.0.u8(0);
                self.name(n);
            }
            X::Vector(a, b) => {
                self.tname("Shape2D#Vector2D");
                self.0.wz_int(*a, false);
                self.0.wz_int(*b, false);
            }
            X::Other(n, d) => {
                self.name(n);
                self.0.bytes(d);
            }
        }
    }
}
fn over(small: std::ops::Range<i32>) -> BoxedStrategy<Over> {
    prop_oneof![5 => Just(None), 1 => small.prop_map(Some), 1 => extreme32().prop_map(Some)].boxed()
}
fn nm() -> BoxedStrategy<Nm> {
    prop_oneof![
        10 => any_name().prop_map(|s| Nm::Plain(s.0)),
        1 => (proptest::sample::select(vec![0u8, 0x73, 1, 0x1B, 7]), any::<i8>(), extreme32(), vec(any::<u8>(), 0..12)).prop_map(|(t, l, e, d)| Nm::Raw(t, l, e, d)),
        1 => (prop_oneof![Just(1u8), Just(0x1B)], prop_oneof![3 => 0i32..300, 1 => extreme32()]).prop_map(|(t, o)| Nm::Ref(t, o)),
    ]
    .boxed()
}
fn uol_path() -> BoxedStrategy<Nm> {
    vec(prop_oneof![3 => Just("..".to_string()), 3 => any_name().prop_map(|s| s.0), 1 => Just(String::new()), 1 => Just(".".to_string())], 1..6)
        .prop_map(|v| Nm::Plain(v.join("/")))
        .boxed()
}
fn canvas_data() -> BoxedStrategy<((i32, i32, i32, i8), Vec<u8>)> {
    let dim = || prop_oneof![4 => 0i32..40, 1 => 1i32..600, 2 => extreme32()];
    let fmt = || prop_oneof![8 => proptest::sample::select(px::ALL.to_vec()).prop_map(|f| f.code() as i32), 1 => extreme32()];
    let shift = prop_oneof![6 => Just(0i8), 1 => any::<i8>()];
    prop_oneof![
        // a good canvas, perhaps of another size or format than stated, perhaps damaged
        3 => (px::canvas(false), prop::option::weighted(0.2, dim()), prop::option::weighted(0.2, dim()), prop::option::weighted(0.15, fmt()), shift.clone(), any_iv(), prop_oneof![2 => Just(vec![]), 1 => muts()]).prop_map(
            |(c, w, h, f, s, iv, m)| {
                let mut d = c.stored(iv);
                damage(&mut d, &m);
                let (f1, f2) = c.f.parts(c.split);
                ((w.unwrap_or(c.w as i32), h.unwrap_or(c.h as i32), f.unwrap_or(f1), if s != 0 { s } else { f2 }), d)
            }
        ),
        // one that inflates well
        1 => (dim(), dim(), fmt(), 0usize..20000, any::<u8>()).prop_map(|(w, h, f, n, v)| ((w, h, f, 0), px::zlib(&vec![v; n], 9))),
        1 => (dim(), dim(), fmt(), shift, blob(60)).prop_map(|(w, h, f, s, d)| ((w, h, f, s), d)),
        // chunks with stated sizes
        1 => (dim(), dim(), fmt(), vec((extreme32(), blob(20)), 0..4)).prop_map(|(w, h, f, v)| {
            ((w, h, f, 0), v.into_iter().flat_map(|(n, d)| n.to_le_bytes().into_iter().chain(d)).collect())
        }),
    ]
    .boxed()
}
fn wild() -> BoxedStrategy<Wild> {
    let leaf = prop_oneof![
        4 => prop_oneof![
            Just(X::Num(0, vec![])),
            any::<[u8; 2]>().prop_map(|b| X::Num(2, b.to_vec())),
            any::<[u8; 4]>().prop_map(|b| X::Num(3, [vec![0x80], b.to_vec()].concat())),
            any::<[u8; 4]>().prop_map(|b| X::Num(4, [vec![0x80], b.to_vec()].concat())),
            any::<[u8; 8]>().prop_map(|b| X::Num(5, b.to_vec())),
            any::<[u8; 8]>().prop_map(|b| X::Num(20, [vec![0x80], b.to_vec()].concat())),
            (any::<u8>(), blob(6)).prop_map(|(t, d)| X::Num(t, d)),
        ],
        2 => nm().prop_map(X::Str),
        2 => (over(0..400), extreme32(), prop_oneof![Just(0x46usize), Just(0x52), 0usize..0x90], blob(100)).prop_map(|(size, dur, n, data)| X::Sound { size, dur, header: (0..n).map(|i| i as u8).collect(), data }),
        1 => (over(0..400), blob(100)).prop_map(|(s, d)| X::Video(s, d)),
        2 => prop_oneof![4 => uol_path(), 1 => nm()].prop_map(X::Uol),
        1 => (extreme32(), extreme32()).prop_map(|(a, b)| X::Vector(a, b)),
        1 => (nm(), blob(20)).prop_map(|(n, d)| X::Other(n, d)),
        1 => (canvas_data(), over(0..400), extreme32()).prop_map(|(((w, h, f1, f2), data), size, pages)| X::Canvas { flag: 0, kids: None, w, h, f1, f2, pages, size, data }),
    ]
    .boxed();
    let node = leaf.prop_recursive(6, 40, 6, |inner| {
        let list = || vec((nm(), inner.clone()), 0..6);
        let x = prop_oneof![
            5 => (over(0..20), list()).prop_map(|(c, l)| X::Sub(c, l)),
            2 => (any::<u8>(), prop::option::of((over(0..20), list())), canvas_data(), over(0..400), extreme32())
                .prop_map(|(flag, kids, ((w, h, f1, f2), data), size, pages)| X::Canvas { flag, kids, w, h, f1, f2, pages, size, data }),
            1 => (over(0..20), vec(inner.clone(), 0..5)).prop_map(|(c, l)| X::Convex(c, l)),
            1 => (prop_oneof![3 => Just(1u8), 1 => any::<u8>()], any::<u8>(), prop::option::of((over(0..20), list())), over(0..400), blob(40))
                .prop_map(|(ver, flag, kids, size, data)| X::Raw { ver, flag, kids, size, data }),
        ];
        (over(0..60), x).prop_map(|(s, x)| X::Ext(s, Box::new(x)))
    });
    let odd = prop_oneof![1 => Just(None), 6 => vec(prop_oneof![3 => 0u8..12, 1 => 12u8..60], 0..4).prop_map(Some)];
    (any_iv(), over(0..20), vec((nm(), node), 0..8), 0u8..30, how(), odd).prop_map(|(iv, count, list, at, how, odd)| Wild { iv, count, list, at, how, odd }).boxed()
}
fn wilds(c: &Wild, o: &mut Obs) -> Result<(), String> {
    let mut w = W::default();
    w.u8(0x73);
    w.wz_str("Property", c.iv, false, false);
    w.u16(0);
    WEnc(&mut w, c.iv, &c.odd, 0).list(&c.count, &c.list);
    if w.0.len() > 100_000 {
        return Ok(());
    }
    image_ways(&Scratch::new(), &w.0, c.iv, "w.img", c.at as usize, &c.how, o)
}

// ------------------------------------------------------------------ canvases, sounds, scripts on their own

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Media {
    canvas: ((i32, i32, i32, i8), Vec<u8>),
    iv: [u8; 4],
    off: i64,
    len: Option<i64>,
    header: i32,
    pages: i32,
    kind: u8,
}
fn media() -> BoxedStrategy<Media> {
    let off = prop_oneof![3 => 0i64..30, 1 => extreme()];
    (canvas_data(), any_iv(), off, prop::option::weighted(0.3, prop_oneof![0i64..400, extreme()]), extreme32(), extreme32(), 0u8..10)
        .prop_map(|(canvas, iv, off, len, header, pages, kind)| Media { canvas, iv, off, len, header, pages, kind })
        .boxed()
}
fn medias(c: &Media, o: &mut Obs) -> Result<(), String> {
    let ((w, h, f1, f2), d) = &c.canvas;
    let pad = if (0..30).contains(&c.off) { c.off as usize } else { 0 };
    let mut b = vec![0x55u8; pad];
    b.extend_from_slice(d);
    let rd = mem_reader(&b, c.iv);
    let (off, len) = (c.off as u32 as usize, c.len.map_or(d.len(), |l| l as usize));
    let obj: WzObjectType = match c.kind {
        0 => WzSound::new(&rd, off, len as u32, *w as u32 as usize, *h as u32 as usize, *f1 as u32, [WzSoundType::Mp3, WzSoundType::Wav, WzSoundType::Binary][c.pages as u32 as usize % 3].clone()).into(),
        1 => WzLua::new(&rd, off, len).into(),
        2 => WzRawData::new(&rd, off, len).into(),
        3 => WzVideo::new(&rd, off, len).into(),
        _ => {
            let header = match c.header & 3 {
                0 => c.header,
                _ => d.get(..2).map_or(0, |h| i32::from(u16::from_le_bytes([h[0], h[1]]))),
            };
            let p = WzPng::new(&rd, (*w as u32, *h as u32), (*f1 as u32, *f2 as u32), (off, len), header, c.pages);
            o.class(if p.extract_png().is_ok() { "decoded" } else { "refused" });
            p.into()
        }
    };
    o.nontrivial = !d.is_empty();
    let n = WzNode::from_str("x", obj, None).into_lock();
    // an empty map is made of one byte
    extract(&n, rd.map.len())?;
    img_of(&n, rd.map.len())
}

// ------------------------------------------------------------------ .ms files

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MsCase {
    ms: Ms,
    over: Vec<(u8, u8, i32)>,
    muts: Vec<Mut>,
}
fn ms_case() -> BoxedStrategy<MsCase> {
    let data = prop_oneof![2 => blob(300), 1 => tree_with(full_leaf(Uols::Dangling), 3, 20).prop_map(|t| encode_image(&t, [0; 4]))].boxed();
    let over = vec((prop_oneof![3 => 0u8..5, 1 => Just(255u8)], 0u8..8, prop_oneof![2 => extreme32(), 1 => 0i32..3000]), 0..4);
    (any::<bool>(), over, prop_oneof![1 => Just(vec![]), 2 => muts()])
        .prop_flat_map(move |(v2, over, muts)| {
            (ms(v2, data.clone()), Just(over), Just(muts)).prop_map(|(ms, over, muts)| MsCase { ms, over, muts })
        })
        .boxed()
}
fn ms_files(c: &MsCase, o: &mut Obs) -> Result<(), String> {
    // the count belongs to the header only
    let over: Vec<(u8, u8, i32)> = c.over.iter().map(|(e, f, v)| if *e == 255 { (255, 0, *v) } else { (*e, *f, *v) }).collect();
    let (mut b, _) = c.ms.encode_with(&over);
    damage(&mut b, &c.muts);
    o.class_if(over.iter().any(|x| x.0 == 255), "count replaced");
    o.class_if(over.iter().any(|x| x.0 != 255), "entry numbers replaced");
    o.class(if c.ms.v2 { "version 2" } else { "version 1" });
    ms_way(&c.ms.name, &b, o)
}
fn ms_way(name: &str, b: &[u8], o: &mut Obs) -> Result<(), String> {
    let sc = Scratch::new();
    let path = sc.write(name, b);
    match limited("opening", parse_limit(b.len()), || WzNode::from_ms_file(&path, None))? {
        Err(_) => {
            o.class("refused");
            Ok(())
        }
        Ok(n) => {
            let n = n.into_lock();
            let r = limited("parsing an archive", parse_limit(b.len()), || n.write().unwrap().parse(&n))?;
            o.class(if r.is_ok() { "parsed" } else { "opened, refused when parsed" });
            let entries: Vec<WzNodeArc> = n.read().unwrap().children.values().cloned().collect();
            for e in &entries {
                if let WzObjectType::MsImage(i) = &e.read().unwrap().object_type {
                    let w = limited("decrypting an image", parse_limit(b.len()), || i.to_wz_image())?;
                    if w.reader.map.len() > b.len() + 1024 {
                        return Err(format!("an image of {} bytes from a file of {}", w.reader.map.len(), b.len()));
                    }
                }
            }
            exercise(&n, b.len(), &["Mob/0".to_string()], o)
        }
    }
}

// ------------------------------------------------------------------ arbitrary bytes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    bytes: Vec<u8>,
    how: How,
    name: String,
}
fn raw() -> BoxedStrategy<Raw> {
    let head = prop_oneof![
        1 => Just(vec![]),
        2 => vec(any::<u8>(), 0..30).prop_map(|v| [b"PKG1".to_vec(), v].concat()),
        2 => vec(any::<u8>(), 0..30).prop_map(|v| [b"PKG2".to_vec(), v].concat()),
        // a header that leads somewhere
        3 => (prop_oneof![Just(b"PKG1"), Just(b"PKG2")], extreme(), prop_oneof![3 => 16u32..70, 1 => any::<u32>()]).prop_map(|(m, n, s)| [&m[..], &n.to_le_bytes(), &s.to_le_bytes()].concat()),
        2 => region_iv().prop_map(|iv| encode_image(&[], iv)[..12].to_vec()),
        1 => Just(b"#Property".to_vec()),
        1 => Just(b"\x01".to_vec()),
    ];
    // bytes that mean something often
    let byte = prop_oneof![2 => any::<u8>(), 2 => 0u8..12, 1 => proptest::sample::select(vec![0x73u8, 0x1B, 0x80, 0x7f, 0xff, 0xfe, 20, 19])];
    let body = prop_oneof![4 => vec(byte.clone(), 0..200), 1 => vec(byte, 0..2500), 1 => vec(any::<u8>(), 60..160)];
    let name = prop_oneof![3 => Just("Base.wz"), 3 => Just("a.img"), 1 => Just("Mob_00000.ms"), 1 => Just("a.lua"), 1 => Just("a.txt"), 1 => Just(".ms"), 1 => Just("ü.ms")];
    (head, body, how(), name).prop_map(|(mut h, b, how, name)| { h.extend(b); Raw { bytes: h, how, name: name.to_string() } }).boxed()
}
fn raws(c: &Raw, o: &mut Obs) -> Result<(), String> {
    let b = &c.bytes;
    let sc = Scratch::new();
    archive_ways(&sc, b, &c.how, o)?;
    let mut ob = Obs::default();
    ms_way(&c.name, b, &mut ob)?;
    let mut h = c.how.clone();
    for w in [0, 2, 3] {
        h.way = w;
        image_ways(&sc, b, c.how.iv, &c.name, 0, &h, &mut ob)?;
    }
    o.nontrivial = b.len() > 16;
    Ok(())
}

// ------------------------------------------------------------------ deep nesting on small stacks

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deep {
    kinds: Vec<u8>,
    n: u32,
    iv: [u8; 4],
    /// directories instead of properties
    dirs: bool,
    /// a chain of links, each to the one before
    links: u32,
}
fn deep() -> BoxedStrategy<Deep> {
    let n = prop_oneof![2 => 1u32..61, 2 => 100u32..140, 2 => 200u32..3000, 1 => 3000u32..9000];
    (vec(0u8..5, 1..6), n, region_iv(), prop::bool::weighted(0.3), prop_oneof![3 => Just(0u32), 1 => 1u32..2000])
        .prop_map(|(kinds, n, iv, dirs, links)| Deep { kinds, n, iv, dirs, links })
        .boxed()
}
/// build from the inside out, each level stored as reversed pieces so that nothing is copied twice
fn deep_image(c: &Deep) -> (Vec<u8>, bool) {
    let mut head: Vec<Vec<u8>> = vec![];
    let mut tail: Vec<Vec<u8>> = vec![];
    let n = c.n as usize;
    let name = |w: &mut W, s: &str| {
        w.u8(0);
        w.wz_str(s, c.iv, false, false);
    };
    let tn = |w: &mut W, s: &str| {
        w.u8(0x73);
        w.wz_str(s, c.iv, false, false);
    };
    let mut size = 0usize;
    // innermost: an empty property
    let mut w = W::default();
    tn(&mut w, "Property");
    w.u16(0);
    w.u8(0);
    size += w.pos();
    head.push(w.0);
    for i in 0..n {
        let (mut a, mut z) = (W::default(), W::default());
        let kind = c.kinds[i % c.kinds.len()];
        let entry = |a: &mut W, size: usize| {
            a.wz_int(1, false);
            name(a, "d");
            a.u8(9);
            a.u32(size as u32);
        };
        match kind {
            0 | 1 => {
                tn(&mut a, "Property");
                a.u16(0);
                entry(&mut a, size);
            }
            2 => {
                tn(&mut a, "Canvas");
                a.u8(0);
                a.u8(1);
                a.u16(0);
                entry(&mut a, size);
                z.bytes(&[1, 1, 2, 0, 0, 0, 0, 0]);
                z.i32(3);
                z.bytes(&[0, 0x78, 0x9c]);
            }
            3 => {
                tn(&mut a, "RawData");
                a.u8(1);
                a.u8(1);
                a.u16(0);
                entry(&mut a, size);
                z.u8(0);
            }
            _ => {
                tn(&mut a, "Shape2D#Convex2D");
                a.wz_int(1, false);
            }
        }
        size += a.pos() + z.pos();
        head.push(a.0);
        tail.push(z.0);
    }
    let mut out = W::default();
    out.u8(0x73);
    out.wz_str("Property", c.iv, false, false);
    out.u16(0);
    out.wz_int(1 + c.links as i32, false);
    name(&mut out, "d");
    out.u8(9);
    out.u32(size as u32);
    head.iter().rev().for_each(|h| out.bytes(h));
    tail.iter().for_each(|t| out.bytes(t));
    for k in 0..c.links {
        // k = { p: uol to the entry before }
        name(&mut out, &format!("l{k}"));
        out.u8(9);
        let at = out.pos();
        out.u32(0);
        tn(&mut out, "Property");
        out.u16(0);
        out.wz_int(1, false);
        name(&mut out, "p");
        out.u8(9);
        let at2 = out.pos();
        out.u32(0);
        tn(&mut out, "UOL");
        out.u8(0);
        name(&mut out, &if k == 0 { "../d".to_string() } else { format!("../l{}", k - 1) });
        let e = out.pos();
        out.patch_u32(at, (e - at - 4) as u32);
        out.patch_u32(at2, (e - at2 - 4) as u32);
    }
    (out.0, n <= 60)
}
fn deep_archive(c: &Deep) -> Vec<u8> {
    let hash = version_hash(83);
    let mut w = W::default();
    w.bytes(b"PKG1");
    w.bytes(&[0; 8]);
    w.u32(16);
    w.u16(encver(hash) as u16);
    for i in 0..=c.n {
        let last = i == c.n;
        w.wz_int(1, false);
        w.u8(if last { 4 } else { 3 });
        w.wz_str(if last { "x.img" } else { "d" }, c.iv, false, false);
        w.wz_int(20, true);
        w.wz_int(0, false);
        let p = w.pos();
        w.u32(enc_offset_pkg1(16, p as u32, hash, p as u32 + 4));
    }
    let body = encode_image(&[], c.iv);
    w.bytes(&body);
    w.bytes(&[0; 40]);
    let n = (w.pos() - 16) as u64;
    w.0[4..12].copy_from_slice(&n.to_le_bytes());
    w.0
}
fn deeps(c: &Deep, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = c.n > 1;
    let sc = Scratch::new();
    // a thread with the stack new threads have by default
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || no_panic(|| deep_run(c, &sc)).and_then(|r| r))
            .map_err(|e| format!("HARNESS-ERROR {e}"))?
            .join()
            .map_err(|_| "panic".to_string())?
    })
    .map(|classes| classes.into_iter().for_each(|x| o.class(x)))
}
fn deep_run(c: &Deep, sc: &Scratch) -> Result<Vec<&'static str>, String> {
    let mut classes = vec![];
    let (n, len, must) = if c.dirs {
        let b = deep_archive(c);
        let path = sc.write("Deep.wz", &b);
        let n = WzNode::from_wz_file_full(&path, region_of(c.iv), Some(83), None, None).map_err(|e| format!("open: {e}"))?.into_lock();
        classes.push("directories");
        (n, b.len(), c.n <= 60)
    } else {
        let (b, must) = deep_image(c);
        if c.links == 0 {
            classes.push("properties");
        } else {
            classes.push("a chain of links");
        }
        (image_node("d.img", &b, 0, c.iv), b.len(), must)
    };
    let r = limited("parsing", parse_limit(len), || n.write().unwrap().parse(&n))?;
    classes.push(if r.is_ok() { "parsed" } else { "refused" });
    if must {
        r.map_err(|e| format!("{} levels are refused: {e}", c.n))?;
        let mut at = n.clone();
        for i in 0..c.n {
            let name = if i == 0 || c.dirs || c.kinds[(c.n - i) as usize % c.kinds.len()] < 4 { "d" } else { "0" };
            let next = at.read().unwrap().at(name);
            at = next.ok_or_else(|| format!("level {i} of {} is missing", c.n))?;
        }
    }
    let k = Cell::new(0usize);
    walk_node(&n, false, &|_| k.set(k.get() + 1));
    walk_node(&n, true, &|_| k.set(k.get() + 1));
    if !c.dirs {
        let r = n.read().unwrap();
        if let Some(i) = r.try_as_image() {
            let _ = i.at_path("d");
            let _ = i.at_path(&vec!["d"; (c.n as usize).min(200)].join("/"));
            let _ = i.at_path("l0/p");
        }
    }
    drop(n);
    Ok(classes)
}

// ------------------------------------------------------------------ reader functions

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Calls {
    bytes: Vec<u8>,
    calls: Vec<(u8, i64, i64)>,
    iv: [u8; 4],
}
fn calls() -> BoxedStrategy<Calls> {
    let head = prop_oneof![2 => Just(vec![]), 1 => (prop_oneof![Just(b"PKG1"), Just(b"PKG2")], extreme(), 0u32..80).prop_map(|(m, n, s)| [&m[..], &n.to_le_bytes(), &s.to_le_bytes()].concat())];
    let byte = prop_oneof![3 => any::<u8>(), 1 => Just(0x80u8), 1 => Just(0x7f), 2 => 0u8..5];
    (head, vec(byte, 0..180), vec((any::<u8>(), prop_oneof![2 => 0i64..200, 1 => extreme()], extreme()), 1..20), any_iv())
        .prop_map(|(mut h, b, calls, iv)| {
            h.extend(b);
            Calls { bytes: h, calls, iv }
        })
        .boxed()
}
fn reader_calls(c: &Calls, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = c.bytes.len() > 4 && c.calls.len() > 2;
    let b = &c.bytes[..];
    let keys = util::string_decryptor::GLOBAL_STRING_DECRYPTOR.get_decryptor_by_iv(c.iv);
    let lim = parse_limit(b.len());
    limited("header functions", lim, || {
        let _ = util::version::guess_iv_from_wz_img(b);
        let _ = util::version::verify_iv_from_wz_img(b, &c.iv);
        let _ = util::version::guess_iv_from_wz_file(b);
        let _ = util::version::verify_iv_from_wz_file(b, &c.iv);
        let _ = util::string_decryptor::guess_decryptor_from_wz_file(b);
        let _ = util::string_decryptor::verify_decryptor_from_wz_file(b, &keys);
    })?;
    limited("header functions", lim, || {
        let _ = (WzHeader::read_from_buf(b).is_ok(), WzHeader::get_ident(b), WzHeader::get_wz_fsize(b), WzHeader::get_wz_fstart(b));
    })?;
    let mem = WzReader::from_buff(b).with_iv(c.iv);
    let s = WzSliceReader::new_with_header(b, &keys);
    for (f, a, x) in &c.calls {
        let (pos, sl) = (*a as u32 as usize, *x as i8);
        limited(&format!("reader function {}", f % 32), lim, || match f % 32 {
            0 => s.seek(pos),
            1 => s.skip(*x as u32 as usize),
            2 => drop(s.read_u8()),
            3 => drop((s.read_u16(), s.read_i16())),
            4 => drop((s.read_u32(), s.read_i32(), s.read_float())),
            5 => drop((s.read_u64(), s.read_i64(), s.read_double())),
            6 => drop(s.read_unicode_str_len(sl)),
            7 => drop(s.read_ascii_str_len(sl)),
            8 => drop(s.read_unicode_string(sl)),
            9 => drop(s.read_ascii_string(sl)),
            10 => drop(s.read_wz_string_meta_at(pos)),
            11 => drop(s.read_wz_string_meta()),
            12 => drop(s.read_wz_string_pkg2_dir_meta()),
            13 => drop(s.read_wz_string_pkg2_u64_dir_meta()),
            14 => drop(s.read_wz_string()),
            15 => drop(s.read_wz_string_pkg2_dir()),
            16 => drop(s.read_wz_string_at_offset(pos)),
            17 => drop(s.read_wz_string_block(pos)),
            18 => drop(s.read_wz_string_block_meta(pos)),
            19 => drop((s.read_wz_int(), s.read_wz_int64(), s.read_wz_long())),
            20 => drop((s.is_valid_pos(pos), s.available())),
            21 => drop((mem.read_u8_at(pos), mem.read_u16_at(pos), mem.read_u32_at(pos), mem.read_u64_at(pos), mem.read_double_at(pos))),
            22 => drop(mem.get_decrypt_slice(pos..pos.saturating_add(*x as u32 as usize))),
            23 => drop(mem.get_slice_or_error(pos..*x as u32 as usize).map(|d| d.len())),
            24 => drop(reader::read_wz_string(b)),
            25 => drop(reader::read_wz_string_block(b, pos)),
            26 => drop((reader::read_wz_int(b, Some(pos)), reader::read_wz_int64(b, Some(pos)))),
            27 => drop(reader::read_unicode_string(b, sl)),
            28 => drop(reader::read_ascii_string(b, sl)),
            29 => drop(reader::read_string_by_len(b, *x as u32 as usize, Some(pos))),
            30 => drop(wz_reader::property::get_sound_type_from_header(b, *a as u32, *x as u32)),
            _ => {
                s.save_pos();
                s.restore_pos();
            }
        })?;
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C19",
        subs: vec![
            check!("archives", "more than three nodes were found", 1500, 37500, arch, archive),
            check!("directories", "directories that are shared or contain each other", 600, 15000, graph, directories),
            check!("images", "more than three nodes were found", 3000, 75000, image, images),
            check!("wild_images", "more than three nodes were found", 4000, 100000, wild, wilds),
            check!("media", "some data", 5000, 125000, media, medias),
            check!("ms_files", "more than three nodes were found", 1500, 37500, ms_case, ms_files),
            check!("raw_bytes", "more than 16 bytes", 2400, 60000, raw, raws),
            check!("deep", "more than one level", 600, 15000, deep, deeps),
            check!("reader_functions", "more than two calls on more than four bytes", 4000, 100000, calls, reader_calls),
        ],
        assumptions: &[
            "memory is in proportion if opening, parsing, walking and reading take at most 4 MiB + 2048 bytes per byte of the file, and extracting a canvas 16 MiB + 16384 bytes per byte of the file + 16 per pixel of the image returned",
            "stack: 8 MiB, and 2 MiB (what new threads get) for deep nesting",
            "how long it takes is not judged, except that nothing may take longer than 200 s; trees in which links multiply the paths (more than 8 links in an image) are parsed but not walked",
            "methods documented by their signature to index slices directly (get_slice, get_slice_from_current) are not called with ranges outside the data",
        ],
        threads: 8,
    }
}
