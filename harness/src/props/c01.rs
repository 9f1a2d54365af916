//! C01 PKG1 archives decode to exactly the directory tree they contain
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::refs::*;
use proptest::prelude::*;
use crate::RwLock;
use std::sync::Arc;
use wz_reader::util::string_decryptor::EcbDecryptor;
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeCast};

pub fn classify(c: &Pkg1, o: &mut Obs) {
    let n = count_e(&c.root);
    o.nontrivial = n >= 2;
    o.class_if(n >= 10, "10+ entries");
    o.class_if(depth_e(&c.root) >= 3, "depth 3+");
    o.class_if(depth_e(&c.root) >= 64, "depth 64+");
    o.class_if(n >= 1000, "1000+ entries");
    o.class_if(has_e(&c.root, &|e| matches!(e, E::Img { name, .. } if name.0.ends_with(".lua.img") || name.0.ends_with(".txt.img"))), "another suffix inside the name");
    o.class_if(c.encver, "with version field");
    o.class_if(!c.encver, "without version field");
    o.class_if(c.root.len() >= 127, "127+ root entries");
    o.class_if(c.root.len() % 256 == 0 && !c.root.is_empty(), "256*n root entries");
    o.class_if(has_e(&c.root, &|e| matches!(e, E::Skip(_))), "placeholder entry");
    o.class_if(has_e(&c.root, &|e| matches!(e, E::Dir { name, .. } | E::Img { name, .. } if name.1 & 4 != 0)), "name stored elsewhere");
    o.class_if(has_e(&c.root, &|e| matches!(e, E::Dir { name, .. } | E::Img { name, .. } if !name.0.is_ascii() || name.1 & 1 != 0)), "UTF-16 name");
    o.class_if(has_e(&c.root, &|e| matches!(e, E::Dir { kids, .. } if kids.is_empty())), "empty directory");
    o.class_if(has_e(&c.root, &|e| matches!(e, E::Img { body: Body::Lua(_), .. })), "script image");
    o.class_if(first_named(&c.root).is_some_and(|s| !s.0.is_ascii()), "first name not ASCII");
}

fn strat() -> BoxedStrategy<Pkg1> {
    (any::<bool>(), prop_oneof![3 => region_iv(), 1 => any_iv()])
        .prop_flat_map(|(encver, iv)| {
            let region = region_of(iv).is_some();
            let ver = prop_oneof![4 => guessable_version(encver), 1 => 1i32..100_000, 1 => Just(1), 1 => Just(999), 1=> Just(1000)];
            (header_text(), ver, root_entries(true, 4, 24, region), layout())
                .prop_map(move |(text, version, root, layout)| Pkg1 { text, version, encver, iv, root, layout })
        })
        .boxed()
}

pub fn custom_key(iv: [u8; 4]) -> SharedWzStringDecryptor {
    Arc::new(RwLock::new(EcbDecryptor::new(iv, AES_KEY)))
}

fn explicit(c: &Pkg1, o: &mut Obs) -> Result<(), String> {
    classify(c, o);
    if first_named(&c.root).is_some_and(|f| !f.0.is_ascii() && plausible_keys(f, c.iv).iter().any(|k| *k != c.iv)) {
        // a short foreign name that another key turns into plain ASCII: the key cannot be told
        o.nontrivial = false;
        o.class("key ambiguous");
        return Ok(());
    }
    let (bytes, laid) = c.encode();
    let sc = Scratch::new();
    let path = sc.write("Arc.wz", &bytes);
    judge(c, &path, bytes.len(), &laid)
}
fn judge(c: &Pkg1, path: &std::path::Path, len: usize, laid: &[Laid]) -> Result<(), String> {
    let key = custom_key(c.iv);
    let region = region_of(c.iv);
    let node = match region {
        Some(r) => WzNode::from_wz_file_full(&path, Some(r), Some(c.version), None, None),
        None => WzNode::from_wz_file_full(&path, None, Some(c.version), None, Some(&key)),
    }
    .map_err(|e| format!("open: {e}"))?
    .into_lock();
    node.write().unwrap().parse(&node).map_err(|e| format!("parse: {e}"))?;
    {
        let r = node.read().unwrap();
        if r.name.as_str() != "Arc" {
            return Err(format!("root name {:?}", r.name.as_str()));
        }
        let f = r.try_as_file().ok_or("root is not a file node")?;
        let m = &f.wz_file_meta;
        if m.patch_version != c.version || m.hash != c.hash() as usize {
            return Err(format!("meta: version {} hash {} expected {} {}", m.patch_version, m.hash, c.version, c.hash()));
        }
        if m.wz_with_encrypt_version_header != c.encver {
            return Err(format!("version field presence reported as {}", m.wz_with_encrypt_version_header));
        }
        if c.encver && m.wz_version_header as u32 != encver(c.hash()) as u32 {
            return Err(format!("version field reported as {}, stored {}", m.wz_version_header, encver(c.hash())));
        }
        if f.block_size != len || f.offset != c.fstart() + if c.encver { 2 } else { 0 } {
            return Err(format!("file offset/size {}/{}", f.offset, f.block_size));
        }
        if m.path != path.to_str().unwrap() {
            return Err(format!("path {:?}", m.path));
        }
    }
    cmp_dir(&node, laid, "", true)
}

/// one of the first names is made far longer than names are
fn long_strat() -> BoxedStrategy<Pkg1> {
    (strat(), long_text(), any::<u8>())
        .prop_map(|(mut c, t, at)| {
            let named = c.root.iter().filter(|e| !matches!(e, E::Skip(_))).count().max(1);
            if let Some(E::Dir { name, .. } | E::Img { name, .. }) = c.root.iter_mut().filter(|e| !matches!(e, E::Skip(_))).nth(at as usize % named) {
                name.0.insert_str(0, &t);
            }
            c
        })
        .boxed()
}
fn long(c: &Pkg1, o: &mut Obs) -> Result<(), String> {
    o.class_if(c.root.iter().any(|e| matches!(e, E::Dir { name, .. } | E::Img { name, .. } if name.0.chars().count() > 65535)), "name over 65535 characters");
    explicit(c, o)
}

// ------------------------------------------------------------------ archives of some gigabytes

fn huge_strat() -> BoxedStrategy<Pkg1> {
    let hole = prop_oneof![
        2 => 0x7fff_0000u32..0x8001_0000,
        2 => 0x8001_0000u32..0xfffe_0000,
        1 => 0x0100_0000u32..0x7fff_0000,
    ];
    (any::<bool>(), region_iv(), hole, any::<u8>())
        .prop_flat_map(|(encver, iv, hole, at)| {
            (header_text(), guessable_version(encver), entries(true, 3, 12, true), layout()).prop_map(move |(text, version, root, mut layout)| {
                layout.hole = (at, hole);
                Pkg1 { text, version, encver, iv, root, layout }
            })
        })
        .boxed()
}
/// one at a time: each takes as much address space as the file is long
pub static HUGE: std::sync::Mutex<()> = std::sync::Mutex::new(());

fn huge(c: &Pkg1, o: &mut Obs) -> Result<(), String> {
    let n = count_e(&c.root);
    if n == 0 || first_named(&c.root).is_some_and(|f| !f.0.is_ascii() && plausible_keys(f, c.iv).iter().any(|k| *k != c.iv)) {
        return Ok(());
    }
    let (h, laid) = c.encode_holed();
    if h.len() > u32::MAX as usize {
        return Ok(());
    }
    o.nontrivial = true;
    o.class_if(h.len() > 1 << 31, "beyond 2 GiB");
    o.class_if(has_l(&laid, &|l| matches!(l, Laid::Dir { offset, .. } if *offset > 1 << 31)), "a directory beyond 2 GiB");
    let _one = HUGE.lock().unwrap_or_else(|e| e.into_inner());
    let sc = Scratch::new();
    let path = sc.0.join("Arc.wz");
    h.write(&path).map_err(|e| format!("HARNESS-ERROR {e}"))?;
    judge(c, &path, h.len(), &laid)
}
fn has_l(l: &[Laid], p: &dyn Fn(&Laid) -> bool) -> bool {
    l.iter().any(|x| p(x) || matches!(x, Laid::Dir { kids, .. } if has_l(kids, p)))
}

pub fn property() -> Property {
    Property {
        id: "C01",
        threads: 8,
        assumptions: &["archives are well formed: unique sibling names, offsets inside the file, declared sizes true"],
        subs: vec![check!(
            "explicit",
            "random PKG1 archives from an independent encoder (any header text, version field or not, all name forms, placeholders, any block order), opened with key and version given; whole tree, offsets, sizes and image contents compared; non-trivial: 2+ entries",
            8000,
            120000,
            strat,
            explicit
        ),
        check!("long", "the same with one name of up to a million characters; non-trivial: 2+ entries", 300, 6000, long_strat, long),
        check!("huge", "sparse archives of up to 4 GiB with a hole before one of the blocks, opened and compared the same way; non-trivial: an entry", 400, 10000, huge_strat, huge)],
    }
}
