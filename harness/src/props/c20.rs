//! C20 resolving a multi-file installation
use super::c01::custom_key;
use super::c03::{seed, Cached, Head, Pkg2};
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use wz_reader::util::{resolve_base, resolve_root_wz_file_dir, resolve_root_wz_file_dir_full};
use wz_reader::{WzNodeArc, WzNodeCast};

/// An archive set: the main file, its numbered parts, and the archives of directories it lists.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct A {
    own: Vec<E>,
    parts: Vec<(u16, Vec<E>)>,
    subs: Vec<(u8, A)>,
    /// for each sub: bit 0 listed in the main file, others listed in the parts (all clear: main)
    listed: Vec<u8>,
    /// a folder or a single file, when the layout leaves the choice
    folder: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    root: A,
    /// 0 everything in folders, 1 side by side (no deeper archives), 2 Base.wz on top, folders and files below
    shape: u8,
    iv: [u8; 4],
    version: i32,
    encver: bool,
    named: bool,
    layout: Layout,
    /// things that are not part of it
    extras: Vec<(u8, u8)>,
    /// in what order the files are created
    order: Vec<u8>,
    /// the archives are of the newer form
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pkg2: Option<New>,
}

/// what the archives of a PKG2 installation share, and what differs
#[derive(Clone, Debug, Serialize, Deserialize)]
struct New {
    profile: u8,
    hash: u64,
    seeds: Vec<u64>,
    counts: Vec<i32>,
    low16: u16,
    noise: Vec<u8>,
    plain: u8,
    /// the profile and hash are known from an archive opened before
    seen: bool,
}
impl New {
    /// each archive has a first hash of its own
    fn archive(&self, l: &[E], iv: [u8; 4], layout: &Layout) -> Pkg2 {
        let mut l = l.to_vec();
        if l.is_empty() {
            // a list without a name tells nothing about its key
            l.push(E::Img { name: S("nothing_else_is_in_here.img".into(), 0), body: Body::Prop(vec![]), cks: 0 });
        }
        let first = match &l[0] {
            E::Dir { name, .. } | E::Img { name, .. } => name.0.clone(),
            E::Skip(_) => String::new(),
        };
        let mix = first.bytes().fold(count_e(&l) as u64, |a, b| a.wrapping_mul(0x100000001b3).wrapping_add(b as u64));
        let mut hash1 = self.seeds[mix as usize % self.seeds.len()] ^ mix;
        let head = match self.profile {
            0 => Head::Rand64,
            _ if (self.plain >> (mix % 8)) & 1 == 1 => Head::Plain,
            _ => Head::Rand32,
        };
        if self.profile != 0 {
            hash1 &= 0xffff_ffff;
        }
        let fstart = match head {
            Head::Plain => 16 + self.noise.len() as u32,
            Head::Rand32 => 68,
            Head::Rand64 => 150,
        };
        let counts = (0..count_e(&l) + 2).map(|k| if k == 0 { self.counts[0] } else { self.counts[1 + k % (self.counts.len() - 1)] }).collect();
        Pkg2 { head, p: P2 { profile: self.profile, hash: self.hash, hash1, fstart, counts, low16: self.low16 }, noise: self.noise.clone(), iv, root: l, layout: layout.clone() }
    }
}

const POOLS: [&[&str]; 3] = [&["Map", "Mob", "Item", "Character", "UI"], &["Back", "Tile", "Obj", "_Canvas"], &["acc1", "_Canvas", "지도", "Cash.A"]];
/// directories in the content; a few names only, so that they meet in several parts
const DIRS: [&str; 4] = ["Dragon", "Pet", "Weapon_1", "동물"];

/// what the resolved tree must be
#[derive(Debug, Default)]
struct Want {
    dirs: BTreeMap<String, Want>,
    images: BTreeMap<String, Body>,
    /// the content comes from an archive of its own
    archive: bool,
}

impl Want {
    fn merge(&mut self, l: &[E]) {
        for e in l {
            match e {
                E::Dir { name, kids, .. } => self.dirs.entry(name.0.clone()).or_default().merge(kids),
                E::Img { name, body, .. } => {
                    self.images.insert(name.0.clone(), body.clone());
                }
                E::Skip(_) => {}
            }
        }
    }
    fn of(a: &A, level: usize, deep: bool) -> Want {
        let mut w = Want { archive: true, ..Default::default() };
        w.merge(&a.own);
        for (_, p) in &a.parts {
            w.merge(p);
        }
        if deep {
            for (n, s) in &a.subs {
                w.dirs.insert(sub_name(level, *n).into(), Want::of(s, level + 1, true));
            }
        }
        w
    }
    fn count(&self) -> usize {
        self.images.len() + self.dirs.values().map(|d| 1 + d.count()).sum::<usize>()
    }
}

fn sub_name(level: usize, n: u8) -> &'static str {
    let p = POOLS[level];
    p[n as usize % p.len()]
}

fn cmp(node: &WzNodeArc, w: &Want, path: &str) -> Result<(), String> {
    let kids: Vec<(String, WzNodeArc)> = node.read().unwrap().children.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    for (k, c) in &kids {
        let p = format!("{path}/{k}");
        let r = c.read().unwrap();
        if r.name.as_str() != k {
            return Err(format!("{p}: node name {:?}", r.name.as_str()));
        }
        match r.parent.upgrade() {
            Some(x) if Arc::ptr_eq(&x, node) => {}
            Some(_) => return Err(format!("{p}: parent link points to another node")),
            None => return Err(format!("{p}: parent link is dangling")),
        }
        if !w.dirs.contains_key(k) && !w.images.contains_key(k) {
            return Err(format!("{p}: stored in none of the archives"));
        }
    }
    for (n, d) in &w.dirs {
        let p = format!("{path}/{n}");
        let Some(c) = node.read().unwrap().at(n) else { return Err(format!("{p}: missing directory")) };
        {
            let r = c.read().unwrap();
            if d.archive && r.try_as_file().is_none() {
                return Err(format!("{p}: not replaced by the content of its archive"));
            }
            if !d.archive && r.try_as_directory().is_none() {
                return Err(format!("{p}: not a directory"));
            }
        }
        cmp(&c, d, &p)?;
    }
    for (n, b) in &w.images {
        let p = format!("{path}/{n}");
        let Some(c) = node.read().unwrap().at(n) else { return Err(format!("{p}: missing image")) };
        if c.read().unwrap().try_as_image().is_none() {
            return Err(format!("{p}: not an image"));
        }
        c.write().unwrap().parse(&c).map_err(|e| format!("{p}: image parse: {e}"))?;
        cmp_body(&c, b, &p)?;
        if c.read().unwrap().get_full_path() != p {
            return Err(format!("{p}: full path is {}", c.read().unwrap().get_full_path()));
        }
    }
    Ok(())
}

impl Case {
    fn flat(&self) -> bool {
        self.shape % 3 == 1
    }
    fn bytes(&self, l: &[E]) -> Vec<u8> {
        if let Some(n) = &self.pkg2 {
            return n.archive(l, self.iv, &self.layout).encode().0;
        }
        Pkg1 { text: b"Package file\0".to_vec(), version: self.version, encver: self.encver, iv: self.iv, root: l.to_vec(), layout: self.layout.clone() }.encode().0
    }
    /// the files of one archive set; `dir` holds its main file, `subdir` the archives below it
    fn files(&self, a: &A, name: &str, dir: &Path, subdir: &Path, level: usize, out: &mut Vec<(PathBuf, Vec<u8>)>) {
        let listing = |bit: usize, own: &[E]| -> Vec<E> {
            let mut l = own.to_vec();
            if self.flat() && level > 0 {
                return l;
            }
            for (i, (n, _)) in a.subs.iter().enumerate() {
                let m = a.listed.get(i).copied().unwrap_or(1);
                // a part without a telling first name lists nothing; each is listed at least somewhere
                let can = (0..a.parts.len().min(7)).filter(|i| !a.parts[*i].1.is_empty()).fold(1u8, |b, i| b | 2 << i);
                let m = if m & can == 0 { 1 } else { m & can };
                if bit < 8 && m & (1 << bit) as u8 != 0 {
                    l.push(E::Dir { name: S(sub_name(level, *n).into(), 0), kids: vec![], cks: 0 });
                }
            }
            l
        };
        out.push((dir.join(format!("{name}.wz")), self.bytes(&listing(0, &a.own))));
        for (i, (num, l)) in a.parts.iter().enumerate() {
            let num = if num % 3 == 0 { format!("{num}") } else { format!("{num:03}") };
            out.push((dir.join(format!("{name}_{num}.wz")), self.bytes(&listing(if i < 7 { i + 1 } else { 8 }, l))));
        }
        if self.flat() && level > 0 {
            return;
        }
        for (n, s) in &a.subs {
            let n = sub_name(level, *n);
            let single = level == 0 && (self.flat() || (self.shape % 3 == 2 && !s.folder && s.subs.is_empty()));
            let d = if single { subdir.to_path_buf() } else { subdir.join(n) };
            self.files(s, n, &d, &d, level + 1, out);
        }
    }
    /// writes the installation and returns where its main archive is
    pub fn install(&self, sc: &Scratch, o: &mut Obs) -> PathBuf {
        let top = sc.0.join("game");
        let base = if self.shape % 3 == 0 { top.join("Base") } else { top.clone() };
        let mut files = vec![];
        self.files(&self.root, "Base", &base, &top, 0, &mut files);
        let mut dirs: Vec<PathBuf> = vec![];
        let mut links: Vec<(PathBuf, PathBuf)> = vec![];
        let used: Vec<&str> = self.root.subs.iter().map(|(n, _)| sub_name(0, *n)).collect();
        let free = POOLS[0].iter().find(|n| !used.contains(n)).copied().unwrap_or("Etc");
        let junk = self.bytes(&[E::Img { name: S("STRAY_ENTRY_NAME.img".into(), 0), body: Body::Prop(vec![]), cks: 0 }]);
        let exist: Vec<PathBuf> = files.iter().map(|f| f.0.clone()).collect();
        for (kind, at) in &self.extras {
            let host = &exist[*at as usize % exist.len()];
            let d = host.parent().unwrap();
            let stem = host.file_stem().unwrap().to_str().unwrap();
            let free_file = |n: &str| !exist.contains(&d.join(n));
            match kind % 15 {
                0 => files.push((top.join(format!("{free}.wz")), junk.clone())),
                1 => files.push((top.join(free).join(format!("{free}.wz")), junk.clone())),
                2 => files.push((d.join(format!("{stem}_abc.wz")), junk.clone())),
                3 => files.push((d.join(format!("{stem}_001.txt")), b"text".to_vec())),
                4 => files.push((d.join("notes_2024.txt"), b"text".to_vec())),
                5 => files.push((d.join(format!("{stem}_70000.wz")), junk.clone())),
                6 => {
                    if free_file("Other_001.wz") {
                        files.push((d.join("Other_001.wz"), junk.clone()))
                    }
                }
                7 => dirs.push(top.join("Dragon")),
                8 => files.push((top.join(format!("{}.bak", used.first().unwrap_or(&"Etc"))).join(format!("{}.bak.wz", used.first().unwrap_or(&"Etc"))), junk.clone())),
                9 => {
                    use std::os::unix::ffi::OsStringExt;
                    files.push((d.join(std::ffi::OsString::from_vec(b"odd\xff_001.wz".to_vec())), b"x".to_vec()));
                }
                10 => {
                    if let Some(n) = used.get(*at as usize % used.len().max(1)) {
                        // the archive's folder is reached through a link
                        if exist.contains(&top.join(n).join(format!("{n}.wz"))) {
                            links.push((top.join(n), sc.0.join(format!("moved{at}"))));
                        }
                    }
                }
                11 => {
                    // numbered, of an archive whose name only starts like this one's, or the other way round
                    let mut short = stem.to_string();
                    short.pop();
                    let n = if at % 2 == 0 { format!("{short}_001.wz") } else { format!("{stem}s_001.wz") };
                    if free_file(&n) {
                        files.push((d.join(n), junk.clone()))
                    }
                }
                12 => files.push((d.join(format!("{stem}_-5.wz")), junk.clone())),
                // behind the number of a part it would only make another number
                13 if !stem.contains('_') => files.push((d.join(format!("{stem}001.wz")), junk.clone())),
                _ => files.push((d.join(format!("{stem}_0012x.wz")), junk.clone())),
            }
        }
        o.class_if(!self.extras.is_empty(), "with unrelated files");
        o.class_if(!links.is_empty(), "with a linked folder");
        files.sort_by_key(|f| f.0.clone());
        files.dedup_by_key(|f| f.0.clone());
        let n = self.order.len().max(1);
        let mut idx: Vec<usize> = (0..files.len()).collect();
        if !self.order.is_empty() {
            idx.sort_by_key(|i| self.order[i % n]);
        }
        for i in idx {
            std::fs::create_dir_all(files[i].0.parent().unwrap()).expect("dir");
            std::fs::write(&files[i].0, &files[i].1).expect("file");
        }
        for d in dirs {
            let _ = std::fs::create_dir(d);
        }
        for (a, b) in links {
            if std::fs::symlink_metadata(&a).map(|m| m.is_dir()).unwrap_or(false) && std::fs::rename(&a, &b).is_ok() {
                std::os::unix::fs::symlink(&b, &a).expect("link");
            }
        }
        base.join("Base.wz")
    }
    fn classify(&self, o: &mut Obs) {
        o.class(["folders", "flat", "mixed"][self.shape as usize % 3]);
        let parts: usize = count_parts(&self.root);
        o.class_if(parts > 1, "several parts");
        o.class_if(collide(&self.root), "same directory in several parts");
        o.class_if(self.root.subs.iter().any(|s| !s.1.subs.is_empty()) && !self.flat(), "archives two levels deep");
        o.nontrivial = !self.root.subs.is_empty() && parts > 0;
    }
    fn want(&self) -> Want {
        let mut w = Want::of(&self.root, 0, true);
        if self.flat() {
            for (n, s) in &self.root.subs {
                w.dirs.insert(sub_name(0, *n).into(), Want::of(s, 1, false));
            }
        }
        w
    }
}

fn count_parts(a: &A) -> usize {
    a.parts.len() + a.subs.iter().map(|s| count_parts(&s.1)).sum::<usize>()
}
fn collide(a: &A) -> bool {
    let mut seen = std::collections::HashSet::new();
    std::iter::once(&a.own).chain(a.parts.iter().map(|p| &p.1)).flatten().any(|e| match e {
        E::Dir { name, .. } => !seen.insert(name.0.clone()),
        _ => false,
    }) || a.subs.iter().any(|s| collide(&s.1))
}

fn content(depth: u32) -> BoxedStrategy<Vec<E>> {
    let img = ("[a-z0-9]{1,6}", any_mode(), prop_oneof![6 => tree_with(full_leaf(Uols::None), 2, 6).prop_map(Body::Prop), 1 => blob(30).prop_map(Body::Packed)])
        .prop_map(|(n, m, body)| E::Img { name: S(format!("{n}.img"), m & 3), body, cks: 0 })
        .boxed();
    let mut node = img.clone();
    for _ in 0..depth {
        let inner = node.clone();
        node = prop_oneof![
            3 => img.clone(),
            2 => (0..DIRS.len(), vec(inner, 0..4), any_mode()).prop_map(|(n, kids, m)| E::Dir { name: S(DIRS[n].into(), m & 3), kids, cks: 0 }),
        ]
        .boxed();
    }
    vec(node, 0..5).boxed()
}

/// image names differ between the files of one archive set, directory names needn't
fn tag(l: Vec<E>, pre: &str, at: &mut usize, top: bool) -> Vec<E> {
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    for e in l {
        match e {
            E::Dir { name, kids, cks } => {
                if seen.insert(name.0.clone()) {
                    out.push(E::Dir { name, kids: tag(kids, pre, at, false), cks });
                }
            }
            E::Img { name, body, cks } => {
                *at += 1;
                out.push(E::Img { name: S(format!("{pre}{at}_{}", name.0), name.1), body, cks });
            }
            e => out.push(e),
        }
    }
    if top {
        // names enough for the key to be certain
        out.insert(0, E::Img { name: S(format!("{pre}_first_of_all_images.img"), 0), body: Body::Prop(vec![]), cks: 0 });
    }
    out
}

fn arch(level: usize) -> BoxedStrategy<A> {
    let subs = if level < 3 {
        let max = if level == 0 { 4 } else { 3 };
        let more = vec((any::<u8>(), arch(level + 1)), 0..max).boxed();
        if level == 0 {
            more
        } else {
            prop_oneof![2 => Just(vec![]), 2 => more].boxed()
        }
    } else {
        Just(vec![]).boxed()
    };
    (content(2), vec((prop_oneof![9 => 0u16..1200, 1 => any::<u16>()], content(2), any::<bool>()), 0..4), subs, vec(any::<u8>(), 0..4), any::<bool>())
        .prop_map(move |(own, parts, subs, listed, folder)| {
            let mut at = 0;
            let own = tag(own, "m", &mut at, true);
            let mut seen = std::collections::HashSet::new();
            let parts: Vec<(u16, Vec<E>)> = parts
                .into_iter()
                .filter(|p| seen.insert(p.0))
                .enumerate()
                .map(|(i, (n, l, named))| {
                    // some parts are empty
                    let top = named || !l.is_empty();
                    (n, tag(l, &format!("p{i}_"), &mut at, top))
                })
                .collect();
            let mut seen = std::collections::HashSet::new();
            let subs = subs.into_iter().filter(|(n, _)| seen.insert(sub_name(level, *n))).collect();
            A { own, parts, subs, listed, folder }
        })
        .boxed()
}

pub fn strat() -> BoxedStrategy<Case> {
    any::<bool>()
        .prop_flat_map(|encver| {
            (
                arch(0),
                0u8..3,
                region_iv(),
                guessable_version(encver),
                Just(encver),
                any::<bool>(),
                layout(),
                prop_oneof![1 => Just(vec![]), 3 => vec((any::<u8>(), any::<u8>()), 1..5)],
                vec(any::<u8>(), 0..6),
            )
        })
        .prop_map(|(root, shape, iv, version, encver, named, layout, extras, order)| Case { root, shape, iv, version, encver, named, layout, extras, order, pkg2: None })
        .boxed()
}

fn region(c: &Case) -> Option<wz_reader::version::WzMapleVersion> {
    if c.named {
        region_of(c.iv)
    } else {
        None
    }
}

fn base(c: &Case, o: &mut Obs) -> Result<(), String> {
    c.classify(o);
    let sc = Scratch::new();
    let path = c.install(&sc, o);
    let n = resolve_base(&path, region(c)).map_err(|e| format!("resolve_base: {e}"))?;
    check_version(&n, c)?;
    cmp(&n, &c.want(), "Base")
}

fn check_version(n: &WzNodeArc, c: &Case) -> Result<(), String> {
    let r = n.read().unwrap();
    let f = r.try_as_file().ok_or("the root is not a file")?;
    if f.wz_file_meta.hash as u32 != version_hash(c.version as u32) {
        return Err(format!("root read with version {} instead of {}", f.wz_file_meta.patch_version, c.version));
    }
    Ok(())
}

/// One archive set by itself, through every way of naming it.
fn single(c: &Case, o: &mut Obs) -> Result<(), String> {
    c.classify(o);
    o.nontrivial = !c.root.parts.is_empty() || !c.root.subs.is_empty();
    // the set in a folder of its own
    let c = Case { shape: 2, root: A { subs: c.root.subs.iter().map(|(n, s)| (*n, A { folder: true, ..s.clone() })).collect(), ..c.root.clone() }, ..c.clone() };
    let sc = Scratch::new();
    let path = c.install(&sc, o);
    let w = c.want();
    let parent = wz_reader::WzNode::from_str("parent", 1, None).into_lock();
    for (i, (ver, key)) in [(None, false), (None, true), (Some(c.version), false), (Some(c.version), true)].into_iter().enumerate() {
        let key = key.then(|| custom_key(c.iv));
        let n = resolve_root_wz_file_dir_full(&path, region(&c), ver, (i & 1 == 0).then_some(&parent), key.as_ref()).map_err(|e| format!("variant {i}: {e}"))?;
        check_version(&n, &c)?;
        let up = n.read().unwrap().parent.upgrade();
        if up.map(|p| Arc::ptr_eq(&p, &parent)) != (i & 1 == 0).then_some(true) {
            return Err(format!("variant {i}: the root's parent is not the given one"));
        }
        cmp(&n, &w, if i & 1 == 0 { "parent/Base" } else { "Base" }).map_err(|e| format!("variant {i}: {e}"))?;
    }
    let n = resolve_root_wz_file_dir(&path, None).map_err(|e| format!("short form: {e}"))?;
    cmp(&n, &w, "Base").map_err(|e| format!("short form: {e}"))
}

/// Installations of the newer form.
fn new_strat() -> BoxedStrategy<Case> {
    prop_oneof![3 => Just(0u8), 1 => 1u8..4, 3 => 4u8..7]
        .prop_flat_map(|profile| {
            let iv = if profile >= 5 { region_iv() } else { Just(IV_BMS).boxed() };
            let counts = (5i32..=127, vec(prop_oneof![5i32..=127, 128i32..=i32::MAX], 1..4)).prop_map(|(a, mut l)| {
                l.insert(0, a);
                l
            });
            (strat(), iv, any::<u64>(), vec(any::<u64>(), 1..5), counts, any::<u16>(), vec(1u8..=255, 1..80), (any::<u8>(), any::<bool>())).prop_map(
                move |(c, iv, hash, seeds, counts, low16, mut noise, (plain, seen))| {
                    if noise.starts_with(b"PKG") {
                        noise[0] ^= 1;
                    }
                    let hash = if profile == 0 { hash } else { hash & 0xffff_ffff }.max(1);
                    Case { iv, pkg2: Some(New { profile, hash, seeds, counts, low16, noise, plain, seen }), ..c }
                },
            )
        })
        .boxed()
}
fn new(c: &Case, o: &mut Obs) -> Result<(), String> {
    let n = c.pkg2.as_ref().unwrap();
    c.classify(o);
    o.class(["1202", "1201", "1200", "1199", "1198", "1197", "1196"][n.profile as usize]);
    let mut c = c.clone();
    fn fill(a: &mut A) {
        for p in &mut a.parts {
            if p.1.is_empty() {
                p.1 = tag(vec![], &format!("q{}_", p.0), &mut 0, true);
            }
        }
        a.subs.iter_mut().for_each(|s| fill(&mut s.1));
    }
    fill(&mut c.root);
    // garbage of this form takes a search over all hashes to refuse
    c.extras.retain(|x| x.0 % 15 != 9);
    let mut files = vec![];
    c.files(&c.root, "Base", Path::new(""), Path::new(""), 0, &mut files);
    let sc = Scratch::new();
    let path = c.install(&sc, o);
    let known = n.profile != 0 || n.seen;
    o.class_if(!known, "nothing known from before");
    let _cached = Cached::new(if known { vec![seed(n.profile, n.hash)] } else { vec![] });
    let name = if n.profile >= 5 { region(&c) } else { None };
    let got = resolve_base(&path, name).map_err(|e| format!("resolve_base: {e}"))?;
    cmp(&got, &c.want(), "Base")
}

/// A key and a version that nobody could guess: only if they are handed on is everything found.
fn explicit_strat() -> BoxedStrategy<Case> {
    (strat(), prop_oneof![any_iv(), any::<[u8; 4]>()], 1i32..2000, any::<bool>()).prop_map(|(c, iv, version, encver)| Case { iv, version, encver, named: false, ..c }).boxed()
}
fn explicit(c: &Case, o: &mut Obs) -> Result<(), String> {
    c.classify(o);
    o.nontrivial = !c.root.parts.is_empty() && !c.root.subs.is_empty();
    o.class_if(!c.encver && !(770..=780).contains(&c.version), "a version that cannot be guessed");
    o.class_if(region_of(c.iv).is_none(), "a key that cannot be guessed");
    let c = Case { shape: 2, root: A { subs: c.root.subs.iter().map(|(n, s)| (*n, A { folder: true, ..s.clone() })).collect(), ..c.root.clone() }, ..c.clone() };
    let sc = Scratch::new();
    let path = c.install(&sc, o);
    let key = custom_key(c.iv);
    let n = resolve_root_wz_file_dir_full(&path, None, Some(c.version), None, Some(&key)).map_err(|e| e.to_string())?;
    check_version(&n, &c)?;
    cmp(&n, &c.want(), "Base")
}

/// sorted paths of a resolved tree, images unparsed
pub fn listing(node: &WzNodeArc, pre: &str, out: &mut Vec<String>) {
    let r = node.read().unwrap();
    for (k, v) in r.children.iter() {
        let p = format!("{pre}/{k}");
        listing(v, &p, out);
        out.push(p);
    }
    out.sort();
}
fn want_listing(w: &Want, pre: &str, out: &mut Vec<String>) {
    for (k, d) in &w.dirs {
        let p = format!("{pre}/{k}");
        want_listing(d, &p, out);
        out.push(p);
    }
    out.extend(w.images.keys().map(|k| format!("{pre}/{k}")));
    out.sort();
}

/// The same installation named from inside it: the current directory matters, so another process does it.
fn relative(c: &Case, o: &mut Obs) -> Result<(), String> {
    c.classify(o);
    let sc = Scratch::new();
    let path = c.install(&sc, o);
    let mut want = vec![];
    want_listing(&c.want(), "", &mut want);
    let top = sc.0.join("game");
    let mut forms: Vec<(&Path, &str)> = vec![(path.parent().unwrap(), "Base.wz"), (path.parent().unwrap(), "./Base.wz")];
    if c.shape % 3 == 0 {
        forms.push((&top, "Base/Base.wz"));
        forms.push((&top, "./Base/../Base/Base.wz"));
    } else {
        // some directory below it
        std::fs::create_dir_all(top.join("Base_tmp")).expect("dir");
        forms.push((&sc.0, "game/Base.wz"));
    }
    let below = top.join("zz");
    std::fs::create_dir_all(&below).expect("dir");
    forms.push((&below, if c.shape % 3 == 0 { "../Base/Base.wz" } else { "../Base.wz" }));
    for (dir, p) in forms {
        let out = std::process::Command::new(std::env::current_exe().map_err(|e| format!("HARNESS-ERROR {e}"))?)
            .args(["resolve", p])
            .current_dir(dir)
            .output()
            .map_err(|e| format!("HARNESS-ERROR {e}"))?;
        if !out.status.success() {
            return Err(format!("resolve_base({p:?}) from {:?}: {} {}", dir.strip_prefix(&sc.0), out.status, String::from_utf8_lossy(&out.stderr).trim()));
        }
        let got: Vec<String> = serde_json::from_slice(&out.stdout).map_err(|e| format!("HARNESS-ERROR {e}"))?;
        if got != want {
            let miss: Vec<&String> = want.iter().filter(|w| !got.contains(w)).take(3).collect();
            let more: Vec<&String> = got.iter().filter(|w| !want.contains(w)).take(3).collect();
            return Err(format!("resolve_base({p:?}): missing {miss:?}, unexpected {more:?}"));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damaged {
    c: Case,
    which: u8,
    how: u8,
}

/// One of the participating archives can't be read: an error, or everything else as it should be.
fn damaged(d: &Damaged, o: &mut Obs) -> Result<(), String> {
    let c = Case { extras: vec![], ..d.c.clone() };
    c.classify(o);
    let sc = Scratch::new();
    let path = c.install(&sc, o);
    let mut files: Vec<PathBuf> = vec![];
    fn all(d: &Path, out: &mut Vec<PathBuf>) {
        for e in std::fs::read_dir(d).expect("dir") {
            let p = e.expect("entry").path();
            if p.is_dir() {
                all(&p, out)
            } else {
                out.push(p)
            }
        }
    }
    all(&sc.0, &mut files);
    files.sort();
    let f = &files[d.which as usize % files.len()];
    let is_part = f.file_stem().unwrap().to_str().unwrap().contains('_');
    o.class_if(is_part, "a part is damaged");
    match d.how % 4 {
        0 => std::fs::write(f, b"").expect("write"),
        1 => std::fs::write(f, b"PKG1").expect("write"),
        2 => std::fs::write(f, vec![0x41; 700]).expect("write"),
        _ => {
            std::fs::remove_file(f).expect("rm");
            std::fs::create_dir(f).expect("mkdir");
        }
    }
    match resolve_base(&path, region(&c)) {
        Err(_) => {
            o.class("refused");
            Ok(())
        }
        Ok(n) => {
            o.class("read without it");
            // whatever is there belongs there
            let mut got = vec![];
            listing(&n, "", &mut got);
            let mut want = vec![];
            want_listing(&c.want(), "", &mut want);
            if d.how % 4 < 3 && !is_part {
                return Err(format!("{:?} is no archive, yet resolving succeeds", f.strip_prefix(&sc.0)));
            }
            match got.iter().find(|g| !want.contains(g)) {
                Some(g) => Err(format!("{g}: stored in none of the archives")),
                None => Ok(()),
            }
        }
    }
}

fn damaged_strat() -> BoxedStrategy<Damaged> {
    (strat(), any::<u8>(), any::<u8>()).prop_map(|(c, which, how)| Damaged { c, which, how }).boxed()
}

/// Anything not named Base.wz is refused.
fn refused(c: &Case, o: &mut Obs) -> Result<(), String> {
    c.classify(o);
    let sc = Scratch::new();
    let path = c.install(&sc, o);
    for n in ["base.wz", "Map.wz", "Base.wz.bak", "MyBase.wz", "Base"] {
        let p = path.with_file_name(n);
        if !p.exists() {
            std::fs::copy(&path, &p).expect("copy");
        }
        if resolve_base(&p, region(c)).is_ok() {
            return Err(format!("resolve_base accepts {n}"));
        }
    }
    if resolve_base(sc.0.join("nothing").join("Base.wz"), region(c)).is_ok() {
        return Err("resolve_base accepts a file that does not exist".into());
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C20",
        threads: 8,
        assumptions: &[
            "image names are unique within the files of one archive set, and a directory with an archive of its own is listed empty (as in real installations)",
            "all archives of one installation share key and version",
        ],
        subs: vec![
            check!("base", "whole installations through resolve_base against the union of all archives; non-trivial: sub archives and parts present", 700, 12000, strat, base),
            check!("single", "one archive set through resolve_root_wz_file_dir(_full) with version/key given or not; non-trivial: parts or sub archives", 250, 4000, strat, single),
            check!("explicit", "parts and archives of their own below", 200, 2500, explicit_strat, explicit),
            check!("pkg2", "the same with PKG2 archives of every profile, each with a first hash of its own, through resolve_base; non-trivial: sub archives and parts present", 250, 5000, new_strat, new),
            check!("relative", "resolve_base with relative paths from several current directories, in a process of its own; non-trivial: sub archives and parts", 40, 800, strat, relative),
            check!("damaged", "one archive is empty, cut off, garbage or a directory; non-trivial: sub archives and parts", 250, 5000, damaged_strat, damaged),
            check!("refused", "paths that are not a Base.wz; non-trivial: sub archives and parts", 60, 1000, strat, refused),
        ],
    }
}
