//! C21 concurrent use
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::ms::*;
use crate::props::c03::{self, Pkg2};
use crate::px;
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use wz_reader::property::{get_image, resolve_string_from_node};
use wz_reader::util::node_util::{get_node_without_parse, parse_node};
use wz_reader::util::walk_node;
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast, WzObjectType, GLOBAL_STRING_DECRYPTOR};

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Src {
    Pkg(Pkg1),
    Ms(Ms),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    /// parse an image or directory, through its lock or by `parse_node`
    Parse(u16),
    Unparse(u16),
    /// `root.at_path_parsed`
    AtPathParsed(u16),
    /// `get_node_without_parse`
    Direct(u16),
    /// `WzImage::at_path` on the locked image
    ImageAt(u16),
    AtPath(u16),
    /// the whole content of an image as seen through its lock
    Snapshot(u16),
    /// walk everything, parsing on the way
    Walk,
    Extract(u16),
    GetImage(u16),
    Str(u16),
    FullPath(u16),
    ParentImage(u16),
    Up(u16),
    Json,
    /// open the same file again and read all of it
    Reopen,
}
impl Op {
    fn to(&mut self, hot: &[u16]) {
        if let Op::Parse(i) | Op::Unparse(i) | Op::AtPathParsed(i) | Op::Direct(i) | Op::ImageAt(i) | Op::AtPath(i) | Op::Snapshot(i) | Op::Extract(i) | Op::GetImage(i)
        | Op::Str(i) | Op::FullPath(i) | Op::ParentImage(i) | Op::Up(i) = self
        {
            *i = hot[*i as usize % hot.len()];
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sch {
    Preempt(Vec<(u16, u8)>),
    Random(u64, u8),
    Nested(u64, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    src: Src,
    iv: [u8; 4],
    threads: Vec<Vec<Op>>,
    /// images parsed before the threads start
    parsed: Vec<bool>,
    /// give the threads a tree each, of the same file and with the same keys
    own_trees: bool,
    sch: Vec<Sch>,
}

/// Guards are held by the caller while a call locks nodes above (up) or below (down). Doing both at
/// once around nodes that are locked for writing can't work with these locks, whatever the library
/// does, so a case has writers and one direction, or both directions and no writers.
fn ops(mode: u8) -> BoxedStrategy<Op> {
    let i = any::<u16>;
    let both = prop_oneof![2 => i().prop_map(Op::Snapshot), 3 => i().prop_map(Op::Extract), 2 => i().prop_map(Op::Str)];
    let write = prop_oneof![3 => i().prop_map(Op::Parse), 2 => i().prop_map(Op::Unparse), 2 => Just(Op::Walk), 1 => Just(Op::Reopen)];
    let down = prop_oneof![
        3 => i().prop_map(Op::AtPath),
        3 => i().prop_map(Op::Direct),
        3 => i().prop_map(Op::ImageAt),
        3 => i().prop_map(Op::GetImage),
        1 => Just(Op::Json),
    ];
    let up = prop_oneof![2 => i().prop_map(Op::FullPath), 1 => i().prop_map(Op::ParentImage), 1 => i().prop_map(Op::Up)];
    match mode {
        0 => prop_oneof![3 => both, 3 => down, 2 => up].boxed(),
        1 => prop_oneof![3 => both, 4 => down, 5 => write, 2 => i().prop_map(Op::AtPathParsed)].boxed(),
        2 => prop_oneof![3 => both, 4 => up, 5 => write].boxed(),
        // only what leaves parsed things parsed
        _ => prop_oneof![2 => both, 3 => down, 3 => i().prop_map(Op::Parse), 2 => i().prop_map(Op::AtPathParsed), 1 => Just(Op::Reopen)].boxed(),
    }
}
fn case() -> BoxedStrategy<Case> {
    (0u8..4)
        .prop_flat_map(|mode| {
            let n = if mode == 0 { Just(vec![true]).boxed() } else { vec(any::<bool>(), 1..5).boxed() };
            // often all threads are busy at the same place
            let threads = (vec(vec(ops(mode), 1..6), 2..5), proptest::option::weighted(0.5, vec(any::<u16>(), 1..3))).prop_map(|(mut t, hot)| {
                if let Some(hot) = hot {
                    t.iter_mut().flatten().for_each(|op| op.to(&hot));
                }
                t
            });
            (Just(mode), threads, n, any_cold_iv(), prop::bool::weighted(0.15))
        })
        .prop_flat_map(|(_mode, threads, parsed, iv, own_trees)| (src(iv), Just((threads, parsed, iv, own_trees)), vec(sch(), 1..12)))
        .prop_map(|(src, (threads, parsed, iv, own_trees), sch)| Case { src, iv, threads, parsed, own_trees, sch })
        .boxed()
}
fn sch() -> BoxedStrategy<Sch> {
    prop_oneof![
        3 => vec((any::<u16>(), 0u8..3), 0..8).prop_map(Sch::Preempt),
        2 => (any::<u64>(), prop_oneof![Just(8u8), Just(40), Just(128), Just(255)]).prop_map(|(s, p)| Sch::Random(s, p)),
        2 => (any::<u64>(), prop_oneof![Just(2u8), Just(16)]).prop_map(|(s, p)| Sch::Nested(s, p)),
    ]
    .boxed()
}
/// mostly keys nobody has used before
fn any_cold_iv() -> BoxedStrategy<[u8; 4]> {
    prop_oneof![5 => any::<[u8; 4]>(), 1 => Just(IV_GMS), 1 => Just(IV_BMS)].boxed()
}

fn s(x: &str) -> S {
    S(x.to_string(), 0)
}
fn small_canvas(iv: [u8; 4]) -> BoxedStrategy<(i32, i32, i32, i8, Vec<u8>)> {
    px::canvas(false)
        .prop_filter("small", |c| c.w * c.h < 4000)
        .prop_map(move |c| {
            let (f1, f2) = c.f.parts(c.split);
            (c.w as i32, c.h as i32, f1, f2, c.stored(iv))
        })
        .boxed()
}
/// Images that hold links among each other: `names` are the paths of all images from the root.
fn body(iv: [u8; 4], names: Vec<String>) -> BoxedStrategy<Body> {
    let tree = tree_with(full_leaf(Uols::Dangling), 2, 6);
    let pick = proptest::sample::select(names);
    let long = prop_oneof![3 => 1usize..40, 1 => 100usize..600, 1 => 4090usize..4110, 1 => Just(9000usize)];
    let prop = (tree, small_canvas(iv), small_canvas(iv), 0u8..4, pick, long, any::<bool>()).prop_map(|(mut t, a, b, link, other, long, wide)| {
        let canvas = |c: (i32, i32, i32, i8, Vec<u8>), kids: Option<Vec<(S, V)>>| V::Canvas { kids, w: c.0, h: c.1, f1: c.2, f2: c.3, pages: 0, data: c.4 };
        let kids = match link {
            0 => None,
            1 => Some(vec![(s("_inlink"), V::Str(s("sub/src")))]),
            2 => Some(vec![(s("_outlink"), V::Str(S(format!("{other}/sub/src"), 0)))]),
            _ => Some(vec![(s("_inlink"), V::Str(s("u"))), (s("z"), V::Short(3, false))]),
        };
        t.push((s("cv"), canvas(a, kids)));
        let text = if wide { "글".repeat(long / 2 + 1) } else { "x".repeat(long) };
        t.push((s("sub"), V::Sub(vec![(s("src"), canvas(b, None)), (s("long"), V::Str(S(text, wide as u8))), (s("up"), V::Uol(s("../cv")))])));
        t.push((s("u"), V::Uol(s("sub/src"))));
        Body::Prop(dedup(t))
    });
    prop_oneof![8 => prop, 1 => "[a-z =(){}가-힣]{0,300}".prop_map(Body::Lua)].boxed()
}
fn src(iv: [u8; 4]) -> BoxedStrategy<Src> {
    let pkg = (1usize..4, 0usize..3, guessable_version(true))
        .prop_flat_map(move |(n, dirs, version)| {
            let mut names: Vec<String> = (0..n).map(|i| format!("r{i}.img")).collect();
            for d in 0..dirs {
                names.push(format!("d{d}/a.img"));
            }
            let bodies: Vec<_> = names.iter().map(|_| body(iv, names.clone())).collect();
            (Just((n, version)), bodies)
        })
        .prop_map(move |((n, version), bodies)| {
            let root = bodies
                .into_iter()
                .enumerate()
                .map(|(i, body)| {
                    let img = |name: String, body: Body| E::Img { name: S(if matches!(body, Body::Lua(_)) { name.replace(".img", ".lua") } else { name }, 0), body, cks: 0 };
                    if i < n {
                        img(format!("r{i}.img"), body)
                    } else {
                        E::Dir { name: S(format!("d{}", i - n), 0), kids: vec![img("a.img".into(), body)], cks: 0 }
                    }
                })
                .collect();
            Src::Pkg(Pkg1 { text: vec![], version, encver: true, iv, root, layout: Layout { order: vec![], gaps: vec![], tail: 0, hole: (0, 0) } })
        });
    let ms = any::<bool>().prop_flat_map(|v2| ms(v2, body(IV_BMS, vec!["x".into()]).prop_map(|b| encode_body(&b, IV_BMS)).boxed())).prop_map(Src::Ms);
    prop_oneof![5 => pkg, 1 => ms].boxed()
}

// ------------------------------------------------------------------ what one thread sees

fn fnv(b: &[u8]) -> String {
    format!("{}:{:016x}", b.len(), b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)))
}
/// The node's own name, type and value, not its children.
fn digest(n: &WzNodeArc) -> String {
    let r = n.read().unwrap();
    let v = match &r.object_type {
        WzObjectType::File(_) | WzObjectType::MsFile(_) => "file".to_string(),
        WzObjectType::Directory(_) => "directory".to_string(),
        WzObjectType::Image(_) | WzObjectType::MsImage(_) => "image".to_string(),
        WzObjectType::Property(_) | WzObjectType::Value(_) => {
            if let Some(s) = r.try_as_string() {
                format!("string {:?}", s.get_string().map_err(|e| e.to_string()))
            } else if let Some(u) = r.try_as_uol() {
                format!("uol {:?}", u.get_string().map_err(|e| e.to_string()))
            } else if let Some(s) = r.try_as_sound() {
                format!("sound {}", fnv(&s.get_buffer()))
            } else if let Some(l) = r.try_as_lua() {
                format!("lua {:?}", l.extract_lua().map_err(|e| e.to_string()))
            } else if let Some(d) = r.try_as_raw_data() {
                format!("raw {}", fnv(d.get_buffer()))
            } else if let Some(d) = r.try_as_video() {
                format!("video {}", fnv(d.get_buffer()))
            } else if let Some(p) = r.try_as_png() {
                format!("png {}x{} {}", p.width, p.height, pixels(p.extract_png().ok()))
            } else if let WzObjectType::Value(v) = &r.object_type {
                format!("{v:?}")
            } else {
                "property".to_string()
            }
        }
    };
    format!("{} {v}", r.name)
}
fn pixels(i: Option<image::DynamicImage>) -> String {
    match i {
        Some(i) => format!("{}x{} {:?} {}", i.width(), i.height(), i.color(), fnv(i.as_bytes())),
        None => "refused".into(),
    }
}
fn linked(n: &WzNodeArc) -> String {
    pixels(get_image(n).ok())
}

struct Place {
    path: Vec<String>,
    image: Option<usize>,
    digest: String,
    linked: Option<String>,
    inlink: bool,
    full: String,
    above: String,
    /// by way of the image without parsing it
    direct: Option<String>,
    string: bool,
}
struct Model {
    places: Vec<Place>,
    /// images, as places
    images: Vec<usize>,
    /// path below the image -> digest
    content: Vec<BTreeMap<Vec<String>, String>>,
    /// images and directories
    parse: Vec<usize>,
    walked: Vec<String>,
    json: serde_json::Value,
}
const MAX_PLACES: usize = 600;

struct Open {
    path: String,
    key: SharedWzStringDecryptor,
    version: Option<i32>,
    ms: bool,
}
impl Open {
    fn open(&self) -> Result<WzNodeArc, String> {
        let n = if self.ms {
            WzNode::from_ms_file(&self.path, None).map_err(|e| format!("open: {e}"))?
        } else {
            WzNode::from_wz_file_full(&self.path, None, self.version, None, Some(&self.key)).map_err(|e| format!("open: {e}"))?
        }
        .into_lock();
        parse_node(&n).map_err(|e| format!("parse: {e}"))?;
        Ok(n)
    }
}
fn is_image(n: &WzNodeArc) -> bool {
    matches!(n.read().unwrap().object_type, WzObjectType::Image(_) | WzObjectType::MsImage(_))
}
fn kids_of(n: &WzNodeArc) -> Vec<(String, WzNodeArc)> {
    n.read().unwrap().children.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}
fn model(open: &Open) -> Result<Option<Model>, String> {
    let root = open.open()?;
    let mut m = Model { places: vec![], images: vec![], content: vec![], parse: vec![], walked: vec![], json: serde_json::Value::Null };
    fn go(m: &mut Model, n: &WzNodeArc, path: Vec<String>, image: Option<(usize, usize)>) -> bool {
        let mut image = image;
        if m.places.len() > MAX_PLACES {
            return false;
        }
        let at = m.places.len();
        let mut direct = None;
        if is_image(n) {
            m.parse.push(at);
            m.images.push(at);
            m.content.push(BTreeMap::new());
            image = Some((m.images.len() - 1, path.len()));
        } else if let Some((i, d)) = image {
            m.content[i].insert(path[d..].to_vec(), digest(n));
        } else if !path.is_empty() {
            m.parse.push(at);
        }
        if is_image(n) && parse_node(n).is_err() {
            m.content.pop();
            m.images.pop();
            m.parse.pop();
            return true;
        }
        if image.is_none_or(|x| path.len() == x.1) {
            direct = Some(String::new());
        }
        let r = n.read().unwrap();
        let inlink = r.at("_inlink").is_some();
        let above = r.at_relative("..").map(|a| a.read().unwrap().name.to_string()).unwrap_or_default();
        let (full, string, png) = (r.get_full_path(), r.try_as_string().is_some(), r.try_as_png().is_some());
        drop(r);
        m.places.push(Place { path: path.clone(), image: image.map(|x| x.0), digest: digest(n), linked: png.then(|| linked(n)), inlink, full, above, direct, string });
        let mut kids = kids_of(n);
        kids.sort_by(|a, b| a.0.cmp(&b.0));
        kids.iter().all(|(k, x)| {
            let mut p = path.clone();
            p.push(k.clone());
            go(m, x, p, image)
        })
    }
    if !go(&mut m, &root, vec![], None) {
        return Ok(None);
    }
    // links that follow an outlink saw other images unparsed before
    for p in m.places.iter_mut().filter(|p| p.linked.is_some()) {
        p.linked = find(&root, &p.path).map(|n| linked(&n));
    }
    m.json = root.read().unwrap().to_simple_json().map_err(|e| e.to_string())?;
    let fresh = open.open()?;
    for i in 0..m.places.len() {
        let Some(im) = m.places[i].image else { continue };
        let d = m.places[m.images[im]].path.len();
        if m.places[i].path.len() == d {
            continue;
        }
        let x = find(&fresh, &m.places[i].path[..d]).ok_or("HARNESS-ERROR image not found")?;
        // an image of a .ms file has to become one first
        if open.ms && matches!(x.read().unwrap().object_type, WzObjectType::MsImage(_)) {
            let mut w = x.write().unwrap();
            w.parse(&x).map_err(|e| format!("parse: {e}"))?;
            w.unparse();
        }
        let r = x.read().unwrap();
        let img = r.try_as_image().ok_or("HARNESS-ERROR not an image")?;
        m.places[i].direct = img.at_path(&m.places[i].path[d..].join("/")).ok().map(|x| digest(&x));
    }
    m.walked = walk(&fresh);
    Ok(Some(m))
}
fn walk(root: &WzNodeArc) -> Vec<String> {
    let l = Mutex::new(vec![]);
    walk_node(root, true, &|n| {
        let d = digest(n);
        l.lock().unwrap().push(d)
    });
    let mut l = l.into_inner().unwrap();
    l.sort();
    l
}
/// step by step, nothing is held between the steps
fn find(root: &WzNodeArc, path: &[String]) -> Option<WzNodeArc> {
    path.iter().try_fold(root.clone(), |n, p| n.read().unwrap().at(p))
}

// ------------------------------------------------------------------ doing it

struct Shared<'a> {
    m: &'a Model,
    open: &'a Open,
    /// images that may be unparsed at any time
    unstable: bool,
    /// what is parsed before
    parsed: Vec<bool>,
    /// nothing but reading
    readers: bool,
}
impl Shared<'_> {
    /// whether a node has to be there when it is looked for
    fn there(&self, p: &Place) -> bool {
        !self.unstable && p.image.is_none_or(|i| self.parsed[i])
    }
    fn place(&self, i: u16) -> &Place {
        &self.m.places[i as usize % self.m.places.len()]
    }
    fn find(&self, root: &WzNodeArc, p: &Place) -> Result<Option<WzNodeArc>, String> {
        match find(root, &p.path) {
            Some(n) => Ok(Some(n)),
            None if self.there(p) => Err(format!("{} isn't there", p.path.join("/"))),
            None if p.image.is_none_or(|i| self.m.places[self.m.images[i]].path == p.path) => Err(format!("{} isn't there", p.path.join("/"))),
            None => Ok(None),
        }
    }
    fn run(&self, root: &WzNodeArc, op: Op) -> Result<(), String> {
        let eq = |what: &str, p: &Place, got: &str, want: &str| {
            if got == want {
                Ok(())
            } else {
                Err(format!("{what} of {} gives {got:.300}, alone {want:.300}", p.path.join("/")))
            }
        };
        match op {
            Op::Parse(i) => {
                if self.m.parse.is_empty() {
                    return Ok(());
                }
                let p = &self.m.places[self.m.parse[i as usize % self.m.parse.len()]];
                let n = self.find(root, p)?.ok_or("HARNESS-ERROR")?;
                let r = if i % 2 == 0 { parse_node(&n) } else { n.write().unwrap().parse(&n) };
                r.map_err(|e| format!("parsing {} failed: {e}", p.path.join("/")))
            }
            Op::Unparse(i) => {
                if self.m.images.is_empty() {
                    return Ok(());
                }
                let p = &self.m.places[self.m.images[i as usize % self.m.images.len()]];
                let n = self.find(root, p)?.ok_or("HARNESS-ERROR")?;
                n.write().unwrap().unparse();
                Ok(())
            }
            Op::AtPathParsed(i) => {
                let p = self.place(i);
                if p.path.is_empty() || p.path.iter().any(|x| x.is_empty() || x.contains('/')) {
                    return Ok(());
                }
                let n = root.read().unwrap().at_path_parsed(&p.path.join("/")).map_err(|e| format!("at_path_parsed({}) failed: {e}", p.path.join("/")))?;
                eq("at_path_parsed", p, &digest(&n), &p.digest)
            }
            Op::Direct(i) => {
                let p = self.place(i);
                if p.path.is_empty() || p.path.iter().any(|x| x.is_empty() || x.contains('/')) {
                    return Ok(());
                }
                let Some(im) = p.image else { return Ok(()) };
                if self.m.places[self.m.images[im]].path == p.path {
                    return Ok(());
                }
                match get_node_without_parse(root, &p.path.join("/")) {
                    // by way of the unparsed image or of the parsed one, links differ
                    Some(n) => {
                        let d = digest(&n);
                        if Some(&d) == p.direct.as_ref() && !self.there(p) {
                            return Ok(());
                        }
                        eq("get_node_without_parse", p, &d, &p.digest)
                    }
                    None if p.direct.is_none() && !self.there(p) => Ok(()),
                    // a .ms image that was never parsed is no image yet
                    None if self.open.ms && !self.there(p) => Ok(()),
                    None => Err(format!("get_node_without_parse({}) finds nothing", p.path.join("/"))),
                }
            }
            Op::ImageAt(i) => {
                let p = self.place(i);
                let Some(im) = p.image else { return Ok(()) };
                let img = &self.m.places[self.m.images[im]];
                if img.path == p.path {
                    return Ok(());
                }
                let n = self.find(root, img)?.ok_or("HARNESS-ERROR")?;
                let rel = p.path[img.path.len()..].join("/");
                let r = n.read().unwrap();
                let Some(x) = r.try_as_image() else { return Ok(()) };
                let got = x.at_path(&rel).ok().map(|x| digest(&x));
                drop(r);
                if self.open.ms {
                    return Ok(());
                }
                eq("WzImage::at_path", p, got.as_deref().unwrap_or("nothing"), p.direct.as_deref().unwrap_or("nothing"))
            }
            Op::AtPath(i) => {
                let p = self.place(i);
                if p.path.is_empty() || p.path.iter().any(|x| x.is_empty() || x.contains('/')) {
                    return Ok(());
                }
                let got = root.read().unwrap().at_path(&p.path.join("/"));
                match got {
                    Some(n) => eq("at_path", p, &digest(&n), &p.digest),
                    None => self.find(root, p).map(|_| ()),
                }
            }
            Op::Snapshot(i) => {
                if self.m.images.is_empty() {
                    return Ok(());
                }
                let k = i as usize % self.m.images.len();
                let p = &self.m.places[self.m.images[k]];
                let n = self.find(root, p)?.ok_or("HARNESS-ERROR")?;
                let (parsed, kids) = {
                    let r = n.read().unwrap();
                    let parsed = r.try_as_image().is_some_and(|i| i.is_parsed);
                    (parsed, r.children.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<Vec<_>>())
                };
                if !parsed {
                    if !self.unstable && self.parsed[k] {
                        return Err(format!("{} is no longer parsed", p.path.join("/")));
                    }
                    if !kids.is_empty() {
                        return Err(format!("{} isn't parsed but has {} children", p.path.join("/"), kids.len()));
                    }
                    return Ok(());
                }
                fn go(out: &mut BTreeMap<Vec<String>, String>, path: Vec<String>, n: &WzNodeArc) {
                    if out.len() > 2 * MAX_PLACES {
                        return;
                    }
                    out.insert(path.clone(), digest(n));
                    for (k, x) in kids_of(n) {
                        let mut p = path.clone();
                        p.push(k);
                        go(out, p, &x);
                    }
                }
                let mut got = BTreeMap::new();
                for (k, x) in kids {
                    go(&mut got, vec![k], &x);
                }
                let want = &self.m.content[k];
                if got != *want {
                    let a: BTreeSet<_> = got.iter().collect();
                    let b: BTreeSet<_> = want.iter().collect();
                    return Err(format!(
                        "{} is parsed but holds other things than alone: {:.300} instead of {:.300}",
                        p.path.join("/"),
                        format!("{:?}", a.difference(&b).take(2).collect::<Vec<_>>()),
                        format!("{:?}", b.difference(&a).take(2).collect::<Vec<_>>())
                    ));
                }
                Ok(())
            }
            Op::Walk => self.same_walk(&walk(root)),
            Op::Reopen => self.same_walk(&walk(&self.open.open()?)),
            Op::Extract(i) => {
                let p = self.place(i);
                match self.find(root, p)? {
                    Some(n) => eq("reading", p, &digest(&n), &p.digest),
                    None => Ok(()),
                }
            }
            Op::Str(i) => {
                let strings: Vec<&Place> = self.m.places.iter().filter(|p| p.string).collect();
                if strings.is_empty() {
                    return Ok(());
                }
                let p = strings[i as usize % strings.len()];
                match self.find(root, p)? {
                    Some(n) => {
                        let got = resolve_string_from_node(&n).map_err(|e| e.to_string());
                        let name = n.read().unwrap().name.to_string();
                        eq("resolve_string_from_node", p, &format!("{name} string {got:?}"), &p.digest)
                    }
                    None => Ok(()),
                }
            }
            Op::GetImage(i) => {
                let c: Vec<&Place> = self.m.places.iter().filter(|p| p.linked.is_some()).collect();
                if c.is_empty() {
                    return Ok(());
                }
                let p = c[i as usize % c.len()];
                let Some(n) = self.find(root, p)? else { return Ok(()) };
                let got = linked(&n);
                // an inlink in an image that was unparsed meanwhile leads nowhere, an outlink parses it
                let own = p.digest.splitn(4, ' ').last().unwrap_or("");
                if self.unstable && p.inlink && got == own {
                    return Ok(());
                }
                eq("get_image", p, &got, p.linked.as_ref().unwrap())
            }
            Op::FullPath(i) => {
                let p = self.place(i);
                let Some(n) = self.find(root, p)? else { return Ok(()) };
                let got = n.read().unwrap().get_full_path();
                // the nodes above may be gone already, if the image was unparsed after it was found
                if self.unstable && (p.full == got || p.full.ends_with(&format!("/{got}"))) {
                    return Ok(());
                }
                eq("get_full_path", p, &got, &p.full)
            }
            Op::ParentImage(i) => {
                let p = self.place(i);
                let Some(im) = p.image else { return Ok(()) };
                let Some(n) = self.find(root, p)? else { return Ok(()) };
                let img = &self.m.places[self.m.images[im]];
                if img.path == p.path {
                    return Ok(());
                }
                let got = n.read().unwrap().get_parent_wz_image();
                match got {
                    Some(g) => eq("get_parent_wz_image", p, &digest(&g), &img.digest),
                    None if self.unstable => Ok(()),
                    None => Err(format!("get_parent_wz_image of {} finds nothing", p.path.join("/"))),
                }
            }
            Op::Up(i) => {
                let p = self.place(i);
                if p.path.is_empty() {
                    return Ok(());
                }
                let Some(n) = self.find(root, p)? else { return Ok(()) };
                let got = n.read().unwrap().at_relative("..");
                match got {
                    Some(g) => eq("..", p, &g.read().unwrap().name, &p.above),
                    None if self.unstable => Ok(()),
                    None => Err(format!("{} has nothing above", p.path.join("/"))),
                }
            }
            Op::Json => {
                let got = root.read().unwrap().to_simple_json().map_err(|e| e.to_string())?;
                if self.readers && got != self.m.json {
                    return Err("to_simple_json gives something else than alone".into());
                }
                Ok(())
            }
        }
    }
    fn same_walk(&self, got: &[String]) -> Result<(), String> {
        if got != self.m.walked {
            let a: BTreeSet<_> = got.iter().collect();
            let b: BTreeSet<_> = self.m.walked.iter().collect();
            return Err(format!(
                "a walk passes {} nodes, alone {}: only now {:.300}, only alone {:.300}",
                got.len(),
                self.m.walked.len(),
                format!("{:?}", a.difference(&b).take(2).collect::<Vec<_>>()),
                format!("{:?}", b.difference(&a).take(2).collect::<Vec<_>>())
            ));
        }
        Ok(())
    }
}

fn prepare(c: &Case, sc: &Scratch) -> Result<Open, String> {
    let key = GLOBAL_STRING_DECRYPTOR.get_decryptor_by_iv(c.iv);
    Ok(match &c.src {
        Src::Pkg(p) => Open { path: sc.write("Base.wz", &p.encode().0).display().to_string(), key, version: Some(p.version), ms: false },
        Src::Ms(m) => Open { path: sc.write(&m.name, &m.encode().0).display().to_string(), key, version: None, ms: true },
    })
}
/// `go` runs the threads, each a list of things to do
fn with_model(c: &Case, o: &mut Obs, f: impl FnOnce(&Scratch, &Model, &mut Obs) -> Result<(), String>) -> Result<(), String> {
    let sc = Scratch::new();
    // the model is made with keys of its own, those of the threads are still cold
    match model(&prepare(c, &sc)?)? {
        Some(m) => f(&sc, &m, o),
        None => {
            o.class("too many nodes");
            Ok(())
        }
    }
}
fn concurrent(c: &Case, sc: &Scratch, m: &Model, o: &mut Obs, go: &dyn Fn(Vec<Box<dyn FnOnce() + Send + '_>>, &mut Obs) -> Result<(), String>) -> Result<(), String> {
    let open = prepare(c, sc)?;
    let root = open.open()?;
    let parsed: Vec<bool> = (0..m.images.len()).map(|i| c.parsed.is_empty() || c.parsed[i % c.parsed.len()]).collect();
    let trees: Vec<WzNodeArc> = if c.own_trees { c.threads.iter().map(|_| open.open()).collect::<Result<_, _>>()? } else { c.threads.iter().map(|_| root.clone()).collect() };
    for t in &trees {
        for (i, p) in m.images.iter().enumerate() {
            if parsed[i] {
                let n = find(t, &m.places[*p].path).ok_or("HARNESS-ERROR image not found")?;
                parse_node(&n).map_err(|e| format!("parse: {e}"))?;
            }
        }
    }
    let all = || c.threads.iter().flatten();
    let unstable = all().any(|op| matches!(op, Op::Unparse(_) | Op::Walk));
    let readers = !unstable && parsed.iter().all(|p| *p);
    let sh = Shared { m, open: &open, unstable, parsed, readers };
    let errors = Mutex::new(vec![]);
    let threads = c
        .threads
        .iter()
        .zip(&trees)
        .enumerate()
        .map(|(k, (ops, tree))| {
            let (sh, errors) = (&sh, &errors);
            Box::new(move || {
                for op in ops {
                    if let Err(e) = sh.run(tree, *op) {
                        errors.lock().unwrap().push(format!("thread {k}, {op:?}: {e}"));
                        return;
                    }
                }
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    o.class(if unstable {
        "parsing and unparsing"
    } else if readers {
        "all parsed"
    } else {
        "parsing"
    });
    o.class_if(c.own_trees, "a tree for each thread");
    o.class_if(open.ms, ".ms file");
    go(threads, o)?;
    if let Some(e) = errors.into_inner().unwrap().into_iter().next() {
        return Err(e);
    }
    // and nothing is broken afterwards
    for t in &trees {
        sh.same_walk(&walk(t)).map_err(|e| format!("afterwards: {e}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ real threads

fn real_threads(c: &Case, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = c.threads.len() > 1;
    with_model(c, o, |sc, m, o| (0..c.sch.len()).try_for_each(|_| concurrent(c, sc, m, o, &in_parallel)))
}
fn in_parallel(threads: Vec<Box<dyn FnOnce() + Send + '_>>, _: &mut Obs) -> Result<(), String> {
    let start = std::sync::Barrier::new(threads.len());
    let r = std::thread::scope(|s| {
        let hs: Vec<_> = threads
            .into_iter()
            .map(|f| {
                let start = &start;
                let thread = std::thread::Builder::new().stack_size(8 << 20);
                let run = move || {
                    start.wait();
                    no_panic(f)
                };
                thread.spawn_scoped(s, run).expect("spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect::<Vec<_>>()
    });
    r.into_iter().collect::<Result<(), String>>()
}

// ------------------------------------------------------------------ opening files

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Arc1 {
    One(Pkg1),
    Two(Pkg2),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Opn {
    file: u8,
    /// a node that all threads have, or one of its own
    shared: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Opening {
    files: Vec<Arc1>,
    threads: Vec<Vec<Opn>>,
    sch: Vec<Sch>,
}
fn opening_strat() -> BoxedStrategy<Opening> {
    let one = (region_iv(), any::<bool>()).prop_flat_map(|(iv, encver)| {
        let first = ("[A-Za-z0-9_]{10,30}", 0u8..8).prop_map(|(n, m)| E::Img { name: S(format!("{n}.img"), m), body: Body::Prop(vec![(s("a"), V::Short(7, false))]), cks: 0 });
        (header_text(), guessable_version(encver), first, entries(true, 2, 8, false), layout()).prop_map(move |(text, version, f, rest, layout)| {
            let mut root = vec![f];
            root.extend(rest);
            Arc1::One(Pkg1 { text, version, encver, iv, root: dedup_e(root), layout })
        })
    });
    let file = prop_oneof![2 => one, 3 => c03::pkg2(1).prop_map(Arc1::Two)];
    let op = (any::<u8>(), any::<bool>()).prop_map(|(file, shared)| Opn { file, shared });
    (vec(file, 1..4), vec(vec(op, 1..4), 2..5), vec(sch(), 1..8)).prop_map(|(files, threads, sch)| Opening { files, threads, sch }).boxed()
}
fn opening(c: &Opening, o: &mut Obs, go: &dyn Fn(Vec<Box<dyn FnOnce() + Send + '_>>, &Sch) -> Result<(), String>) -> Result<(), String> {
    let sc = Scratch::new();
    let mut files = vec![];
    let mut known = vec![];
    for (i, f) in c.files.iter().enumerate() {
        let (bytes, laid) = match f {
            Arc1::One(p) => {
                o.class("PKG1");
                p.encode()
            }
            Arc1::Two(p) => {
                if !c03::classify(p, o) {
                    return Ok(());
                }
                // the hash of one file must not suit another one
                for q in &c.files {
                    if let Arc1::Two(q) = q {
                        if q.p.hash != p.p.hash && q.p.is64() == p.p.is64() && hash2_for(q.p.profile, p.p.hash1, q.p.hash) == p.hash2() {
                            o.class("hash ambiguous");
                            return Ok(());
                        }
                    }
                }
                // to find an unknown one takes minutes
                if !p.p.is64() {
                    known.push(c03::seed(p.p.profile, p.p.hash));
                }
                p.encode()
            }
        };
        let version = match f {
            Arc1::One(p) => Some(p.version),
            _ => None,
        };
        files.push((sc.write(&format!("Arc{i}.wz"), &bytes), version, laid));
    }
    let _cached = c03::Cached::new(known);
    let open = |i: usize| -> Result<WzNodeArc, String> { Ok(WzNode::from_wz_file_full(&files[i].0, None, files[i].1, None, None).map_err(|e| format!("open: {e}"))?.into_lock()) };
    o.nontrivial = c.threads.len() > 1;
    for sch in &c.sch {
        let shared: Vec<WzNodeArc> = (0..files.len()).map(open).collect::<Result<_, _>>()?;
        let errors = Mutex::new(vec![]);
        let threads = c
            .threads
            .iter()
            .enumerate()
            .map(|(k, ops)| {
                let (errors, files, shared, open) = (&errors, &files, &shared, &open);
                Box::new(move || {
                    for op in ops {
                        let i = op.file as usize % files.len();
                        let r = (|| {
                            let n = if op.shared { shared[i].clone() } else { open(i)? };
                            parse_node(&n).map_err(|e| format!("parse: {e}"))?;
                            cmp_dir(&n, &files[i].2, "", true)
                        })();
                        if let Err(e) = r {
                            errors.lock().unwrap().push(format!("thread {k}, file {i}: {e}"));
                            return;
                        }
                    }
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        go(threads, sch)?;
        if let Some(e) = errors.into_inner().unwrap().into_iter().next() {
            return Err(e);
        }
    }
    Ok(())
}
#[cfg(not(wz_sched))]
fn opening_real(c: &Opening, o: &mut Obs) -> Result<(), String> {
    opening(c, o, &|threads, _| in_parallel(threads, &mut Obs::default()))
}
#[cfg(wz_sched)]
fn opening_sched(c: &Opening, o: &mut Obs) -> Result<(), String> {
    let n = std::cell::Cell::new(0);
    let most = std::cell::Cell::new(0);
    let r = opening(c, o, &|threads, sch| {
        // the first run tells how long it takes, roughly
        let policy = policy(sch, if n.get() == 0 { 2000 } else { n.get() });
        let out = wz_sched::run(threads, policy);
        n.set(out.steps);
        most.set(most.get().max(out.switches));
        judge(&out)
    });
    o.nontrivial &= most.get() as usize >= c.threads.len();
    o.class_if(most.get() >= 20, "20 switches or more");
    r
}

// ------------------------------------------------------------------ controlled schedules

#[cfg(wz_sched)]
fn judge(out: &wz_sched::Outcome) -> Result<(), String> {
    if let Some(d) = &out.deadlock {
        return Err(format!("deadlock: {d}"));
    }
    match out.panics.first() {
        Some((t, m)) => Err(format!("thread {t} panics: {m}")),
        None => Ok(()),
    }
}
#[cfg(wz_sched)]
fn policy(sch: &Sch, n: u64) -> wz_sched::Policy {
    use wz_sched::Policy;
    match sch {
        Sch::Preempt(l) => Policy::Preempt(l.iter().map(|(s, t)| (1 + *s as u64 * n / 65536, *t)).collect()),
        Sch::Random(seed, p) => Policy::Random { seed: *seed, p: *p },
        Sch::Nested(seed, p) => Policy::Nested { seed: *seed, p: *p },
    }
}
#[cfg(wz_sched)]
fn schedules(c: &Case, o: &mut Obs) -> Result<(), String> {
    use wz_sched::Policy;
    with_model(c, o, |sc, m, o| {
        // how long it takes
        let steps = std::cell::Cell::new(0u64);
        let one = |o: &mut Obs, policy: &Policy, total: &mut (u64, u64)| {
            let info = std::cell::Cell::new((0, 0));
            let r = concurrent(c, sc, m, o, &|threads, _| {
                let out = wz_sched::run(threads, policy.clone());
                info.set((out.switches, out.waits));
                steps.set(out.steps);
                judge(&out)
            });
            total.0 = total.0.max(info.get().0);
            total.1 += info.get().1;
            r
        };
        let mut total = (0, 0);
        one(o, &Policy::Preempt(vec![]), &mut (0, 0)).map_err(|e| format!("one thread after the other: {e}"))?;
        let n = steps.get().max(1);
        for (k, sch) in c.sch.iter().enumerate() {
            one(o, &policy(sch, n), &mut total).map_err(|e| format!("schedule {k}: {e}"))?;
        }
        let (switches, waits) = total;
        o.nontrivial = switches as usize >= c.threads.len();
        o.class_if(switches >= 20, "20 switches or more");
        o.class_if(waits > 0, "waited for a lock");
        Ok(())
    })
}

pub fn property() -> Property {
    #[allow(unused_mut)]
    let mut subs = vec![check!("real_threads", "at least two threads", 400, 10000, case, real_threads)];
    #[cfg(wz_sched)]
    subs.push(check!("opening", "more switches between threads than their ends make", 500, 12000, opening_strat, opening_sched));
    #[cfg(not(wz_sched))]
    subs.push(check!("opening", "at least two threads", 500, 12000, opening_strat, opening_real));
    #[cfg(wz_sched)]
    subs.push(check!("schedules", "more switches between threads than their ends make", 1000, 40000, case, schedules));
    Property {
        id: "C21",
        subs,
        assumptions: &[
            "what a single thread observes on the same file is the reference; that it is right is checked by the other properties",
            "threads that keep a guard of a node while they ask for nodes above it, and others that do so for nodes below it, can lock each other out when nodes are parsed at the same time: std's locks are held by the caller, so such mixes are generated without writers only",
            "an image that is unparsed while another thread looks into it is seen as unparsed: lookups may then find nothing, links may lead nowhere",
        ],
        threads: 8,
    }
}
