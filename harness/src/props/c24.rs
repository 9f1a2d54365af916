//! C24 a node answers to exactly the kind of value it holds
use crate::check;
use crate::fw::*;
use crate::img::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use wz_reader::property::*;
use wz_reader::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum K {
    File,
    Dir(u16, u16),
    Image(u16, u16),
    MsFile,
    MsImage,
    Sub,
    Convex,
    Png(u16, u16),
    Sound(u32),
    Lua,
    Raw,
    Video,
    Null,
    Short(i16),
    Int(i32),
    Long(i64),
    Float(u32),
    Double(u64),
    Str(String),
    Uol(String),
    Parsed(String),
    Vector(i32, i32),
}
use K::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built {
    k: K,
    name: String,
    parent: bool,
    iv: [u8; 4],
    /// three small sounds, scripts, raw blocks lie in this reader
    data: Vec<u8>,
    at: u8,
    len: u8,
}

fn kind() -> BoxedStrategy<K> {
    prop_oneof![
        Just(File),
        (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Dir(a, b)),
        (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Image(a, b)),
        Just(MsFile),
        Just(MsImage),
        Just(Sub),
        Just(Convex),
        (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Png(a, b)),
        any::<u32>().prop_map(Sound),
        Just(Lua),
        Just(Raw),
        Just(Video),
        Just(Null),
        prop_oneof![any::<i16>(), Just(0i16), Just(i16::MIN)].prop_map(Short),
        i32_edge().prop_map(Int),
        i64_edge().prop_map(Long),
        any::<u32>().prop_map(Float),
        any::<u64>().prop_map(Double),
        any_text().prop_map(Str),
        any_text().prop_map(Uol),
        any_text().prop_map(Parsed),
        (i32_edge(), i32_edge()).prop_map(|(a, b)| Vector(a, b)),
    ]
    .boxed()
}
fn built_strat() -> BoxedStrategy<Built> {
    (kind(), any_text(), any::<bool>(), any_iv(), proptest::collection::vec(any::<u8>(), 200), any::<u8>(), any::<u8>())
        .prop_map(|(k, name, parent, iv, data, at, len)| Built { k, name, parent, iv, data, at, len })
        .boxed()
}

/// every kind question that a node can be asked, and whether it said yes
pub fn answers(n: &WzNode) -> Vec<&'static str> {
    let mut v = vec![];
    let mut put = |s: &'static str, b: bool| {
        if b {
            v.push(s)
        }
    };
    put("file", n.try_as_file().is_some());
    put("directory", n.try_as_directory().is_some());
    put("image", n.try_as_image().is_some());
    put("sub property", n.try_as_sub_property().is_some());
    put("value", n.try_as_value().is_some());
    put("png", n.try_as_png().is_some());
    put("sound", n.try_as_sound().is_some());
    put("string", n.try_as_string().is_some());
    put("is sub property", n.is_sub_property());
    put("is convex", n.is_convex());
    put("lua", n.try_as_lua().is_some());
    put("raw data", n.try_as_raw_data().is_some());
    put("video", n.try_as_video().is_some());
    put("is null", n.is_null());
    put("vector", n.try_as_vector2d().is_some());
    put("short", n.try_as_short().is_some());
    put("int", n.try_as_int().is_some());
    put("long", n.try_as_long().is_some());
    put("float", n.try_as_float().is_some());
    put("double", n.try_as_double().is_some());
    put("uol", n.try_as_uol().is_some());
    v
}

fn want(k: &K) -> Vec<&'static str> {
    match k {
        File => vec!["file"],
        Dir(..) => vec!["directory"],
        Image(..) => vec!["image"],
        MsFile | MsImage => vec![],
        Sub => vec!["sub property", "is sub property"],
        Convex => vec!["sub property", "is convex"],
        Png(..) => vec!["sub property", "png"],
        Sound(_) => vec!["sub property", "sound"],
        Lua => vec!["value", "lua"],
        Raw => vec!["value", "raw data"],
        Video => vec!["value", "video"],
        Null => vec!["value", "is null"],
        Short(_) => vec!["value", "short"],
        Int(_) => vec!["value", "int"],
        Long(_) => vec!["value", "long"],
        Float(_) => vec!["value", "float"],
        Double(_) => vec!["value", "double"],
        Str(_) => vec!["value", "string"],
        Uol(_) => vec!["value", "string", "uol"],
        Parsed(_) => vec!["value"],
        Vector(..) => vec!["value", "vector"],
    }
}

fn same(what: &str, got: impl PartialEq + std::fmt::Debug, exp: impl PartialEq + std::fmt::Debug) -> Result<(), String> {
    let (g, e) = (format!("{got:?}"), format!("{exp:?}"));
    if g != e {
        return Err(format!("{what}: {g}, put in {e}"));
    }
    Ok(())
}

fn built(c: &Built, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = true;
    o.class(want(&c.k).last().copied().unwrap_or("an .ms kind"));
    let rd = mem_reader(&c.data, c.iv);
    let name: WzNodeName = c.name.as_str().into();
    let (at, len) = (c.at as usize % 100, c.len as usize % 100);
    let obj: WzObjectType = match &c.k {
        File => WzFile { reader: rd.clone(), offset: at, block_size: len, ..Default::default() }.into(),
        Dir(a, b) => WzDirectory::new(*a as usize, *b as usize, &rd, false).with_hash(at as u64).into(),
        Image(a, b) => WzImage::new(&name, *a as usize, *b as usize, &rd).into(),
        MsFile => wz_reader::MsFile::default().into(),
        MsImage => wz_reader::MsImage::default().into(),
        Sub => WzObjectType::Property(WzSubProperty::Property),
        Convex => WzObjectType::Property(WzSubProperty::Convex),
        Png(a, b) => WzPng::new(&rd, (*a as u32, *b as u32), (2, 0), (at, len), 0x9c78, 3).into(),
        Sound(d) => WzSound::new(&rd, at, len as u32, 0, 0, *d, WzSoundType::Mp3).into(),
        Lua => WzLua::new(&rd, at, len).into(),
        Raw => WzRawData::new(&rd, at, len).into(),
        Video => WzVideo::new(&rd, at, len).into(),
        Null => WzObjectType::Value(WzValue::Null),
        Short(x) => (*x).into(),
        Int(x) => (*x).into(),
        Long(x) => (*x).into(),
        Float(x) => f32::from_bits(*x).into(),
        Double(x) => f64::from_bits(*x).into(),
        Str(s) => WzString::from_str(s, c.iv).into(),
        Uol(s) => WzObjectType::Value(WzValue::UOL(WzString::from_str(s, c.iv))),
        Parsed(s) => WzObjectType::Value(WzValue::ParsedString(s.clone())),
        Vector(x, y) => Vector2D::new(*x, *y).into(),
    };
    let parent = WzNode::from_str("p", 1, None).into_lock();
    let p = c.parent.then_some(&parent);
    let a = WzNode::new(&name, obj.clone(), p);
    let b = WzNode::from_str(&c.name, obj, p);
    for (how, n) in [("new", &a), ("from_str", &b)] {
        if n.name.as_str() != c.name || n.name.to_string() != c.name || n.name != name || &*n.name != c.name.as_str() {
            return Err(format!("{how}: named {:?}, shown as {:?}, made with {:?}", n.name.as_str(), n.name.to_string(), c.name));
        }
        if !n.children.is_empty() {
            return Err(format!("{how}: a new node has children"));
        }
        match (n.parent.upgrade(), c.parent) {
            (None, false) => {}
            (Some(x), true) if Arc::ptr_eq(&x, &parent) => {}
            _ => return Err(format!("{how}: parent is not the one given")),
        }
        let (got, exp) = (answers(n), want(&c.k));
        if got != exp {
            return Err(format!("{how}: {:?} answers to {got:?} instead of {exp:?}", c.k));
        }
        match &c.k {
            File => same("file", (n.try_as_file().unwrap().offset, n.try_as_file().unwrap().block_size), (at, len))?,
            Dir(x, y) => {
                let q = n.try_as_directory().unwrap();
                same("directory", (q.offset, q.block_size, q.is_parsed, q.hash), (*x as usize, *y as usize, false, at as u64))?;
            }
            Image(x, y) => {
                let q = n.try_as_image().unwrap();
                same("image", (q.offset, q.block_size, q.is_parsed, q.name.as_str()), (*x as usize, *y as usize, false, c.name.as_str()))?;
            }
            Png(x, y) => {
                let q = n.try_as_png().unwrap();
                same("canvas", (q.width, q.height, q.header, q.pages, q.format()), (*x as u32, *y as u32, 0x9c78, 3, WzPngFormat::BGRA8888))?;
            }
            Sound(x) => {
                let q = n.try_as_sound().unwrap();
                same("sound", (q.duration, q.get_buffer()), (*x, c.data[at..at + len].to_vec()))?;
            }
            Raw => same("raw data", n.try_as_raw_data().unwrap().get_buffer(), &c.data[at..at + len])?,
            Video => same("video", n.try_as_video().unwrap().get_buffer(), &c.data[at..at + len])?,
            Short(x) => same("short", n.try_as_short(), Some(x))?,
            Int(x) => same("int", n.try_as_int(), Some(x))?,
            Long(x) => same("long", n.try_as_long(), Some(x))?,
            Float(x) => same("float", n.try_as_float().map(|v| v.to_bits()), Some(*x))?,
            Double(x) => same("double", n.try_as_double().map(|v| v.to_bits()), Some(*x))?,
            Str(s) => same("string", n.try_as_string().unwrap().get_string().ok(), Some(s.clone()))?,
            Uol(s) => {
                same("link as string", n.try_as_string().unwrap().get_string().ok(), Some(s.clone()))?;
                same("link", n.try_as_uol().unwrap().get_string().ok(), Some(s.clone()))?;
            }
            Parsed(s) => match n.try_as_value() {
                Some(WzValue::ParsedString(t)) if t == s => {}
                x => return Err(format!("parsed string {s:?} held as {x:?}")),
            },
            Vector(x, y) => same("vector", n.try_as_vector2d().map(|v| (v.0, v.1)), Some((*x, *y)))?,
            MsFile | MsImage | Sub | Convex | Lua | Null => {}
        }
    }
    // text of a node, whatever kind of text it is
    let text = resolve_string_from_node(&a.into_lock());
    match (&c.k, text) {
        (Str(s) | Uol(s), Ok(t)) if *s == t => {}
        (Str(_) | Uol(_), t) => return Err(format!("text of {:?}: {t:?}", c.k)),
        (_, Ok(t)) => return Err(format!("{:?} has the text {t:?}", c.k)),
        _ => {}
    }
    Ok(())
}

// ------------------------------------------------------------------ nodes of a parsed image

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tree {
    tree: Vec<(S, V)>,
    iv: [u8; 4],
}
fn tree_strat() -> BoxedStrategy<Tree> {
    (prop_oneof![3 => tree_with(full_leaf(Uols::Dangling), 4, 40), 1 => any_tree()], any_iv()).prop_map(|(tree, iv)| Tree { tree, iv }).boxed()
}
fn of_value(v: &V) -> K {
    match v {
        V::Null | V::Unknown(..) => Null,
        V::Short(x, _) => Short(*x),
        V::Int(x, ..) => Int(*x),
        V::Long(x, _) => Long(*x),
        V::FloatByte(_) | V::Float(_) => Float(0),
        V::Double(_) => Double(0),
        V::Str(_) => Str(String::new()),
        V::Sub(_) => Sub,
        V::Vector(x, y) => Vector(*x, *y),
        V::Convex(_) => Convex,
        V::Uol(_) => Uol(String::new()),
        V::Canvas { .. } => Png(0, 0),
        V::Sound { .. } => Sound(0),
        V::Raw { .. } => Raw,
        V::Video(_) => Video,
    }
}
fn check_tree(n: &WzNodeArc, l: &[(String, &V)], path: &str, seen: &mut usize) -> Result<(), String> {
    let r = n.read().unwrap();
    for (name, v) in l {
        let Some(x) = r.at(name) else { return Err(format!("{path}/{name}: missing")) };
        let (got, exp) = (answers(&x.read().unwrap()), want(&of_value(v)));
        if got != exp {
            return Err(format!("{path}/{name}: stored {:?}, answers to {got:?} instead of {exp:?}", of_value(v)));
        }
        *seen += 1;
        let t = resolve_string_from_node(&x);
        match (v, t) {
            (V::Str(s) | V::Uol(s), Ok(t)) if s.0 == t => {}
            (V::Str(s) | V::Uol(s), t) => return Err(format!("{path}/{name}: text of {:?} is {t:?}", s.0)),
            (_, Ok(t)) => return Err(format!("{path}/{name}: text {t:?} of no text")),
            _ => {}
        }
        check_tree(&x, &kids(v), &format!("{path}/{name}"), seen)?;
    }
    Ok(())
}
fn tree(c: &Tree, o: &mut Obs) -> Result<(), String> {
    let n = image_node("a.img", &encode_image(&c.tree, c.iv), 0, c.iv);
    let is_image = |when: &str| match answers(&n.read().unwrap()).as_slice() {
        ["image"] => Ok(()),
        l => Err(format!("{when} the image answers to {l:?}")),
    };
    is_image("before parsing")?;
    n.write().unwrap().parse(&n).map_err(|e| format!("parse: {e}"))?;
    is_image("after parsing")?;
    let mut seen = 0;
    let l: Vec<(String, &V)> = c.tree.iter().map(|(n, v)| (n.0.clone(), v)).collect();
    check_tree(&n, &l, "", &mut seen)?;
    o.nontrivial = seen >= 5;
    o.class_if(seen >= 30, "30+ nodes");
    Ok(())
}

// ------------------------------------------------------------------ vectors

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vecs {
    a: (i32, i32),
    b: (i32, i32),
}
fn vecs_strat() -> BoxedStrategy<Vecs> {
    let x = || prop_oneof![4 => -40_000i32..40_000, 2 => -10i32..10, 1 => i32_edge()];
    ((x(), x()), (x(), x())).prop_map(|(a, b)| Vecs { a, b }).boxed()
}
fn vecs(c: &Vecs, o: &mut Obs) -> Result<(), String> {
    let (a, b) = (Vector2D::new(c.a.0, c.a.1), Vector2D(c.b.0, c.b.1));
    same("new", (a.0, a.1), c.a)?;
    same("shown", a.to_string(), format!("({}, {})", c.a.0, c.a.1))?;
    same("equal", a == b, c.a == c.b)?;
    type Op = fn(i32, i32) -> Option<i32>;
    type VOp = fn(Vector2D, Vector2D) -> Vector2D;
    let ops: [(&str, Op, VOp); 4] =
        [("+", i32::checked_add, |a, b| a + b), ("-", i32::checked_sub, |a, b| a - b), ("*", i32::checked_mul, |a, b| a * b), ("/", i32::checked_div, |a, b| a / b)];
    let mut done = 0;
    for (s, f, v) in ops {
        // results that no vector can hold are left out
        if let (Some(x), Some(y)) = (f(c.a.0, c.b.0), f(c.a.1, c.b.1)) {
            let r = v(a, b);
            same(s, (r.0, r.1), (x, y))?;
            done += 1;
        }
    }
    if c.a.0.checked_sub(c.b.0).is_some() && c.a.1.checked_sub(c.b.1).is_some() {
        let (x, y) = ((c.a.0 as f64 - c.b.0 as f64), (c.a.1 as f64 - c.b.1 as f64));
        if c.b.0.checked_sub(c.a.0).is_some() && c.b.1.checked_sub(c.a.1).is_some() {
            let (d, e, h) = (a.distance(&b), b.distance(&a), x.hypot(y));
            if (d - h).abs() > h * 1e-12 || (e - h).abs() > h * 1e-12 {
                return Err(format!("distance of {:?} and {:?}: {d} and {e}, expected {h}", c.a, c.b));
            }
        }
    }
    o.nontrivial = done >= 3;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C24",
        threads: 8,
        assumptions: &["vector operations whose result fits 32 bits only"],
        subs: vec![
            check!("built", "a node of a random kind and value, built by new and from_str: every kind question, value, name, parent; always non-trivial", 6000, 100000, built_strat, built),
            check!("parsed", "every node of a random parsed image is asked every kind question, and for its text; non-trivial: 5+ nodes", 1500, 30000, tree_strat, tree),
            check!("vectors", "arithmetic of two vectors, component by component; non-trivial: three of the four operations fit", 4000, 50000, vecs_strat, vecs),
        ],
    }
}
