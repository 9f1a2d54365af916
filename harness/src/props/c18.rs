//! C18 JSON exports
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use wz_reader::property::{WzSoundType, WzValue};
use wz_reader::{WzNode, WzNodeArc, WzNodeCast, WzObjectType};

fn special() -> BoxedStrategy<V> {
    prop_oneof![
        proptest::sample::select(vec![f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MAX, f32::MIN_POSITIVE, 0.1]).prop_map(|f| V::Float(f.to_bits())),
        proptest::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MAX, 5e-324, 0.1, 1e300, 123456789.123456789]).prop_map(|f| V::Double(f.to_bits())),
        Just(V::Null),
        proptest::sample::select(vec!["null", "\"quoted\"\\", "\n\t\u{0}\u{1f}", "\u{2028}", "../a", ""]).prop_map(|s| V::Str(S(s.into(), 0))),
        Just(V::Sub(vec![])),
        Just(V::Convex(vec![])),
    ]
    .boxed()
}
fn leaf() -> BoxedStrategy<V> {
    prop_oneof![8 => full_leaf(Uols::Dangling), 3 => special()].boxed()
}
fn tree() -> BoxedStrategy<Vec<(S, V)>> {
    let jsonish = (proptest::sample::select(vec!["name", "type", "data", "children", "width", "height", "duration", "sound_type", "\"", "\\u0041"]), leaf()).prop_map(|(n, v)| (S(n.into(), 0), v));
    prop_oneof![
        4 => tree_with(leaf(), 4, 40),
        1 => tree_with(leaf(), 9, 40),
        1 => deep_tree(leaf(), 20..=120),
        2 => (tree_with(leaf(), 3, 20), vec(jsonish, 0..4), 0usize..4).prop_map(|(mut t, j, at)| {
            // names JSON gives a meaning to, at the top and inside a canvas
            let mut done = false;
            for (_, v) in t.iter_mut() {
                if let V::Canvas { kids, .. } = v {
                    let mut l = kids.take().unwrap_or_default();
                    l.extend(j.clone());
                    *kids = Some(dedup(l));
                    done = true;
                }
            }
            if !done || at == 0 { t.extend(j); }
            dedup(t)
        }),
    ]
    .boxed()
}

/// without the kinds that have no full JSON
fn plain(l: &[(S, V)]) -> Vec<(S, V)> {
    l.iter()
        .map(|(n, v)| {
            let v = match v {
                V::Sub(l) => V::Sub(plain(l)),
                V::Canvas { kids, w, h, f1, f2, pages, data } => V::Canvas { kids: kids.as_ref().map(|l| plain(l)), w: *w, h: *h, f1: *f1, f2: *f2, pages: *pages, data: data.clone() },
                V::Raw { kids: Some(l), .. } => V::Sub(plain(l)),
                V::Raw { .. } | V::Video(_) => V::Null,
                v => v.clone(),
            };
            (n.clone(), v)
        })
        .collect()
}

fn st(t: WzSoundType) -> &'static str {
    match t {
        WzSoundType::Mp3 => "Mp3",
        WzSoundType::Wav => "Wav",
        WzSoundType::Binary => "Binary",
    }
}

fn num(f: f64) -> Value {
    if f.is_finite() {
        json!(f)
    } else {
        Value::Null
    }
}

/// type and data of the full JSON
fn full(name: &str, v: &V) -> Value {
    let (t, d) = match v {
        V::Null | V::Unknown(..) => ("Null", None),
        V::Short(x, _) => ("Short", Some(json!(x))),
        V::Int(x, ..) => ("Int", Some(json!(x))),
        V::Long(x, _) => ("Long", Some(json!(x))),
        V::FloatByte(b) => ("Float", Some(json!(*b as f64))),
        V::Float(b) => ("Float", Some(num(f32::from_bits(*b) as f64))),
        V::Double(b) => ("Double", Some(num(f64::from_bits(*b)))),
        V::Str(s) => ("String", Some(json!(s.0))),
        V::Uol(s) => ("UOL", Some(json!(s.0))),
        V::Vector(x, y) => ("Vector", Some(json!([x, y]))),
        V::Sub(_) => ("Property", None),
        V::Convex(_) => ("Convex", None),
        V::Canvas { w, h, .. } => ("PNG", Some(json!({"width": w, "height": h}))),
        V::Sound { dur, header, data } => ("Sound", Some(json!({"duration": *dur as u32, "sound_type": st(expected_sound(*dur as u32, header, data).0)}))),
        V::Raw { .. } | V::Video(_) => unreachable!(),
    };
    full_with(name, t, d, &kids(v))
}
fn full_with(name: &str, t: &str, d: Option<Value>, kids: &[(String, &V)]) -> Value {
    let mut m = Map::new();
    m.insert("name".into(), json!(name));
    m.insert("type".into(), json!(t));
    if let Some(d) = d {
        m.insert("data".into(), d);
    }
    m.insert("children".into(), Value::Object(kids.iter().map(|(n, v)| (n.clone(), full(n, v))).collect()));
    Value::Object(m)
}

fn simple(v: &V) -> Value {
    let mut m = match v {
        V::Null | V::Unknown(..) | V::Video(_) => return Value::Null,
        V::Short(x, _) => return json!(x),
        V::Int(x, ..) => return json!(x),
        V::Long(x, _) => return json!(x),
        V::FloatByte(b) => return json!(*b as f64),
        V::Float(b) => return num(f32::from_bits(*b) as f64),
        V::Double(b) => return num(f64::from_bits(*b)),
        V::Str(s) | V::Uol(s) => return json!(s.0),
        V::Vector(x, y) => return json!({"x": x, "y": y}),
        V::Canvas { w, h, .. } => json!({"width": w, "height": h}),
        V::Sound { dur, header, data } => json!({"duration": *dur as u32, "sound_type": st(expected_sound(*dur as u32, header, data).0)}),
        V::Sub(_) | V::Convex(_) | V::Raw { .. } => json!({}),
    };
    let o = m.as_object_mut().unwrap();
    for (n, v) in kids(v) {
        // a child's value is never hidden by an attribute of its parent
        o.insert(n, simple(v));
    }
    if o.is_empty() {
        return Value::Null;
    }
    m
}

/// first difference between two JSON values (numbers by bits)
fn diff(exp: &Value, got: &Value, p: &str) -> Result<(), String> {
    match (exp, got) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in a {
                match b.get(k) {
                    Some(w) => diff(v, w, &format!("{p}/{k}"))?,
                    None => return Err(format!("{p}: {k:?} missing")),
                }
            }
            if let Some(k) = b.keys().find(|k| !a.contains_key(*k)) {
                return Err(format!("{p}: {k:?} should not be there"));
            }
            Ok(())
        }
        // an empty container
        (Value::Null, Value::Object(b)) if b.is_empty() && !p.is_empty() => Ok(()),
        (Value::Number(a), Value::Number(b)) if a.is_f64() || b.is_f64() => {
            let (a, b) = (a.as_f64().unwrap(), b.as_f64().unwrap());
            if a.to_bits() == b.to_bits() {
                Ok(())
            } else {
                Err(format!("{p}: expected {a:?}, got {b:?}"))
            }
        }
        _ if exp == got => Ok(()),
        _ => Err(format!("{p}: expected {}, got {}", short(exp), short(got))),
    }
}
fn short(v: &Value) -> String {
    v.to_string().chars().take(160).collect()
}

/// the tree read back has the kinds and values of the model
fn cmp_back(n: &WzNodeArc, v: &V, p: &str) -> Result<(), String> {
    {
        let r = n.read().unwrap();
        let bad = || Err(format!("{p}: read back as {}, expected {}", format!("{:?}", r.object_type).chars().take(80).collect::<String>(), format!("{v:?}").chars().take(80).collect::<String>()));
        let ok = match v {
            V::Float(b) if !f32::from_bits(*b).is_finite() => r.try_as_float().is_some_and(|f| !f.is_finite()),
            V::Double(b) if !f64::from_bits(*b).is_finite() => r.try_as_double().is_some_and(|f| !f.is_finite()),
            V::Canvas { w, h, .. } => r.try_as_png().is_some_and(|x| (x.width, x.height) == (*w as u32, *h as u32)),
            V::Sound { dur, header, data } => r.try_as_sound().is_some_and(|x| x.duration == *dur as u32 && x.sound_type == expected_sound(*dur as u32, header, data).0),
            V::Sub(_) => r.is_sub_property(),
            V::Convex(_) => r.is_convex(),
            v => {
                drop(r);
                return cmp_value(n, v, p, false);
            }
        };
        if !ok {
            return bad();
        }
    }
    cmp_back_kids(n, &kids(v), p)
}
fn cmp_back_kids(n: &WzNodeArc, m: &[(String, &V)], p: &str) -> Result<(), String> {
    let r = n.read().unwrap();
    if r.children.len() != m.len() {
        return Err(format!("{p}: {} children read back, {} expected", r.children.len(), m.len()));
    }
    for (name, v) in m {
        let p = format!("{p}/{name}");
        let c = r.at(name).ok_or_else(|| format!("{p}: missing after reading back"))?;
        if c.read().unwrap().name.as_str() != name {
            return Err(format!("{p}: node name read back as {:?}", c.read().unwrap().name.as_str()));
        }
        cmp_back(&c, v, &p)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C {
    name: String,
    tree: Vec<(S, V)>,
    iv: [u8; 4],
    offset: usize,
    /// texts added by hand
    texts: Vec<String>,
}
fn strat() -> BoxedStrategy<C> {
    (prop_oneof![3 => "[a-zA-Z0-9]{0,8}\\.img", 1 => any_text()], tree(), any_iv(), 0usize..40, vec(any_text(), 0..3))
        .prop_map(|(name, tree, iv, offset, texts)| C { name: name.replace('/', "").replace(".txt", ""), tree, iv, offset, texts })
        .boxed()
}

fn classes(t: &[(S, V)], o: &mut Obs) {
    o.class_if(has(t, &|_, v| matches!(v, V::Float(b) if !f32::from_bits(*b).is_finite()) || matches!(v, V::Double(b) if !f64::from_bits(*b).is_finite())), "number JSON cannot express");
    o.class_if(has(t, &|n, v| !n.0.is_ascii() || matches!(v, V::Str(s) if !s.0.is_ascii())), "non-ASCII text");
    o.class_if(has(t, &|_, v| matches!(v, V::Sub(l) if l.is_empty())), "empty container");
    o.class_if(has(t, &|_, v| matches!(v, V::Canvas { kids: Some(l), .. } if !l.is_empty())), "canvas with children");
    o.class_if(has(t, &|_, v| matches!(v, V::Sound { .. })), "sound");
    o.class_if(has(t, &|_, v| matches!(v, V::Null)), "null value");
    o.class_if(depth(t) >= 4, "depth 4 and more");
}

fn full_json(c: &C, o: &mut Obs) -> Result<(), String> {
    let tree = plain(&c.tree);
    o.nontrivial = count(&tree) >= 3;
    classes(&tree, o);
    let node = parsed(&c.name, &encode_image(&tree, c.iv), c.offset, c.iv)?;
    let m: Vec<(String, &V)> = tree.iter().map(|(n, v)| (n.0.clone(), v)).collect();
    let mut exp = full_with(&c.name, "Image", Some(json!({})), &m);
    for (i, t) in c.texts.iter().enumerate() {
        let name = format!("text*{i}*");
        let x = WzNode::from_str(&name, WzObjectType::Value(WzValue::ParsedString(t.clone())), Some(&node));
        if !matches!(&x.object_type, WzObjectType::Value(WzValue::ParsedString(s)) if s == t) {
            return Err("a node made from a text is no text".into());
        }
        node.write().unwrap().add(&x.into_lock());
        exp["children"][&name] = json!({"name": name, "type": "ParsedString", "data": t, "children": {}});
    }
    let j = node.read().unwrap().to_json().map_err(|e| format!("to_json: {e}"))?;
    diff(&exp, &j, "")?;
    // any node of the tree exports what it exports inside the whole
    for (n, _) in &m {
        let x = node.read().unwrap().at(n).ok_or("child missing")?;
        diff(&exp["children"][n], &x.read().unwrap().to_json().map_err(|e| e.to_string())?, n)?;
    }
    // through a value and through text
    let text = serde_json::to_string(&*node.read().unwrap()).map_err(|e| format!("to_string: {e}"))?;
    let from_text = from_json::<WzNode>(text.as_bytes()).map_err(|e| format!("reading the text back: {e}"))?;
    let from_value = serde_json::from_value::<WzNode>(j).map_err(|e| format!("reading the value back: {e}"))?;
    for back in [from_value, from_text] {
        if back.name.as_str() != c.name || !matches!(back.object_type, WzObjectType::Image(_)) {
            return Err(format!("root read back as {:?}", back.name.as_str()));
        }
        let again = back.to_json().map_err(|e| format!("to_json of what was read back: {e}"))?;
        diff(&exp, &again, "(again)")?;
        let mut back = back;
        for (i, t) in c.texts.iter().enumerate() {
            let x = back.children.remove(format!("text*{i}*").as_str()).ok_or("text missing after reading back")?;
            let r = x.read().unwrap();
            if !matches!(&r.object_type, WzObjectType::Value(WzValue::ParsedString(s)) if s == t) {
                return Err("text read back as something else".into());
            }
        }
        
        cmp_back_kids(&back.into_lock(), &m, "")?;
    }
    Ok(())
}

fn simple_json(c: &C, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = count(&c.tree) >= 3;
    classes(&c.tree, o);
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Raw { .. } | V::Video(_))), "raw data or video");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Canvas { kids: Some(l), .. } if l.iter().any(|(n, _)| n.0 == "width" || n.0 == "height"))), "canvas child named like its size");
    let node = parsed(&c.name, &encode_image(&c.tree, c.iv), c.offset, c.iv)?;
    for (i, t) in c.texts.iter().enumerate() {
        node.write().unwrap().add(&WzNode::from_str(&format!("text*{i}*"), WzObjectType::Value(WzValue::ParsedString(t.clone())), Some(&node)).into_lock());
    }
    // children of sounds, which no file can give them
    let mut sounds = vec![];
    if let Some(t) = c.texts.first() {
        for (i, (n, _)) in c.tree.iter().filter(|(_, v)| matches!(v, V::Sound { .. })).enumerate() {
            let x = node.read().unwrap().at(&n.0).ok_or("child missing")?;
            let name = ["duration", "note*"][i % 2];
            x.write().unwrap().add(&WzNode::from_str(name, WzObjectType::Value(WzValue::ParsedString(t.clone())), Some(&x)).into_lock());
            sounds.push((n.0.clone(), name, t.clone()));
        }
    }
    o.class_if(!sounds.is_empty(), "sound with an added child");
    let root = V::Sub(c.tree.clone());
    let mut exp = simple(&root);
    for (n, name, t) in &sounds {
        exp[n.as_str()][*name] = json!(t);
    }
    if !c.texts.is_empty() && exp.is_null() {
        exp = json!({});
    }
    for (i, t) in c.texts.iter().enumerate() {
        exp[format!("text*{i}*")] = json!(t);
    }
    let j = node.read().unwrap().to_simple_json().map_err(|e| format!("to_simple_json: {e}"))?;
    if !(exp.is_null() && j == json!({})) {
        diff(&exp, &j, "")?;
    }
    for (n, v) in &c.tree {
        let x = node.read().unwrap().at(&n.0).ok_or("child missing")?;
        let g = x.read().unwrap().to_simple_json().map_err(|e| e.to_string())?;
        let mut e = simple(v);
        if let Some((_, name, t)) = sounds.iter().find(|x| x.0 == n.0) {
            e[*name] = json!(t);
        }
        diff(&e, &g, &n.0)?;
    }
    // the full export of such a tree may be refused, nothing more
    let _ = node.read().unwrap().to_json();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct A {
    arc: Pkg1,
    parse: Vec<bool>,
}
fn plain_e(l: &[E]) -> Vec<E> {
    l.iter()
        .map(|e| match e {
            E::Dir { name, kids, cks } => E::Dir { name: name.clone(), kids: plain_e(kids), cks: *cks },
            E::Img { name, body: Body::Prop(t), cks } => E::Img { name: name.clone(), body: Body::Prop(plain(t)), cks: *cks },
            e => e.clone(),
        })
        .collect()
}
fn astrat() -> BoxedStrategy<A> {
    any::<bool>()
        .prop_flat_map(|encver| {
            (entries(true, 4, 16, false), layout(), region_iv(), header_text(), guessable_version(encver), vec(any::<bool>(), 1..9)).prop_map(move |(root, layout, iv, text, version, parse)| A {
                arc: Pkg1 { text, version, encver, iv, root: plain_e(&root), layout },
                parse,
            })
        })
        .boxed()
}

/// parse some of the images; returns the expected children objects (full, simple)
fn expect_dir(node: &WzNodeArc, l: &[Laid], parse: &mut dyn Iterator<Item = bool>, seen: &mut (usize, usize)) -> Result<(Value, Value), String> {
    let (mut f, mut s) = (Map::new(), Map::new());
    for x in l {
        let name = laid_name(x);
        let c = node.read().unwrap().at(name).ok_or_else(|| format!("{name} missing"))?;
        let (fv, sv) = match x {
            Laid::Dir { kids, .. } => {
                seen.0 += 1;
                let (k, s) = expect_dir(&c, kids, parse, seen)?;
                (json!({"name": name, "type": "Directory", "data": {}, "children": k}), s)
            }
            Laid::Img { body: Body::Prop(t), .. } => {
                if parse.next().unwrap() {
                    c.write().unwrap().parse(&c).map_err(|e| format!("{name}: {e}"))?;
                    seen.1 += 1;
                    let m: Vec<(String, &V)> = t.iter().map(|(n, v)| (n.0.clone(), v)).collect();
                    (full_with(name, "Image", Some(json!({})), &m), simple(&V::Sub(t.clone())))
                } else {
                    (full_with(name, "Image", Some(json!({})), &[]), Value::Null)
                }
            }
            _ => return Err("HARNESS-ERROR unexpected entry".into()),
        };
        f.insert(name.into(), fv);
        s.insert(name.into(), sv);
    }
    let s = if s.is_empty() { Value::Null } else { Value::Object(s) };
    Ok((Value::Object(f), s))
}

fn archive(a: &A, o: &mut Obs) -> Result<(), String> {
    let c = &a.arc;
    if first_named(&c.root).is_some_and(|f| !f.0.is_ascii() && plausible_keys(f, c.iv).iter().any(|k| *k != c.iv)) {
        o.class("key ambiguous");
        return Ok(());
    }
    let (bytes, laid) = c.encode();
    let sc = Scratch::new();
    let path = sc.write("Arc.wz", &bytes);
    let node = WzNode::from_wz_file_full(&path, region_of(c.iv), Some(c.version), None, None).map_err(|e| format!("open: {e}"))?.into_lock();
    node.write().unwrap().parse(&node).map_err(|e| format!("parse: {e}"))?;
    let mut it = a.parse.iter().copied().cycle();
    let mut seen = (0, 0);
    let (kids, simple) = expect_dir(&node, &laid, &mut it, &mut seen)?;
    o.nontrivial = seen.0 > 0 && seen.1 > 0;
    o.class_if(seen.1 > 1, "several parsed images");
    let j = node.read().unwrap().to_json().map_err(|e| format!("to_json: {e}"))?;
    if j["name"] != "Arc" || j["type"] != "File" {
        return Err(format!("root exported as {} {}", j["name"], j["type"]));
    }
    if j["data"]["path"] != json!(path.to_str().unwrap()) || j["data"]["patch_version"] != json!(c.version) {
        return Err(format!("path or version of the file exported as {}", short(&j["data"])));
    }
    diff(&kids, &j["children"], "")?;
    let back = from_json::<WzNode>(j.to_string().as_bytes()).map_err(|e| format!("reading back: {e}"))?;
    let Some(f) = back.try_as_file() else { return Err("root read back as another kind".into()) };
    if f.wz_file_meta.path != path.to_str().unwrap() || f.wz_file_meta.patch_version != c.version {
        return Err("path or version read back differently".into());
    }
    diff(&j, &back.to_json().map_err(|e| e.to_string())?, "(again)")?;
    let g = node.read().unwrap().to_simple_json().map_err(|e| format!("to_simple_json: {e}"))?;
    if !(simple.is_null() && g == json!({})) {
        diff(&simple, &g, "(simple)")?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct B {
    ms: crate::ms::Ms,
    trees: Vec<Vec<(S, V)>>,
    parse: Vec<bool>,
}
fn bstrat() -> BoxedStrategy<B> {
    (any::<bool>().prop_flat_map(|v2| crate::ms::ms(v2, Just(vec![]).boxed())), vec(tree(), 6), vec(any::<bool>(), 1..9))
        .prop_map(|(mut ms, trees, parse)| {
            ms.entries.truncate(trees.len());
            let trees: Vec<_> = trees.iter().map(|t| plain(t)).collect();
            for (e, t) in ms.entries.iter_mut().zip(&trees) {
                e.data = encode_image(t, [0; 4]);
            }
            B { ms, trees, parse }
        })
        .boxed()
}

fn ms_archive(b: &B, o: &mut Obs) -> Result<(), String> {
    let (bytes, _) = b.ms.encode();
    let sc = Scratch::new();
    let path = sc.write(&b.ms.name, &bytes);
    let node = WzNode::from_ms_file(&path, None).map_err(|e| format!("open: {e}"))?.into_lock();
    node.write().unwrap().parse(&node).map_err(|e| format!("parse: {e}"))?;
    let mut simple_want = Map::new();
    let mut parse = b.parse.iter().copied().cycle();
    let mut want = vec![];
    for (e, t) in b.ms.entries.iter().zip(&b.trees) {
        let c = node.read().unwrap().at(&e.name).ok_or_else(|| format!("{:?} missing", e.name))?;
        let parsed = parse.next().unwrap();
        if parsed {
            c.write().unwrap().parse(&c).map_err(|x| format!("{:?}: {x}", e.name))?;
        }
        simple_want.insert(e.name.clone(), if parsed { simple(&V::Sub(t.clone())) } else { Value::Null });
        let m: Vec<(String, &V)> = if parsed { t.iter().map(|(n, v)| (n.0.clone(), v)).collect() } else { vec![] };
        want.push((e, parsed, full_with(&e.name, "Image", Some(json!({})), &m)));
    }
    o.nontrivial = want.iter().any(|w| w.1) && want.len() > 1;
    o.class_if(want.iter().any(|w| !w.1), "an image not parsed");
    o.class_if(b.ms.v2, "version 2");
    let j = node.read().unwrap().to_json().map_err(|e| format!("to_json: {e}"))?;
    if j["type"] != "MsFile" {
        return Err(format!("root exported as {}", j["type"]));
    }
    let kids = j["children"].as_object().map(|m| m.len()).unwrap_or(0);
    if kids != want.len() {
        return Err(format!("{kids} children exported of {}", want.len()));
    }
    for (e, parsed, w) in &want {
        let g = &j["children"][&e.name];
        if *parsed {
            diff(w, g, &e.name)?;
        } else if g["name"] != json!(e.name) || g["type"] != "MsImage" {
            return Err(format!("{:?} exported as {}", e.name, short(g)));
        }
    }
    let back = from_json::<WzNode>(j.to_string().as_bytes()).map_err(|e| format!("reading back: {e}"))?;
    let wz_reader::WzObjectType::MsFile(f) = &back.object_type else { return Err("root read back as another kind".into()) };
    if f.header.entry_count as usize != want.len() {
        return Err(format!("{} entries read back", f.header.entry_count));
    }
    for (e, parsed, _) in &want {
        let c = back.at(&e.name).ok_or_else(|| format!("{:?} not read back", e.name))?;
        let same = match &c.read().unwrap().object_type {
            wz_reader::WzObjectType::Image(_) => *parsed,
            wz_reader::WzObjectType::MsImage(_) => !*parsed,
            _ => false,
        };
        if !same {
            return Err(format!("{:?} read back as another kind", e.name));
        }
    }
    diff(&j, &back.to_json().map_err(|e| e.to_string())?, "(again)")?;
    let g = node.read().unwrap().to_simple_json().map_err(|e| format!("to_simple_json: {e}"))?;
    if !simple_want.is_empty() {
        diff(&Value::Object(simple_want), &g, "(simple)")?;
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C18",
        subs: vec![
            check!("full", "at least three properties", 250, 4000, strat, full_json),
            check!("simple", "at least three properties", 250, 4000, strat, simple_json),
            check!("archive", "a directory and a parsed image", 100, 1500, astrat, archive),
            check!("ms", "several images, one of them parsed", 100, 1500, bstrat, ms_archive),
        ],
        assumptions: &["serde_json reads and writes JSON correctly (used with exact float parsing)"],
        threads: 8,
    }
}
