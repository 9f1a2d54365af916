//! C08 direct lookup equals parse-then-navigate
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use wz_reader::util::node_util::{get_image_node_from_path, get_node_without_parse};
use wz_reader::{WzNode, WzNodeArc, WzNodeCast};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Vec<(S, V)>,
    iv: [u8; 4],
    offset: usize,
    tail: Vec<u8>,
    /// changes to the start of the image, which both ways have to agree on: its type name and the number behind it
    start: (u8, u16),
    /// random paths put together from names of the tree
    extra: Vec<Vec<u16>>,
}

fn strat() -> BoxedStrategy<Case> {
    (
        prop_oneof![
            8 => tree_with(full_leaf(Uols::Dangling), 5, 40),
            1 => tree_with(full_leaf(Uols::Dangling), 9, 60),
            1 => vec((any_name(), scalar()), 100..160).prop_map(dedup),
            1 => deep_tree(full_leaf(Uols::Dangling), 20..=124),
            1 => big_tree(full_leaf(Uols::Dangling)),
        ],
        any_iv(),
        prop_oneof![Just(0usize), 1usize..200],
        blob(64),
        prop_oneof![6 => Just((0u8, 0u16)), 1 => (0u8..4, any::<u16>()), 1 => (0u8..4, Just(0))],
        vec(vec(any::<u16>(), 1..5), 0..10),
    )
        .prop_map(|(tree, iv, offset, tail, start, extra)| Case { tree, iv, offset, tail, start, extra })
        .boxed()
}

fn top(t: &[(S, V)]) -> Vec<(String, &V)> {
    t.iter().map(|(n, v)| (n.0.clone(), v)).collect()
}

fn find<'a>(t: &'a [(S, V)], path: &str) -> Option<&'a V> {
    let mut level = top(t);
    let mut cur = None;
    for seg in path.split('/') {
        let v = level.iter().find(|(n, _)| n == seg)?.1;
        level = kids(v);
        cur = Some(v);
    }
    cur
}

fn all_paths(level: &[(String, &V)], at: &str, out: &mut Vec<String>) {
    for (n, v) in level {
        let p = if at.is_empty() { n.clone() } else { format!("{at}/{n}") };
        all_paths(&kids(v), &p, out);
        out.push(p);
    }
}

/// Paths to ask for: every stored one, and near misses of each.
fn queries(t: &[(S, V)], extra: &[Vec<u16>]) -> Vec<String> {
    let mut present = vec![];
    all_paths(&top(t), "", &mut present);
    let mut names: Vec<String> = present.iter().flat_map(|p| p.split('/').map(|s| s.to_string())).collect();
    names.sort();
    names.dedup();
    names.push("no such".into());
    names.push("..".into());
    names.push(".".into());
    let mut q = vec![];
    for p in present.iter().take(150) {
        q.push(p.clone());
        q.push(format!("{p}/"));
        q.push(format!("{p}/0"));
        q.push(format!("{p}x"));
        q.push(format!("/{p}"));
        q.push(format!("{p}/.."));
        let mut c = p.clone();
        c.pop();
        q.push(c);
        if let Some((a, b)) = p.rsplit_once('/') {
            q.push(format!("{a}/0{b}"));
            q.push(format!("{a}/+{b}"));
            q.push(format!("{a}//{b}"));
            q.push(b.to_string());
            q.push(a.to_string());
            q.push(format!("{b}/{a}"));
        }
        q.push(p.to_uppercase());
    }
    for e in extra {
        q.push(e.iter().map(|i| names[*i as usize % names.len()].as_str()).collect::<Vec<_>>().join("/"));
    }
    q.retain(|p| !p.is_empty());
    q.sort();
    q.dedup();
    q
}

/// the direct answer against the model
fn judge(got: Option<WzNodeArc>, want: Option<&V>, path: &str) -> Result<(), String> {
    match (got, want) {
        (None, None) => Ok(()),
        (None, Some(v)) => Err(format!("{path:?}: not found, but the image holds {}", format!("{v:?}").chars().take(80).collect::<String>())),
        (Some(n), None) => Err(format!("{path:?}: found {:?}, but the image holds no such path", n.read().unwrap().name)),
        (Some(n), Some(v)) => {
            let last = path.rsplit('/').next().unwrap();
            if n.read().unwrap().name.as_str() != last {
                return Err(format!("{path:?}: found node named {:?}", n.read().unwrap().name));
            }
            cmp_value(&n, v, path, false)
        }
    }
}

fn classify(t: &[(S, V)], o: &mut Obs) {
    o.nontrivial = count(t) >= 3 && depth(t) >= 2;
    o.class_if(depth(t) >= 4, "depth 4+");
    o.class_if(has(t, &|_, v| matches!(v, V::Canvas { kids: Some(k), .. } if !k.is_empty())), "through canvas");
    o.class_if(has(t, &|_, v| matches!(v, V::Raw { kids: Some(k), .. } if !k.is_empty())), "through raw data");
    o.class_if(has(t, &|_, v| matches!(v, V::Convex(k) if !k.is_empty())), "through convex");
    o.class_if(has(t, &|_, v| matches!(v, V::Uol(_))), "link entries");
    o.class_if(has(t, &|s, _| s.1 & 4 != 0), "name by reference");
    o.class_if(has(t, &|s, _| !s.0.is_ascii()), "unicode name");
}

fn image(c: &Case, o: &mut Obs) -> Result<(), String> {
    classify(&c.tree, o);
    let mut bytes = encode_image(&c.tree, c.iv);
    bytes.extend_from_slice(&c.tail);
    // behind 0x73 and the length, the eight characters of "Property"
    bytes[4] ^= c.start.0;
    bytes[10..12].copy_from_slice(&c.start.1.to_le_bytes());
    let node = image_node("a.img", &bytes, c.offset, c.iv);
    let qs = queries(&c.tree, &c.extra);
    if c.start != (0, 0) {
        o.class("unusual start");
        let other = image_node("a.img", &bytes, c.offset, c.iv);
        if other.write().unwrap().parse(&other).is_err() {
            o.class("refused for its start");
            let r = node.read().unwrap();
            let img = r.try_as_image().ok_or("not an image")?;
            return match qs.iter().find(|q| img.at_path(q).is_ok()) {
                Some(q) => Err(format!("{q:?} is found in an image that can't be parsed")),
                None => Ok(()),
            };
        }
    }
    {
        let r = node.read().unwrap();
        let img = r.try_as_image().ok_or("not an image")?;
        for q in &qs {
            judge(img.at_path(q).ok(), find(&c.tree, q), q)?;
        }
        if img.at_path("").is_ok() {
            return Err("the empty path finds a node".into());
        }
        if img.is_parsed || !r.children.is_empty() {
            return Err("a direct lookup changed the image".into());
        }
    }
    // the parsed image, walked by the same paths, says the same
    node.write().unwrap().parse(&node).map_err(|e| format!("parse: {e}"))?;
    let r = node.read().unwrap();
    for q in &qs {
        judge(r.at_path(q), find(&c.tree, q), q).map_err(|e| format!("after parsing: {e}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ through an archive

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arch {
    root: Vec<E>,
    iv: [u8; 4],
    pick: Vec<u16>,
}

fn odd_name() -> BoxedStrategy<S> {
    (
        prop_oneof![
            2 => "[A-Za-z0-9_]{1,6}\\.img",
            2 => "[A-Za-z0-9_]{1,6}",
            1 => "[A-Za-z]{1,3}\\.img[A-Za-z.]{0,4}",
            1 => "[A-Za-z]{1,3}\\.img\\.img",
            1 => Just(".img".to_string()),
            1 => "[가-힣]{1,3}(\\.img)?",
        ],
        0u8..4,
    )
        .prop_map(|(a, m)| S(a, m))
        .boxed()
}

fn arch_strat() -> BoxedStrategy<Arch> {
    let leaf = (odd_name(), tree_with(full_leaf(Uols::Dangling), 3, 10)).prop_map(|(name, t)| E::Img { name, body: Body::Prop(t), cks: 0 });
    let node = leaf.prop_recursive(3, 12, 4, |inner| (odd_name(), vec(inner, 0..4)).prop_map(|(name, kids)| E::Dir { name, kids, cks: 0 }).boxed());
    // a plain first name, so that the key is told from it
    (vec(node, 1..5), region_iv(), vec(any::<u16>(), 1..6))
        .prop_map(|(l, iv, pick)| {
            let mut root = vec![E::Dir { name: S("TheFirstDirectoryName".into(), 0), kids: vec![], cks: 0 }];
            root.extend(l);
            Arch { root: dedup_e(root), iv, pick }
        })
        .boxed()
}

fn images<'a>(l: &'a [E], at: &str, imgs: &mut Vec<(String, &'a Vec<(S, V)>)>, dirs: &mut Vec<String>) {
    for e in l {
        match e {
            E::Dir { name, kids, .. } => {
                let p = if at.is_empty() { name.0.clone() } else { format!("{at}/{}", name.0) };
                images(kids, &p, imgs, dirs);
                dirs.push(p);
            }
            E::Img { name, body: Body::Prop(t), .. } => {
                let p = if at.is_empty() { name.0.clone() } else { format!("{at}/{}", name.0) };
                imgs.push((p, t));
            }
            _ => {}
        }
    }
}

fn archive(c: &Arch, o: &mut Obs) -> Result<(), String> {
    let mut imgs = vec![];
    let mut dirs = vec![];
    images(&c.root, "", &mut imgs, &mut dirs);
    o.nontrivial = imgs.iter().any(|(_, t)| count(t) >= 2);
    o.class_if(dirs.iter().any(|d| d.contains(".img")), "directory named like an image");
    o.class_if(imgs.iter().any(|(p, _)| !p.ends_with(".img")), "image named like a directory");
    o.class_if(imgs.iter().any(|(p, _)| p.contains('/')), "nested");
    let a = Pkg1 { text: vec![0; 8], version: 83, encver: true, iv: c.iv, root: c.root.clone(), layout: Layout { order: vec![], gaps: vec![], tail: 0, hole: (0, 0) } };
    let (bytes, _) = a.encode();
    let sc = Scratch::new();
    let path = sc.write("Arc.wz", &bytes);
    let root = WzNode::from_wz_file_full(&path, region_of(c.iv), Some(83), None, None).map_err(|e| format!("open: {e}"))?.into_lock();
    // the tree down to the images, the images themselves unparsed
    root.write().unwrap().parse(&root).map_err(|e| format!("parse: {e}"))?;
    let ask = |when: &str| -> Result<(), String> {
        for (ip, t) in &imgs {
            for q in queries(t, &[]).into_iter().take(60) {
                let full = format!("{ip}/{q}");
                // an empty remainder is the image itself
                match get_image_node_from_path(&root, &full) {
                    Some((n, rest)) => {
                        if n.read().unwrap().name.as_str() != ip.rsplit('/').next().unwrap() || rest != q {
                            return Err(format!("{when}: {full:?} splits into {:?} and {rest:?}", n.read().unwrap().name));
                        }
                    }
                    None => return Err(format!("{when}: {full:?}: the image was not found")),
                }
                judge(get_node_without_parse(&root, &full), find(t, &q), &q).map_err(|e| format!("{when}: {ip}: {e}"))?;
            }
            for absent in [ip.clone(), format!("{ip}x/0"), format!("x{ip}/0"), format!("no/{ip}/0"), format!("/{ip}/0")] {
                let prefix = imgs.iter().any(|(p, _)| absent.starts_with(&format!("{p}/")));
                if !prefix && (get_image_node_from_path(&root, &absent).is_some() || get_node_without_parse(&root, &absent).is_some()) {
                    return Err(format!("{when}: {absent:?} finds something"));
                }
            }
        }
        for d in &dirs {
            for absent in [d.clone(), format!("{d}/no such"), format!("{d}/no such/0")] {
                let prefix = imgs.iter().any(|(p, _)| absent.starts_with(&format!("{p}/")));
                if !prefix && (get_image_node_from_path(&root, &absent).is_some() || get_node_without_parse(&root, &absent).is_some()) {
                    return Err(format!("{when}: {absent:?} finds something"));
                }
            }
        }
        Ok(())
    };
    ask("unparsed")?;
    for (ip, _) in &imgs {
        let n = root.read().unwrap().at_path(ip).ok_or_else(|| format!("{ip} is missing"))?;
        let r = n.read().unwrap();
        if !r.children.is_empty() || r.try_as_image().is_none_or(|i| i.is_parsed) {
            return Err(format!("{ip}: a direct lookup changed the image"));
        }
    }
    // some of the images parsed
    for p in &c.pick {
        if imgs.is_empty() {
            break;
        }
        let n = root.read().unwrap().at_path(&imgs[*p as usize % imgs.len()].0).ok_or("image missing")?;
        n.write().unwrap().parse(&n).map_err(|e| format!("parse image: {e}"))?;
    }
    ask("some parsed")?;
    // in a parsed image it is the node of the tree
    for p in &c.pick {
        let Some((ip, t)) = imgs.get(*p as usize % imgs.len().max(1)) else { break };
        for q in queries(t, &[]).into_iter().take(60) {
            let full = format!("{ip}/{q}");
            let (a, b) = (get_node_without_parse(&root, &full), root.read().unwrap().at_path(&full));
            if let (Some(a), Some(b)) = (a, b) {
                if !std::sync::Arc::ptr_eq(&a, &b) {
                    return Err(format!("{full:?}: the image is parsed, but what is found is not the node in it"));
                }
            }
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C08",
        subs: vec![
            check!("image", "the image holds 3 or more nodes on 2 or more levels", 2000, 60000, strat, image),
            check!("archive", "an image of the archive holds 2 or more nodes", 800, 20000, arch_strat, archive),
        ],
        assumptions: &[
            "sibling names are unique and hold no '/', as in every archive; paths are non-empty inside the image",
            "a link entry is looked up as the entry itself (its stored path); paths that lead through a link are not claimed",
            "images are property images; script and text images have no property list to look a path up in",
        ],
        threads: 8,
    }
}
