//! C09 link (UOL) resolution
use crate::check;
use crate::fw::*;
use crate::img::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Arc;
use wz_reader::util::node_util::{get_resolved_uol_path, resolve_childs_parent, resolve_uol};
use wz_reader::{WzNode, WzNodeArc, WzNodeCast, WzObjectType};

// ------------------------------------------------------------------ model

struct N<'a> {
    name: String,
    parent: usize,
    kids: Vec<usize>,
    /// None for the image
    v: Option<&'a V>,
    link: Option<&'a str>,
}

/// nodes in document order, the image first
fn arena(t: &[(S, V)]) -> Vec<N<'_>> {
    fn add<'a>(a: &mut Vec<N<'a>>, parent: usize, level: &[(String, &'a V)]) {
        for (name, v) in level {
            let i = a.len();
            let link = if let V::Uol(s) = v { Some(s.0.as_str()) } else { None };
            a.push(N { name: name.clone(), parent, kids: vec![], v: Some(v), link });
            a[parent].kids.push(i);
            add(a, i, &kids(v));
        }
    }
    let mut a = vec![N { name: "a.img".into(), parent: usize::MAX, kids: vec![], v: None, link: None }];
    let level: Vec<(String, &V)> = t.iter().map(|(n, v)| (n.0.clone(), v)).collect();
    add(&mut a, 0, &level);
    a
}

fn child(a: &[N], i: usize, name: &str) -> Option<usize> {
    a[i].kids.iter().copied().find(|k| a[*k].name == name)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Res {
    /// replaced by this node
    To(usize),
    Stays,
    /// depends on a link further down in the document
    Later,
}

/// Which links stay because their target contains them.
#[derive(Clone, Copy, PartialEq)]
enum Loops {
    Follow,
    /// nodes above the link
    Ancestors,
    /// also nodes above it by way of links resolved before
    All,
}

/// `Some(true)` when node `at` is `target` or inside it, `None` when that depends on a link that
/// is not judged.
fn inside(a: &[N], res: &[Res], at: usize, target: usize, links: bool) -> Option<bool> {
    let mut seen = vec![false; a.len()];
    let mut todo = vec![at];
    while let Some(n) = todo.pop() {
        if n == target {
            return Some(true);
        }
        if std::mem::replace(&mut seen[n], true) {
            continue;
        }
        if a[n].parent != usize::MAX {
            todo.push(a[n].parent);
        }
        if links {
            todo.extend((0..a.len()).filter(|l| a[*l].link.is_some() && res[*l] == Res::To(n)).map(|l| a[l].parent));
        }
    }
    if links && res.contains(&Res::Later) {
        return None;
    }
    Some(false)
}

/// Links in document order; a path may lead through links resolved before.
fn resolve(a: &[N], loops: Loops) -> Vec<Res> {
    let mut res: Vec<Res> = vec![Res::Stays; a.len()];
    let mut done = vec![false; a.len()];
    for i in 0..a.len() {
        let Some(path) = a[i].link else { continue };
        let mut cur = a[i].parent;
        let mut out = None;
        for seg in path.split('/') {
            if seg == ".." {
                if a[cur].parent == usize::MAX {
                    out = Some(Res::Stays);
                    break;
                }
                cur = a[cur].parent;
                continue;
            }
            let Some(k) = child(a, cur, seg) else {
                out = Some(Res::Stays);
                break;
            };
            cur = k;
            if a[k].link.is_some() && k != i {
                if !done[k] || res[k] == Res::Later {
                    out = Some(Res::Later);
                    break;
                }
                if let Res::To(t) = res[k] {
                    cur = t;
                }
            }
        }
        res[i] = match out {
            Some(o) => o,
            None if cur == i => Res::Stays,
            None if loops == Loops::Follow => Res::To(cur),
            None => match inside(a, &res, a[i].parent, cur, loops == Loops::All) {
                Some(true) => Res::Stays,
                Some(false) => Res::To(cur),
                None => Res::Later,
            },
        };
        done[i] = true;
    }
    res
}

fn full_path(a: &[N], mut i: usize) -> String {
    let mut p = a[i].name.clone();
    while a[i].parent != usize::MAX {
        i = a[i].parent;
        p = format!("{}/{p}", a[i].name);
    }
    p
}

// ------------------------------------------------------------------ generator

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Vec<(S, V)>,
    iv: [u8; 4],
}

fn uol_leaf() -> BoxedStrategy<V> {
    prop_oneof![
        3 => scalar(),
        1 => media_leaf(),
        3 => any_mode().prop_map(|m| V::Uol(S(String::new(), m))),
    ]
    .boxed()
}

/// path text from node `from` to node `to`
fn rel(a: &[N], from: usize, to: usize, extra: u16) -> String {
    let chain = |mut i: usize| {
        let mut c = vec![i];
        while a[i].parent != usize::MAX {
            i = a[i].parent;
            c.push(i);
        }
        c.reverse();
        c
    };
    let (f, t) = (chain(from), chain(to));
    let mut common = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
    // sometimes go further up than needed
    common -= (extra as usize % 4).saturating_sub(1).min(common - 1);
    let mut segs: Vec<String> = vec!["..".into(); f.len() - common];
    segs.extend(t[common..].iter().map(|i| a[*i].name.clone()));
    segs.join("/")
}

fn set_links(t: &mut [(S, V)], texts: &mut std::vec::IntoIter<String>) {
    for (_, v) in t {
        match v {
            V::Uol(s) => s.0 = texts.next().unwrap(),
            V::Sub(l) => set_links(l, texts),
            V::Canvas { kids: Some(l), .. } | V::Raw { kids: Some(l), .. } => set_links(l, texts),
            V::Convex(l) => {
                for v in l {
                    if let V::Uol(s) = v {
                        s.0 = texts.next().unwrap();
                    }
                }
            }
            _ => {}
        }
    }
}

/// Give every link of the tree a path.
fn aim(mut t: Vec<(S, V)>, picks: &[(u8, u16, u16)]) -> Vec<(S, V)> {
    let texts: Vec<String> = {
        let a = arena(&t);
        let plain: Vec<usize> = (1..a.len()).filter(|i| a[*i].link.is_none()).collect();
        let mut n = 0;
        (0..a.len())
            .filter(|i| a[*i].link.is_some())
            .map(|i| {
                let (how, x, y) = picks[n % picks.len()];
                let x = x.wrapping_add((n / picks.len()) as u16 * 7);
                n += 1;
                let any = |x: u16| x as usize % a.len();
                let p = a[i].parent;
                match how % 12 {
                    0..=4 if !plain.is_empty() => rel(&a, p, plain[x as usize % plain.len()], y),
                    5..=6 => rel(&a, p, any(x), y),
                    7 => format!("{}/..", rel(&a, p, any(x), y)),
                    8 => format!("{}/{}", rel(&a, p, any(x), 0), a[any(y)].name),
                    9 => format!("{}x", rel(&a, p, any(x), y)),
                    10 => (0..x % 8).map(|k| if (y >> k) & 1 == 0 { "..".to_string() } else { a[any(x.wrapping_add(k))].name.clone() }).collect::<Vec<_>>().join("/"),
                    _ => format!("../{}", rel(&a, p, any(x), y)),
                }
            })
            .collect()
    };
    set_links(&mut t, &mut texts.into_iter());
    t
}

fn tree() -> BoxedStrategy<Vec<(S, V)>> {
    let convex_links = vec(prop_oneof![(0i32..9).prop_map(|x| V::Vector(x, x)), any_mode().prop_map(|m| V::Uol(S(String::new(), m)))], 1..4).prop_map(V::Convex);
    (
        prop_oneof![
            3 => tree_with(uol_leaf(), 4, 30),
            1 => tree_with(prop_oneof![8 => uol_leaf(), 1 => convex_links].boxed(), 6, 40),
            1 => deep_tree(uol_leaf(), 20..=120),
        ],
        vec((any::<u8>(), any::<u16>(), any::<u16>()), 1..12),
    )
        .prop_map(|(t, picks)| aim(t, &picks))
        .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    (tree(), region_iv()).prop_map(|(tree, iv)| Case { tree, iv }).boxed()
}

// ------------------------------------------------------------------ comparison

fn classify(a: &[N], r: &[Res], o: &mut Obs) {
    let free = resolve(a, Loops::Follow);
    let near = resolve(a, Loops::Ancestors);
    o.class_if((0..a.len()).any(|i| a[i].link.is_some() && r[i] == Res::Stays && free[i] != Res::Stays && near[i] == Res::Stays), "link to a node above it");
    o.class_if((0..a.len()).any(|i| a[i].link.is_some() && r[i] == Res::Stays && matches!(near[i], Res::To(_))), "links that lead into each other");
    let hits = r.iter().filter(|r| matches!(r, Res::To(_))).count();
    o.nontrivial = hits > 0;
    o.class_if(hits >= 3, "3+ links resolve");
    o.class_if(r.iter().enumerate().any(|(i, r)| a[i].link.is_some() && *r == Res::Stays), "dangling link");
    o.class_if(r.iter().any(|r| *r == Res::Later), "order-dependent link (not judged)");
    o.class_if(r.iter().enumerate().any(|(i, r)| matches!(r, Res::To(t) if a[*t].parent == 0 && a[i].parent == 0)), "link and target directly in the image");
    o.class_if(r.iter().enumerate().any(|(i, r)| matches!(r, Res::To(t) if a[*t].parent == 0 && a[i].parent != 0)), "target directly in the image");
    o.class_if(r.iter().any(|r| matches!(r, Res::To(t) if a[*t].link.is_some())), "link to a dangling link");
    o.class_if((0..a.len()).any(|i| matches!(r[i], Res::To(_)) && matches!(a[a[i].parent].v, Some(V::Canvas { .. }))), "link in a canvas");
    o.class_if((0..a.len()).any(|i| matches!(r[i], Res::To(_)) && matches!(a[a[i].parent].v, Some(V::Raw { .. }))), "link in raw data");
    o.class_if((0..a.len()).any(|i| matches!(r[i], Res::To(_)) && matches!(a[a[i].parent].v, Some(V::Convex(_)))), "link in a convex");
}

/// Check the whole tree; nodes are reached over entries that are no links.
fn verify(image: &WzNodeArc, a: &[N], r: &[Res]) -> Result<(), String> {
    // the node at each non-link place
    let mut at: Vec<Option<WzNodeArc>> = vec![None; a.len()];
    at[0] = Some(image.clone());
    for i in 0..a.len() {
        let Some(n) = at[i].clone() else { continue };
        let p = full_path(a, i);
        let rd = n.read().unwrap();
        if rd.children.len() != a[i].kids.len() {
            return Err(format!("{p}: {} children, expected {}", rd.children.len(), a[i].kids.len()));
        }
        for &k in &a[i].kids {
            let c = rd.at(&a[k].name).ok_or_else(|| format!("{p}: child {:?} is missing", a[k].name))?;
            if a[k].link.is_none() {
                let cr = c.read().unwrap();
                if cr.name.as_str() != a[k].name {
                    return Err(format!("{p}: the node under {:?} is named {:?}", a[k].name, cr.name));
                }
                if !cr.parent.upgrade().is_some_and(|x| Arc::ptr_eq(&x, &n)) {
                    return Err(format!("{p}: parent of {:?} is another node", a[k].name));
                }
                let (v, empty) = (a[k].v.unwrap(), WzNode::empty());
                drop(cr);
                // the value alone; children follow in their turn
                same_value(&c, v, &format!("{p}/{}", a[k].name))?;
                let _ = empty;
                at[k] = Some(c);
            } else if r[k] == Res::Stays {
                same_value(&c, a[k].v.unwrap(), &format!("{p}/{} (dangling link)", a[k].name))?;
                if c.read().unwrap().name.as_str() != a[k].name {
                    return Err(format!("{p}: dangling link {:?} is named {:?}", a[k].name, c.read().unwrap().name));
                }
                at[k] = Some(c);
            }
        }
    }
    for i in 0..a.len() {
        let Res::To(t) = r[i] else { continue };
        if a[i].link.is_none() {
            continue;
        }
        let parent = at[a[i].parent].as_ref().ok_or("HARNESS-ERROR link without parent")?;
        let got = parent.read().unwrap().at(&a[i].name).unwrap();
        let want = at[t].as_ref().ok_or("HARNESS-ERROR link to nothing")?;
        if !Arc::ptr_eq(&got, want) {
            let g = got.read().unwrap();
            let what = match g.try_as_uol() {
                Some(_) => "still the link".to_string(),
                None => format!("the node {:?}", g.name),
            };
            return Err(format!("link {} -> {:?} should be the node {}, it is {what}", full_path(a, i), a[i].link.unwrap(), full_path(a, t)));
        }
    }
    Ok(())
}

/// kind and value of one node, without its children
fn same_value(n: &WzNodeArc, v: &V, p: &str) -> Result<(), String> {
    let bare = match v {
        V::Sub(_) => V::Sub(vec![]),
        V::Convex(_) => V::Convex(vec![]),
        V::Canvas { w, h, f1, f2, pages, data, .. } => V::Canvas { kids: None, w: *w, h: *h, f1: *f1, f2: *f2, pages: *pages, data: data.clone() },
        V::Raw { ver, data, .. } => V::Raw { ver: *ver, kids: None, data: data.clone() },
        v => v.clone(),
    };
    // cmp_value also compares children: show it a childless copy
    let copy = {
        let r = n.read().unwrap();
        WzNode::new(&r.name, r.object_type.clone(), None).into_lock()
    };
    cmp_value(&copy, &bare, p, false)
}

/// A cycle of links would keep the whole tree alive.
fn release(n: &WzNodeArc) {
    let Ok(mut w) = n.try_write() else { return };
    let kids: Vec<WzNodeArc> = w.children.values().cloned().collect();
    w.children.clear();
    drop(w);
    for k in kids {
        release(&k);
    }
}

/// No node is below itself.
pub fn ends(n: &WzNodeArc) -> Result<(), String> {
    fn go(n: &WzNodeArc, state: &mut HashMap<*const crate::RwLock<WzNode>, bool>) -> Result<(), String> {
        match state.get(&Arc::as_ptr(n)) {
            Some(true) => return Ok(()),
            Some(false) => return Err(format!("{} is below itself", n.read().unwrap().get_full_path())),
            None => {}
        }
        state.insert(Arc::as_ptr(n), false);
        let kids: Vec<WzNodeArc> = n.read().unwrap().children.values().cloned().collect();
        for k in &kids {
            go(k, state)?;
        }
        state.insert(Arc::as_ptr(n), true);
        Ok(())
    }
    go(n, &mut HashMap::new())
}

fn on_parse(c: &Case, o: &mut Obs) -> Result<(), String> {
    let a = arena(&c.tree);
    let r = resolve(&a, Loops::All);
    classify(&a, &r, o);
    let n = parsed("a.img", &encode_image(&c.tree, c.iv), 0, c.iv)?;
    let out = verify(&n, &a, &r).and_then(|_| ends(&n));
    release(&n);
    out
}

/// The same through resolve_children and resolve_uol, the image below a directory.
fn by_hand(c: &Case, o: &mut Obs) -> Result<(), String> {
    let a = arena(&c.tree);
    let r = resolve(&a, Loops::Ancestors);
    classify(&a, &r, o);
    let n = image_node("a.img", &encode_image(&c.tree, c.iv), 0, c.iv);
    let (kids, uols) = {
        let rd = n.read().unwrap();
        rd.try_as_image().unwrap().resolve_children(Some(&n)).map_err(|e| format!("resolve_children: {e}"))?
    };
    {
        let mut w = n.write().unwrap();
        for (k, v) in kids {
            w.children.insert(k, v);
        }
    }
    resolve_childs_parent(&n);
    let want = a.iter().filter(|n| n.link.is_some()).count();
    if uols.len() != want {
        return Err(format!("{} links reported, the image has {want}", uols.len()));
    }
    for u in &uols {
        resolve_uol(u, None);
    }
    let out = verify(&n, &a, &r);
    release(&n);
    out
}

/// The textual resolution names the same place as the resolved node.
fn text(c: &Case, o: &mut Obs) -> Result<(), String> {
    let a = arena(&c.tree);
    let r = resolve(&a, Loops::Follow);
    classify(&a, &r, o);
    for i in 0..a.len() {
        let (Some(link), Res::To(t)) = (a[i].link, r[i]) else { continue };
        // a path that leads through another link names it by another path
        let segs: Vec<&str> = link.split('/').collect();
        let mut cur = a[i].parent;
        let mut through = false;
        for s in &segs {
            cur = if *s == ".." { a[cur].parent } else { child(&a, cur, s).unwrap() };
            if a[cur].link.is_some() {
                through = true;
                break;
            }
        }
        // '.' is the node itself, whatever a node is called
        if through || segs.contains(&".") {
            continue;
        }
        let got = get_resolved_uol_path(&full_path(&a, i), link);
        if got != full_path(&a, t) {
            return Err(format!("path {:?} link {link:?}: {got:?} instead of {:?}", full_path(&a, i), full_path(&a, t)));
        }
        // the same from the image, where the image has no name
        let below = |i: usize| full_path(&a, i).split_once('/').map_or(String::new(), |x| x.1.to_string());
        let got = get_resolved_uol_path(&below(i), link);
        if got != below(t) {
            return Err(format!("path {:?} link {link:?}: {got:?} instead of {:?}", below(i), below(t)));
        }
        let dotted = segs.iter().flat_map(|s| [".", s]).collect::<Vec<_>>().join("/");
        let got = get_resolved_uol_path(&full_path(&a, i), &dotted);
        if got != full_path(&a, t) && !full_path(&a, t).split('/').any(|s| s == ".") {
            return Err(format!("path {:?} link {dotted:?}: {got:?} instead of {:?}", full_path(&a, i), full_path(&a, t)));
        }
    }
    Ok(())
}

pub fn property() -> Property {
    let rule = "at least one link resolves to a node of the image";
    let _ = WzObjectType::Value(wz_reader::property::WzValue::Null);
    Property {
        id: "C09",
        subs: vec![
            check!("parse", rule, 3000, 100000, strat, on_parse),
            check!("by_hand", rule, 1500, 50000, strat, by_hand),
            check!("text", rule, 1500, 30000, strat, text),
        ],
        assumptions: &[
            "sibling names are unique and none is '..'",
            "a link to a node it is inside of, directly or by way of links before it, stays a link: replaced, walking the tree would never end; resolve_uol alone only sees the nodes above the link",
            "links are resolved in document order; a path that leads through, or ends at, a link further down in the document is generated but not judged",
        ],
        threads: 8,
    }
}
