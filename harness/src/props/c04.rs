//! C04 image property tree decode fidelity
use crate::check;
use crate::fw::*;
use crate::img::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use wz_reader::WzNodeCast;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Vec<(S, V)>,
    iv: [u8; 4],
    offset: usize,
    tail: Vec<u8>,
}

fn strat() -> BoxedStrategy<Case> {
    (any_tree(), any_iv(), prop_oneof![Just(0usize), 1usize..200, Just(4096usize)], blob(64))
        .prop_map(|(tree, iv, offset, tail)| Case { tree, iv, offset, tail })
        .boxed()
}

fn classify(c: &Case, o: &mut Obs) {
    let n = count(&c.tree);
    o.nontrivial = n >= 3;
    o.class_if(n >= 20, "20+ nodes");
    o.class_if(depth(&c.tree) >= 4, "depth 4+");
    o.class_if(depth(&c.tree) > 64, "depth 65+");
    o.class_if(depth(&c.tree) > 120, "depth 121+");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Video(d) | V::Raw { data: d, .. } | V::Sound { data: d, .. } if d.len() > 65000)), "block over 64 KiB");
    o.class_if(c.tree.len() > 127, "100+ siblings");
    o.class_if(has(&c.tree, &|s, _| s.1 & 4 != 0), "name by reference");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Str(s) if s.1 & 4 != 0)), "value by reference");
    o.class_if(has(&c.tree, &|s, _| !s.0.is_ascii()), "unicode name");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Canvas { kids: Some(k), .. } if !k.is_empty())), "canvas with children");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Raw { .. })), "raw data");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Sound { .. })), "sound");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Video(_))), "video");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Convex(k) if !k.is_empty())), "convex");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Convex(k) if k.len() > 100)), "convex of 100+");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Unknown(..))), "unknown extended");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Uol(_))), "uol");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Str(s) if s.0.len() > 127)), "long string");
}

fn buf(c: &Case) -> Vec<u8> {
    let mut bytes = encode_image(&c.tree, c.iv);
    bytes.extend_from_slice(&c.tail);
    bytes
}

fn tree(c: &Case, o: &mut Obs) -> Result<(), String> {
    classify(c, o);
    let n = parsed("a.img", &buf(c), c.offset, c.iv)?;
    cmp_list(&n, &c.tree, "", true)
}

fn ordered(c: &Case, o: &mut Obs) -> Result<(), String> {
    classify(c, o);
    let n = image_node("a.img", &buf(c), c.offset, c.iv);
    let r = n.read().unwrap();
    let img = r.try_as_image().ok_or("not image")?;
    let (kids, uols) = img.resolve_children(None).map_err(|e| format!("resolve_children: {e}"))?;
    let got: Vec<String> = kids.iter().map(|(n, _)| n.to_string()).collect();
    let want: Vec<String> = c.tree.iter().map(|(n, _)| n.0.clone()).collect();
    if got != want {
        return Err(format!("child order: expected {want:?}, got {got:?}"));
    }
    for ((n, node), (s, v)) in kids.iter().zip(&c.tree) {
        if node.read().unwrap().name.as_str() != n.as_str() {
            return Err("name of entry and of node differ".into());
        }
        cmp_value(node, v, &s.0, false)?;
    }
    // every UOL of the tree is reported once, in document order
    fn uol_list(l: &[(S, V)], out: &mut Vec<String>) {
        for (n, v) in l {
            match v {
                V::Uol(_) => out.push(n.0.clone()),
                V::Sub(k) => uol_list(k, out),
                V::Canvas { kids: Some(k), .. } | V::Raw { kids: Some(k), .. } => uol_list(k, out),
                _ => {}
            }
        }
    }
    let mut want = vec![];
    uol_list(&c.tree, &mut want);
    let got: Vec<String> = uols.iter().map(|n| n.read().unwrap().name.to_string()).collect();
    if got != want {
        return Err(format!("reported UOL nodes: expected {want:?}, got {got:?}"));
    }
    Ok(())
}

/// A property list cut anywhere before its end must be refused, not half-read.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cut {
    tree: Vec<(S, V)>,
    iv: [u8; 4],
    at: u16,
}
fn cut_strat() -> BoxedStrategy<Cut> {
    // inline strings only: the end of the last property is then the end of the image
    (tree_with(scalar(), 2, 12), any_iv(), any::<u16>())
        .prop_map(|(tree, iv, at)| {
            // a number comes last: string bodies are only located, but this one has to be read
            let mut tree: Vec<(S, V)> = tree.into_iter().map(strip_ref).collect();
            tree.push((S("~end".into(), 0), V::Int(at as i32, false, false)));
            Cut { tree, iv, at }
        })
        .boxed()
}
fn strip_ref((n, v): (S, V)) -> (S, V) {
    let fix = |s: S| S(s.0, s.1 & !4);
    let v = match v {
        V::Str(s) => V::Str(fix(s)),
        V::Uol(s) => V::Uol(fix(s)),
        V::Sub(l) => V::Sub(l.into_iter().map(strip_ref).collect()),
        // blocks that only record the position of their payload are left out of the cut domain
        V::Canvas { kids, .. } | V::Raw { kids, .. } => V::Sub(kids.unwrap_or_default().into_iter().map(strip_ref).collect()),
        V::Convex(_) => V::Null,
        v => v,
    };
    (fix(n), v)
}
fn cut(c: &Cut, o: &mut Obs) -> Result<(), String> {
    let full = encode_image(&c.tree, c.iv);
    let limit = full.len();
    let at = 1 + (c.at as usize) % (limit - 1);
    o.nontrivial = at > 14;
    let n = image_node("a.img", &full[..at], 0, c.iv);
    let r = n.write().unwrap().parse(&n);
    if r.is_ok() {
        return Err(format!("image cut at {at} of {} parsed without error", full.len()));
    }
    Ok(())
}

// ------------------------------------------------------------------ images of up to 2 GiB

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    tree: Vec<(S, V)>,
    iv: [u8; 4],
    nth: usize,
    hole: u32,
    base: usize,
}
fn huge_strat() -> BoxedStrategy<Huge> {
    let hole = prop_oneof![
        2 => 0xfe00u32..0x1_0100,
        2 => 0x00ff_ff00u32..0x0100_0100,
        3 => 0x0001_0000u32..0x0200_0000,
        3 => 0x0200_0000u32..0x7ff0_0000,
    ];
    (tree_with(full_leaf(Uols::Dangling), 4, 40), any_iv(), 0usize..8, hole, prop_oneof![2 => Just(0usize), 1 => 40usize..2000])
        .prop_map(|(tree, iv, nth, hole, base)| Huge { tree, iv, nth, hole, base })
        .boxed()
}
fn huge(c: &Huge, o: &mut Obs) -> Result<(), String> {
    let Some(mut h) = (0..=c.nth).rev().find_map(|n| encode_image_holed(&c.tree, c.iv, n, c.hole as usize)) else {
        return Ok(());
    };
    let len = h.len();
    if c.base > 0 {
        // another image before it
        let mut first = encode_image(&[], c.iv);
        first.resize(c.base, 0x11);
        h.bytes.splice(0..0, first);
        h.at += c.base;
    }
    o.nontrivial = h.bytes.len() > h.at;
    o.class_if(c.hole > 1 << 24, "beyond 16 MiB");
    o.class_if(c.hole > 1 << 30, "beyond 1 GiB");
    o.class_if(has(&c.tree, &|s, _| s.1 & 4 != 0), "name by reference");
    let _one = super::c01::HUGE.lock().unwrap_or_else(|e| e.into_inner());
    let sc = Scratch::new();
    let path = sc.0.join("a.img");
    h.write(&path).map_err(|e| format!("HARNESS-ERROR {e}"))?;
    let img = wz_reader::WzImage::from_file(&path, Some(c.iv)).map_err(|e| format!("from_file: {e}"))?;
    let img = if c.base == 0 { img } else { wz_reader::WzImage::new(&"a.img".into(), c.base, len, &img.reader) };
    let n = wz_reader::WzNode::new(&"a.img".into(), img, None).into_lock();
    n.write().unwrap().parse(&n).map_err(|e| format!("parse: {e}"))?;
    cmp_list(&n, &c.tree, "", true)
}

/// very long names, values and targets
fn long_strat() -> BoxedStrategy<Case> {
    let one = (long_text(), any_mode(), any_name(), 0u8..4, any::<u8>(), any::<bool>());
    (tree_with(full_leaf(Uols::Dangling), 3, 8), proptest::collection::vec(one, 1..4), any_iv(), 0usize..60)
        .prop_map(|(mut tree, l, iv, offset)| {
            for (t, mode, name, kind, at, twice) in l {
                let long = S(t, mode);
                let e = match kind {
                    0 | 1 => (name, V::Str(long.clone())),
                    2 => (name, V::Unknown(long.0.chars().take(300).collect(), vec![1, 2])),
                    _ => (long.clone(), V::Sub(vec![(name, V::Str(S("v".into(), 0)))])),
                };
                tree.insert(at as usize % (tree.len() + 1), e);
                if twice {
                    // once more, as a reference to the first
                    tree.push((S("again".into(), 0), V::Str(S(long.0, long.1 | 4))));
                }
            }
            Case { tree: dedup(tree), iv, offset, tail: vec![] }
        })
        .boxed()
}
fn long(c: &Case, o: &mut Obs) -> Result<(), String> {
    o.class_if(has(&c.tree, &|s, _| s.0.chars().count() > 65535), "name over 65535 characters");
    o.class_if(has(&c.tree, &|_, v| matches!(v, V::Str(s) if s.0.chars().count() > 65535)), "value over 65535 characters");
    tree(c, o)
}

pub fn property() -> Property {
    Property {
        id: "C04",
        threads: 8,
        assumptions: &["AES-256 block cipher of the aes crate", "images are well formed: sibling names unique, string offsets inside the image"],
        subs: vec![
            check!("tree", "random property trees written by an independent encoder, parsed, every node compared; non-trivial: 3+ nodes", 6000, 120000, strat, tree),
            check!("ordered", "same trees, order of resolve_children and the list of UOL nodes; non-trivial: 3+ nodes", 3000, 40000, strat, ordered),
            check!("cut", "image truncated at a random point must be rejected; non-trivial: cut after the image header", 4000, 40000, cut_strat, cut),
            check!("long", "trees with names and values of up to a million characters; non-trivial: 3+ nodes", 300, 6000, long_strat, long),
            check!("huge", "sparse images of up to 2 GiB: a hole ends one of the blocks, everything after it (strings written before or after it, payloads) is compared; non-trivial: the image goes on after the hole", 1500, 30000, huge_strat, huge),
        ],
    }
}
