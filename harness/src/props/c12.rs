//! C12 canvas links
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::px;
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use wz_reader::property::{get_image, WzPngParseError};
use wz_reader::util::node_util::{resolve_inlink, resolve_outlink};
use wz_reader::util::{resolve_base, walk_node};
use wz_reader::{WzNode, WzNodeArc, WzNodeCast};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Lk {
    None,
    /// to a canvas (of the image for in-links, of the archive for out-links)
    To(u16),
    /// to something that is no canvas
    Other(u8),
    Missing(u8),
    /// below a canvas, but there is nothing
    Below(u16),
    /// stored as a number
    Number(i32),
    /// a text that would name a canvas if it was read in another way than from the root of the image or archive
    Decoy(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Can {
    parent: u8,
    wide: bool,
    px: px::Canvas,
    inl: Lk,
    out: Lk,
    mode: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    iv: [u8; 4],
    /// how the base is built: one archive named Base, one archive with another name, Base with an archive per directory
    shape: u8,
    /// canvases and the image each stands in
    cans: Vec<(u8, Can)>,
    order: Vec<u16>,
    how: u8,
}

const IMGS: [&[&str]; 6] = [&["top.img"], &["Mob", "b.img"], &["Mob", "_Canvas", "b.img"], &["Map", "Back", "c.img"], &["Mob", "Mob.img"], &["Mob", "Base", "d.img"]];
const GROUPS: [&str; 3] = ["", "d", "d/e"];

struct Flat<'a> {
    img: usize,
    /// inside the image
    path: String,
    c: &'a Can,
}

/// canvas paths; parents are groups or canvases listed earlier in the same image
fn flat(c: &Case) -> Vec<Flat<'_>> {
    let mut out: Vec<Flat> = vec![];
    for (n, (img, can)) in c.cans.iter().enumerate() {
        let img = *img as usize % IMGS.len();
        let mut parents: Vec<String> = GROUPS.iter().map(|g| g.to_string()).collect();
        parents.extend(out.iter().filter(|f| f.img == img).map(|f| f.path.clone()));
        let p = &parents[can.parent as usize % parents.len()];
        let name = if can.wide { format!("그림{n}") } else { format!("c{n}") };
        out.push(Flat { img, path: if p.is_empty() { name } else { format!("{p}/{name}") }, c: can });
    }
    out
}
fn img_path(i: usize) -> String {
    IMGS[i].join("/")
}

/// what the link says, and what it names: Ok(canvas), Err(true) = a node that is no canvas, Err(false) = nothing
fn target(f: &[Flat], from: usize, l: &Lk, inner: bool) -> (Option<V>, Result<usize, bool>) {
    let mode = f[from].c.mode;
    let own: Vec<usize> = (0..f.len()).filter(|i| !inner || f[*i].img == f[from].img).collect();
    let full = |i: usize| if inner { f[i].path.clone() } else { format!("{}/{}", img_path(f[i].img), f[i].path) };
    let pre = if inner { String::new() } else { format!("{}/", img_path(f[from].img)) };
    let s = |t: String| Some(V::Str(S(t, mode)));
    match l {
        Lk::None => (None, Err(false)),
        Lk::To(k) => {
            // mostly forwards, so that not everything is a circle
            let later: Vec<usize> = own.iter().copied().filter(|i| *i > from).collect();
            let pick = if k % 4 != 0 && !later.is_empty() { &later } else { &own };
            let t = pick[*k as usize / 4 % pick.len()];
            (s(full(t)), Ok(t))
        }
        Lk::Other(k) => match k % 3 {
            0 => (s(format!("{pre}num")), Err(true)),
            1 => (s(format!("{pre}d/e")), Err(true)),
            _ => (s(format!("{pre}d/e/txt")), Err(true)),
        },
        Lk::Missing(k) => match k % 4 {
            0 => (s(String::new()), Err(false)),
            1 => (s(format!("{pre}gone")), Err(false)),
            2 => (s(format!("{pre}gone/c0")), Err(false)),
            _ => (s("Nowhere/x.img/c".into()), Err(false)),
        },
        Lk::Below(k) => {
            let t = own[*k as usize % own.len()];
            (s(format!("{}/gone", full(t))), Err(false))
        }
        Lk::Number(n) => (Some(V::Int(*n, false, false)), Err(false)),
        Lk::Decoy(k, how) => {
            let t = own[*k as usize % own.len()];
            let here = &f[from].path;
            let dir = here.rsplit_once('/').map_or("", |x| x.0);
            let last = |p: &str| p.rsplit('/').next().unwrap().to_string();
            let cut = |p: &str, pre: &str| p.strip_prefix(pre).map(|x| x.trim_start_matches('/').to_string()).unwrap_or(last(p));
            let whole = format!("{}/{}", img_path(f[t].img), f[t].path);
            let text = match how % 12 {
                0 => cut(&f[t].path, here),
                1 => cut(&f[t].path, dir),
                2 => format!("../{}", cut(&f[t].path, dir)),
                3 if inner => whole,
                3 => f[t].path.clone(),
                4 => format!("/{}", full(t)),
                5 => format!("{}/", full(t)),
                6 => full(t).replace('/', "//"),
                7 => full(t).replace('/', "\\"),
                8 => full(t).to_uppercase(),
                9 if inner => format!("{}/{}", IMGS[f[t].img].last().unwrap(), f[t].path),
                9 => format!("Base/{}", full(t)),
                10 if inner => format!("./{}", full(t)),
                10 => full(t).split_once('/').unwrap().1.to_string(),
                _ => full(t).replace(".img", ""),
            };
            let hit = lookup(f, from, &text, inner);
            (s(text), hit)
        }
    }
}

/// what a path names, from the root of the image or of the archive
fn lookup(f: &[Flat], from: usize, text: &str, inner: bool) -> Result<usize, bool> {
    let nodes = |img: usize| {
        let mut all: HashMap<String, Result<usize, bool>> = ["num", "d", "d/e", "d/e/txt"].iter().map(|p| (p.to_string(), Err(true))).collect();
        for (i, x) in f.iter().enumerate().filter(|x| x.1.img == img) {
            all.insert(x.path.clone(), Ok(i));
            all.insert(format!("{}/origin", x.path), Err(true));
            for (n, l) in [("_inlink", &x.c.inl), ("_outlink", &x.c.out)] {
                if *l != Lk::None {
                    all.insert(format!("{}/{n}", x.path), Err(true));
                }
            }
        }
        all
    };
    if inner {
        return nodes(f[from].img).remove(text).unwrap_or(Err(false));
    }
    for i in 0..IMGS.len() {
        let p = img_path(i);
        if p == text || p.starts_with(&format!("{text}/")) {
            return Err(true);
        }
        if let Some(r) = text.strip_prefix(&format!("{p}/")) {
            return nodes(i).remove(r).unwrap_or(Err(false));
        }
    }
    Err(false)
}

/// the canvas whose pixels are returned
fn resolve(f: &[Flat], i: usize, outlinks: bool, seen: &mut Vec<usize>) -> Result<usize, &'static str> {
    if seen.contains(&i) {
        return Err("links lead back to the canvas");
    }
    seen.push(i);
    for (l, inner) in [(&f[i].c.inl, true), (&f[i].c.out, false)] {
        if !inner && !outlinks {
            continue;
        }
        match target(f, i, l, inner).1 {
            Ok(t) => return resolve(f, t, outlinks, seen),
            Err(true) => return Err("the link names a node that is no canvas"),
            Err(false) => {}
        }
    }
    Ok(i)
}

/// the properties of image `img`
fn tree(f: &[Flat], img: usize, iv: [u8; 4]) -> Vec<(S, V)> {
    fn below(f: &[Flat], img: usize, at: &str, iv: [u8; 4]) -> Vec<(S, V)> {
        let mut out = vec![];
        for (i, c) in f.iter().enumerate() {
            if c.img != img {
                continue;
            }
            let (dir, name) = c.path.rsplit_once('/').unwrap_or(("", &c.path));
            if dir != at {
                continue;
            }
            let mut kids = vec![];
            // links before or after the other children
            let links = [("_inlink", target(f, i, &c.c.inl, true).0), ("_outlink", target(f, i, &c.c.out, false).0)];
            for (n, v) in links {
                if let Some(v) = v {
                    kids.push((S(n.into(), c.c.mode), v));
                }
            }
            if c.c.mode & 1 == 1 {
                kids.reverse();
            }
            kids.extend(below(f, img, &c.path, iv));
            kids.push((S("origin".into(), 0), V::Vector(1, 2)));
            let (f1, f2) = c.c.px.f.parts(c.c.px.split);
            let v = V::Canvas { kids: Some(kids), w: c.c.px.w as i32, h: c.c.px.h as i32, f1, f2, pages: 0, data: c.c.px.stored(iv) };
            out.push((S(name.into(), 0), v));
        }
        match at {
            "" => {
                out.push((S("num".into(), 0), V::Int(5, false, false)));
                out.push((S("d".into(), 0), V::Sub(below(f, img, "d", iv))));
            }
            "d" => out.push((S("e".into(), 0), V::Sub(below(f, img, "d/e", iv)))),
            "d/e" => out.push((S("txt".into(), 0), V::Str(S("d".into(), 0)))),
            _ => {}
        }
        out
    }
    below(f, img, "", iv)
}

fn strat() -> BoxedStrategy<Case> {
    let lk = |w: u32| {
        prop_oneof![
            6 => Just(Lk::None),
            w => any::<u16>().prop_map(Lk::To),
            1 => any::<u8>().prop_map(Lk::Other),
            2 => any::<u8>().prop_map(Lk::Missing),
            1 => any::<u16>().prop_map(Lk::Below),
            1 => any::<i32>().prop_map(Lk::Number),
            4 => (any::<u16>(), any::<u8>()).prop_map(|(k, how)| Lk::Decoy(k, how)),
        ]
    };
    let can = (any::<u8>(), prop::bool::weighted(0.15), px::canvas(false), lk(5), lk(9), any_mode())
        .prop_map(|(parent, wide, px, inl, out, mode)| Can { parent, wide, px, inl, out, mode });
    (
        region_iv(),
        prop_oneof![2 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8), 1 => 3u8..7],
        vec((0u8..6, can), 1..9),
        vec(any::<u16>(), 1..14),
        0u8..4,
    )
        .prop_map(|(iv, shape, cans, order, how)| Case { iv, shape, cans, order, how })
        .boxed()
}

fn e_img(name: &str, t: Vec<(S, V)>) -> E {
    E::Img { name: S(name.into(), 0), body: Body::Prop(t), cks: 7 }
}
fn e_dir(name: &str, kids: Vec<E>) -> E {
    E::Dir { name: S(name.into(), 0), kids, cks: 7 }
}

fn build(c: &Case, f: &[Flat], sc: &Scratch) -> Result<WzNodeArc, String> {
    let t = |i: usize| tree(f, i, c.iv);
    let mob = vec![e_img("b.img", t(1)), e_dir("_Canvas", vec![e_img("b.img", t(2))]), e_img("Mob.img", t(4)), e_dir("Base", vec![e_img("d.img", t(5))])];
    let map = vec![e_dir("Back", vec![e_img("c.img", t(3))])];
    let enc = |root: Vec<E>| {
        let p = Pkg1 {
            text: b"Package file v1.0 Copyright 2002 Wizet, ZMS\0".to_vec(),
            version: 83,
            encver: true,
            iv: c.iv,
            root,
            layout: Layout { order: vec![], gaps: vec![], tail: 0, hole: (0, 0) },
        };
        p.encode().0
    };
    let region = region_of(c.iv);
    if c.shape == 2 {
        sc.write("Mob.wz", &enc(mob));
        sc.write("Map.wz", &enc(map));
        let base = sc.write("Base.wz", &enc(vec![e_img("top.img", t(0)), e_dir("Mob", vec![]), e_dir("Map", vec![])]));
        return resolve_base(&base, region).map_err(|e| format!("resolve_base: {e}"));
    }
    let name = match c.shape {
        0 => "Base.wz",
        3 => "Base2.wz",
        4 => "base.wz",
        5 => "MyBase.wz",
        6 => "Base_000.wz",
        _ => "Data.wz",
    };
    let path = sc.write(name, &enc(vec![e_img("top.img", t(0)), e_dir("Mob", mob), e_dir("Map", map)]));
    let n = WzNode::from_wz_file_full(&path, region, Some(83), None, None).map_err(|e| format!("open: {e}"))?.into_lock();
    n.write().unwrap().parse(&n).map_err(|e| format!("parse: {e}"))?;
    Ok(n)
}

fn judge(f: &[Flat], i: usize, outlinks: bool, got: Result<image::DynamicImage, WzPngParseError>) -> Result<(), String> {
    let p = format!("{}/{} (in {:?}, out {:?})", img_path(f[i].img), f[i].path, f[i].c.inl, f[i].c.out);
    match (resolve(f, i, outlinks, &mut vec![]), got) {
        (Ok(t), Ok(img)) => {
            let c = &f[t].c.px;
            px::cmp_image(&img, c.f, c.w, c.h, &c.pixels()).map_err(|e| format!("{p}: should show {}/{}: {e}", img_path(f[t].img), f[t].path))
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(t), Err(e)) => Err(format!("{p}: should show {}/{}, got error {e}", img_path(f[t].img), f[t].path)),
        (Err(why), Ok(_)) => Err(format!("{p}: gives an image although {why}")),
    }
}

/// what the link texts name, in a tree that needs no more parsing
fn named(f: &[Flat], i: usize, outlinks: bool, n: &WzNodeArc) -> Result<(), String> {
    for (l, inner) in [(&f[i].c.inl, true), (&f[i].c.out, false)] {
        let (Some(V::Str(text)), mut exp) = target(f, i, l, inner) else { continue };
        if !inner && !outlinks {
            exp = Err(false);
        }
        let got = match inner {
            true => vec![("resolve_inlink", resolve_inlink(&text.0, n))],
            false => vec![("resolve_outlink", resolve_outlink(&text.0, n, false)), ("resolve_outlink, parsing", resolve_outlink(&text.0, n, true))],
        };
        for (what, g) in got {
            let path = g.map(|g| g.read().unwrap().get_path_from_root());
            let ok = match (exp, &path) {
                (Ok(t), Some(p)) => *p == format!("{}/{}", img_path(f[t].img), f[t].path),
                (Err(some), p) => some == p.is_some(),
                _ => false,
            };
            if !ok {
                return Err(format!("{what}({:?}) from {}/{}: gives {path:?}", text.0, img_path(f[i].img), f[i].path));
            }
        }
    }
    Ok(())
}

fn links(c: &Case, o: &mut Obs) -> Result<(), String> {
    let f = flat(c);
    let outlinks = matches!(c.shape, 0 | 2);
    let res: Vec<_> = (0..f.len()).map(|i| resolve(&f, i, outlinks, &mut vec![])).collect();
    let hit = |i: usize| matches!(res[i], Ok(t) if t != i);
    o.nontrivial = (0..f.len()).any(hit);
    let to = |l: &Lk| matches!(l, Lk::To(_));
    o.class_if((0..f.len()).any(|i| hit(i) && to(&f[i].c.inl) && to(&f[i].c.out)), "both links");
    o.class_if((0..f.len()).any(|i| hit(i) && !to(&f[i].c.inl) && f[i].c.inl != Lk::None && to(&f[i].c.out)), "unusable in-link, usable out-link");
    o.class_if((0..f.len()).any(|i| matches!(res[i], Ok(t) if f[t].img != f[i].img)), "pixels from another image");
    o.class_if(res.iter().any(|r| *r == Err("links lead back to the canvas")), "links in a circle");
    o.class_if((0..f.len()).any(|i| matches!(f[i].c.out, Lk::To(_)) && matches!(target(&f, i, &f[i].c.out, false).1, Ok(t) if f[t].img == f[i].img && f[t].path.starts_with(&format!("{}/", f[i].path)))), "out-link through the canvas itself");
    o.class_if(f.iter().enumerate().any(|(i, x)| matches!(x.c.inl, Lk::Decoy(..)) && target(&f, i, &x.c.inl, true).1 == Err(false)), "in-link that is only right when read in another way");
    o.class_if(f.iter().enumerate().any(|(i, x)| matches!(x.c.out, Lk::Decoy(..)) && target(&f, i, &x.c.out, false).1 == Err(false)), "out-link that is only right when read in another way");
    o.class_if(c.shape == 2, "an archive per directory");
    o.class_if(!outlinks, "no Base");
    o.class_if(c.how == 1 || c.how == 2, "asked from a walk");

    let sc = Scratch::new();
    let root = build(c, &f, &sc)?;
    match c.how {
        // asked from within a walk that parses and releases every image
        1 | 2 => {
            let at: HashMap<String, usize> = f.iter().enumerate().map(|(i, x)| (format!("{}/{}", img_path(x.img), x.path), i)).collect();
            let seen = RefCell::new(vec![0; f.len()]);
            let bad = RefCell::new(None);
            walk_node(&root, true, &|n: &WzNodeArc| {
                let r = n.read().unwrap();
                if r.try_as_png().is_none() {
                    return;
                }
                let path = r.get_path_from_root();
                // with and without a lock held by the caller
                if c.how == 2 {
                    drop(r);
                }
                let Some(i) = at.get(path.as_str()) else { return };
                seen.borrow_mut()[*i] += 1;
                if let Err(e) = judge(&f, *i, outlinks, get_image(n)) {
                    bad.borrow_mut().get_or_insert(e);
                }
            });
            if let Some(e) = bad.into_inner() {
                return Err(format!("during a walk: {e}"));
            }
            if let Some(i) = seen.borrow().iter().position(|n| *n != 1) {
                return Err(format!("the walk met {}/{} {} times", img_path(f[i].img), f[i].path, seen.borrow()[i]));
            }
            Ok(())
        }
        how => {
            if how == 3 {
                // everything parsed beforehand
                for i in 0..IMGS.len() {
                    let n = root.read().unwrap().at_path(&img_path(i)).ok_or("image missing")?;
                    n.write().unwrap().parse(&n).map_err(|e| format!("parse image: {e}"))?;
                }
            }
            for k in c.order.iter().map(|k| *k as usize % f.len()) {
                let p = format!("{}/{}", img_path(f[k].img), f[k].path);
                let n = root.read().unwrap().at_path_parsed(&p).map_err(|e| format!("{p}: {e}"))?;
                judge(&f, k, outlinks, get_image(&n))?;
                if how == 3 {
                    named(&f, k, outlinks, &n)?;
                }
                let img = root.read().unwrap().at_path(&img_path(f[k].img)).ok_or("image missing")?;
                for other in ["num", "d", "d/e/txt"] {
                    let x = img.read().unwrap().at_path(other).ok_or(format!("{other} missing"))?;
                    if !matches!(get_image(&x), Err(WzPngParseError::NotPngProperty)) {
                        return Err(format!("{other} is no canvas but gives {:?}", get_image(&x).map(|i| (i.width(), i.height()))));
                    }
                }
                if !matches!(get_image(&img), Err(WzPngParseError::NotPngProperty)) {
                    return Err("an image node gives pixels".into());
                }
            }
            Ok(())
        }
    }
}

/// the same inside a stand-alone image: there is no Base
fn alone(c: &Case, o: &mut Obs) -> Result<(), String> {
    let mut c = c.clone();
    for (img, _) in &mut c.cans {
        *img = 0;
    }
    let f = flat(&c);
    o.nontrivial = (0..f.len()).any(|i| matches!(resolve(&f, i, false, &mut vec![]), Ok(t) if t != i));
    let n = parsed("x.img", &encode_image(&tree(&f, 0, c.iv), c.iv), c.how as usize, c.iv)?;
    for k in c.order.iter().map(|k| *k as usize % f.len()) {
        let x = n.read().unwrap().at_path(&f[k].path).ok_or(format!("{} missing", f[k].path))?;
        judge(&f, k, false, get_image(&x))?;
    }
    Ok(())
}

pub fn property() -> Property {
    let _ = IV_GMS;
    Property {
        id: "C12",
        subs: vec![
            check!("archive", "the pixels asked for are those of another canvas", 1500, 60000, strat, links),
            check!("image", "the pixels asked for are those of another canvas", 1500, 60000, strat, alone),
        ],
        assumptions: &[
            "a link that names a node which is no canvas is refused, and so is a circle of links; a link that names nothing or is not text is not usable",
            "canvases are reached through the tree; a node looked up directly in an unparsed image has no parent to resolve a link from",
        ],
        threads: 8,
    }
}
