//! C11 parse / unparse / walk histories
use super::c03;
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, RwLock, Weak};
use wz_reader::{WzNode, WzNodeArc, WzNodeCast, WzObjectType};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Parse(u16),
    Unparse(u16),
    /// path of an entry, and how far into an image
    PathParsed(u16, u16),
    WalkForced(u16),
    Walk(u16),
    /// keep a handle to it
    Hold(u16),
}

fn ops() -> BoxedStrategy<Vec<Op>> {
    let i = || prop_oneof![1 => Just(0u16), 5 => any::<u16>()];
    vec(
        prop_oneof![
            6 => i().prop_map(Op::Parse),
            6 => i().prop_map(Op::Unparse),
            3 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Op::PathParsed(a, b)),
            2 => i().prop_map(Op::WalkForced),
            1 => i().prop_map(Op::Walk),
            2 => i().prop_map(Op::Hold),
        ],
        1..20,
    )
    .boxed()
}

// ------------------------------------------------------------------ model

/// One appearance of a stored entry as a node.
struct Inst<'a> {
    entry: Ent<'a>,
    /// directories: what is shown below; images: Some(empty) when parsed
    kids: Vec<usize>,
    shown: bool,
    held: Option<WzNodeArc>,
    /// the node it was last seen as
    node: RefCell<Option<Weak<RwLock<WzNode>>>>,
}

#[derive(Clone, Copy)]
enum Ent<'a> {
    Root(&'a [Laid]),
    E(&'a Laid),
}

struct M<'a> {
    n: Vec<Inst<'a>>,
    /// where the images lie that can't be read
    bad: HashSet<usize>,
}

impl<'a> M<'a> {
    fn spawn(&mut self, e: Ent<'a>) -> usize {
        self.n.push(Inst { entry: e, kids: vec![], shown: false, held: None, node: Default::default() });
        self.n.len() - 1
    }
    fn stored(&self, i: usize) -> Option<&'a [Laid]> {
        match self.n[i].entry {
            Ent::Root(l) => Some(l),
            Ent::E(Laid::Dir { kids, .. }) => Some(kids),
            _ => None,
        }
    }
    fn is_bad(&self, i: usize) -> bool {
        matches!(self.n[i].entry, Ent::E(Laid::Img { offset, .. }) if self.bad.contains(offset))
    }
    /// does it succeed?
    fn parse(&mut self, i: usize) -> bool {
        if self.n[i].shown {
            return true;
        }
        if self.is_bad(i) {
            return false;
        }
        self.n[i].shown = true;
        if let Some(l) = self.stored(i) {
            let kids: Vec<usize> = l.iter().map(|e| self.spawn(Ent::E(e))).collect();
            self.n[i].kids = kids.clone();
            // directories come with their own content
            for k in kids {
                if self.stored(k).is_some() {
                    self.parse(k);
                }
            }
        }
        true
    }
    fn unparse(&mut self, i: usize) {
        self.n[i].shown = false;
        self.n[i].kids.clear();
    }
    fn name(&self, i: usize) -> &'a str {
        match self.n[i].entry {
            Ent::Root(_) => "Arc",
            Ent::E(l) => laid_name(l),
        }
    }
    fn walk_forced(&mut self, i: usize) {
        self.parse(i);
        for k in self.n[i].kids.clone() {
            self.walk_forced(k);
        }
        if self.stored(i).is_none() {
            self.n[i].shown = false;
        }
    }
    /// attached instances with their paths from the root, then held ones
    fn targets(&self) -> Vec<usize> {
        let mut out = vec![];
        let mut st = vec![0];
        while let Some(i) = st.pop() {
            out.push(i);
            st.extend(self.n[i].kids.iter().rev());
        }
        for i in 0..self.n.len() {
            if self.n[i].held.is_some() && !out.contains(&i) {
                out.push(i);
            }
        }
        out
    }
    fn parent_of(&self, i: usize) -> Option<usize> {
        (0..self.n.len()).find(|p| self.n[*p].kids.contains(&i))
    }
    /// node paths below `i` in the order parents-first, as a walk may show them
    fn expect(&self, i: usize, at: &str, forced: bool, out: &mut Vec<String>) {
        out.push(at.to_string());
        match (self.n[i].entry, self.stored(i)) {
            (_, Some(_)) => {
                for k in &self.n[i].kids {
                    self.expect(*k, &format!("{at}/{}", self.name(*k)), forced, out);
                }
            }
            (Ent::E(Laid::Img { body, .. }), _) if (forced && !self.is_bad(i)) || self.n[i].shown => body_paths(body, at, out),
            _ => {}
        }
    }
}

fn body_paths(b: &Body, at: &str, out: &mut Vec<String>) {
    fn rec(level: &[(String, &V)], at: &str, out: &mut Vec<String>) {
        for (n, v) in level {
            let p = format!("{at}/{n}");
            out.push(p.clone());
            rec(&kids(v), &p, out);
        }
    }
    match b {
        Body::Prop(t) => rec(&t.iter().map(|(n, v)| (n.0.clone(), v)).collect::<Vec<_>>(), at, out),
        Body::Lua(_) => out.push(format!("{at}/Script")),
        Body::Packed(_) => out.push(format!("{at}/text.txt")),
    }
}

fn compare(m: &M, i: usize, n: &WzNodeArc, p: &str) -> Result<(), String> {
    let r = n.read().unwrap();
    if let Some(h) = &m.n[i].held {
        if !Arc::ptr_eq(h, n) {
            return Err(format!("{p}: replaced by another node"));
        }
    }
    {
        // as long as nothing above is released, it stays the node it is
        let mut w = m.n[i].node.borrow_mut();
        if w.as_ref().is_some_and(|w| !w.ptr_eq(&Arc::downgrade(n))) {
            return Err(format!("{p}: replaced by another node"));
        }
        *w = Some(Arc::downgrade(n));
    }
    if r.name.as_str() != m.name(i) {
        return Err(format!("{p}: named {:?}", r.name));
    }
    match m.n[i].entry {
        Ent::E(Laid::Img { body, .. }) => {
            // those of .ms archives are of a kind of their own until parsed
            let parsed = match &r.object_type {
                WzObjectType::MsImage(_) => false,
                _ => r.try_as_image().ok_or_else(|| format!("{p}: not an image"))?.is_parsed,
            };
            if parsed != m.n[i].shown {
                return Err(format!("{p}: parsed flag is {parsed}, expected {}", m.n[i].shown));
            }
            if m.n[i].shown {
                cmp_body(n, body, p)
            } else if r.children.is_empty() {
                Ok(())
            } else {
                Err(format!("{p}: released, but shows {} children", r.children.len()))
            }
        }
        Ent::E(Laid::Dir { .. }) | Ent::Root(_) => {
            let parsed = match &r.object_type {
                WzObjectType::Directory(d) => d.is_parsed,
                WzObjectType::File(f) => f.is_parsed,
                WzObjectType::MsFile(f) => f.is_parsed,
                _ => return Err(format!("{p}: neither a directory nor an archive")),
            };
            if parsed != m.n[i].shown {
                return Err(format!("{p}: parsed flag is {parsed}, expected {}", m.n[i].shown));
            }
            if r.children.len() != m.n[i].kids.len() {
                return Err(format!("{p}: {} children, expected {}", r.children.len(), m.n[i].kids.len()));
            }
            for &k in &m.n[i].kids {
                let c = r.at(m.name(k)).ok_or_else(|| format!("{p}: {:?} is missing", m.name(k)))?;
                if !c.read().unwrap().parent.upgrade().is_some_and(|x| Arc::ptr_eq(&x, n)) {
                    return Err(format!("{p}: parent of {:?} is not this node", m.name(k)));
                }
                compare(m, k, &c, &format!("{p}/{}", m.name(k)))?;
            }
            Ok(())
        }
    }
}

fn run(root: &WzNodeArc, laid: &[Laid], bad: HashSet<usize>, ops: &[Op], o: &mut Obs) -> Result<(), String> {
    let mut m = M { n: vec![], bad };
    m.spawn(Ent::Root(laid));
    let mut released = 0;
    let mut last: Option<usize> = None;
    let mut again = 0;
    let mut refused = 0;
    let mut ever: HashMap<String, bool> = HashMap::new();
    for (step, op) in ops.iter().enumerate() {
        let t = m.targets();
        let (Op::Parse(x) | Op::Unparse(x) | Op::PathParsed(x, _) | Op::WalkForced(x) | Op::Walk(x) | Op::Hold(x)) = op;
        // often the entry of the step before, or something in it
        let i = match last.filter(|l| x % 4 < 2 && t.contains(l)) {
            Some(l) if x % 4 == 0 || m.n[l].kids.is_empty() => l,
            Some(l) => m.n[l].kids[*x as usize / 4 % m.n[l].kids.len()],
            None => t[*x as usize % t.len()],
        };
        last = Some(i);
        // the real node: by its names from the root, or from the nearest handle
        let mut names = vec![];
        let mut c = i;
        let start = loop {
            if let Some(h) = &m.n[c].held {
                break h.clone();
            }
            match m.parent_of(c) {
                Some(p) => {
                    names.push(m.name(c));
                    c = p;
                }
                None => break root.clone(),
            }
        };
        let mut node = start;
        for s in names.iter().rev() {
            let nx = node.read().unwrap().at(s).ok_or_else(|| format!("step {step}: {s:?} is missing"))?;
            node = nx;
        }
        let what = format!("step {step} {op:?}");
        match op {
            Op::Parse(_) => {
                let full = node.read().unwrap().get_full_path();
                if !m.n[i].shown && ever.get(&full) == Some(&true) {
                    again += 1;
                }
                let got = node.write().unwrap().parse(&node);
                if !m.parse(i) {
                    o.class_if(ever.get(&full) == Some(&false), "failed parse tried again");
                    if got.is_ok() {
                        return Err(format!("{what} on {:?}: Ok, but it can't be read", m.name(i)));
                    }
                    refused += 1;
                    ever.insert(full, false);
                } else {
                    got.map_err(|e| format!("{what} on {:?}: {e}", m.name(i)))?;
                    ever.insert(full, true);
                }
            }
            Op::Unparse(_) if i == 0 && matches!(node.read().unwrap().object_type, WzObjectType::MsFile(_)) => {
                // these do not release what they hold; either way it must be all or nothing
                node.write().unwrap().unparse();
                let r = node.read().unwrap();
                if let WzObjectType::MsFile(f) = &r.object_type {
                    if !f.is_parsed {
                        released += usize::from(m.n[i].shown);
                        m.unparse(i);
                    }
                }
            }
            Op::Unparse(_) => {
                node.write().unwrap().unparse();
                if m.n[i].shown {
                    released += 1;
                }
                m.unparse(i);
            }
            Op::PathParsed(_, y) => {
                if m.stored(i).is_none() || !m.n[i].shown {
                    continue;
                }
                // down through the stored entries from here
                let mut cur = i;
                let mut path: Vec<String> = vec![];
                let mut passed = vec![];
                let mut y = *y as usize;
                let mut body = None;
                loop {
                    let Some(l) = m.stored(cur) else { break };
                    if l.is_empty() {
                        break;
                    }
                    let e = &l[y % l.len()];
                    y = y / l.len() + y % 7;
                    path.push(laid_name(e).to_string());
                    // everything before the last segment gets parsed, the start does not
                    let Some(k) = m.n[cur].kids.iter().copied().find(|k| m.name(*k) == laid_name(e)) else { break };
                    if y % 5 == 0 {
                        cur = k;
                        break;
                    }
                    passed.push(k);
                    cur = k;
                    if !m.parse(k) {
                        o.class("path through what can't be read");
                        break;
                    }
                    if let Laid::Img { body: b, .. } = e {
                        body = Some(b);
                        break;
                    }
                }
                if path.is_empty() {
                    continue;
                }
                let mut want = None;
                match body {
                    Some(b) => {
                        let mut inner = vec![];
                        body_paths(b, "", &mut inner);
                        if inner.is_empty() || y % 4 == 0 {
                            path.push("no such".into());
                        } else {
                            let p = inner[y % inner.len()].strip_prefix('/').unwrap().to_string();
                            want = Some(p.rsplit('/').next().unwrap().to_string());
                            path.push(p);
                        }
                    }
                    None if passed.last() == Some(&cur) => {
                        path.push("no such".into());
                    }
                    None => want = path.last().cloned(),
                }
                let p = path.join("/");
                let got = node.read().unwrap().at_path_parsed(&p);
                match (got, want) {
                    (Ok(g), Some(w)) if g.read().unwrap().name.as_str() == w => {}
                    (Err(_), None) => {}
                    (g, w) => return Err(format!("{what}: path {p:?}: got {:?}, expected {w:?}", g.map(|g| g.read().unwrap().name.to_string()).map_err(|e| e.to_string()))),
                }
                o.class("path-parsed");
            }
            Op::WalkForced(_) | Op::Walk(_) => {
                let forced = matches!(op, Op::WalkForced(_));
                let at = node.read().unwrap().get_full_path();
                let seen: RefCell<Vec<String>> = RefCell::new(vec![]);
                wz_reader::util::walk_node(&node, forced, &|n| seen.borrow_mut().push(n.read().unwrap().get_full_path()));
                if forced {
                    m.walk_forced(i);
                }
                let mut want = vec![];
                m.expect(i, &at, forced, &mut want);
                let seen = seen.into_inner();
                let mut pos: HashMap<&str, usize> = HashMap::new();
                for (k, s) in seen.iter().enumerate() {
                    if pos.insert(s, k).is_some() {
                        return Err(format!("{what}: {s:?} visited twice"));
                    }
                }
                let mut a = seen.clone();
                a.sort();
                want.sort();
                if a != want {
                    let miss: Vec<_> = want.iter().filter(|w| a.binary_search(w).is_err()).take(3).collect();
                    let extra: Vec<_> = a.iter().filter(|w| want.binary_search(w).is_err()).take(3).collect();
                    return Err(format!("{what} from {at:?}: {} visited, {} expected; missing {miss:?}, not expected {extra:?}", a.len(), want.len()));
                }
                for s in &seen {
                    if let Some((up, _)) = s.rsplit_once('/') {
                        if s.len() > at.len() && pos.get(up).is_some_and(|p| *p > pos[s.as_str()]) {
                            return Err(format!("{what}: {s:?} visited before its parent"));
                        }
                    }
                }
                o.class(if forced { "forced walk" } else { "walk" });
            }
            Op::Hold(_) => {
                m.n[i].held = Some(node);
                o.class("handle kept");
            }
        }
        compare(&m, 0, root, "").map_err(|e| format!("{what}: {e}"))?;
        for k in 0..m.n.len() {
            if let Some(h) = m.n[k].held.clone() {
                compare(&m, k, &h, "(held)").map_err(|e| format!("{what}: {e}"))?;
            }
        }
    }
    o.class_if(again > 0, "parsed again after release");
    o.nontrivial = released > 0 || again > 0 || refused > 0;
    Ok(())
}

// ------------------------------------------------------------------ archives

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case1 {
    arc: Pkg1,
    /// how the images are damaged: not at all, at their start, at their end
    bad: Vec<u8>,
    ops: Vec<Op>,
}

fn bad() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![1 => Just(vec![0u8]), 2 => vec(prop_oneof![3 => Just(0u8), 1 => Just(1), 1 => Just(2)], 1..8)].boxed()
}

/// something to damage at the end of an image
fn with_end(tree: &mut Vec<(S, V)>) {
    tree.retain(|(n, _)| n.0 != "the end");
    tree.push((S("the end".into(), 0), V::Null));
}
fn with_ends(l: &mut [E], bad: &[u8], n: &mut usize) {
    for e in l {
        match e {
            E::Dir { kids, .. } => with_ends(kids, bad, n),
            E::Img { body, .. } => {
                if let (2, Body::Prop(t)) = (bad[*n % bad.len()], body) {
                    with_end(t);
                }
                *n += 1;
            }
            _ => {}
        }
    }
}
fn harm(b: &mut [u8], how: u8, iv: [u8; 4], body: Option<&Body>) -> bool {
    let the_end = encode_image(&[(S("the end".into(), 0), V::Null)], iv);
    match (how, body) {
        // an archive's versions are told by how its images start, it has to be a start they can have
        (1, Some(Body::Packed(_))) => b[0] = 0x01,
        (1, _) => b[0] = 0x23,
        // a property of no known type
        (2, None | Some(Body::Prop(_))) if b.ends_with(&the_end[the_end.len() - 10..]) => *b.last_mut().unwrap() = 0xEE,
        _ => return false,
    }
    true
}
fn harm_all(b: &mut [u8], l: &[Laid], iv: [u8; 4], bad: &[u8], n: &mut usize, out: &mut HashSet<usize>) {
    for e in l {
        match e {
            Laid::Dir { kids, .. } => harm_all(b, kids, iv, bad, n, out),
            Laid::Img { offset, size, body, .. } => {
                if *size > 0 && harm(&mut b[*offset..*offset + *size], bad[*n % bad.len()], iv, Some(body)) {
                    out.insert(*offset);
                }
                *n += 1;
            }
        }
    }
}

fn strat1() -> BoxedStrategy<Case1> {
    (any::<bool>(), region_iv(), 1i32..2000, entries(true, 3, 12, true), layout(), bad(), ops())
        .prop_map(|(encver, iv, version, mut l, layout, bad, ops)| {
            with_ends(&mut l, &bad, &mut 0);
            let mut root = vec![E::Dir { name: S("TheFirstDirectoryName".into(), 0), kids: vec![], cks: 0 }];
            root.extend(l);
            Case1 { arc: Pkg1 { text: vec![0; 44], version, encver, iv, root: dedup_e(root), layout }, bad, ops }
        })
        .boxed()
}

fn pkg1(c: &Case1, o: &mut Obs) -> Result<(), String> {
    let (mut bytes, laid) = c.arc.encode();
    let mut bad = HashSet::new();
    harm_all(&mut bytes, &laid, c.arc.iv, &c.bad, &mut 0, &mut bad);
    o.class_if(!bad.is_empty(), "images that can't be read");
    let sc = Scratch::new();
    let path = sc.write("Arc.wz", &bytes);
    let root = WzNode::from_wz_file_full(&path, region_of(c.arc.iv), Some(c.arc.version), None, None).map_err(|e| format!("open: {e}"))?.into_lock();
    run(&root, &laid, bad, &c.ops, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case2 {
    arc: c03::Pkg2,
    ops: Vec<Op>,
}

fn strat2() -> BoxedStrategy<Case2> {
    (c03::pkg2(1), ops()).prop_map(|(arc, ops)| Case2 { arc, ops }).boxed()
}

fn pkg2(c: &Case2, o: &mut Obs) -> Result<(), String> {
    if !c03::classify(&c.arc, o) {
        return Ok(());
    }
    let (bytes, laid) = c.arc.encode();
    let own = if c.arc.p.is64() { vec![] } else { vec![c03::seed(c.arc.p.profile, c.arc.p.hash)] };
    let _cached = c03::Cached::new(own);
    let sc = Scratch::new();
    let path = sc.write("Arc.wz", &bytes);
    let root = WzNode::from_wz_file_full(&path, None, None, None, None).map_err(|e| format!("open: {e}"))?.into_lock();
    run(&root, &laid, HashSet::new(), &c.ops, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case3 {
    bad: Vec<u8>,
    ms: crate::ms::Ms,
    trees: Vec<Vec<(S, V)>>,
    ops: Vec<Op>,
}

fn strat3() -> BoxedStrategy<Case3> {
    (any::<bool>().prop_flat_map(|v2| crate::ms::ms(v2, Just(vec![]).boxed())), vec(tree_with(full_leaf(Uols::None), 3, 20), 6), bad(), ops())
        .prop_map(|(mut ms, mut trees, bad, ops)| {
            ms.entries.truncate(trees.len());
            for (i, (e, t)) in ms.entries.iter_mut().zip(&mut trees).enumerate() {
                if bad[i % bad.len()] == 2 {
                    with_end(t);
                }
                // no path goes through a name that holds a slash; no name ends like a script's
                e.name = format!("{i}_{}.img", e.name.replace('/', "_"));
                e.data = encode_image(t, [0; 4]);
                harm(&mut e.data, bad[i % bad.len()], [0; 4], None);
            }
            Case3 { bad, ms, trees, ops }
        })
        .boxed()
}

fn ms(c: &Case3, o: &mut Obs) -> Result<(), String> {
    let (bytes, stored) = c.ms.encode();
    let laid: Vec<Laid> = c
        .ms
        .entries
        .iter()
        .zip(&stored)
        .zip(&c.trees)
        .map(|((e, s), t)| Laid::Img { name: e.name.clone(), offset: s.start, size: e.data.len(), opos: 0, body: Body::Prop(t.clone()) })
        .collect();
    let mut bad = HashSet::new();
    for (i, ((e, t), s)) in c.ms.entries.iter().zip(&c.trees).zip(&stored).enumerate() {
        if !e.data.is_empty() && harm(&mut encode_image(t, [0; 4]), c.bad[i % c.bad.len()], [0; 4], None) {
            bad.insert(s.start);
        }
    }
    o.class_if(!bad.is_empty(), "images that can't be read");
    let sc = Scratch::new();
    // its name is part of its keys, that of the node is of no interest
    let path = sc.write(&c.ms.name, &bytes);
    let root = WzNode::from_ms_file(&path, None).map_err(|e| format!("open: {e}"))?.into_lock();
    root.write().unwrap().name = "Arc".into();
    run(&root, &laid, bad, &c.ops, o)
}

// ------------------------------------------------------------------ nodes that can't be parsed

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    /// an archive, perhaps opened with a version that is not its own
    Pkg1(Pkg1, Option<i32>),
    Pkg2(c03::Pkg2),
    Ms(crate::ms::Ms),
    /// a directory of an archive, told to lie elsewhere or to have another hash
    Dir(Pkg1, i8, u32),
    Image(Vec<(S, V)>, [u8; 4]),
    MsImage(crate::ms::Ms, Vec<(S, V)>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refused {
    what: What,
    muts: Vec<super::c19::Mut>,
    /// of 8: unparse, walk, lookup, the rest: parse
    ops: Vec<u8>,
}

fn refused_strat() -> BoxedStrategy<Refused> {
    let one = || {
        (header_text(), any::<bool>(), region_iv(), 1i32..2000, entries(true, 2, 6, true), layout()).prop_map(|(text, encver, iv, version, l, layout)| {
            let mut root = vec![E::Dir { name: S("TheFirstDirectoryName".into(), 0), kids: vec![], cks: 0 }];
            root.extend(l);
            Pkg1 { text, version, encver, iv, root: dedup_e(root), layout }
        })
    };
    let ms = || any::<bool>().prop_flat_map(|v2| crate::ms::ms(v2, vec(any::<u8>(), 0..40).boxed()));
    let tree = || tree_with(full_leaf(Uols::Dangling), 3, 20);
    let what = prop_oneof![
        2 => (one(), prop::option::of(1i32..2000)).prop_map(|(a, v)| What::Pkg1(a, v)),
        1 => c03::pkg2(1).prop_map(What::Pkg2),
        1 => ms().prop_map(What::Ms),
        1 => (one(), prop_oneof![1 => Just(0i8), 2 => any::<i8>()], prop_oneof![1 => Just(0u32), 1 => any::<u32>()]).prop_map(|(a, at, hash)| What::Dir(a, at, hash)),
        2 => (tree(), any_iv()).prop_map(|(t, iv)| What::Image(t, iv)),
        2 => (ms(), tree()).prop_map(|(m, t)| What::MsImage(m, t)),
    ];
    (what, super::c19::muts(), vec(0u8..8, 2..8)).prop_map(|(what, muts, ops)| Refused { what, muts, ops }).boxed()
}

fn refused(c: &Refused, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = false;
    let sc = Scratch::new();
    let hurt = |mut b: Vec<u8>| {
        super::c19::damage(&mut b, &c.muts);
        b
    };
    let (node, class) = match &c.what {
        What::Pkg1(a, v) => {
            let b = a.encode().0;
            let path = sc.write("Arc.wz", &if v.is_some_and(|v| v != a.version) { b } else { hurt(b) });
            (WzNode::from_wz_file_full(&path, region_of(a.iv), *v, None, None).ok(), "archive")
        }
        What::Pkg2(a) => {
            // the keys of the others are too many to go through
            if !a.p.is64() {
                return Ok(());
            }
            let path = sc.write("Arc.wz", &hurt(a.encode().0));
            (WzNode::from_wz_file_full(&path, None, None, None, None).ok(), "new archive")
        }
        What::Ms(m) => {
            let path = sc.write(&m.name, &hurt(m.encode().0));
            (WzNode::from_ms_file(&path, None).ok(), "ms archive")
        }
        What::Dir(a, at, hash) => {
            let (b, _) = a.encode();
            let path = sc.write("Arc.wz", &if *at == 0 && *hash == 0 { hurt(b) } else { b });
            let file = WzNode::from_wz_file_full(&path, region_of(a.iv), Some(a.version), None, None).ok();
            let dir = file.and_then(|n| {
                let f = n.try_as_file()?;
                let at = (f.offset + if a.encver { 2 } else { 0 }).saturating_add_signed(*at as isize);
                let dir = wz_reader::WzDirectory::new(at, 100, &f.reader, false).with_hash((a.hash() ^ *hash) as u64);
                Some(WzNode::from_str("Dir", dir, None))
            });
            (dir, "directory")
        }
        What::Image(t, iv) => {
            let b = hurt(encode_image(t, *iv));
            let img = wz_reader::WzImage::new(&"a.img".into(), 0, b.len(), &mem_reader(&b, *iv));
            (Some(WzNode::from_str("a.img", img, None)), "image")
        }
        What::MsImage(m, t) => {
            let mut m = m.clone();
            m.entries.truncate(1);
            let Some(e) = m.entries.first_mut() else { return Ok(()) };
            e.name = "a.img".into();
            e.data = hurt(encode_image(t, [0; 4]));
            let path = sc.write(&m.name, &m.encode().0);
            let file = WzNode::from_ms_file(&path, None).map_err(|e| format!("open: {e}"))?.into_lock();
            file.write().unwrap().parse(&file).map_err(|e| format!("parse: {e}"))?;
            let img = file.read().unwrap().at("a.img").ok_or("a.img is missing")?;
            let node = match &img.read().unwrap().object_type {
                i @ WzObjectType::MsImage(_) => WzNode::from_str("a.img", i.clone(), None),
                _ => return Err("not an image of an ms archive".into()),
            };
            (Some(node), "ms image")
        }
    };
    let Some(node) = node else { return Ok(()) };
    let node = node.into_lock();
    if node.write().unwrap().parse(&node).is_ok() {
        return Ok(());
    }
    o.nontrivial = true;
    o.class(class);
    for (step, op) in [3].iter().chain(&c.ops).enumerate() {
        let what = match op {
            0 => {
                node.write().unwrap().unparse();
                "released"
            }
            1 => {
                let seen = RefCell::new(0);
                wz_reader::util::walk_node(&node, true, &|_| *seen.borrow_mut() += 1);
                if seen.into_inner() != 1 {
                    return Err(format!("step {step}: walked over more than the node that can't be parsed"));
                }
                "walked over"
            }
            2 => {
                let up = WzNode::from_str("up", WzObjectType::Property(wz_reader::property::WzSubProperty::Property), None).into_lock();
                up.write().unwrap().add(&node);
                let name = node.read().unwrap().name.to_string();
                match up.read().unwrap().at_path_parsed(&format!("{name}/a")) {
                    Ok(_) => return Err(format!("step {step}: found something in a node that can't be parsed")),
                    Err(wz_reader::node::Error::NodeNotFound) => return Err(format!("step {step}: a lookup through a node that can't be parsed only says that nothing is found")),
                    Err(_) => {}
                }
                "looked through"
            }
            _ => {
                if node.write().unwrap().parse(&node).is_ok() {
                    return Err(format!("step {step}: a parse that failed before is Ok now"));
                }
                "parsed again"
            }
        };
        let r = node.read().unwrap();
        let flag = match &r.object_type {
            WzObjectType::File(f) => f.is_parsed,
            WzObjectType::MsFile(f) => f.is_parsed,
            WzObjectType::Directory(d) => d.is_parsed,
            WzObjectType::Image(i) => i.is_parsed,
            WzObjectType::MsImage(_) => false,
            _ => return Err(format!("step {step}: {what}, became something else")),
        };
        if flag || !r.children.is_empty() {
            return Err(format!("step {step}: {what}, a node that can't be parsed has {} children and its parsed flag is {flag}", r.children.len()));
        }
    }
    Ok(())
}

pub fn property() -> Property {
    let rule = "something parsed was released, or something released was parsed again";
    Property {
        id: "C11",
        subs: vec![check!("pkg1", rule, 8000, 150000, strat1, pkg1), check!("pkg2", rule, 2000, 30000, strat2, pkg2), check!("ms", rule, 500, 8000, strat3, ms), check!("refused", "a node that can't be parsed", 6000, 100000, refused_strat, refused)],
        assumptions: &["one thread at a time (several threads: C21)", "images hold no links that lead upwards (a walk over such a cycle has no end)"],
        threads: 8,
    }
}
