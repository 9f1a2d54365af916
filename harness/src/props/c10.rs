//! C10 tree navigation and merging against a tree model
use crate::check;
use crate::fw::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;
use wz_reader::property::WzSubProperty;
use wz_reader::util::node_util::resolve_childs_parent;
use wz_reader::{WzDirectory, WzFile, WzImage, WzNode, WzNodeArc, WzObjectType};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Value,
    Prop,
    Image,
    Dir,
    File,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// name, kind, parent to name, also add it there
    New(u8, Kind, Option<u8>, bool),
    Add(u8, u8),
    Remove(u8, u8),
    Reparent(u8),
    Transfer(u8, u8),
    /// let go of the handle
    Forget(u8),
}

const NAMES: [&str; 13] = ["Base", "a", "b", "1", "img", "x.img", "", "..", "한글", "a b", "Base2", "base", "MyBase"];

fn op() -> BoxedStrategy<Op> {
    let kind = prop_oneof![2 => Just(Kind::Value), 3 => Just(Kind::Prop), 2 => Just(Kind::Image), 2 => Just(Kind::Dir), 1 => Just(Kind::File)];
    // '..' and the empty name come up seldom
    let name = prop_oneof![8 => 0u8..6, 1 => 6u8..13];
    prop_oneof![
        8 => (name, kind, prop::option::weighted(0.85, any::<u8>()), prop::bool::weighted(0.8)).prop_map(|(a, b, c, d)| Op::New(a, b, c, d)),
        // archives with names close to Base
        1 => (prop_oneof![Just(0u8), 10u8..13], prop::option::weighted(0.85, any::<u8>()), prop::bool::weighted(0.8)).prop_map(|(a, c, d)| Op::New(a, Kind::File, c, d)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Add(a, b)),
        1 => (any::<u8>(), 0u8..13).prop_map(|(a, b)| Op::Remove(a, b)),
        2 => any::<u8>().prop_map(Op::Reparent),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Transfer(a, b)),
        1 => any::<u8>().prop_map(Op::Forget),
    ]
    .boxed()
}

#[derive(Clone)]
struct M {
    name: &'static str,
    kind: Kind,
    parent: Option<usize>,
    kids: BTreeMap<&'static str, usize>,
    held: bool,
}

#[derive(Default)]
struct Model {
    n: Vec<M>,
}

impl Model {
    fn alive(&self) -> Vec<bool> {
        let mut a = vec![false; self.n.len()];
        let mut st: Vec<usize> = (0..self.n.len()).filter(|i| self.n[*i].held).collect();
        while let Some(i) = st.pop() {
            if !a[i] {
                a[i] = true;
                st.extend(self.n[i].kids.values());
            }
        }
        a
    }
    fn below(&self, i: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut st = vec![i];
        while let Some(i) = st.pop() {
            if !out.contains(&i) {
                out.push(i);
                st.extend(self.n[i].kids.values());
            }
        }
        out
    }
    fn parent(&self, i: usize, alive: &[bool]) -> Option<usize> {
        self.n[i].parent.filter(|p| alive[*p])
    }
    /// parent links lead round in a circle
    fn circular(&self) -> bool {
        (0..self.n.len()).any(|i| {
            let mut c = i;
            for _ in 0..=self.n.len() {
                match self.n[c].parent {
                    Some(p) => c = p,
                    None => return false,
                }
            }
            true
        })
    }
    fn reparent(&mut self, i: usize) {
        for k in self.n[i].kids.values().copied().collect::<Vec<_>>() {
            self.n[k].parent = Some(i);
            self.reparent(k);
        }
    }
    /// several parents above one node: the order of re-parenting would matter
    fn shared_below(&self, i: usize) -> bool {
        let b = self.below(i);
        b.iter().any(|x| b.iter().filter(|p| self.n[**p].kids.values().any(|k| k == x)).count() > 1)
            || b.iter().any(|x| b.iter().any(|p| self.n[*p].kids.values().filter(|k| *k == x).count() > 1))
    }
    fn transfer(&mut self, a: usize, b: usize) {
        for (name, c) in std::mem::take(&mut self.n[a].kids) {
            match self.n[b].kids.get(name).copied() {
                Some(old) => self.transfer(c, old),
                None => {
                    self.n[c].parent = Some(b);
                    self.n[b].kids.insert(name, c);
                }
            }
        }
    }
    fn chain(&self, i: usize, alive: &[bool]) -> Vec<usize> {
        let mut v = vec![];
        let mut c = i;
        while let Some(p) = self.parent(c, alive) {
            v.push(p);
            c = p;
        }
        v
    }
    fn step(&self, i: usize, s: &str, relative: bool, alive: &[bool]) -> Option<usize> {
        if relative && s == ".." {
            self.parent(i, alive)
        } else {
            self.n[i].kids.get(s).copied()
        }
    }
    fn walk(&self, i: usize, path: &str, relative: bool, alive: &[bool]) -> Option<usize> {
        path.split('/').try_fold(i, |c, s| self.step(c, s, relative, alive))
    }
}

fn obj(k: Kind) -> WzObjectType {
    match k {
        Kind::Value => 1.into(),
        Kind::Prop => WzObjectType::Property(WzSubProperty::Property),
        Kind::Image => WzImage::default().into(),
        Kind::Dir => WzDirectory::default().into(),
        Kind::File => WzFile::default().into(),
    }
}

struct Sys {
    m: Model,
    /// the real nodes the harness still holds
    real: Vec<Option<WzNodeArc>>,
    weak: Vec<std::sync::Weak<crate::RwLock<WzNode>>>,
}

impl Sys {
    fn is(&self, got: &Option<WzNodeArc>, want: Option<usize>, what: &dyn Fn() -> String) -> Result<(), String> {
        let ok = match (got, want) {
            (None, None) => true,
            (Some(g), Some(w)) => std::ptr::eq(Arc::as_ptr(g), self.weak[w].as_ptr()),
            _ => false,
        };
        if ok {
            return Ok(());
        }
        let show = |n: &WzNodeArc| n.read().unwrap().get_full_path();
        let w = want.and_then(|w| self.weak[w].upgrade());
        Err(format!("{}: got {:?}, expected {:?}", what(), got.as_ref().map(show), w.as_ref().map(show)))
    }
    fn node(&self, i: usize) -> Option<WzNodeArc> {
        self.weak[i].upgrade()
    }

    fn check(&self, paths: &[String]) -> Result<(), String> {
        let alive = self.m.alive();
        for i in 0..self.m.n.len() {
            let m = &self.m.n[i];
            let Some(n) = self.node(i) else {
                if alive[i] {
                    return Err(format!("node {i} {:?} is gone", m.name));
                }
                continue;
            };
            if !alive[i] {
                return Err(format!("node {i} {:?} is still held by something", m.name));
            }
            let r = n.read().unwrap();
            let me = || format!("node {i} {:?}", m.name);
            if r.name.as_str() != m.name {
                return Err(format!("{}: renamed to {:?}", me(), r.name));
            }
            if r.children.len() != m.kids.len() {
                return Err(format!("{}: {} children, expected {}", me(), r.children.len(), m.kids.len()));
            }
            for name in NAMES {
                self.is(&r.at(name), m.kids.get(name).copied(), &|| format!("{} at({name:?})", me()))?;
                self.is(&r.at_relative(name), self.m.step(i, name, true, &alive), &|| format!("{} at_relative({name:?})", me()))?;
            }
            for p in paths {
                self.is(&r.at_path(p), self.m.walk(i, p, false, &alive), &|| format!("{} at_path({p:?})", me()))?;
                self.is(&r.at_path_relative(p), self.m.walk(i, p, true, &alive), &|| format!("{} at_path_relative({p:?})", me()))?;
            }
            let chain = self.m.chain(i, &alive);
            let names = |upto: usize| {
                let mut v: Vec<&str> = chain[..upto].iter().rev().map(|c| self.m.n[*c].name).collect();
                v.push(m.name);
                v.join("/")
            };
            let same = |what: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{} {what}: {got:?} instead of {want:?}", me())) };
            same("full path", r.get_full_path(), names(chain.len()))?;
            same("path from root", r.get_path_from_root(), if chain.is_empty() { String::new() } else { names(chain.len() - 1) })?;
            let img = chain.iter().position(|c| self.m.n[*c].kind == Kind::Image);
            same("path from image", r.get_path_from_image(), img.map(names).unwrap_or_default())?;
            self.is(&r.get_parent_wz_image(), img.map(|k| chain[k]), &|| format!("{} parent image", me()))?;
            let base = chain.iter().copied().find(|c| self.m.n[*c].kind == Kind::File && self.m.n[*c].name == "Base");
            self.is(&r.get_base_wz_file(), base, &|| format!("{} base file", me()))?;
            for name in ["a", "1", "none"] {
                let want = chain.iter().copied().find(|c| self.m.n[*c].name == name);
                self.is(&r.filter_parent(|n| n.name.as_str() == name), want, &|| format!("{} filter_parent({name:?})", me()))?;
            }
            self.is(&r.filter_parent(|n| n.children.len() >= 2), chain.iter().copied().find(|c| self.m.n[*c].kids.len() >= 2), &|| format!("{} filter_parent(2 children)", me()))?;
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ops: Vec<Op>,
    paths: Vec<Vec<u8>>,
}

fn strat() -> BoxedStrategy<Case> {
    (vec(op(), 1..45), vec(vec(prop_oneof![8 => 0u8..6, 1 => 6u8..10, 3 => Just(7u8)], 1..5), 0..6)).prop_map(|(ops, paths)| Case { ops, paths }).boxed()
}

fn history(c: &Case, o: &mut Obs) -> Result<(), String> {
    let mut s = Sys { m: Model::default(), real: vec![], weak: vec![] };
    let mut paths: Vec<String> = c.paths.iter().map(|p| p.iter().map(|i| NAMES[*i as usize]).collect::<Vec<_>>().join("/")).collect();
    for extra in ["", "/", "a/b", "..", "../..", "a/../a", "../Base/a", "none"] {
        paths.push(extra.to_string());
    }
    let mut did = 0;
    for op in &c.ops {
        let held: Vec<usize> = (0..s.m.n.len()).filter(|i| s.m.n[*i].held).collect();
        let pick = |x: u8| held[x as usize % held.len()];
        match op {
            Op::New(name, kind, parent, add) => {
                let parent = parent.filter(|_| !held.is_empty()).map(pick);
                let name = NAMES[*name as usize];
                let n = WzNode::from_str(name, obj(*kind), parent.and_then(|p| s.real[p].as_ref())).into_lock();
                s.m.n.push(M { name, kind: *kind, parent, kids: BTreeMap::new(), held: true });
                s.weak.push(Arc::downgrade(&n));
                if let (true, Some(p)) = (*add, parent) {
                    s.real[p].as_ref().unwrap().write().unwrap().add(&n);
                    let i = s.m.n.len() - 1;
                    s.m.n[p].kids.insert(name, i);
                }
                s.real.push(Some(n));
            }
            _ if held.is_empty() => continue,
            Op::Add(p, k) => {
                let (p, k) = (pick(*p), pick(*k));
                if s.m.below(k).contains(&p) {
                    continue;
                }
                s.real[p].as_ref().unwrap().write().unwrap().add(s.real[k].as_ref().unwrap());
                let name = s.m.n[k].name;
                s.m.n[p].kids.insert(name, k);
            }
            Op::Remove(p, name) => {
                let p = pick(*p);
                s.real[p].as_ref().unwrap().write().unwrap().children.remove(NAMES[*name as usize]);
                s.m.n[p].kids.remove(NAMES[*name as usize]);
            }
            Op::Reparent(p) => {
                let p = pick(*p);
                let before = s.m.n.clone();
                if s.m.shared_below(p) {
                    continue;
                }
                s.m.reparent(p);
                if s.m.circular() {
                    s.m.n = before;
                    continue;
                }
                resolve_childs_parent(s.real[p].as_ref().unwrap());
                o.class("re-parented");
            }
            Op::Transfer(a, b) => {
                let (a, b) = (pick(*a), pick(*b));
                let (ba, bb) = (s.m.below(a), s.m.below(b));
                if ba.iter().any(|x| bb.contains(x)) || s.m.shared_below(a) || s.m.shared_below(b) {
                    continue;
                }
                let before = s.m.n.clone();
                let clash = s.m.n[a].kids.iter().any(|(n, k)| s.m.n[b].kids.get(n).is_some_and(|o| !s.m.n[*k].kids.is_empty() && !s.m.n[*o].kids.is_empty()));
                let moved = !s.m.n[a].kids.is_empty();
                s.m.transfer(a, b);
                if s.m.circular() {
                    s.m.n = before;
                    continue;
                }
                let to = s.real[b].clone().unwrap();
                s.real[a].as_ref().unwrap().write().unwrap().transfer_childs(&to);
                o.class_if(clash, "same-named subtrees merged");
                o.class_if(moved, "children moved");
            }
            Op::Forget(p) => {
                let p = pick(*p);
                s.m.n[p].held = false;
                s.real[p] = None;
                o.class("handle dropped");
            }
        }
        did += 1;
        s.check(&paths[..paths.len().min(2)])?;
    }
    let alive = s.m.alive();
    let depth = (0..s.m.n.len()).filter(|i| alive[*i]).map(|i| s.m.chain(i, &alive).len()).max().unwrap_or(0);
    o.nontrivial = did >= 5 && depth >= 2;
    o.class_if(depth >= 4, "depth 4+");
    o.class_if(s.m.n.len() >= 15, "15+ nodes");
    s.check(&paths)
}

pub fn property() -> Property {
    Property {
        id: "C10",
        subs: vec![check!("history", "5 or more operations took effect and some node has a grandparent", 8000, 150000, strat, history)],
        assumptions: &[
            "no node is put below itself, and the two sides of a merge share no node (either is a mistake of the caller)",
            "a clash of names keeps the existing node and merges what lies below both",
        ],
        threads: 8,
    }
}
