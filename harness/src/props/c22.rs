//! C22 standalone image files
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::refs::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use wz_reader::version::WzMapleVersion;
use wz_reader::{WzImage, WzNode, WzNodeCast};

const REGIONS: [(WzMapleVersion, [u8; 4]); 3] = [(WzMapleVersion::GMS, IV_GMS), (WzMapleVersion::EMS, IV_EMS), (WzMapleVersion::BMS, IV_BMS)];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C {
    tree: Vec<(S, V)>,
    iv: [u8; 4],
    name: String,
    other: [u8; 4],
}
fn name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[0-9]{8}\\.img",
        1 => Just("a.b.img".to_string()),
        1 => Just("한글 이름.img".to_string()),
        1 => "[a-zA-Z]{1,8}",
        1 => Just("x.IMG".to_string()),
    ]
    .boxed()
}
fn strat() -> BoxedStrategy<C> {
    (any_tree(), prop_oneof![4 => region_iv(), 1 => any_iv()], name(), any_iv()).prop_map(|(tree, iv, name, other)| C { tree, iv, name, other }).boxed()
}
/// whether the two keys tell "Property" apart
fn differ(a: [u8; 4], b: [u8; 4]) -> bool {
    stream(a, 16)[..8] != stream(b, 16)[..8]
}

fn open(c: &C, o: &mut Obs) -> Result<(), String> {
    let sc = Scratch::new();
    let p = sc.write(&c.name, &encode_image(&c.tree, c.iv));
    let known = REGIONS.iter().any(|(_, iv)| *iv == c.iv);
    o.nontrivial = count(&c.tree) > 0;
    o.class(match c.iv {
        IV_GMS => "GMS",
        IV_EMS => "EMS",
        IV_BMS => "BMS",
        _ => "a key of its own",
    });
    let same = |n: Result<WzNode, wz_reader::node::Error>, how: &str| -> Result<(), String> {
        let n = n.map_err(|e| format!("{how}: {e}"))?;
        if n.name.as_str() != c.name {
            return Err(format!("{how}: the node is named {:?}, the file {:?}", n.name, c.name));
        }
        if !n.children.is_empty() || n.try_as_image().is_none_or(|i| i.is_parsed) {
            return Err(format!("{how}: not an unparsed image"));
        }
        let n = n.into_lock();
        n.write().unwrap().parse(&n).map_err(|e| format!("{how}: parse: {e}"))?;
        cmp_list(&n, &c.tree, how, true)
    };
    let refused = |r: Result<WzNode, wz_reader::node::Error>, how: &str| match r {
        Ok(_) => Err(format!("{how}: the key does not fit but the file is opened")),
        Err(_) => Ok(()),
    };
    if known {
        same(WzNode::from_img_file(&p, None, None), "no key named")?;
    } else if REGIONS.iter().all(|(_, iv)| differ(*iv, c.iv)) {
        refused(WzNode::from_img_file(&p, None, None), "no key named")?;
    }
    for (v, iv) in REGIONS {
        let how = format!("{v:?} named");
        if iv == c.iv {
            same(WzNode::from_img_file(&p, Some(v), None), &how)?;
        } else if differ(iv, c.iv) {
            refused(WzNode::from_img_file(&p, Some(v), None), &how)?;
            refused(WzNode::from_img_file_with_iv(&p, iv, None), &how)?;
        }
    }
    same(WzNode::from_img_file_with_iv(&p, c.iv, None), "own key given")?;
    if differ(c.other, c.iv) {
        refused(WzNode::from_img_file_with_iv(&p, c.other, None), "another key given")?;
    }
    // below a node of the caller's
    let top = WzNode::from_str("top", 1, None).into_lock();
    let n = WzNode::from_img_file_with_iv(&p, c.iv, Some(&top)).map_err(|e| format!("with a parent: {e}"))?;
    if !n.parent.upgrade().is_some_and(|x| std::sync::Arc::ptr_eq(&x, &top)) {
        return Err("the given parent is not the node's parent".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    bytes: Vec<u8>,
    /// keep this much of the file
    cut: usize,
    /// change this byte of the header by xor
    at: usize,
    xor: u8,
    iv: [u8; 4],
}
fn bad() -> BoxedStrategy<Bad> {
    let any = (prop_oneof![blob(64), (region_iv()).prop_map(|iv| encode_image(&[(S("a".into(), 0), V::Null)], iv))], prop_oneof![1 => 0usize..16, 1 => Just(1000)], 0usize..10, any::<u8>(), any_iv());
    any.prop_map(|(bytes, cut, at, xor, iv)| Bad { bytes, cut, at, xor, iv }).boxed()
}
fn damaged(c: &Bad, o: &mut Obs) -> Result<(), String> {
    let mut b = c.bytes.clone();
    b.truncate(c.cut);
    if let Some(x) = b.get_mut(c.at) {
        *x ^= c.xor;
    }
    // is it the start of an image under that key? (both stored forms of the name)
    let fits = |iv: [u8; 4]| {
        let s = |wide: bool, long: bool| {
            let mut w = W::default();
            w.wz_str("Property", iv, wide, long);
            w.0
        };
        [(false, false), (true, false), (false, true), (true, true)].iter().any(|(w, l)| b.get(1..).is_some_and(|r| r.starts_with(&s(*w, *l))))
    };
    let head = b.first() == Some(&0x73);
    let any = REGIONS.iter().any(|(_, iv)| fits(*iv)) && head;
    o.nontrivial = !any;
    o.class_if(b.is_empty(), "empty file");
    o.class_if(!b.is_empty() && b.len() < 10, "shorter than the header");
    o.class_if(any, "an image all the same");
    let sc = Scratch::new();
    let p = sc.write("bad.img", &b);
    if WzImage::from_file(&p, None).is_ok() != any {
        return Err(format!("no key named: opened {} instead of {any}", !any));
    }
    for iv in REGIONS.iter().map(|r| r.1).chain([c.iv]) {
        let r = WzImage::from_file(&p, Some(iv));
        if !fits(iv) && r.is_ok() {
            return Err(format!("key {iv:?} does not fit but the file is opened"));
        }
        if fits(iv) && head && r.is_err() {
            return Err(format!("key {iv:?} fits but the file is refused"));
        }
    }
    if WzImage::from_file(sc.0.join("missing.img"), None).is_ok() {
        return Err("a missing file is opened".into());
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C22",
        subs: vec![
            check!("open", "the image holds at least one property", 2000, 60000, strat, open),
            check!("damaged", "no known key fits the file", 2500, 60000, bad, damaged),
        ],
        assumptions: &[
            "a standalone image is a property image: it starts with 0x73 and the name Property",
            "file names are valid Unicode",
        ],
        threads: 8,
    }
}
