//! C23 feature configurations
use crate::arc::*;
use crate::check;
use crate::digest::{digest, Kind, Req, Resp, MARK};
use crate::fw::*;
use crate::img::*;
use crate::ms::*;
use crate::props::c03::{self, Pkg2};
use crate::props::c20;
use crate::px;
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ------------------------------------------------------------------ the other builds

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Server {
    fn start(exe: &str) -> Server {
        use std::os::unix::process::CommandExt;
        let mut c = Command::new(exe);
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(if std::env::var_os("WZPBT_STDERR").is_some() { Stdio::inherit() } else { Stdio::null() });
        // it must not outlive the thread that asks it
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("HARNESS-ERROR digest server");
        let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Server { child, to, from }
    }
    fn ask(&mut self, q: &str) -> Option<Resp> {
        writeln!(self.to, "{q}").ok()?;
        self.to.flush().ok()?;
        loop {
            // the library prints to the same place
            let mut l = vec![];
            if self.from.read_until(b'\n', &mut l).ok()? == 0 {
                return None;
            }
            if let Some(k) = l.windows(MARK.len()).position(|x| x == MARK.as_bytes()) {
                return serde_json::from_slice(&l[k + MARK.len()..]).ok();
            }
        }
    }
}
/// name, executable
fn configs() -> Vec<(String, String)> {
    let s = std::env::var("WZPBT_DIGEST").unwrap_or_default();
    s.split(',').filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
thread_local! {
    static SERVERS: RefCell<HashMap<String, Server>> = RefCell::new(HashMap::new());
}
fn ask(name: &str, exe: &str, q: &str) -> Result<Resp, String> {
    SERVERS.with(|s| {
        let mut s = s.borrow_mut();
        let r = s.entry(name.to_string()).or_insert_with(|| Server::start(exe)).ask(q);
        r.ok_or_else(|| {
            s.remove(name);
            format!("built with {name}, the process ends while reading the file")
        })
    })
}

type Order = Vec<(String, Vec<String>)>;
/// `order`: the stored order of all children, where it's known
fn same(q: &Req, order: Option<&Order>, o: &mut Obs) -> Result<Resp, String> {
    let own = digest(q);
    let configs = configs();
    if configs.len() < 2 {
        return Err("HARNESS-ERROR no other builds (WZPBT_DIGEST)".into());
    }
    let text = serde_json::to_string(q).unwrap();
    let sorted = |l: &[String]| {
        let mut l = l.to_vec();
        l.sort();
        l
    };
    let mut ordered: Option<Resp> = None;
    for (name, exe) in &configs {
        let r = ask(name, exe, &text)?;
        if r.lines != own.lines {
            let k = r.lines.iter().zip(&own.lines).position(|(a, b)| a != b).unwrap_or(r.lines.len().min(own.lines.len()));
            let show = |l: &[(String, String)]| l.get(k).map(|x| format!("{:.200}: {:.300}", x.0, x.1)).unwrap_or("nothing".into());
            return Err(format!("built with {name} the file holds {}, by default {}", show(&r.lines), show(&own.lines)));
        }
        if sorted(&r.walk) != sorted(&own.walk) {
            return Err(format!("built with {name} a walk passes {} nodes, by default {}", r.walk.len(), own.walk.len()));
        }
        if let (Some(a), Some(b)) = (&r.json, &own.json) {
            if a != b {
                return Err(format!("built with {name} the exported json is {:.300}, by default {:.300}", format!("{a:?}"), format!("{b:?}")));
            }
        }
        if !name.contains("indexmap") {
            continue;
        }
        if let Some(want) = order {
            let mut want = want.clone();
            want.sort();
            if r.order != want {
                let (a, b): (Vec<_>, Vec<_>) = (r.order.iter().filter(|x| !want.contains(x)).take(1).collect(), want.iter().filter(|x| !r.order.contains(x)).take(1).collect());
                return Err(format!("built with {name} the children come as {a:?}, stored as {b:?}"));
            }
        }
        if let Some(p) = &ordered {
            if (&p.order, &p.walk) != (&r.order, &r.walk) {
                return Err(format!("built with {name} the order is another one than in the build before"));
            }
        }
        ordered = Some(r);
    }
    o.class_if(own.lines.iter().any(|l| l.1.contains("refused") || l.0.contains("(parsing)")), "something is refused");
    o.class_if(own.lines.len() >= 100, "100 nodes or more");
    o.class_if(own.lines.len() == 1, "a single node");
    o.class_if(order.is_some(), "order known");
    Ok(own)
}

// ------------------------------------------------------------------ expected order

fn order_v(l: &[(String, &V)], path: &str, out: &mut Order) {
    if l.is_empty() {
        return;
    }
    out.push((path.to_string(), l.iter().map(|x| x.0.clone()).collect()));
    for (n, v) in l {
        order_v(&kids(v), &format!("{path}/{n}"), out);
    }
}
fn order_tree(t: &[(S, V)], path: &str, out: &mut Order) {
    order_v(&t.iter().map(|(n, v)| (n.0.clone(), v)).collect::<Vec<_>>(), path, out)
}
fn order_body(b: &Body, path: &str, out: &mut Order) {
    match b {
        Body::Prop(t) => order_tree(t, path, out),
        Body::Lua(_) => out.push((path.to_string(), vec!["Script".into()])),
        Body::Packed(_) => out.push((path.to_string(), vec!["text.txt".into()])),
    }
}
fn order_laid(l: &[Laid], path: &str, out: &mut Order) {
    if l.is_empty() {
        return;
    }
    out.push((path.to_string(), l.iter().map(|x| laid_name(x).to_string()).collect()));
    for x in l {
        let p = format!("{path}/{}", laid_name(x));
        match x {
            Laid::Dir { kids, .. } => order_laid(kids, &p, out),
            Laid::Img { body, .. } => order_body(body, &p, out),
        }
    }
}

// ------------------------------------------------------------------ checks

fn valid_canvas(iv: [u8; 4], big: bool) -> BoxedStrategy<V> {
    px::canvas(big)
        .prop_map(move |c| {
            let (f1, f2) = c.f.parts(c.split);
            V::Canvas { kids: None, w: c.w as i32, h: c.h as i32, f1, f2, pages: 0, data: c.stored(iv) }
        })
        .boxed()
}
fn leaf(iv: [u8; 4]) -> BoxedStrategy<V> {
    prop_oneof![8 => full_leaf(Uols::Dangling), 2 => media_leaf(), 2 => valid_canvas(iv, false)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Archive {
    p: Pkg1,
    known: bool,
    twice: bool,
}
fn archive_strat() -> BoxedStrategy<Archive> {
    (region_iv(), any::<bool>())
        .prop_flat_map(|(iv, encver)| {
            let first = ("[A-Za-z0-9_]{10,30}", 0u8..8, tree_with(leaf(iv), 3, 20)).prop_map(|(n, m, t)| E::Img { name: S(format!("{n}.img"), m), body: Body::Prop(dedup(t)), cks: 0 });
            (header_text(), guessable_version(encver), first, entries(true, 3, 16, true), layout(), any::<bool>(), any::<bool>()).prop_map(move |(text, version, f, rest, layout, known, twice)| {
                let mut root = vec![f];
                root.extend(rest);
                Archive { p: Pkg1 { text, version, encver, iv, root: dedup_e(root), layout }, known, twice }
            })
        })
        .boxed()
}
fn archive(c: &Archive, o: &mut Obs) -> Result<(), String> {
    let sc = Scratch::new();
    let (b, laid) = c.p.encode();
    let path = sc.write("Arc.wz", &b).display().to_string();
    let q = Req { kind: Kind::Wz, path, iv: c.known.then_some(c.p.iv), version: c.known.then_some(c.p.version), twice: c.twice };
    let mut order = vec![];
    order_laid(&laid, "", &mut order);
    o.nontrivial = count_e(&c.p.root) >= 2;
    // a version found by trying may be another one that fits as well; the order is that of the real one
    same(&q, c.known.then_some(&order), o).map(|_| ())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Image {
    tree: Vec<(S, V)>,
    iv: [u8; 4],
    known: bool,
    twice: bool,
    /// repeated names or links that lead somewhere
    odd: bool,
}
fn image_strat() -> BoxedStrategy<Image> {
    (any_iv(), any::<bool>(), any::<bool>(), prop::bool::weighted(0.3), prop::bool::weighted(0.25))
        .prop_flat_map(|(iv, known, twice, uols, repeated)| {
            let up = prop_oneof![Just("..".to_string()), Just("../..".to_string()), "[a-d]{1,1}", "\\.\\./[a-d]{1,1}", "\\.\\./[a-d]/[a-d]"].prop_map(|s| V::Uol(S(s, 0)));
            let l = if uols { prop_oneof![4 => leaf(iv), 2 => up].boxed() } else { leaf(iv) };
            let t = tree_with(l, 4, 40);
            (t, Just((iv, known, twice, uols, repeated)), any::<u64>())
        })
        .prop_map(|(tree, (iv, known, twice, uols, repeated), seed)| {
            let mut tree = if uols || repeated { few_names(tree, seed) } else { tree };
            if !repeated {
                tree = dedup_all(tree);
            }
            Image { tree, iv, known, twice, odd: uols || repeated }
        })
        .boxed()
}
/// most names from a small set
fn few_names(t: Vec<(S, V)>, seed: u64) -> Vec<(S, V)> {
    let mut seed = seed | 1;
    fn go(t: Vec<(S, V)>, r: &mut u64) -> Vec<(S, V)> {
        t.into_iter()
            .map(|(n, v)| {
                *r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let k = (*r >> 40) % 6;
                let n = if k < 4 { S(["a", "b", "c", "d"][k as usize].into(), n.1 & 3) } else { n };
                let v = match v {
                    V::Sub(l) => V::Sub(go(l, r)),
                    v => v,
                };
                (n, v)
            })
            .collect()
    }
    go(t, &mut seed)
}
fn dedup_all(t: Vec<(S, V)>) -> Vec<(S, V)> {
    dedup(t)
        .into_iter()
        .map(|(n, v)| {
            let v = match v {
                V::Sub(l) => V::Sub(dedup_all(l)),
                v => v,
            };
            (n, v)
        })
        .collect()
}
fn image(c: &Image, o: &mut Obs) -> Result<(), String> {
    let sc = Scratch::new();
    let path = sc.write("00001000.img", &encode_image(&c.tree, c.iv)).display().to_string();
    let q = Req { kind: Kind::Img, path, iv: c.known.then_some(c.iv), version: None, twice: c.twice };
    let mut order = vec![];
    order_tree(&c.tree, "", &mut order);
    o.nontrivial = count(&c.tree) >= 3;
    o.class_if(c.odd, "repeated names or links");
    let r = same(&q, (c.known && !c.odd).then_some(&order), o)?;
    o.class_if(r.lines[0].0 == "(open)", "not opened");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pixels {
    c: px::Canvas,
    /// cut or lengthened data
    cut: Option<u16>,
    iv: [u8; 4],
}
fn pixels_strat() -> BoxedStrategy<Pixels> {
    (prop_oneof![2 => px::canvas(false), 1 => px::canvas(true)], proptest::option::weighted(0.3, any::<u16>()), region_iv()).prop_map(|(c, cut, iv)| Pixels { c, cut, iv }).boxed()
}
fn pixels(c: &Pixels, o: &mut Obs) -> Result<(), String> {
    let sc = Scratch::new();
    let (f1, f2) = c.c.f.parts(c.c.split);
    let mut px = c.c.clone();
    if let Some(k) = c.cut {
        // fewer pixels than the size needs
        let n = px.data.len();
        px.data.truncate((n * k as usize) >> 16);
        o.class("too few pixels");
    }
    let data = px.stored(c.iv);
    let tree = vec![(S("c".into(), 0), V::Canvas { kids: None, w: c.c.w as i32, h: c.c.h as i32, f1, f2, pages: 0, data })];
    let path = sc.write("a.img", &encode_image(&tree, c.iv)).display().to_string();
    o.nontrivial = c.c.w * c.c.h >= 16;
    o.class_if(c.c.w * c.c.h >= 10000, "10000 pixels or more");
    o.class(fmt_name(c.c.f));
    same(&Req { kind: Kind::Img, path, iv: Some(c.iv), version: None, twice: false }, None, o).map(|_| ())
}
fn fmt_name(f: px::F) -> &'static str {
    // the names live as long as the program
    static NAMES: std::sync::Mutex<Vec<(u32, &'static str)>> = std::sync::Mutex::new(vec![]);
    let mut l = NAMES.lock().unwrap();
    if let Some(x) = l.iter().find(|x| x.0 == f.code()) {
        return x.1;
    }
    let s: &'static str = Box::leak(format!("{f:?}").into_boxed_str());
    l.push((f.code(), s));
    s
}

fn ms_strat() -> BoxedStrategy<Ms> {
    any::<bool>().prop_flat_map(|v2| ms(v2, tree_with(leaf(IV_BMS), 3, 12).prop_map(|t| encode_image(&dedup_all(t), IV_BMS)).boxed())).boxed()
}
fn ms_file(c: &Ms, o: &mut Obs) -> Result<(), String> {
    let sc = Scratch::new();
    let path = sc.write(&c.name, &c.encode().0).display().to_string();
    o.nontrivial = !c.entries.is_empty();
    o.class(if c.v2 { "version 2" } else { "version 1" });
    same(&Req { kind: Kind::Ms, path, iv: None, version: None, twice: false }, None, o).map(|_| ())
}

fn pkg2_strat() -> BoxedStrategy<Pkg2> {
    // finding the hash of the others takes too long
    c03::pkg2(1).prop_filter("64-bit", |c| c.p.is64()).boxed()
}
fn pkg2(c: &Pkg2, o: &mut Obs) -> Result<(), String> {
    if !c03::classify(c, o) {
        return Ok(());
    }
    let sc = Scratch::new();
    let (b, laid) = c.encode();
    let path = sc.write("Arc.wz", &b).display().to_string();
    let mut order = vec![];
    order_laid(&laid, "", &mut order);
    same(&Req { kind: Kind::Wz, path, iv: None, version: None, twice: false }, Some(&order), o).map(|_| ())
}

fn base(c: &c20::Case, o: &mut Obs) -> Result<(), String> {
    let sc = Scratch::new();
    let path = c.install(&sc, o).display().to_string();
    o.nontrivial = true;
    same(&Req { kind: Kind::Base, path, iv: None, version: None, twice: false }, None, o).map(|_| ())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Whole {
    A(Archive),
    I(Image),
    M(Ms),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damaged {
    w: Whole,
    /// where, what and how
    hits: Vec<(u32, u8, u8)>,
}
fn damaged_strat() -> BoxedStrategy<Damaged> {
    let w = prop_oneof![2 => archive_strat().prop_map(Whole::A), 4 => image_strat().prop_map(Whole::I), 1 => ms_strat().prop_map(Whole::M)];
    (w, vec((any::<u32>(), any::<u8>(), 0u8..5), 1..6)).prop_map(|(w, hits)| Damaged { w, hits }).boxed()
}
fn damaged(c: &Damaged, o: &mut Obs) -> Result<(), String> {
    let sc = Scratch::new();
    let (mut b, name, mut q) = match &c.w {
        Whole::A(a) => (a.p.encode().0, "Arc.wz".to_string(), Req { kind: Kind::Wz, path: String::new(), iv: Some(a.p.iv), version: Some(a.p.version), twice: a.twice }),
        Whole::I(i) => (encode_image(&i.tree, i.iv), "a.img".to_string(), Req { kind: Kind::Img, path: String::new(), iv: Some(i.iv), version: None, twice: i.twice }),
        Whole::M(m) => (m.encode().0, m.name.clone(), Req { kind: Kind::Ms, path: String::new(), iv: None, version: None, twice: false }),
    };
    for (at, x, how) in &c.hits {
        // the kind of file stays
        if b.len() <= 16 {
            break;
        }
        let i = 4 + *at as usize % (b.len() - 4);
        match how {
            0 => b[i] = *x,
            1 => b[i] ^= 1 << (x % 8),
            2 => b[i] = [0, 0xff, 0x7f, 0x80][*x as usize % 4],
            3 => {
                b.insert(i, *x);
            }
            _ if *x < 60 => b.truncate(i),
            _ => {
                b.remove(i);
            }
        }
    }
    q.path = sc.write(&name, &b).display().to_string();
    o.nontrivial = true;
    same(&q, None, o).map(|_| ())
}

pub fn property() -> Property {
    Property {
        id: "C23",
        subs: vec![
            check!("archive", "at least two entries", 400, 12000, archive_strat, archive),
            check!("image", "at least three nodes", 500, 20000, image_strat, image),
            check!("pixels", "at least 16 pixels", 500, 20000, pixels_strat, pixels),
            check!("ms", "at least one entry", 150, 4000, ms_strat, ms_file),
            check!("pkg2", "at least two entries", 150, 4000, pkg2_strat, pkg2),
            check!("base", "every case", 60, 1500, c20::strat, base),
            check!("damaged", "every case", 600, 25000, damaged_strat, damaged),
        ],
        assumptions: &[
            "the default build is the reference; that it is right is checked by the other properties",
            "the stored order of a name that is repeated, or that a link replaces, or of merged folders is not specified",
        ],
        threads: 8,
    }
}
