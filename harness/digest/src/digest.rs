//! Everything the library tells about a file. Built into the harness and, for every other feature
//! configuration, into a server that answers requests.
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use wz_reader::property::get_image;
use wz_reader::util::{resolve_base, walk_node};
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast, WzObjectType, GLOBAL_STRING_DECRYPTOR};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Wz,
    Ms,
    Img,
    Base,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    pub kind: Kind,
    pub path: String,
    pub iv: Option<[u8; 4]>,
    pub version: Option<i32>,
    /// parse and unparse before
    pub twice: bool,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Resp {
    /// path and content of every node
    pub lines: Vec<(String, String)>,
    /// names of the children of every node, in the order they come
    pub order: Vec<(String, Vec<String>)>,
    /// names in the order they are walked
    pub walk: Vec<String>,
    /// exported json, and what the tree is after a round trip through it
    pub json: Option<(String, Vec<String>)>,
}
/// starts an answer of the server
pub const MARK: &str = "\u{1}wzdigest\u{2}";
pub const MAX_NODES: usize = 4000;

fn fnv(b: &[u8]) -> String {
    format!("{}:{:016x}", b.len(), b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)))
}
fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("panic: {}", m.unwrap_or_default())
    })
}
fn picture(r: Result<image::DynamicImage, impl std::fmt::Display>) -> String {
    match r {
        Ok(i) => format!("{}x{} {:?} {}", i.width(), i.height(), i.color(), fnv(i.as_bytes())),
        Err(e) => format!("refused: {e}"),
    }
}
fn content(n: &WzNodeArc) -> String {
    let r = n.read().unwrap();
    let mut v = match &r.object_type {
        WzObjectType::File(f) => format!("file {:?} {} {}", f.wz_file_meta.hash, f.wz_file_meta.patch_version, f.offset),
        WzObjectType::MsFile(_) => "ms file".to_string(),
        WzObjectType::Directory(d) => format!("directory {} {}", d.offset, d.block_size),
        WzObjectType::Image(i) => format!("image {} {} {}", i.offset, i.block_size, i.name),
        WzObjectType::MsImage(_) => "ms image".to_string(),
        WzObjectType::Property(_) | WzObjectType::Value(_) => {
            if let Some(s) = r.try_as_string() {
                format!("string {:?}", s.get_string().map_err(|e| e.to_string()))
            } else if let Some(u) = r.try_as_uol() {
                format!("uol {:?}", u.get_string().map_err(|e| e.to_string()))
            } else if let Some(s) = r.try_as_sound() {
                let mut wav = std::io::Cursor::new(vec![]);
                let wrote = s.write_to(&mut wav).map_err(|e| e.to_string());
                format!("sound {:?} {} {} {wrote:?} {}", s.sound_type, s.duration, fnv(&s.get_buffer()), fnv(wav.get_ref()))
            } else if let Some(l) = r.try_as_lua() {
                format!("lua {:?}", l.extract_lua().map_err(|e| e.to_string()))
            } else if let Some(d) = r.try_as_raw_data() {
                format!("raw {}", fnv(d.get_buffer()))
            } else if let Some(d) = r.try_as_video() {
                format!("video {}", fnv(d.get_buffer()))
            } else if let Some(p) = r.try_as_png() {
                format!("png {}x{} {:?} {}", p.width, p.height, p.format(), picture(p.extract_png()))
            } else if let Some(f) = r.try_as_float() {
                format!("float {:08x}", f.to_bits())
            } else if let Some(f) = r.try_as_double() {
                format!("double {:016x}", f.to_bits())
            } else if let WzObjectType::Value(v) = &r.object_type {
                format!("{v:?}")
            } else {
                let kind = (r.is_sub_property(), r.is_convex());
                format!("property {kind:?}")
            }
        }
    };
    let png = r.try_as_png().is_some();
    let name = r.name.to_string();
    drop(r);
    if png {
        v = format!("{v} -> {}", picture(get_image(n)));
    }
    format!("{name:?} {v}")
}
fn kids(n: &WzNodeArc) -> Vec<(String, WzNodeArc)> {
    n.read().unwrap().children.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}
fn can_parse(n: &WzNodeArc) -> bool {
    !matches!(n.read().unwrap().object_type, WzObjectType::Property(_) | WzObjectType::Value(_))
}

fn open(q: &Req) -> Result<WzNodeArc, String> {
    let key: Option<SharedWzStringDecryptor> = q.iv.map(|iv| GLOBAL_STRING_DECRYPTOR.get_decryptor_by_iv(iv));
    let n = match q.kind {
        Kind::Wz => WzNode::from_wz_file_full(&q.path, None, q.version, None, key.as_ref()).map(|n| n.into_lock()),
        Kind::Ms => WzNode::from_ms_file(&q.path, None).map(|n| n.into_lock()),
        Kind::Img => match q.iv {
            Some(iv) => WzNode::from_img_file_with_iv(&q.path, iv, None).map(|n| n.into_lock()),
            None => WzNode::from_img_file(&q.path, None, None).map(|n| n.into_lock()),
        },
        Kind::Base => return resolve_base(&q.path, None).map_err(|e| format!("resolve_base: {e}")),
    };
    n.map_err(|e| format!("open: {e}"))
}
/// Children are gone through by name, so that a limit ends it at the same node everywhere.
fn list(r: &mut Resp, n: &WzNodeArc, path: String, unparse: bool) {
    let mut todo = vec![(path, Arc::clone(n))];
    while let Some((path, n)) = todo.pop() {
        if r.lines.len() >= MAX_NODES {
            return;
        }
        if can_parse(&n) {
            let parsed = caught(|| {
                let mut w = n.write().unwrap();
                let mut p = w.parse(&n).map_err(|e| e.to_string());
                if unparse && p.is_ok() && matches!(w.object_type, WzObjectType::Image(_)) {
                    w.unparse();
                    p = w.parse(&n).map_err(|e| e.to_string());
                }
                p
            });
            if !matches!(parsed, Ok(Ok(()))) {
                r.lines.push((format!("{path} (parsing)"), format!("{parsed:?}")));
                if parsed.is_err() {
                    return;
                }
            }
        }
        r.lines.push((path.clone(), caught(|| content(&n)).unwrap_or_else(|e| e)));
        let mut k = kids(&n);
        if !k.is_empty() {
            r.order.push((path.clone(), k.iter().map(|x| x.0.clone()).collect()));
        }
        k.sort_by(|a, b| b.0.cmp(&a.0));
        todo.extend(k.into_iter().map(|(name, c)| (format!("{path}/{name}"), c)));
    }
}
pub fn digest(q: &Req) -> Resp {
    let mut r = Resp::default();
    let n = match caught(|| open(q)) {
        Ok(Ok(n)) => n,
        e => {
            r.lines.push(("(open)".into(), format!("{:?}", e.map(|e| e.map(|_| ())))));
            return r;
        }
    };
    list(&mut r, &n, String::new(), q.twice);
    r.order.sort();
    if r.lines.len() < MAX_NODES && r.lines.iter().all(|l| !l.1.starts_with("panic")) {
        let w = caught(|| {
            let n = open(q)?;
            let l = Mutex::new(vec![]);
            walk_node(&n, true, &|n| l.lock().unwrap().push(n.read().unwrap().name.to_string()));
            Ok::<_, String>(l.into_inner().unwrap())
        });
        r.walk = match w {
            Ok(Ok(l)) => l,
            e => vec![format!("{:?}", e.map(|e| e.map(|_| ())))],
        };
        #[cfg(feature = "json")]
        {
            r.json = Some(json(&n).unwrap_or_else(|e| (e, vec![])));
        }
    }
    r
}
#[cfg(feature = "json")]
fn json(n: &WzNodeArc) -> Result<(String, Vec<String>), String> {
    caught(|| {
        let r = n.read().unwrap();
        // which of several things that can't be written comes first depends on the order
        let text = format!("{:?} {:?}", r.to_simple_json().map_err(|_| ()), r.to_json().map_err(|_| ()));
        let text = format!("{} {}", text.chars().take(3000).collect::<String>(), fnv(text.as_bytes()));
        let mut back = vec![];
        if let Ok(s) = serde_json::to_string(&*r) {
            match serde_json::from_str::<WzNode>(&s) {
                Ok(n) => {
                    let mut todo = vec![(String::new(), n.into_lock())];
                    while let Some((path, n)) = todo.pop() {
                        back.push(path.clone());
                        let mut k = kids(&n);
                        k.sort_by(|a, b| b.0.cmp(&a.0));
                        todo.extend(k.into_iter().map(|(name, c)| (format!("{path}/{name}"), c)));
                    }
                }
                Err(e) => back.push(format!("error {}", e.to_string().split(" at line").next().unwrap_or(""))),
            }
        }
        (text, back)
    })
}
