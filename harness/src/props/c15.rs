//! C15 scripts, texts, raw data, videos
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use wz_reader::property::{WzLua, WzRawData, WzVideo};
use wz_reader::{WzNode, WzNodeArc, WzNodeCast};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Script {
    text: String,
    iv: [u8; 4],
    long: bool,
}
fn script() -> BoxedStrategy<Script> {
    let line = prop_oneof![
        3 => "[ -~]{0,40}".prop_map(|s| s),
        2 => any_text(),
        1 => proptest::sample::select(vec!["-- 한글 주석 설명", "local x = \"日本語テキスト\"", "\u{1F600}\u{1F600}", "\u{feff}", "é", "\0", "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}"]).prop_map(String::from),
    ];
    let text = prop_oneof![
        5 => vec(line.clone(), 0..12).prop_map(|v| v.join("\n")),
        2 => vec(line, 0..90).prop_map(|v| v.join("\n")),
        // lengths around the 64 byte sample, the one-byte length and the key batches
        3 => (prop_oneof![Just(64usize), Just(127), Just(128), Just(4096), Just(8192), Just(65536)], 0usize..9, proptest::sample::select(vec!["a", "é", "한", "\u{1F600}"]), 0usize..4)
            .prop_map(|(n, d, c, shift)| { let mut s = "x".repeat(shift); while s.len() + c.len() <= n + d - 4.min(n + d) { s.push_str(c); } s }),
    ];
    // and now and then a very long one, which is kept short in a replay by being repetitive
    let text = prop_oneof![
        600 => text,
        1 => ((1usize << 20) - 4..(1 << 20) + 40000, "[ -~]{20,40}").prop_map(|(n, s)| { let mut t = s.repeat(n / s.len() + 1); t.truncate(n); t }),
    ];
    (text, region_iv(), any::<bool>()).prop_map(|(text, iv, long)| Script { text, iv, long }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C {
    scripts: Vec<Script>,
    offset: usize,
    reader_iv: [u8; 4],
    order: Vec<u8>,
}
fn cstrat() -> BoxedStrategy<C> {
    (vec(script(), 1..4), 0usize..50, any_iv(), vec(any::<u8>(), 1..6))
        .prop_map(|(scripts, offset, reader_iv, order)| C { scripts, offset, reader_iv, order })
        .boxed()
}

fn scripts(c: &C, o: &mut Obs) -> Result<(), String> {
    // several scripts one after the other in a file
    let mut w = W(vec![0xA5; c.offset], None);
    let mut at = vec![];
    for s in &c.scripts {
        let start = w.pos();
        w.u8(1);
        w.wz_int(s.text.len() as i32, s.long);
        let data = w.pos();
        let mut d = s.text.as_bytes().to_vec();
        xor_stream(&mut d, s.iv);
        w.bytes(&d);
        at.push((start, data, w.pos()));
        w.bytes(&[0xC3, 0x28, 0xff]);
    }
    let rd = mem_reader(&w.0, c.reader_iv);
    let sure: Vec<bool> = c.scripts.iter().map(|s| !lua_ambiguous(&s.text, s.iv)).collect();
    o.nontrivial = c.scripts.iter().zip(&sure).any(|(s, u)| *u && !s.text.is_empty());
    o.class_if(c.scripts.iter().any(|s| s.text.len() > 64), "longer than the sample");
    o.class_if(c.scripts.iter().zip(&sure).any(|(s, u)| *u && s.text.len() > 4096), "longer than a key batch");
    o.class_if(c.scripts.iter().zip(&sure).any(|(s, u)| *u && s.text.len() > 1 << 20), "over 1 MiB");
    o.class_if(c.scripts.iter().zip(&sure).any(|(s, u)| *u && s.text.len() > 64 && !s.text.is_char_boundary(64)), "sample ends inside a character");
    o.class_if(sure.contains(&false), "text under an earlier key too (not judged)");
    let nodes: Vec<WzNodeArc> = at
        .iter()
        .enumerate()
        .map(|(i, (start, _, end))| {
            let name = format!("s{i}.lua").into();
            WzNode::new(&name, wz_reader::WzImage::new(&name, *start, end - start, &rd), None).into_lock()
        })
        .collect();
    for k in &c.order {
        let i = *k as usize % nodes.len();
        let (s, n) = (&c.scripts[i], &nodes[i]);
        n.write().unwrap().parse(n).map_err(|e| format!("script {i}: parse: {e}"))?;
        let r = n.read().unwrap();
        if r.children.len() != 1 {
            return Err(format!("script {i}: {} children", r.children.len()));
        }
        let x = r.at("Script").ok_or("no Script child")?;
        let x = x.read().unwrap();
        let l = x.try_as_lua().ok_or("Script is no lua value")?;
        if !sure[i] {
            let _ = l.extract_lua();
            continue;
        }
        for lua in [l, &WzLua::new(&rd, at[i].1, s.text.len())] {
            match lua.extract_lua() {
                Ok(g) if g == s.text => {}
                Ok(g) => {
                    let d = g.bytes().zip(s.text.bytes()).position(|(a, b)| a != b);
                    return Err(format!("script {i} of {} bytes: got {} bytes, first difference at {d:?}", s.text.len(), g.len()));
                }
                Err(e) => return Err(format!("script {i} of {} bytes: {e}", s.text.len())),
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Txt,
    Packed,
    Raw(u8, bool),
    Video,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct D {
    items: Vec<(Kind, Vec<u8>, String)>,
    offset: usize,
    iv: [u8; 4],
}
fn dstrat() -> BoxedStrategy<D> {
    let kind = prop_oneof![
        Just(Kind::Txt),
        Just(Kind::Packed),
        (prop_oneof![Just(1u8), Just(0), Just(2)], any::<bool>()).prop_map(|(v, k)| Kind::Raw(v, k)),
        Just(Kind::Video)
    ];
    let data = prop_oneof![
        4 => blob(200),
        1 => (125usize..131, any::<u8>()).prop_map(|(n, b)| vec![b; n]),
        1 => vec(any::<u8>(), 3000..6000),
        2 => "#?P?r?(operty)?[a-z =\\{\\},0-9]{0,60}".prop_map(|s| s.into_bytes()),
    ];
    let stem = prop_oneof![3 => "[a-zA-Z0-9_.]{0,8}", 1 => "[a-z]{0,4}\\.(txt|lua|TXT|img)", 1 => "[a-z]{0,4}\\.(txt|lua)[a-z0-9.]{1,3}", 1 => any_text().prop_map(|t| t.replace('/', ""))];
    (vec((kind, data, stem), 1..5), 0usize..40, any_iv()).prop_map(|(items, offset, iv)| D { items, offset, iv }).boxed()
}

fn data(c: &D, o: &mut Obs) -> Result<(), String> {
    let mut file = vec![0xEEu8; c.offset];
    let mut imgs = vec![];
    let mut tree = vec![];
    o.nontrivial = c.items.iter().any(|(_, d, _)| !d.is_empty());
    for (i, (k, d, stem)) in c.items.iter().enumerate() {
        let (name, bytes) = match k {
            // any bytes at all, even those of a property image
            Kind::Txt => (format!("{stem}.txt"), if d.is_empty() { vec![0x73] } else { d.clone() }),
            // ".txt" and ".lua" have their own meaning
            Kind::Packed => (format!("{stem}.img"), encode_body(&Body::Packed(d.clone()), c.iv)),
            Kind::Raw(ver, kid) => {
                let kids = (*ver == 1 && *kid).then(|| vec![(S("k".into(), 0), V::Int(3, false, false))]);
                tree.push((S(format!("r{i}"), 0), V::Raw { ver: *ver, kids, data: d.clone() }));
                continue;
            }
            Kind::Video => {
                tree.push((S(format!("v{i}"), 4), V::Video(d.clone())));
                continue;
            }
        };
        if wz_reader::wz_image::is_lua_image(&name) || !wz_reader::wz_image::is_lua_image(&format!("{stem}.lua")) {
            return Err(format!("{name:?}: whether it is a script goes by the end of the name"));
        }
        o.class_if(name.rsplit_once('.').is_some_and(|(a, _)| a.contains(".txt") || a.contains(".lua")), "another suffix inside the name");
        let want = if matches!(k, Kind::Txt) { bytes.clone() } else { d.clone() };
        o.class(if matches!(k, Kind::Txt) { "text image" } else { "packed text" });
        imgs.push((name, file.len(), bytes.len(), want));
        file.extend_from_slice(&bytes);
        file.extend_from_slice(b"\x73behind");
    }
    o.class_if(!tree.is_empty(), "raw data or video");
    let rd = mem_reader(&file, c.iv);
    for (name, at, len, want) in &imgs {
        let nm = name.as_str().into();
        let n = WzNode::new(&nm, wz_reader::WzImage::new(&nm, *at, *len, &rd), None).into_lock();
        n.write().unwrap().parse(&n).map_err(|e| format!("{name:?}: {e}"))?;
        let r = n.read().unwrap();
        if r.children.len() != 1 {
            return Err(format!("{name:?}: {} children", r.children.len()));
        }
        let x = r.at("text.txt").ok_or("no text.txt child")?;
        let x = x.read().unwrap();
        let got = x.try_as_raw_data().ok_or("text.txt is no raw data")?.get_buffer();
        if got != &want[..] {
            return Err(format!("{name:?}: {} bytes, stored are {}", got.len(), want.len()));
        }
        if WzRawData::new(&rd, *at, *len).get_buffer() != &file[*at..*at + *len] || WzVideo::new(&rd, *at, *len).get_buffer() != &file[*at..*at + *len] {
            return Err("a range given by hand differs".into());
        }
    }
    let n = parsed("d.img", &encode_image(&tree, c.iv), c.offset, c.iv)?;
    cmp_list(&n, &tree, "d.img", true)
}

pub fn property() -> Property {
    Property {
        id: "C15",
        subs: vec![
            check!("scripts", "a script that is text under its own key only", 2500, 80000, cstrat, scripts),
            check!("data", "some stored data is not empty", 2500, 80000, dstrat, data),
        ],
        assumptions: &[
            "scripts whose first 64 bytes are also text under a key tried before their own are not judged: nothing in the file tells the keys apart",
            "a text image holds at least one byte",
        ],
        threads: 8,
    }
}
