//! C05 strings: encryption round trip, all read paths, cursor movement
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use crate::RwLock;
use std::sync::Arc;
use wz_reader::property::{WzString, WzStringMeta, WzStringType};
use wz_reader::util::string_decryptor::{DecrypterType, Pkg2Decryptor, SharedWzStringDecryptor};
use wz_reader::{reader, Reader, WzReader};

pub fn texts() -> BoxedStrategy<String> {
    prop_oneof![
        60 => any_text(),
        20 => (prop_oneof![120usize..135, 250usize..260, 4090usize..4100, 60usize..66], any::<char>(), any::<bool>())
            .prop_map(|(n, c, ascii)| if ascii { "k".repeat(n) } else { c.to_string().repeat(n) }),
        10 => vec(prop_oneof![Just('\u{1F600}'), Just('\u{10FFFF}'), Just('\u{FFFF}'), Just('\u{0}'), Just('\u{80}'), any::<char>()], 0..140)
            .prop_map(|v| v.into_iter().collect()),
        // the counters of the masks and the units of the keystream go around
        1 => (prop_oneof![21_840usize..21_850, 32_765usize..32_770, 65_530usize..65_545, 65_536usize..70_000], prop_oneof![Just('x'), Just('é'), Just('한'), Just('\u{1F600}')], any::<char>())
            .prop_map(|(n, c, d)| {
                let mut t = c.to_string().repeat(n / c.len_utf16());
                t.push(d);
                t
            }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Txt {
    text: String,
    iv: [u8; 4],
    key: u64,
}
fn txt_strat() -> BoxedStrategy<Txt> {
    (texts(), any_iv(), any::<u64>()).prop_map(|(text, iv, key)| Txt { text, iv, key }).boxed()
}
fn eq(what: &str, got: Result<String, impl std::fmt::Display>, want: &str) -> Result<(), String> {
    match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(format!("{what}: read {g:?}, stored {want:?}")),
        Err(e) => Err(format!("{what}: error {e}, stored {want:?}")),
    }
}

fn value(c: &Txt, o: &mut Obs) -> Result<(), String> {
    let t = &c.text;
    o.nontrivial = !t.is_empty();
    o.class(if t.is_empty() { "empty" } else if t.is_ascii() { "single byte" } else { "UTF-16" });
    o.class_if(t.chars().any(|c| c as u32 > 0xffff), "outside the basic plane");
    o.class_if(t.encode_utf16().count() > 127, "128 units or more");
    o.class_if(t.encode_utf16().count() > 65535, "65536 units or more");
    let s = WzString::from_str(t, c.iv);
    for k in 0..2 {
        eq(&format!("from_str, read {}", k + 1), s.get_string(), t)?;
    }
    let s = WzString::from_str_pkg2_dir(t);
    for k in 0..2 {
        eq(&format!("from_str_pkg2_dir, read {}", k + 1), s.get_string(), t)?;
    }
    // writing with a reader's key, against the format's own definition
    let u: Vec<u16> = t.encode_utf16().collect();
    let w = WzReader::from_buff(b"x").with_iv(c.iv);
    let e = w.encrypt_str(t, &WzStringType::Unicode);
    if e != enc_unicode(&u, c.iv) {
        return Err("encrypt_str: wrong UTF-16 bytes".into());
    }
    let r = WzReader::from_buff(&e).with_iv(c.iv);
    if !t.is_empty() {
        eq("encrypt_str UTF-16", r.resolve_wz_string_meta(&WzStringType::Unicode, 0, u.len() * 2), t)?;
        eq("encrypt_str UTF-16, strict", r.try_resolve_wz_string_meta(&WzStringType::Unicode, 0, u.len() * 2), t)?;
    }
    let e = w.encrypt_str(t, &WzStringType::Ascii);
    if e != enc_ascii(t.as_bytes(), c.iv) {
        return Err("encrypt_str: wrong single-byte bytes".into());
    }
    if !t.is_empty() {
        let r = WzReader::from_buff(&e).with_iv(c.iv);
        eq("encrypt_str single byte", r.resolve_wz_string_meta(&WzStringType::Ascii, 0, t.len()), t)?;
        eq("encrypt_str single byte, strict", r.try_resolve_wz_string_meta(&WzStringType::Ascii, 0, t.len()), t)?;
    }
    if !w.encrypt_str(t, &WzStringType::Empty).is_empty() {
        return Err("encrypt_str: empty kind wrote bytes".into());
    }
    // the PKG2 directory form: plain xor with an eight-byte key
    let keys: SharedWzStringDecryptor = Arc::new(RwLock::new(Pkg2Decryptor::new_with_key(c.key, DecrypterType::KMST1202)));
    let w = WzReader::from_buff(b"x").with_existing_keys(keys.clone());
    let e = w.encrypt_str(t, &WzStringType::Pkg2Dir);
    let b = c.key.to_le_bytes();
    let k = [b[0], b[1], b[1], b[2], b[2], b[3], b[3], b[4]];
    let want: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).enumerate().map(|(i, x)| x ^ k[i % 8]).collect();
    if e != want {
        return Err("encrypt_str: wrong PKG2 name bytes".into());
    }
    if !t.is_empty() {
        let r = WzReader::from_buff(&e).with_existing_keys(keys);
        eq("encrypt_str PKG2 name", r.resolve_wz_string_meta(&WzStringType::Pkg2Dir, 0, u.len() * 2), t)?;
        eq("encrypt_str PKG2 name, strict", r.try_resolve_wz_string_meta(&WzStringType::Pkg2Dir, 0, u.len() * 2), t)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    /// a string in stored form
    Plain(S),
    /// a string block: tag byte, then the string or the 4-byte offset of item `.1`
    Block(S),
    /// counted from the base of the references, or from a place behind the string
    Ref(u8, bool, bool),
    /// PKG2 name, i8 and i16 length
    Dir(String, bool),
    Gap(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Walk {
    iv: [u8; 4],
    key: u64,
    base: u8,
    items: Vec<Item>,
    /// (item, how)
    reads: Vec<(u8, u8)>,
}
fn walk_strat() -> BoxedStrategy<Walk> {
    let s = || (texts(), any_mode()).prop_map(|(t, m)| S(t, m & !4));
    let item = prop_oneof![
        4 => s().prop_map(Item::Plain),
        2 => s().prop_map(Item::Block),
        2 => (any::<u8>(), any::<bool>(), proptest::bool::weighted(0.3)).prop_map(|(k, a, b)| Item::Ref(k, a, b)),
        1 => (texts(), any::<bool>()).prop_map(|(t, w)| {
            let t: String = t.chars().take(63).collect();
            Item::Dir(t, w)
        }),
        1 => blob(9).prop_map(Item::Gap),
    ];
    (any_iv(), any::<u64>(), 0u8..40, vec(item, 1..9), vec((any::<u8>(), any::<u8>()), 1..24))
        .prop_map(|(iv, key, base, items, reads)| Walk { iv, key, base, items, reads })
        .boxed()
}

struct At {
    pos: usize,
    end: usize,
    text: String,
    kind: u8, // 0 plain, 1 block, 2 dir i8, 3 dir i16, 4 gap
}

/// base of the references that lead backwards
const BEHIND: usize = 0x7fff_0000;

/// Every read starts wherever it likes; text, cursor and repeatability are checked after each.
fn cursor(c: &Walk, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = c.items.len() >= 2 && c.reads.len() >= 3;
    let base = c.base as usize;
    let mut w = W::default();
    w.bytes(&vec![0x55; base]);
    let mut at: Vec<At> = vec![];
    let b = c.key.to_le_bytes();
    let k = [b[0], b[1], b[1], b[2], b[2], b[3], b[3], b[4]];
    for it in &c.items {
        let pos = w.pos();
        let (text, kind) = match it {
            Item::Plain(s) => {
                w.wz_str(&s.0, c.iv, s.1 & 1 != 0, s.1 & 2 != 0);
                (s.0.clone(), 0)
            }
            Item::Block(s) => {
                w.u8(if s.1 & 8 != 0 { 0x73 } else { 0 });
                w.wz_str(&s.0, c.iv, s.1 & 1 != 0, s.1 & 2 != 0);
                (s.0.clone(), 1)
            }
            Item::Ref(n, alt, behind) => {
                let l: Vec<&At> = at.iter().filter(|a| a.kind <= 1).collect();
                if l.is_empty() {
                    continue;
                }
                let t = l[*n as usize % l.len()];
                let (p, text) = (t.pos + t.kind as usize, t.text.clone());
                w.u8(if *alt { 0x1B } else { 1 });
                w.i32(p as i32 - if *behind { BEHIND } else { base } as i32);
                (text, if *behind { 6 } else { 5 })
            }
            Item::Dir(t, wide) => {
                let u: Vec<u16> = t.encode_utf16().collect();
                if *wide {
                    w.i16(-(u.len() as i16));
                } else {
                    w.u8((-(u.len() as i32)) as i8 as u8);
                }
                let e: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).enumerate().map(|(i, x)| x ^ k[i % 8]).collect();
                w.bytes(&e);
                (t.clone(), if *wide { 3 } else { 2 })
            }
            Item::Gap(g) => {
                w.bytes(g);
                (String::new(), 4)
            }
        };
        at.push(At { pos, end: w.pos(), text, kind });
    }
    let keys: SharedWzStringDecryptor = Arc::new(RwLock::new(Pkg2Decryptor::new_with_key(c.key, DecrypterType::KMST1202)));
    let whole = mem_reader(&w.0, c.iv);
    let r = whole.create_slice_reader().with_pkg2_keys(&keys);
    let p2 = WzReader::from_buff(&w.0).with_existing_keys(keys.clone());
    let deferred = |m: WzStringMeta, what: &str, t: &str| -> Result<(), String> {
        eq(what, r.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize), t)?;
        eq(what, r.try_resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize), t)?;
        let big = if m.string_type == WzStringType::Pkg2Dir { &p2 } else { &*whole };
        eq(what, big.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize), t)?;
        eq(what, big.try_resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize), t)?;
        if m.string_type != WzStringType::Pkg2Dir {
            let s = WzString::from_meta(m, &whole);
            eq(what, s.get_string(), t)?;
            eq(what, s.get_string(), t)?;
        }
        Ok(())
    };
    if at.is_empty() {
        return Ok(());
    }
    for (i, (n, how)) in c.reads.iter().enumerate() {
        let a = &at[*n as usize % at.len()];
        let what = format!("read {i}: item at {} kind {} way {}", a.pos, a.kind, how % 4);
        let before = r.pos.get();
        if how % 16 == 15 {
            // one that cannot be read, first
            let out = w.pos() + *n as usize;
            if r.read_wz_string_at_offset(out).is_ok() || r.read_wz_string_meta_at(out).is_ok() {
                return Err(format!("read {i}: a string read at {out}, the buffer ends at {}", w.pos()));
            }
            if r.pos.get() != before {
                return Err(format!("read {i}: cursor at {} after a failed read at another offset, expected {before}", r.pos.get()));
            }
        }
        let moved = |end: usize| -> Result<(), String> {
            if r.pos.get() != end {
                return Err(format!("{what}: cursor at {}, expected {end}", r.pos.get()));
            }
            Ok(())
        };
        match a.kind {
            0 => match how % 4 {
                0 => {
                    r.seek(a.pos);
                    eq(&what, r.read_wz_string(), &a.text)?;
                    moved(a.end)?;
                }
                1 => {
                    r.seek(a.pos);
                    let m = r.read_wz_string_meta().map_err(|e| format!("{what}: {e}"))?;
                    moved(a.end)?;
                    deferred(m, &what, &a.text)?;
                    moved(a.end)?;
                }
                2 => {
                    eq(&what, r.read_wz_string_at_offset(a.pos), &a.text)?;
                    moved(before)?;
                }
                _ => {
                    let m = r.read_wz_string_meta_at(a.pos).map_err(|e| format!("{what}: {e}"))?;
                    moved(before)?;
                    deferred(m, &what, &a.text)?;
                }
            },
            1 | 5 | 6 => {
                let base = if a.kind == 6 { BEHIND } else { base };
                r.seek(a.pos);
                if how % 2 == 0 {
                    eq(&what, r.read_wz_string_block(base), &a.text)?;
                    moved(a.end)?;
                } else {
                    let m = r.read_wz_string_block_meta(base).map_err(|e| format!("{what}: {e}"))?;
                    moved(a.end)?;
                    deferred(m, &what, &a.text)?;
                }
            }
            2 => {
                r.seek(a.pos);
                if how % 2 == 0 {
                    eq(&what, r.read_wz_string_pkg2_dir(), &a.text)?;
                } else {
                    let m = r.read_wz_string_pkg2_dir_meta().map_err(|e| format!("{what}: {e}"))?;
                    deferred(m, &what, &a.text)?;
                }
                moved(a.end)?;
            }
            3 => {
                r.seek(a.pos);
                let m = r.read_wz_string_pkg2_u64_dir_meta().map_err(|e| format!("{what}: {e}"))?;
                moved(a.end)?;
                deferred(m, &what, &a.text)?;
            }
            _ => {
                r.skip(a.end - a.pos);
                moved(before + a.end - a.pos)?;
            }
        }
        // the plain functions know no key
        if c.iv == [0; 4] {
            match a.kind {
                0 => eq("read_wz_string function", reader::read_wz_string(&w.0[a.pos..]), &a.text)?,
                1 => eq("read_wz_string_block function", reader::read_wz_string_block(&w.0[a.pos..], 0), &a.text)?,
                5 => {
                    // its offset counts from the start of the slice it gets
                    let mut v = w.0[a.pos..a.end].to_vec();
                    v.extend_from_slice(&w.0[base..]);
                    eq("read_wz_string_block function", reader::read_wz_string_block(&v, 5), &a.text)?;
                }
                _ => {}
            }
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C05",
        threads: 8,
        assumptions: &["AES-256 block cipher of the aes crate"],
        subs: vec![
            check!("value", "a text built into a string value or encrypted by a reader, compared with the format's definition and read back; non-trivial: not empty", 6000, 200000, txt_strat, value),
            check!("cursor", "strings of every stored form in one buffer, read in random order and ways on one cursor; non-trivial: 2+ items, 3+ reads", 4000, 120000, walk_strat, cursor),
        ],
    }
}
