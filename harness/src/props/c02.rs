//! C02 version and key detection
use super::c01::custom_key;
use crate::arc::*;
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::refs::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast};

fn opened(path: &std::path::Path, region: Option<[u8; 4]>, ver: Option<i32>, key: Option<&SharedWzStringDecryptor>) -> Result<WzNodeArc, String> {
    let n = WzNode::from_wz_file_full(path, region.and_then(region_of), ver, None, key).map_err(|e| format!("open: {e}"))?.into_lock();
    n.write().unwrap().parse(&n).map_err(|e| format!("parse: {e}"))?;
    Ok(n)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    arc: Pkg1,
    wrong_iv: [u8; 4],
    by_key: bool,
    wrong_ver: i32,
}

/// the first entry's name has to tell the keys apart
fn strat() -> BoxedStrategy<Case> {
    (any::<bool>(), region_iv(), any_iv(), any::<bool>())
        .prop_flat_map(|(encver, iv, wrong_iv, by_key)| {
            let first = ("[A-Za-z0-9_]{10,30}", 0u8..8, img_body()).prop_map(|(n, m, body)| E::Img { name: S(format!("{n}.img"), m), body, cks: 0 });
            let firstdir = ("[A-Za-z0-9_]{14,30}", 0u8..8).prop_map(|(n, m)| E::Dir { name: S(n, m), kids: vec![], cks: 0 });
            (
                header_text(),
                guessable_version(encver),
                prop_oneof![first.boxed(), firstdir.boxed()],
                root_entries(true, 3, 16, true),
                layout(),
                prop_oneof![3 => 1i32..=2000, 1 => 1i32..1_000_000, 1 => 770i32..=780],
            )
                .prop_map(move |(text, version, f, rest, layout, wrong_ver)| {
                    let mut root = vec![f];
                    root.extend(rest);
                    Case { arc: Pkg1 { text, version, encver, iv, root: dedup_e(root), layout }, wrong_iv, by_key, wrong_ver }
                })
        })
        .boxed()
}

fn consistent(c: &Pkg1, node: &WzNodeArc) -> Result<(), String> {
    let r = node.read().unwrap();
    let m = &r.try_as_file().ok_or("not a file")?.wz_file_meta;
    if m.hash as u32 != version_hash(m.patch_version as u32) {
        return Err(format!("reported hash {} does not belong to reported version {}", m.hash, m.patch_version));
    }
    if c.encver && encver(m.hash as u32) != encver(c.hash()) {
        return Err(format!("reported version {} contradicts the archive's version field", m.patch_version));
    }
    if m.wz_with_encrypt_version_header != c.encver {
        return Err("version field presence misreported".into());
    }
    Ok(())
}

fn detect(c: &Case, o: &mut Obs) -> Result<(), String> {
    super::c01::classify(&c.arc, o);
    let first = first_named(&c.arc.root).ok_or("HARNESS-ERROR no first name")?;
    if plausible_keys(first, c.arc.iv) != vec![c.arc.iv] {
        o.nontrivial = false;
        o.class("key ambiguous");
        return Ok(());
    }
    let (bytes, laid) = c.arc.encode();
    let sc = Scratch::new();
    let path = sc.write("Arc.wz", &bytes);
    for (region, ver) in [(None, None), (Some(c.arc.iv), None), (None, Some(c.arc.version)), (Some(c.arc.iv), Some(c.arc.version))] {
        let n = opened(&path, region, ver, None).map_err(|e| format!("key {region:?} version {ver:?}: {e}"))?;
        consistent(&c.arc, &n)?;
        if ver.is_none() {
            let r = n.read().unwrap();
            let m = &r.try_as_file().unwrap().wz_file_meta;
            let hit = m.hash as u32 == c.arc.hash();
            o.class_if(hit, "exact version found");
            if !hit && hash_fits(&laid, &bytes, c.arc.fstart(), m.hash as u32) {
                o.class("version ambiguous");
                return Ok(());
            }
            if !hit {
                return Err(format!("detected version {} instead of {}", m.patch_version, c.arc.version));
            }
        }
        cmp_dir(&n, &laid, "", true).map_err(|e| format!("key {region:?} version {ver:?}: {e}"))?;
    }
    Ok(())
}

fn wrong_key(c: &Case, o: &mut Obs) -> Result<(), String> {
    super::c01::classify(&c.arc, o);
    let first = first_named(&c.arc.root).ok_or("HARNESS-ERROR no first name")?;
    // also the wrong key itself must be told apart by the name
    let mut cand = plausible_keys(first, c.arc.iv);
    cand.retain(|k| *k != c.arc.iv);
    let wrong_fits = {
        let wide = first.1 & 1 != 0 || !first.0.is_ascii();
        let b = if wide { enc_unicode(&first.0.encode_utf16().collect::<Vec<_>>(), c.arc.iv) } else { enc_ascii(first.0.as_bytes(), c.arc.iv) };
        let ks = keystream(c.wrong_iv, &AES_KEY, b.len());
        let x: Vec<u8> = b.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
        if wide {
            x.chunks(2).enumerate().all(|(i, c)| (u16::from_le_bytes([c[0], c[1]]) ^ 0xAAAAu16.wrapping_add(i as u16)) < 0x80)
        } else {
            x.iter().enumerate().all(|(i, b)| (b ^ 0xAAu8.wrapping_add(i as u8)) < 0x80)
        }
    };
    if !cand.is_empty() || wrong_fits || c.wrong_iv == c.arc.iv {
        o.nontrivial = false;
        o.class("key ambiguous");
        return Ok(());
    }
    let (bytes, laid) = c.arc.encode();
    let sc = Scratch::new();
    let path = sc.write("Arc.wz", &bytes);
    let n = if c.by_key || region_of(c.wrong_iv).is_none() {
        o.class("by key object");
        opened(&path, None, Some(c.arc.version), Some(&custom_key(c.wrong_iv)))
    } else {
        o.class("by region");
        opened(&path, Some(c.wrong_iv), Some(c.arc.version), None)
    }
    .map_err(|e| format!("wrong key {:?}: {e}", c.wrong_iv))?;
    cmp_dir(&n, &laid, "", true).map_err(|e| format!("wrong key {:?} given: {e}", c.wrong_iv))
}

fn wrong_version(c: &Case, o: &mut Obs) -> Result<(), String> {
    super::c01::classify(&c.arc, o);
    // an archive without entries carries nothing that could contradict a version without a version field
    if version_hash(c.wrong_ver as u32) == c.arc.hash() || count_e(&c.arc.root) == 0 {
        o.nontrivial = false;
        return Ok(());
    }
    let (bytes, laid) = c.arc.encode();
    let sc = Scratch::new();
    let path = sc.write("Arc.wz", &bytes);
    if hash_fits(&laid, &bytes, c.arc.fstart(), version_hash(c.wrong_ver as u32)) {
        o.nontrivial = false;
        return Ok(());
    }
    o.class_if(c.arc.encver && encver(version_hash(c.wrong_ver as u32)) == encver(c.arc.hash()), "same version field");
    match opened(&path, Some(c.arc.iv), Some(c.wrong_ver), None) {
        Err(_) => Ok(()),
        Ok(n) => match cmp_dir(&n, &laid, "", false) {
            Ok(()) => Err(format!("version {} accepted for an archive of version {}", c.wrong_ver, c.arc.version)),
            Err(e) => Err(format!("version {} accepted for an archive of version {} and a wrong tree returned: {e}", c.wrong_ver, c.arc.version)),
        },
    }
}

/// wrong versions that share the archive's version field, which only the content can refute
fn wrong_strat() -> BoxedStrategy<Case> {
    (strat(), any::<u16>(), any::<bool>())
        .prop_map(|(mut c, k, same)| {
            if same && c.arc.encver {
                let want = encver(c.arc.hash());
                let l: Vec<i32> = (1..=2000).filter(|v| *v != c.arc.version && encver(version_hash(*v as u32)) == want).collect();
                if !l.is_empty() {
                    c.wrong_ver = l[k as usize % l.len()];
                }
            }
            c
        })
        .boxed()
}

/// the functions that tell keys by the bytes of a file
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Guess {
    arc: Pkg1,
    other: [u8; 4],
}
fn guess_strat() -> BoxedStrategy<Guess> {
    (header_text(), 1i32..=2000, any::<bool>(), any_iv(), entries(true, 2, 6, false), layout(), any_iv(), any::<bool>())
        .prop_map(|(text, version, encver, iv, mut root, layout, other, same)| {
            if same {
                if let Some(E::Img { name, .. } | E::Dir { name, .. }) = root.first_mut() {
                    *name = S(format!("a_longer_name_{}", name.0), name.1);
                }
            }
            Guess { arc: Pkg1 { text, version, encver: encver || guessable_header(&root), iv, root: dedup_e(root), layout }, other }
        })
        .boxed()
}
/// without a version field the start of the entry list must not read like one
fn guessable_header(root: &[E]) -> bool {
    root.is_empty() || root.len() > 127
}
/// the bytes of the first name under a key: (is text, is ASCII)
fn reads(first: &S, iv: [u8; 4], key: [u8; 4]) -> (bool, bool) {
    let wide = first.1 & 1 != 0 || !first.0.is_ascii();
    let b = if wide { enc_unicode(&first.0.encode_utf16().collect::<Vec<_>>(), iv) } else { enc_ascii(first.0.as_bytes(), iv) };
    let ks = keystream(key, &AES_KEY, b.len());
    let x: Vec<u8> = b.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
    if wide {
        let u: Vec<u16> = x.chunks(2).enumerate().map(|(i, c)| u16::from_le_bytes([c[0], c[1]]) ^ 0xAAAAu16.wrapping_add(i as u16)).collect();
        (String::from_utf16(&u).is_ok(), u.iter().all(|c| *c < 0x80))
    } else {
        let u: Vec<u8> = x.iter().enumerate().map(|(i, b)| b ^ 0xAAu8.wrapping_add(i as u8)).collect();
        (std::str::from_utf8(&u).is_ok(), u.is_ascii())
    }
}
fn guess(c: &Guess, o: &mut Obs) -> Result<(), String> {
    use wz_reader::util::string_decryptor::{guess_decryptor_from_wz_file, verify_decryptor_from_wz_file};
    use wz_reader::util::version::{guess_iv_from_wz_file, verify_iv_from_wz_file};
    let a = &c.arc;
    let (bytes, _) = a.encode();
    let h = wz_reader::WzReader::from_buff(&bytes).header;
    if h.encrypt_version.is_some() != a.encver {
        return Ok(());
    }
    let first = first_named(&a.root).filter(|f| !f.0.is_empty());
    let read = |k: [u8; 4]| first.map(|f| reads(f, a.iv, k)).unwrap_or((false, false));
    o.nontrivial = first.is_some();
    o.class_if(first.is_none(), "no first name");
    o.class_if(first.is_some_and(|f| f.1 & 4 != 0), "first name stored elsewhere");
    for k in [IV_BMS, IV_GMS, IV_EMS, a.iv, c.other] {
        let (text, ascii) = read(k);
        let got = (verify_iv_from_wz_file(&bytes, &k).is_ok(), verify_decryptor_from_wz_file(&bytes, &custom_key(k)).is_ok());
        if got != (text, ascii) {
            return Err(format!("key {k:?}: iv verified {}, key verified {}; the first name is text: {text}, ASCII: {ascii}", got.0, got.1));
        }
        o.class_if(!text && first.is_some(), "a key that does not fit");
    }
    let order = [IV_BMS, IV_GMS, IV_EMS];
    let want = order.into_iter().find(|k| read(*k).0);
    if guess_iv_from_wz_file(&bytes) != want {
        return Err(format!("iv guessed as {:?}, the first that fits is {want:?}", guess_iv_from_wz_file(&bytes)));
    }
    let want = order.into_iter().find(|k| read(*k).1);
    let got = guess_decryptor_from_wz_file(&bytes).map(|k| (k.read().unwrap().get_iv_hash() as u32).to_le_bytes());
    if got != want {
        return Err(format!("key guessed as {got:?}, the first that fits is {want:?}"));
    }
    o.class_if(want.is_some(), "a known key found");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C02",
        threads: 8,
        assumptions: &[
            "an archive's first entry name tells the region keys apart (cases where it does not are generated, recognised by an independent decoder and skipped)",
            "a random 32-bit offset landing inside a tiny file on a valid header byte for every entry is negligible",
        ],
        subs: vec![
            check!("guess", "the functions that verify and guess a key from the bytes of a file; non-trivial: a named first entry", 4000, 40000, guess_strat, guess),
            check!("detect", "archives opened with key and version each given or not: same tree, consistent version; non-trivial: key identifiable and 2+ entries", 3000, 40000, strat, detect),
            check!("wrong_key", "a key that does not fit is given; non-trivial: neither it nor another region key fits the first name", 3000, 40000, strat, wrong_key),
            check!("wrong_version", "a wrong version is given, half of the time one with the same version field; non-trivial: 2+ entries", 4000, 60000, wrong_strat, wrong_version),
        ],
    }
}
