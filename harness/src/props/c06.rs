//! C06 keystreams: reference stream, growth histories, key lookup
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::refs::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use wz_reader::util::string_decryptor::{DecrypterType, Decryptor, EcbDecryptor, Pkg2Decryptor, SharedWzStringDecryptor};
use wz_reader::version::WzMapleVersion;
use wz_reader::GLOBAL_STRING_DECRYPTOR;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Ensure(usize),
    At(usize),
    TryAt(usize),
    Decrypt(Vec<u8>, bool),
    SetIv([u8; 4]),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ctor {
    Iv([u8; 4]),
    Key([u8; 4], [u8; 32]),
    Lua,
    Pkg2(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    ctor: Ctor,
    ops: Vec<Op>,
}
fn size() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => 0usize..64,
        3 => (0usize..4, -3i64..=3).prop_map(|(k, d)| (k as i64 * 4096 + d).max(0) as usize),
        2 => (0usize..300, -1i64..=1).prop_map(|(k, d)| (k as i64 * 16 + d).max(0) as usize),
        2 => 0usize..20_000,
    ]
    .boxed()
}
fn strat() -> BoxedStrategy<Hist> {
    let ctor = prop_oneof![
        5 => any_iv().prop_map(Ctor::Iv),
        2 => (any_iv(), any::<[u8; 32]>()).prop_map(|(a, b)| Ctor::Key(a, b)),
        1 => Just(Ctor::Lua),
        2 => any::<u64>().prop_map(Ctor::Pkg2),
    ];
    let op = prop_oneof![
        4 => size().prop_map(Op::Ensure),
        4 => size().prop_map(Op::At),
        4 => size().prop_map(Op::TryAt),
        4 => (blob(600), any::<bool>()).prop_map(|(a, b)| Op::Decrypt(a, b)),
        1 => any_iv().prop_map(Op::SetIv),
    ];
    (ctor, vec(op, 1..20)).prop_map(|(ctor, ops)| Hist { ctor, ops }).boxed()
}

fn long_strat() -> BoxedStrategy<Hist> {
    let size = || prop_oneof![
        2 => size(),
        2 => (0usize..20, -20i64..=20).prop_map(|(k, d)| (k as i64 * 65536 + d).max(0) as usize),
        2 => 0usize..1_500_000,
    ];
    let op = prop_oneof![
        3 => size().prop_map(Op::Ensure),
        3 => size().prop_map(Op::At),
        3 => size().prop_map(Op::TryAt),
        1 => (any::<u8>(), size(), any::<bool>()).prop_map(|(b, n, f)| Op::Decrypt(vec![b; n.min(300_000)], f)),
    ];
    (any_iv(), vec(op, 2..8)).prop_map(|(iv, ops)| Hist { ctor: Ctor::Iv(iv), ops }).boxed()
}

fn pkg2_stream(key: u64, n: usize) -> Vec<u8> {
    let b = key.to_le_bytes();
    let k = [b[0], b[1], b[1], b[2], b[2], b[3], b[3], b[4]];
    (0..n).map(|i| k[i % 8]).collect()
}

const N: usize = 24_000;
fn history(h: &Hist, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = h.ops.len() >= 3;
    let most = h.ops.iter().map(|op| match op { Op::Ensure(n) | Op::At(n) | Op::TryAt(n) => n + 1, Op::Decrypt(v, _) => v.len(), Op::SetIv(_) => 0 }).max().unwrap_or(0);
    let n_all = most.max(N);
    o.class_if(most > 65536, "more than 64 KiB");
    o.class_if(most > 1 << 20, "more than 1 MiB");
    let (mut d, mut want, mut aes): (Box<dyn Decryptor>, Vec<u8>, Option<[u8; 32]>) = match &h.ctor {
        Ctor::Iv(iv) => (Box::new(EcbDecryptor::from_iv(*iv)), stream(*iv, n_all)[..n_all].to_vec(), Some(AES_KEY)),
        Ctor::Key(iv, k) => (Box::new(EcbDecryptor::new(*iv, *k)), keystream(*iv, k, n_all), Some(*k)),
        Ctor::Lua => (Box::new(EcbDecryptor::new_lua()), stream(IV_EMS, n_all)[..n_all].to_vec(), Some(AES_KEY)),
        Ctor::Pkg2(k) => (Box::new(Pkg2Decryptor::new_with_key(*k, DecrypterType::KMST1199)), pkg2_stream(*k, n_all), None),
    };
    if matches!(h.ctor, Ctor::Pkg2(_)) {
        aes = None;
    }
    if d.is_pkg2() != aes.is_none() {
        return Err("is_pkg2 is wrong".into());
    }
    let mut zero = want.iter().all(|b| *b == 0) && aes.is_some();
    o.class_if(zero, "zero key");
    let mut grown = 0usize;
    for (i, op) in h.ops.iter().enumerate() {
        let err = |m: String| Err(format!("op {i} {op:?}: {m}").chars().take(600).collect::<String>());
        match op {
            Op::Ensure(n) => {
                if let Err(e) = d.ensure_key_size(*n) {
                    return err(e);
                }
                if !d.is_enough(*n) {
                    return err("not enough after ensure_key_size".into());
                }
                o.class_if(grown > 0 && *n > grown, "grown again");
                grown = grown.max(*n);
            }
            Op::At(n) => {
                let g = *d.at(*n);
                if g != want[*n] {
                    return err(format!("byte {g:02x}, reference {:02x}", want[*n]));
                }
                grown = grown.max(*n + 1);
            }
            Op::TryAt(n) => match d.try_at(*n) {
                Some(g) if *g != want[*n] => return err(format!("byte {g:02x}, reference {:02x}", want[*n])),
                None if *n < grown && !zero => return err("a byte of a grown stream is missing".into()),
                _ => {}
            },
            Op::Decrypt(data, fit) => {
                if !d.is_enough(data.len()) || *fit {
                    if let Err(e) = d.ensure_key_size(data.len()) {
                        return err(e);
                    }
                }
                let mut v = data.clone();
                d.decrypt_slice(&mut v);
                let w: Vec<u8> = data.iter().zip(&want).map(|(a, b)| a ^ b).collect();
                if v != w {
                    return err("decrypted bytes differ from the reference".into());
                }
                d.decrypt_slice(&mut v);
                if v != *data {
                    return err("decrypting twice does not restore".into());
                }
            }
            Op::SetIv(iv) => {
                let v = u32::from_le_bytes(*iv) as u64;
                d.set_iv(v, d.get_enc_type());
                want = match &aes {
                    Some(k) => keystream(*iv, k, n_all),
                    None => pkg2_stream(v, n_all),
                };
                zero = aes.is_some() && *iv == [0; 4];
                grown = 0;
                if d.get_iv_hash() != v {
                    return err("get_iv_hash is not the iv set".into());
                }
                o.class("key replaced");
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Look {
    iv: [u8; 4],
    sizes: Vec<usize>,
}
fn look_strat() -> BoxedStrategy<Look> {
    (any_iv(), vec(size(), 1..5)).prop_map(|(iv, sizes)| Look { iv, sizes }).boxed()
}
fn lookup(c: &Look, o: &mut Obs) -> Result<(), String> {
    o.nontrivial = c.sizes.iter().any(|s| *s > 0);
    let g = &GLOBAL_STRING_DECRYPTOR;
    let named: Vec<(&str, SharedWzStringDecryptor, Vec<u8>)> = vec![
        ("by vector", g.get_decryptor_by_iv(c.iv), stream(c.iv, N)[..N].to_vec()),
        ("kind GMS", g.get_decryptor(DecrypterType::GMS), stream(IV_GMS, N)[..N].to_vec()),
        ("kind KMS", g.get_decryptor(DecrypterType::KMS), stream(IV_EMS, N)[..N].to_vec()),
        ("kind BMS", g.get_decryptor(DecrypterType::BMS), vec![0; N]),
        ("unknown kind", g.get_decryptor(DecrypterType::Unknown), vec![0; N]),
        ("region GMS", g.get_decryptor_by_version(WzMapleVersion::GMS), stream(IV_GMS, N)[..N].to_vec()),
        ("region EMS", g.get_decryptor_by_version(WzMapleVersion::EMS), stream(IV_EMS, N)[..N].to_vec()),
        ("region BMS", g.get_decryptor_by_version(WzMapleVersion::BMS), vec![0; N]),
        ("vector GMS", g.get_decryptor_by_iv(IV_GMS), stream(IV_GMS, N)[..N].to_vec()),
        ("vector EMS", g.get_decryptor_by_iv(IV_EMS), stream(IV_EMS, N)[..N].to_vec()),
        ("vector zero", g.get_decryptor_by_iv(IV_BMS), vec![0; N]),
        ("kind KMST1198", g.get_decryptor(DecrypterType::KMST1198), pkg2_stream(0xDEADBEEF, N)),
        ("region KMST1198", g.get_decryptor_by_version(WzMapleVersion::KMST1198), pkg2_stream(0xDEADBEEF, N)),
    ];
    for (what, d, want) in &named {
        for n in &c.sizes {
            d.write().unwrap().ensure_key_size(*n).map_err(|e| format!("{what}: {e}"))?;
            let r = d.read().unwrap();
            if !r.is_enough(*n) {
                return Err(format!("{what}: not enough after ensure_key_size({n})"));
            }
            let mut v = vec![0u8; *n];
            r.decrypt_slice(&mut v);
            if v[..] != want[..*n] {
                return Err(format!("{what}: stream of {n} bytes differs from the reference"));
            }
        }
    }
    // a part of the stream at once
    let mut own = EcbDecryptor::from_iv(c.iv);
    let n = *c.sizes.iter().max().unwrap();
    own.ensure_key_size(n).map_err(|e| format!("ensure_key_size({n}): {e}"))?;
    if c.iv != IV_BMS {
        for from in c.sizes.iter().map(|s| *s.min(&n)) {
            if own.get_range(from..n) != &named[0].2[from..n] {
                return Err(format!("get_range({from}..{n}) differs from the reference"));
            }
        }
    }
    // dynamic kinds must not share state
    let a = g.get_decryptor(DecrypterType::KMST1199);
    let b = g.get_decryptor(DecrypterType::KMST1199);
    a.write().unwrap().set_iv(u32::from_le_bytes(c.iv) as u64, DecrypterType::KMST1199);
    let mut v = [0u8; 8];
    b.read().unwrap().decrypt_slice(&mut v);
    if v != [0; 8] {
        return Err("setting one archive's PKG2 key changed another's".into());
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C06",
        threads: 8,
        assumptions: &["AES-256 block cipher of the aes crate", "the reference holds the format's published user key and region vectors"],
        subs: vec![
            check!("history", "random extend/index/decrypt/rekey sequence on one decryptor against the whole reference stream; non-trivial: 3+ operations", 10000, 300000, strat, history),
            check!("long", "the same on streams of up to 1.5 MB; non-trivial: 3+ operations", 200, 6000, long_strat, history),
            check!("lookup", "every way to look a key up, stream compared at random growth sizes; non-trivial: a size above 0", 5000, 60000, look_strat, lookup),
        ],
    }
}
