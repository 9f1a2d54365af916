//! C07 primitive and compressed-number reads
use crate::check;
use crate::fw::*;
use crate::img::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use wz_reader::{reader, Reader};

/// the number stored at `pos`, as (encoded size, value bits), by the format's definition
fn model(b: &[u8], pos: usize, kind: u8) -> Option<(usize, u64)> {
    let take = |p: usize, n: usize| -> Option<u64> {
        let s = b.get(p..p.checked_add(n)?)?;
        let mut v = [0u8; 8];
        v[..n].copy_from_slice(s);
        Some(u64::from_le_bytes(v))
    };
    Some(match kind {
        0 | 4 => (1, take(pos, 1)?),
        1 | 5 => (2, take(pos, 2)?),
        2 | 6 | 8 => (4, take(pos, 4)?),
        3 | 7 | 9 => (8, take(pos, 8)?),
        10 => {
            let f = take(pos, 1)?;
            if f == 0x80 {
                (5, take(pos.checked_add(1)?, 4)? as u32 as i32 as i64 as u64)
            } else {
                (1, f as u8 as i8 as i64 as u64)
            }
        }
        _ => {
            let f = take(pos, 1)?;
            if f == 0x80 {
                (9, take(pos.checked_add(1)?, 8)?)
            } else {
                (1, f as u8 as i8 as i64 as u64)
            }
        }
    })
}
const KINDS: [&str; 13] = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "float", "double", "int", "int64", "long"];

/// bits of what the code read, in the model's representation
macro_rules! bits {
    ($e:expr, $t:ty) => {
        $e.map(|v| v as $t as u64).map_err(|e| e.to_string())
    };
}
fn at<R: Reader>(r: &R, pos: usize, kind: u8) -> Option<Result<u64, String>> {
    Some(match kind {
        0 => bits!(r.read_u8_at(pos), u8),
        1 => bits!(r.read_u16_at(pos), u16),
        2 => bits!(r.read_u32_at(pos), u32),
        3 => bits!(r.read_u64_at(pos), u64),
        4 => bits!(r.read_i8_at(pos), u8),
        5 => bits!(r.read_i16_at(pos), u16),
        6 => bits!(r.read_i32_at(pos), u32),
        7 => bits!(r.read_i64_at(pos), u64),
        8 => r.read_float_at(pos).map(|v| v.to_bits() as u64).map_err(|e| e.to_string()),
        9 => r.read_double_at(pos).map(|v| v.to_bits()).map_err(|e| e.to_string()),
        _ => return None,
    })
}
fn func(b: &[u8], pos: usize, kind: u8) -> Option<Result<u64, String>> {
    Some(match kind {
        0 => bits!(reader::read_u8_at(b, pos), u8),
        1 => bits!(reader::read_u16_at(b, pos), u16),
        2 => bits!(reader::read_u32_at(b, pos), u32),
        3 => bits!(reader::read_u64_at(b, pos), u64),
        4 => bits!(reader::read_i8_at(b, pos), u8),
        5 => bits!(reader::read_i16_at(b, pos), u16),
        6 => bits!(reader::read_i32_at(b, pos), u32),
        7 => bits!(reader::read_i64_at(b, pos), u64),
        10 => bits!(reader::read_wz_int(b, Some(pos)).map(|v| v as i64), i64),
        11 => bits!(reader::read_wz_int64(b, Some(pos)), i64),
        12 => bits!(reader::read_wz_long(b, Some(pos)), i64),
        _ => return None,
    })
}
fn cur(r: &wz_reader::WzSliceReader, kind: u8) -> Result<u64, String> {
    match kind {
        0 => bits!(r.read_u8(), u8),
        1 => bits!(r.read_u16(), u16),
        2 => bits!(r.read_u32(), u32),
        3 => bits!(r.read_u64(), u64),
        4 => bits!(r.read_i8(), u8),
        5 => bits!(r.read_i16(), u16),
        6 => bits!(r.read_i32(), u32),
        7 => bits!(r.read_i64(), u64),
        8 => r.read_float().map(|v| v.to_bits() as u64).map_err(|e| e.to_string()),
        9 => r.read_double().map(|v| v.to_bits()).map_err(|e| e.to_string()),
        10 => bits!(r.read_wz_int().map(|v| v as i64), i64),
        11 => bits!(r.read_wz_int64(), i64),
        _ => bits!(r.read_wz_long(), i64),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Read(u8),
    ReadAt(u8, u64),
    Seek(u64),
    Skip(u64),
    Save,
    Restore,
    Slice(u64, u64),
    Peek,
    Str(u64),
    StrFn(u64, i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    buf: Vec<u8>,
    ops: Vec<Op>,
}
fn pos() -> BoxedStrategy<u64> {
    prop_oneof![10 => 0u64..80, 3 => 60u64..80, 1 => Just(u64::MAX), 1 => Just(u64::MAX - 1), 1 => any::<u64>(), 1 => any::<u32>().prop_map(|v| v as u64)].boxed()
}
fn strat() -> BoxedStrategy<Case> {
    let byte = prop_oneof![3 => any::<u8>(), 1 => Just(0x80u8), 1 => Just(0xffu8), 1 => Just(0x7fu8), 1 => Just(0u8), 1 => Just(1u8), 1 => Just(0x81u8)];
    let op = prop_oneof![
        8 => (0u8..13).prop_map(Op::Read),
        5 => (0u8..13, pos()).prop_map(|(k, p)| Op::ReadAt(k, p)),
        3 => pos().prop_map(Op::Seek),
        1 => pos().prop_map(Op::Skip),
        1 => Just(Op::Save),
        1 => Just(Op::Restore),
        2 => (pos(), pos()).prop_map(|(a, b)| Op::Slice(a, b)),
        1 => Just(Op::Peek),
        2 => pos().prop_map(Op::Str),
        2 => (pos(), any::<i8>()).prop_map(|(a, b)| Op::StrFn(a, b)),
    ];
    (prop_oneof![4 => vec(byte.clone(), 1..76), 1 => vec(byte, 1..10)], vec(op, 1..30)).prop_map(|(buf, ops)| Case { buf, ops }).boxed()
}

/// end of the wz string at `pos` and whether it lies inside; None when its header does not fit
fn str_span(b: &[u8], pos: usize) -> Option<(usize, usize)> {
    let l = *b.get(pos)? as i8;
    let long = || b.get(pos.checked_add(1)?..pos.checked_add(5)?).map(|s| u32::from_le_bytes(s.try_into().unwrap()) as usize);
    Some(match l {
        0 => (pos + 1, 0),
        i8::MAX => (pos + 5, long()? * 2),
        i8::MIN => (pos + 5, long()?),
        l if l > 0 => (pos + 1, l as usize * 2),
        l => (pos + 1, -(l as i32) as usize),
    })
}

fn ops(c: &Case, o: &mut Obs) -> Result<(), String> {
    let whole = mem_reader(&c.buf, [0; 4]);
    let r = whole.create_slice_reader();
    let b = &c.buf[..];
    let mut at_pos = 0usize;
    let mut saved = 0usize;
    let (mut ok, mut bad) = (0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        let here = at_pos;
        let err = |m: String| Err(format!("op {i} {op:?} at {here}: {m}"));
        match op {
            Op::Read(k) => {
                let want = model(b, at_pos, *k);
                let got = cur(&r, *k);
                match (want, got) {
                    (Some((n, v)), Ok(g)) => {
                        if v != g {
                            return err(format!("{} is {v:x}, read {g:x}", KINDS[*k as usize]));
                        }
                        at_pos += n;
                        ok += 1;
                        if r.pos.get() != at_pos {
                            return err(format!("cursor moved to {}, expected {at_pos}", r.pos.get()));
                        }
                    }
                    (None, Err(_)) => {
                        bad += 1;
                        r.seek(at_pos);
                    }
                    (w, g) => return err(format!("{}: expected {w:x?}, got {g:x?}", KINDS[*k as usize])),
                }
            }
            Op::ReadAt(k, p) => {
                let p = *p as usize;
                let want = model(b, p, *k).map(|x| x.1);
                for (way, got) in [("buffer reader", at(&*whole, p, *k)), ("cursor", at(&r, p, *k)), ("function", func(b, p, *k))] {
                    match (want, got) {
                        (_, None) => {}
                        (Some(v), Some(Ok(g))) if v == g => ok += 1,
                        (None, Some(Err(_))) => bad += 1,
                        (w, Some(g)) => return err(format!("{way} {}: expected {w:x?}, got {g:x?}", KINDS[*k as usize])),
                    }
                }
                if r.pos.get() != at_pos {
                    return err("reading at a position moved the cursor".into());
                }
            }
            Op::Seek(p) => {
                r.seek(*p as usize);
                at_pos = *p as usize;
            }
            Op::Skip(n) => {
                r.skip(*n as usize);
                match at_pos.checked_add(*n as usize) {
                    Some(p) => at_pos = p,
                    None => {
                        r.seek(0);
                        at_pos = 0;
                    }
                }
            }
            Op::Save => {
                r.save_pos();
                saved = at_pos;
            }
            Op::Restore => {
                r.restore_pos();
                at_pos = saved;
            }
            Op::Slice(a, n) => {
                let (a, n) = (*a as usize, *n as usize);
                let e = a.saturating_add(n);
                let want = b.get(a..e);
                for got in [whole.get_slice_or_error(a..e), r.get_slice_or_error(a..e)] {
                    match (want, got) {
                        (Some(w), Ok(g)) if w == g => ok += 1,
                        (None, Err(_)) => bad += 1,
                        _ => return err("slice".into()),
                    }
                }
                for (z, w) in [(e, e <= b.len()), (a, a <= b.len())] {
                    if r.is_valid_pos(z) != w {
                        return err(format!("is_valid_pos({z})"));
                    }
                }
            }
            Op::Peek => {
                if r.pos.get() != at_pos {
                    return err(format!("cursor is at {}", r.pos.get()));
                }
                if r.available() != b.len().saturating_sub(at_pos) || r.get_size() != b.len() || whole.get_size() != b.len() {
                    return err("size or available bytes".into());
                }
            }
            Op::Str(p) => {
                // bounds only; the text is C05's
                let p = *p as usize;
                let span = str_span(b, p);
                let fits = span.is_some_and(|(s, n)| n == 0 || s + n <= b.len());
                let res = [
                    ("cursor", r.read_wz_string_at_offset(p).map_err(|e| e.to_string())),
                    ("function", b.get(p..).ok_or("past".to_string()).and_then(|s| reader::read_wz_string(s).map_err(|e| e.to_string()))),
                    (
                        "deferred",
                        r.read_wz_string_meta_at(p)
                            .and_then(|m| whole.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize))
                            .map_err(|e| e.to_string()),
                    ),
                    (
                        "deferred, strict",
                        r.read_wz_string_meta_at(p)
                            .and_then(|m| match r.try_resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize) {
                                Err(reader::Error::ReadUtf8Error(_) | reader::Error::ReadUtf16Error(_)) => Ok(String::new()),
                                x => x,
                            })
                            .map_err(|e| e.to_string()),
                    ),
                ];
                for (way, g) in res {
                    if g.is_ok() != fits {
                        return err(format!("string {way}: fits {fits}, got {g:?}"));
                    }
                }
                if fits {
                    ok += 1
                } else {
                    bad += 1
                }
                // the position slot is shared with the caller's own save
                r.seek(at_pos);
                saved = at_pos;
                r.save_pos();
            }
            Op::StrFn(p, l) => {
                let p = (*p as usize).min(b.len());
                let s = &b[p..];
                let long = |m: usize| s.get(..4).map(|x| 4 + u32::from_le_bytes(x.try_into().unwrap()) as usize * m);
                if *l >= 0 {
                    let need = if *l == i8::MAX { long(2) } else { Some(*l as usize * 2) };
                    let fits = need.is_some_and(|n| n <= s.len());
                    if reader::read_unicode_string(s, *l).is_ok() != fits {
                        return err(format!("read_unicode_string: fits {fits}"));
                    }
                } else {
                    let need = if *l == i8::MIN { long(1) } else { Some(-(*l as i32) as usize) };
                    let fits = need.is_some_and(|n| n <= s.len());
                    if reader::read_ascii_string(s, *l).is_ok() != fits {
                        return err(format!("read_ascii_string: fits {fits}"));
                    }
                }
                let blk = reader::read_wz_string_block(s, p);
                let inner = match s.first() {
                    Some(0 | 0x73) => str_span(s, 1),
                    Some(1 | 0x1B) => s
                        .get(1..5)
                        .map(|x| (i32::from_le_bytes(x.try_into().unwrap()) as usize).wrapping_add(p))
                        .and_then(|at| str_span(s, at)),
                    Some(_) => Some((0, 0)),
                    None => None,
                };
                let fits = inner.is_some_and(|(a, n)| n == 0 || a + n <= s.len());
                if blk.is_ok() != fits {
                    return err(format!("read_wz_string_block: fits {fits}, got {blk:?}"));
                }
            }
        }
    }
    o.nontrivial = ok >= 2 && bad >= 1;
    o.class_if(ok > 0, "reads that fit");
    o.class_if(bad > 0, "reads that do not fit");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C07",
        threads: 8,
        assumptions: &["after a failed read the cursor position is unspecified", "get_slice and get_slice_from_current are documented by their signature to need a valid range"],
        subs: vec![check!("reads", "random buffer and random sequence of reads, seeks, skips and slices on one cursor, against a direct decoding of the bytes; non-trivial: 2+ reads fit and 1+ does not", 12000, 400000, strat, ops)],
    }
}
