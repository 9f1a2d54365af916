//! C13 canvas pixels
use crate::check;
use crate::fw::*;
use crate::img::*;
use crate::px::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use wz_reader::property::{get_image, WzPng, WzPngParseError};
use wz_reader::{WzNode, WzNodeCast};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C {
    iv: [u8; 4],
    c: Canvas,
    offset: usize,
    tail: Vec<u8>,
}

fn strat_of(big: bool) -> BoxedStrategy<C> {
    (any_iv(), canvas(big), 0usize..40, blob(40)).prop_map(|(iv, c, offset, tail)| C { iv, c, offset, tail }).boxed()
}
fn small() -> BoxedStrategy<C> {
    strat_of(false)
}
fn big() -> BoxedStrategy<C> {
    strat_of(true)
}

fn notes(c: &C, o: &mut Obs) {
    o.class(match c.c.f {
        F::Bgra4444 => "BGRA4444",
        F::Bgra8888 => "BGRA8888",
        F::Argb1555 => "ARGB1555",
        F::Rgb565 => "RGB565",
        F::Rgb565x16 => "RGB565 16x16",
        F::Dxt3 => "DXT3",
        F::Dxt3Sm => "DXT3SM",
        F::Dxt5 => "DXT5",
        F::Bc7 => "BC7",
        F::R16 => "R16",
        F::Rgba1010102 => "RGBA1010102",
    });
    let odd = c.c.w % 4 != 0 || c.c.h % 4 != 0;
    o.class_if(odd, "size not a multiple of 4");
    let chunked = matches!(c.c.store, Store::Chunks(..));
    o.class_if(chunked, "encrypted chunks");
    o.class_if(matches!(&c.c.store, Store::Chunks(_, k) if k.len() > 1), "two or more cuts");
    o.nontrivial = c.c.data.iter().any(|b| *b != c.c.data[0]);
}

/// the canvas decoder on its own, data anywhere in a file
fn alone(c: &C, o: &mut Obs) -> Result<(), String> {
    notes(c, o);
    let stored = c.c.stored(c.iv);
    let mut file = vec![0x5Au8; c.offset];
    file.extend_from_slice(&stored);
    file.extend_from_slice(&c.tail);
    let rd = mem_reader(&file, c.iv);
    let (f1, f2) = c.c.f.parts(c.c.split);
    let head = u16::from_le_bytes([stored[0], stored[1]]) as i32;
    let png = WzPng::new(&rd, (c.c.w, c.c.h), (f1 as u32, f2 as u32), (c.offset, stored.len()), head, 0);
    let want = c.c.pixels();
    let img = no_panic(|| png.extract_png())?.map_err(|e| format!("{:?}: extract_png: {e}", c.c.f))?;
    cmp_image(&img, c.c.f, c.c.w, c.c.h, &want)?;
    // through the node-level entry point, twice (the keystream has grown by then)
    let node = WzNode::new(&"c".into(), png, None).into_lock();
    let img = no_panic(|| get_image(&node))?.map_err(|e| format!("get_image: {e}"))?;
    cmp_image(&img, c.c.f, c.c.w, c.c.h, &want)
}

/// canvases as they stand in an image, next to other properties
fn stored_in_image(c: &C, o: &mut Obs) -> Result<(), String> {
    notes(c, o);
    let (f1, f2) = c.c.f.parts(c.c.split);
    let canvas = |kids: Option<Vec<(S, V)>>| V::Canvas {
        kids,
        w: c.c.w as i32,
        h: c.c.h as i32,
        f1,
        f2,
        pages: 0,
        data: c.c.stored(c.iv),
    };
    let tree = vec![
        (S("a".into(), 0), canvas(None)),
        (S("pad".into(), 0), V::Video(c.tail.clone())),
        (S("b".into(), 0), canvas(Some(vec![(S("origin".into(), 0), V::Vector(1, 2)), (S("in".into(), 0), canvas(None))]))),
    ];
    let bytes = encode_image(&tree, c.iv);
    let n = parsed("i.img", &bytes, c.offset, c.iv)?;
    let want = c.c.pixels();
    for p in ["a", "b", "b/in"] {
        let x = n.read().unwrap().at_path(p).ok_or(format!("{p} missing"))?;
        let img = no_panic(|| get_image(&x))?.map_err(|e| format!("{p}: get_image: {e}"))?;
        cmp_image(&img, c.c.f, c.c.w, c.c.h, &want).map_err(|e| format!("{p}: {e}"))?;
        let own = x.read().unwrap().try_as_png().ok_or("not a canvas")?.extract_png().map_err(|e| format!("{p}: {e}"))?;
        cmp_image(&own, c.c.f, c.c.w, c.c.h, &want).map_err(|e| format!("{p}: {e}"))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct U {
    f1: u32,
    f2: u32,
    w: u32,
    h: u32,
    store: Store,
}
fn bad_format() -> BoxedStrategy<U> {
    (
        prop_oneof![
            2 => proptest::sample::select(vec![4097u32, 2304, 4100, 0, 4, 5, 256, 258, 512, 514, 516, 518, 768, 770, 1024, 1025, 1027, 2048, 2049, 2051, 2561, 2563, 4096, 4099]),
            1 => 0u32..6000,
            1 => 6000u32..0x7fff_ffff,
        ],
        0u32..8,
        1u32..40,
        1u32..40,
        any_store(),
    )
        .prop_filter("a supported one", |(f1, f2, ..)| !ALL.iter().any(|f| f.code() == f1 + f2))
        .prop_map(|(f1, f2, w, h, store)| U { f1, f2, w, h, store })
        .boxed()
}
fn unsupported(c: &U, o: &mut Obs) -> Result<(), String> {
    let data: Vec<u8> = (0..(c.w * c.h * 16) as usize).map(|i| i as u8).collect();
    let st = store(&data, &c.store, crate::refs::IV_GMS);
    let rd = mem_reader(&st, crate::refs::IV_GMS);
    o.class_if(c.f1 + c.f2 < 6000, "near a known code");
    o.nontrivial = [4097, 2304, 4100].contains(&(c.f1 + c.f2)) || c.f1 + c.f2 < 6000;
    let png = WzPng::new(&rd, (c.w, c.h), (c.f1, c.f2), (0, st.len()), u16::from_le_bytes([st[0], st[1]]) as i32, 0);
    match no_panic(|| png.extract_png())? {
        Err(WzPngParseError::UnknownFormat(_)) => Ok(()),
        Err(e) => Err(format!("format {}: another error is reported: {e}", c.f1 + c.f2)),
        Ok(_) => Err(format!("format {} is not supported but gave an image", c.f1 + c.f2)),
    }
}

/// a canvas of megabytes, kept as its seed
#[derive(Clone, Debug, Serialize, Deserialize)]
struct H {
    f: F,
    split: u8,
    w: u32,
    h: u32,
    seed: u64,
    noise: bool,
    store: Store,
    offset: usize,
    iv: [u8; 4],
}
fn huge() -> BoxedStrategy<H> {
    let size = prop_oneof![
        2 => (300u32..1300, 300u32..1300),
        1 => (4000u32..9000, 60u32..170),
        1 => (60u32..170, 4000u32..9000),
        1 => (1u32..5, 60000u32..66000),
        1 => (60000u32..140000, 1u32..5),
    ];
    let cut = prop_oneof![2 => Just(u16::MAX), 1 => any::<u16>()];
    let st = prop_oneof![
        1 => (0u8..3).prop_map(Store::Plain),
        3 => (0u8..3, proptest::collection::vec(cut, 0..24)).prop_map(|(l, k)| Store::Chunks(l, k)),
    ];
    let f = proptest::sample::select(ALL.to_vec());
    (f, 0u8..3, size, any::<u64>(), proptest::bool::weighted(0.8), st, 0usize..40, any_iv())
        .prop_map(|(f, split, (w, h), seed, noise, store, offset, iv)| {
            // a side of format 517 is limited to 65535, which keeps a few bytes from asking for gigabytes
            let up = |x: u32| if f == F::Rgb565x16 { (x.div_ceil(16) * 16).min(65520) } else { x };
            H { f, split, w: up(w), h: up(h), seed, noise, store, offset, iv }
        })
        .boxed()
}
fn of_megabytes(c: &H, o: &mut Obs) -> Result<(), String> {
    let n = c.f.len(c.w, c.h);
    let mut x = c.seed | 1;
    let data: Vec<u8> = (0..n)
        .map(|i| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            if c.noise { (x >> 24) as u8 } else { (i / 97) as u8 ^ (c.seed >> (i % 8)) as u8 }
        })
        .collect();
    let one = C {
        iv: c.iv,
        c: Canvas { f: c.f, split: c.split, w: c.w, h: c.h, data, store: c.store.clone() },
        offset: c.offset,
        tail: vec![1, 2, 3],
    };
    let size = one.c.stored(c.iv).len();
    o.class_if(size > 1 << 20, "over 1 MiB as stored");
    let cut: usize = match &c.store {
        Store::Chunks(_, k) => k.iter().map(|k| *k as usize).sum(),
        Store::Plain(_) => usize::MAX,
    };
    o.class_if(size.saturating_sub(cut) > 1 << 20, "a chunk over 1 MiB");
    o.class_if(c.w > 65535 || c.h > 65535, "a side over 65535");
    o.class_if(n > 1 << 20, "over 1 MiB of pixels");
    alone(&one, o)?;
    o.nontrivial = n > 1 << 20;
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C13",
        subs: vec![
            check!("decoder", "the pixel data is not one repeated byte", 12000, 600000, small, alone),
            check!("large", "the pixel data is not one repeated byte", 300, 12000, big, alone),
            check!("huge", "over 1 MiB of pixel data", 24, 700, huge, of_megabytes),
            check!("in-image", "the pixel data is not one repeated byte", 2500, 80000, small, stored_in_image),
            check!("unsupported", "the code is below 6000 (close to the known ones)", 3000, 60000, bad_format, unsupported),
        ],
        assumptions: &[
            "pixel data is complete: it inflates to exactly the size the format needs (short or over-long data is C19)",
            "format 517 is only defined on whole 16x16 blocks, so its sizes are multiples of 16, and only up to 65535",
            "BC7 blocks of mode 6 are decoded by our own decoder, other modes block by block through texture2ddecoder, which is trusted for the inside of a block; the arrangement of blocks is checked for all modes",
            "format 3 (DXT3SM) is decoded as DXT3, which is this project's definition of it",
        ],
        threads: 8,
    }
}
