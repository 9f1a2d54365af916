//! C14 sounds
use crate::check;
use crate::fw::*;
use crate::img::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Cursor, Seek, SeekFrom, Write};
use wz_reader::property::{get_sound_type_from_header, WzSound, WzSoundType};
use wz_reader::WzNodeCast;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Snd {
    dur: i32,
    header: Vec<u8>,
    data: Vec<u8>,
}

fn snd() -> BoxedStrategy<Snd> {
    let data = prop_oneof![16 => vec(any::<u8>(), 0..60), 8 => vec(any::<u8>(), 0..3000), 1 => (any::<u8>(), prop_oneof![65_530usize..65_540, 30_000usize..400_000]).prop_map(|(b, n)| (0..n).map(|i| (i * 31 + i / 256) as u8 ^ b).collect::<Vec<u8>>()), 4 => Just(vec![]), 4 => (0u8..=255, 120usize..135).prop_map(|(b, n)| vec![b; n])];
    let dur = prop_oneof![3 => Just(1000), 2 => 0i32..100000, 1 => any::<i32>(), 1 => 999i32..1002];
    let len = prop_oneof![6 => Just(0x46usize), 3 => Just(0x52usize), 1 => 0x33usize..0x60, 1 => 0usize..0x100];
    // the frequency field: the data size (what marks plain binary data), near it, or anything
    let freq = prop_oneof![3 => Just(None), 2 => (-1i32..=1).prop_map(Some)];
    (dur, len, vec(any::<u8>(), 0x100), data, freq)
        .prop_map(|(dur, len, mut header, data, freq)| {
            header.truncate(len);
            if let (Some(d), true) = (freq, len >= 0x3c) {
                header[0x38..0x3c].copy_from_slice(&(data.len() as i32 + d).to_le_bytes());
            }
            Snd { dur, header, data }
        })
        .boxed()
}

fn notes(s: &Snd, o: &mut Obs) {
    let t = expected_sound(s.dur as u32, &s.header, &s.data).0;
    o.nontrivial = !s.data.is_empty();
    o.class(match t {
        WzSoundType::Wav => "wav",
        WzSoundType::Binary => "binary",
        WzSoundType::Mp3 => "mp3",
    });
    o.class_if(t == WzSoundType::Wav && s.dur == 1000, "wav of one second");
    o.class_if(t == WzSoundType::Mp3 && s.dur == 1000 && s.header.len() >= 0x3c && s.header[0x38..0x3c] == (s.data.len() as u32).to_le_bytes()[..], "mp3 that looks like binary");
    o.class_if(s.data.is_empty(), "empty");
}

/// Read a WAV file the way a player does: chunk by chunk.
fn wav_ok(b: &[u8], s: &Snd) -> Result<(), String> {
    let u32_at = |i: usize| b.get(i..i + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as usize);
    if b.get(0..4) != Some(b"RIFF") || b.get(8..12) != Some(b"WAVE") {
        return Err("no RIFF/WAVE header".into());
    }
    if u32_at(4) != Some(b.len() - 8) {
        return Err(format!("RIFF size {:?} of a {} byte file", u32_at(4), b.len()));
    }
    let mut at = 12;
    let (mut fmt, mut data) = (None, None);
    while at < b.len() {
        let (id, n) = (b.get(at..at + 4).ok_or("cut chunk")?, u32_at(at + 4).ok_or("cut chunk size")?);
        let body = b.get(at + 8..at + 8 + n).ok_or_else(|| format!("chunk {id:?} of {n} bytes runs past the end"))?;
        match id {
            b"fmt " => fmt = Some(body),
            b"data" => data = Some(body),
            _ => return Err(format!("chunk {id:?}")),
        }
        at += 8 + n;
    }
    if fmt != Some(&s.header[0x34..0x44]) {
        return Err("the format chunk is not the stored one".into());
    }
    if data != Some(&s.data[..]) {
        return Err("the data chunk is not the payload".into());
    }
    Ok(())
}

/// A writer that takes a few bytes at a time, is interrupted now and then, and may break.
struct Slow {
    to: Cursor<Vec<u8>>,
    step: usize,
    calls: usize,
    room: usize,
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 5 == 3 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let left = self.room.saturating_sub(self.to.get_ref().len());
        if left == 0 && !b.is_empty() {
            return Err(std::io::Error::other("full"));
        }
        self.to.write(&b[..b.len().min(self.step).min(left)])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Slow {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.to.seek(p)
    }
}

fn verify(snd: &WzSound, s: &Snd, sc: Option<(&Scratch, &str)>, room: usize) -> Result<(), String> {
    let (ty, want) = expected_sound(s.dur as u32, &s.header, &s.data);
    if snd.sound_type != ty || snd.duration != s.dur as u32 {
        return Err(format!("type {:?}, duration {}, expected {ty:?}, {}", snd.sound_type, snd.duration, s.dur as u32));
    }
    let got = snd.get_buffer();
    if ty == WzSoundType::Wav {
        wav_ok(&got, s)?;
        if snd.get_wav_header() != want[..44] {
            return Err("get_wav_header is not the start of the file".into());
        }
    } else if got != s.data {
        return Err(format!("buffer has {} bytes, payload {}", got.len(), s.data.len()));
    }
    if got != want {
        return Err("buffer differs from the expected file".into());
    }
    // to a stream that already holds something
    let mut c = Cursor::new(b"head".to_vec());
    c.set_position(4);
    snd.write_to(&mut c).map_err(|e| format!("write_to: {e}"))?;
    if c.into_inner() != [b"head", &want[..]].concat() {
        return Err("write_to wrote something else than the buffer".into());
    }
    let mut slow = Slow { to: Cursor::new(vec![]), step: 7, calls: 0, room };
    let r = snd.write_to(&mut slow);
    let out = slow.to.into_inner();
    if room >= want.len() {
        r.map_err(|e| format!("write_to a slow writer: {e}"))?;
        if out != want {
            return Err("a slow writer got something else than the buffer".into());
        }
    } else if r.is_ok() || out != want[..room] {
        return Err(format!("a writer with room for {room} of {} bytes: {:?}, {} written", want.len(), r.is_ok(), out.len()));
    }
    if let Some((sc, name)) = sc {
        let p = sc.0.join(name);
        snd.save(p.clone()).map_err(|e| format!("save: {e}"))?;
        let p = match ty {
            WzSoundType::Wav => p.with_extension("wav"),
            WzSoundType::Mp3 => p.with_extension("mp3"),
            WzSoundType::Binary => p,
        };
        let b = std::fs::read(&p).map_err(|e| format!("saved file {p:?}: {e}"))?;
        // saving over a longer file leaves nothing of it
        std::fs::write(&p, vec![1u8; b.len() + 100]).map_err(|e| format!("HARNESS-ERROR {e}"))?;
        snd.save(sc.0.join(name)).map_err(|e| format!("save again: {e}"))?;
        if b != want || std::fs::read(&p).ok() != Some(b) {
            return Err("the saved file differs from the buffer".into());
        }
        let n = std::fs::read_dir(&sc.0).map_err(|e| format!("HARNESS-ERROR {e}"))?.count();
        if n != 1 {
            return Err(format!("saving left {n} files"));
        }
        if snd.save(sc.0.join("no/such/dir")).is_ok() {
            return Err("saving into a missing folder is reported as done".into());
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C {
    s: Snd,
    gap: Vec<u8>,
    room: u16,
    save: Option<String>,
    iv: [u8; 4],
}
fn file_name() -> impl Strategy<Value = String> {
    prop_oneof![3 => Just("snd".to_string()), 2 => "[a-z]{1,4}(\\.[a-z0-9]{1,4}){1,3}", 1 => Just("Bgm00.img.GoPicnic".to_string()), 1 => Just("\u{c18c}\u{b9ac} 1.wav".to_string()), 1 => Just("a.mp3".to_string()), 1 => Just("a.".to_string())]
}
fn strat() -> BoxedStrategy<C> {
    (snd(), blob(40), prop_oneof![1 => Just(60000u16), 1 => 0u16..120], prop::option::weighted(0.2, file_name()), any_iv())
        .prop_map(|(s, gap, room, save, iv)| C { s, gap, room, save, iv })
        .boxed()
}

fn alone(c: &C, o: &mut Obs) -> Result<(), String> {
    notes(&c.s, o);
    let mut file = c.gap.clone();
    let h = file.len();
    file.extend_from_slice(&c.s.header);
    file.extend_from_slice(&c.gap);
    let d = file.len();
    file.extend_from_slice(&c.s.data);
    file.extend_from_slice(&c.gap);
    let rd = mem_reader(&file, c.iv);
    let (n, dur) = (c.s.data.len() as u32, c.s.dur as u32);
    let ty = get_sound_type_from_header(&c.s.header, n, dur);
    let s = WzSound::new(&rd, d, n, h, c.s.header.len(), dur, ty);
    let sc = c.save.as_ref().map(|n| (Scratch::new(), n));
    o.class_if(c.save.as_ref().is_some_and(|n| n.contains('.')), "saved under a dotted name");
    verify(&s, &c.s, sc.as_ref().map(|(s, n)| (s, n.as_str())), c.room as usize)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct I {
    iv: [u8; 4],
    offset: usize,
    /// sounds at the top and in a group, with other properties between
    list: Vec<(Snd, V, bool, u8)>,
    save: bool,
}
fn istrat() -> BoxedStrategy<I> {
    (any_iv(), 0usize..50, vec((snd(), scalar(), any::<bool>(), any_mode()), 1..6), prop::bool::weighted(0.1))
        .prop_map(|(iv, offset, list, save)| I { iv, offset, list, save })
        .boxed()
}
fn in_image(c: &I, o: &mut Obs) -> Result<(), String> {
    let (mut top, mut grp) = (vec![], vec![]);
    for (i, (s, other, g, m)) in c.list.iter().enumerate() {
        let l = if *g { &mut grp } else { &mut top };
        l.push((S(format!("s{i}"), *m), V::Sound { dur: s.dur, header: s.header.clone(), data: s.data.clone() }));
        l.push((S(format!("o{i}"), *m), other.clone()));
        notes(s, o);
    }
    o.nontrivial = c.list.iter().any(|x| !x.0.data.is_empty());
    top.insert(top.len() / 2, (S("g".into(), 0), V::Sub(grp)));
    let n = parsed("s.img", &encode_image(&top, c.iv), c.offset, c.iv)?;
    for (i, (s, _, g, _)) in c.list.iter().enumerate() {
        let p = if *g { format!("g/s{i}") } else { format!("s{i}") };
        let x = n.read().unwrap().at_path(&p).ok_or(format!("{p} missing"))?;
        let r = x.read().unwrap();
        let snd = r.try_as_sound().ok_or(format!("{p} is no sound"))?;
        let sc = c.save.then(Scratch::new);
        verify(snd, s, sc.as_ref().map(|s| (s, "snd")), usize::MAX).map_err(|e| format!("{p}: {e}"))?;
    }
    cmp_list(&n, &top, "s.img", true)
}

/// A long sound: its payload ends in a stretch of zeros that is not written.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    s: Snd,
    iv: [u8; 4],
    more: u32,
    after: i32,
}
fn long_strat() -> BoxedStrategy<Long> {
    let more = prop_oneof![2 => 0x00ff_ff00u32..0x0100_0100, 2 => 0x0001_0000u32..0x0200_0000, 3 => 0x0200_0000u32..0x7ff0_0000];
    let s = snd().prop_map(|mut s| {
        s.data.truncate(4000);
        s
    });
    (s, any_iv(), more, any::<i32>()).prop_map(|(s, iv, more, after)| Long { s, iv, more, after }).boxed()
}
/// Counts what follows the first bytes, which it keeps.
struct Count {
    keep: Vec<u8>,
    room: usize,
    n: usize,
    other: bool,
}
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = self.room.saturating_sub(self.keep.len()).min(b.len());
        self.keep.extend_from_slice(&b[..k]);
        self.n += b.len();
        self.other |= b[k..].iter().any(|x| *x != 0);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Count {
    fn seek(&mut self, _: SeekFrom) -> std::io::Result<u64> {
        Err(std::io::Error::other("this stream can't seek"))
    }
}
fn long(c: &Long, o: &mut Obs) -> Result<(), String> {
    let mut s = c.s.clone();
    let total = s.data.len() + c.more as usize;
    // the kind is told from the size: mark binary data by the whole size
    if s.dur == 1000 && c.iv[3] & 1 == 0 && s.header.len() >= 0x3c {
        s.header[0x38..0x3c].copy_from_slice(&(total as u32).to_le_bytes());
    }
    let tree = vec![
        (S("a".into(), 0), V::Short(7, false)),
        (S("s".into(), 0), V::Sound { dur: s.dur, header: s.header.clone(), data: s.data.clone() }),
        (S("z".into(), 0), V::Int(c.after, false, false)),
    ];
    let h = encode_image_holed(&tree, c.iv, SOUND, c.more as usize).ok_or("HARNESS-ERROR no block")?;
    o.nontrivial = true;
    o.class_if(total > 1 << 24, "over 16 MiB");
    o.class_if(total > 1 << 30, "over 1 GiB");
    let binary = s.header.len() == 0x46 && s.dur == 1000 && s.header[0x38..0x3c] == (total as u32).to_le_bytes()[..];
    let ty = match s.header.len() {
        0x46 if binary => WzSoundType::Binary,
        0x46 => WzSoundType::Wav,
        _ => WzSoundType::Mp3,
    };
    o.class(match ty {
        WzSoundType::Wav => "wav",
        WzSoundType::Binary => "binary",
        WzSoundType::Mp3 => "mp3",
    });
    let _one = super::c01::HUGE.lock().unwrap_or_else(|e| e.into_inner());
    let sc = Scratch::new();
    let path = sc.0.join("a.img");
    h.write(&path).map_err(|e| format!("HARNESS-ERROR {e}"))?;
    let n = wz_reader::WzNode::from_img_file_with_iv(&path, c.iv, None).map_err(|e| format!("from_img_file: {e}"))?.into_lock();
    n.write().unwrap().parse(&n).map_err(|e| format!("parse: {e}"))?;
    let get = |p: &str| n.read().unwrap().at(p).ok_or(format!("{p} missing"));
    if get("z")?.read().unwrap().try_as_int() != Some(&c.after) {
        return Err("the property after the sound".into());
    }
    let node = get("s")?;
    let r = node.read().unwrap();
    let snd = r.try_as_sound().ok_or("no sound")?;
    if snd.sound_type != ty || snd.duration != s.dur as u32 {
        return Err(format!("type {:?}, duration {}, expected {ty:?}, {}", snd.sound_type, snd.duration, s.dur as u32));
    }
    let mut start = vec![];
    if ty == WzSoundType::Wav {
        let t = total as u32;
        start = [b"RIFF", &(t + 36).to_le_bytes()[..], b"WAVEfmt ", &16u32.to_le_bytes(), &s.header[0x34..0x44], b"data", &t.to_le_bytes()].concat();
        if snd.get_wav_header() != start {
            return Err("the WAV header is not the one of its size".into());
        }
    }
    if total < 1 << 26 {
        start.extend_from_slice(&s.data);
        let mut w = Count { keep: vec![], room: start.len(), n: 0, other: false };
        snd.write_to(&mut w).map_err(|e| format!("write_to: {e}"))?;
        let b = snd.get_buffer();
        if w.keep != start || w.other || w.n != start.len() + c.more as usize {
            return Err(format!("write_to wrote {} bytes, or others", w.n));
        }
        if b.len() != w.n || b[..start.len()] != start[..] || b[start.len()..].iter().any(|x| *x != 0) {
            return Err(format!("get_buffer gave {} bytes, or others", b.len()));
        }
        o.class("payload compared");
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C14",
        subs: vec![
            check!("alone", "the payload is not empty", 5000, 200000, strat, alone),
            check!("in-image", "some payload is not empty", 2500, 100000, istrat, in_image),
            check!("long", "sounds of up to 2 GiB that end in zeros (sparse files), always", 16, 2000, long_strat, long),
        ],
        assumptions: &[
            "a sound is stored as its header followed by its payload up to the end of its block",
            "a saved WAV or MP3 has the extension wav or mp3 in place of the given one, as the function does",
            "a 0x46 byte header is a WAV, unless it marks binary data (frequency equal to the size, duration 1000); any other header size is an MP3",
        ],
        threads: 8,
    }
}
