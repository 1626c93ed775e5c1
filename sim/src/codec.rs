//! Navmesh-input payloads carried and stored in pieces that get lost, doubled, reordered or altered.

use std::panic::{AssertUnwindSafe, catch_unwind};

use base64::prelude::*;
use bevy_rerecast::editor_integration::{
    brp::NavmeshInputResponse,
    transmission::{deserialize, serialize},
};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::Value;

use crate::{
    cx::Cx,
    game::{self, Edit, Game, GameCfg},
    gen_assets::TransformMode,
    jobs::encode,
    plan::{filter, simpler_game},
    rng::{Rng, hash_bytes},
    util,
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Damage {
    /// Only so much arrives (permille of the length).
    CutAt(u32),
    /// So many bytes of the end are missing.
    CutEnd(u32),
    FlipBit { at: u32, bit: u8 },
    SetByte { at: u32, to: u8 },
    Zero { block: u32, nth: u32 },
    Lose { block: u32, nth: u32 },
    Double { block: u32, nth: u32 },
    Swap { block: u32, a: u32, b: u32 },
    /// The block at this place is that of the other payload.
    Stale { block: u32, nth: u32 },
    /// The rest is that of the other payload.
    Splice { at: u32, other: u32 },
    Append { n: u32, seed: u32 },
    Insert { at: u32, n: u32, seed: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Carry {
    /// Whether the second payload is the one that is carried.
    pub second: bool,
    /// Damage to the bytes below the text encoding rather than to the text.
    pub inner: bool,
    pub damage: Vec<Damage>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Source {
    /// Two answers of a game, with an edit between.
    Game { cfg: GameCfg, edits: Vec<Edit> },
    /// Values of another type.
    Plain { seed: u32, n: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CodecPlan {
    pub source: Source,
    pub carries: Vec<Carry>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Plain {
    Nothing,
    Text(String),
    Many(Vec<(u64, f32, Option<i16>)>),
    Deep(Box<Plain>, Vec<u8>),
}

/// From this size on, a value is as large as a whole scene with its textures.
const LARGE: u32 = 1 << 20;

fn plain(r: &mut Rng, n: u32) -> Plain {
    if n >= LARGE {
        // Half of it can be compressed.
        let text = (0..n / 2).map(|_| (b'a' + r.below(3) as u8) as char).collect();
        return Plain::Deep(Box::new(Plain::Text(text)), (0..n).map(|_| r.below(256) as u8).collect());
    }
    match r.below(5) {
        0 => Plain::Text((0..r.below(n as u64 + 2)).map(|_| (b'a' + r.below(3) as u8) as char).collect()),
        1 => Plain::Nothing,
        2 if n > 1 => {
            let len = r.below(n as u64 * 4);
            Plain::Deep(Box::new(plain(r, n / 2)), (0..len).map(|_| r.below(256) as u8).collect())
        }
        _ => Plain::Many(
            (0..r.below(n as u64 + 1))
                .map(|_| {
                    let k = *r.pick(&[10, 300, u64::MAX]);
                    (r.below(k), r.f(-1e3, 1e3), r.bool().then(|| r.range(-300, 300) as i16))
                })
                .collect(),
        ),
    }
}

pub fn run(p: &CodecPlan, cx: &mut Cx) {
    match &p.source {
        Source::Game { cfg, edits } => {
            let mut g = Game::new(cfg);
            let Some(a) = answer(&mut g, cx) else { return };
            for e in edits {
                g.edit(e);
            }
            let Some(b) = answer(&mut g, cx) else { return };
            cx.sim_us += 200_000;
            carry::<NavmeshInputResponse>(p, &a, &b, cx);
        }
        Source::Plain { seed, n } => {
            let r = &mut Rng::new(*seed as u64);
            let (x, y) = (plain(r, *n), plain(r, if *n >= LARGE { 40 } else { *n }));
            let enc = |v: &Plain| catch_unwind(AssertUnwindSafe(|| serialize(v)));
            let (Ok(Ok(a)), Ok(Ok(b))) = (enc(&x), enc(&y)) else {
                cx.violate("codec-refused", "a value cannot be encoded");
                return;
            };
            for (v, e) in [(&x, &a), (&y, &b)] {
                cx.checks += 1;
                match decode::<Plain>(e) {
                    Ok(Ok(d)) if d == *v => {}
                    other => cx.violate("codec-roundtrip", format!("decoding what was encoded gives {}", verdict(&other))),
                }
            }
            carry::<Plain>(p, &a, &b, cx);
        }
    }
}

fn verdict<T>(r: &Result<Result<T, String>, String>) -> String {
    match r {
        Ok(Ok(_)) => "something else".into(),
        Ok(Err(e)) => format!("an error: {e}"),
        Err(p) => format!("a panic: {p}"),
    }
}

fn answer(g: &mut Game, cx: &mut Cx) -> Option<Value> {
    for _ in 0..3 {
        let _ = g.update();
    }
    let rx = g.request(game::METHOD, None)?;
    for _ in 0..10 {
        if g.update().is_err() {
            break;
        }
        if let Ok(r) = rx.try_recv() {
            return match r {
                Ok(v) => Some(v),
                Err(e) => {
                    // Other properties say when this may be.
                    cx.log(format!("no answer: {}", e.code));
                    None
                }
            };
        }
    }
    cx.log("no answer");
    None
}

fn decode<T: DeserializeOwned>(v: &Value) -> Result<Result<T, String>, String> {
    catch_unwind(AssertUnwindSafe(|| deserialize::<T>(v).map_err(|e| first_line(&format!("{e}")))))
        .map_err(util::panic_text)
}

fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").to_string()
}

fn carry<T: Serialize + DeserializeOwned>(p: &CodecPlan, a: &Value, b: &Value, cx: &mut Cx) {
    let mut values = Vec::new();
    for v in [a, b] {
        cx.checks += 1;
        match decode::<T>(v) {
            Ok(Ok(x)) => {
                let bytes = encode(&x);
                // And once more around.
                let again = serialize(&x).ok().map(|v| decode::<T>(&v));
                if !matches!(&again, Some(Ok(Ok(y))) if encode(y) == bytes) {
                    cx.violate("codec-roundtrip", "a value does not survive encoding and decoding");
                    return;
                }
                values.push(bytes);
            }
            other => {
                cx.violate("codec-roundtrip", format!("decoding what the game sent gives {}", verdict(&other)));
                return;
            }
        }
    }
    let (Some(ta), Some(tb)) = (a.as_str(), b.as_str()) else {
        // Another carrier than text: nothing to damage here.
        cx.count("not a text");
        return;
    };
    cx.log(format!("payloads of {} and {} bytes, {:x}", values[0].len(), values[1].len(), hash_bytes(ta.as_bytes())));
    let raw = [BASE64_STANDARD.decode(ta).ok(), BASE64_STANDARD.decode(tb).ok()];
    for c in &p.carries {
        let (mine, other) = if c.second { (1, 0) } else { (0, 1) };
        let text = |k: usize| if k == 0 { ta } else { tb }.as_bytes().to_vec();
        let (src, oth) = match (&raw[mine], &raw[other]) {
            (Some(m), Some(o)) if c.inner => (m.clone(), o.clone()),
            _ => (text(mine), text(other)),
        };
        let mut bytes = src.clone();
        for d in &c.damage {
            apply(d, &mut bytes, &oth);
        }
        if bytes.starts_with(&oth) && !bytes.starts_with(&src) {
            // That is the other payload, undamaged.
            cx.count("became the other payload");
            continue;
        }
        if bytes == src {
            cx.count("no damage");
        } else {
            for d in &c.damage {
                let name = format!("{d:?}");
                cx.fault(name.split([' ', '(', '{']).next().unwrap_or("?"));
            }
        }
        let v = if c.inner && raw[mine].is_some() && raw[other].is_some() {
            Value::String(BASE64_STANDARD.encode(&bytes))
        } else {
            Value::String(String::from_utf8_lossy(&bytes).into_owned())
        };
        cx.checks += 1;
        cx.sched(&format!("{:?}", c.damage));
        match decode::<T>(&v) {
            Ok(Err(e)) => {
                cx.log(format!("{:?}: error", c.damage));
                cx.count("rejected");
                cx.state(&format!("err {}", e.chars().take(24).collect::<String>()));
                if bytes == src {
                    cx.violate("codec-roundtrip", "an undamaged payload is rejected");
                }
            }
            Ok(Ok(x)) => {
                // What is put together from both may come out as the other, too.
                let x = encode(&x);
                let same = x == values[mine] || x == values[other];
                cx.log(format!("{:?}: decodes, {}", c.damage, if same { "the same" } else { "DIFFERENT" }));
                cx.count(if same { "decodes to the same" } else { "decodes to something else" });
                if !same {
                    cx.violate(
                        "codec-wrong-value",
                        format!("a payload with {:?} decodes to another value", c.damage),
                    );
                }
            }
            Err(pm) => {
                cx.violate("codec-panic", format!("decoding a payload with {:?} panics: {pm}", c.damage));
            }
        }
        if cx.stop() {
            return;
        }
    }
}

impl CodecPlan {
    pub fn edits(&self) -> &[Edit] {
        match &self.source {
            Source::Game { edits, .. } => edits,
            Source::Plain { .. } => &[],
        }
    }

    pub fn keep(&self, mask: &[bool]) -> CodecPlan {
        let mut q = self.clone();
        q.carries = filter(&self.carries, &mask[..self.carries.len()]);
        if let Source::Game { edits, .. } = &mut q.source {
            *edits = filter(edits, &mask[self.carries.len()..]);
        }
        q
    }

    pub fn simpler(&self) -> Vec<CodecPlan> {
        let mut out = Vec::new();
        match &self.source {
            Source::Game { cfg, edits } => {
                for g in simpler_game(cfg) {
                    out.push(CodecPlan {
                        source: Source::Game { cfg: g, edits: edits.clone() },
                        ..self.clone()
                    });
                }
            }
            Source::Plain { seed, n } if *n > 0 => {
                for m in [n / 2, n - 1] {
                    out.push(CodecPlan {
                        source: Source::Plain { seed: *seed, n: m },
                        ..self.clone()
                    });
                }
            }
            _ => {}
        }
        for (i, c) in self.carries.iter().enumerate() {
            if c.damage.len() > 1 {
                for k in 0..c.damage.len() {
                    let mut q = self.clone();
                    q.carries[i].damage.remove(k);
                    out.push(q);
                }
            }
        }
        out
    }
}

fn range(len: usize, block: u32, nth: u32) -> std::ops::Range<usize> {
    let block = (block as usize).max(1);
    let n = len.div_ceil(block).max(1);
    let at = (nth as usize % n) * block;
    at.min(len)..(at + block).min(len)
}

fn apply(d: &Damage, b: &mut Vec<u8>, other: &[u8]) {
    if b.is_empty() {
        return;
    }
    let len = b.len();
    match *d {
        Damage::CutAt(p) => b.truncate((len as u64 * p as u64 / 1000) as usize),
        Damage::CutEnd(n) => b.truncate(len - 1 - (n as usize - 1).min(len - 1)),
        Damage::FlipBit { at, bit } => b[at as usize % len] ^= 1 << (bit % 8),
        Damage::SetByte { at, to } => b[at as usize % len] = to,
        Damage::Zero { block, nth } => b[range(len, block, nth)].fill(0),
        Damage::Lose { block, nth } => {
            b.drain(range(len, block, nth));
        }
        Damage::Double { block, nth } => {
            let r = range(len, block, nth);
            let x = b[r.clone()].to_vec();
            b.splice(r.end..r.end, x);
        }
        Damage::Swap { block, a, b: c } => {
            let (x, y) = (range(len, block, a), range(len, block, c));
            let (x, y) = if x.start <= y.start { (x, y) } else { (y, x) };
            if x.end <= y.start {
                let (p, q) = (b[x.clone()].to_vec(), b[y.clone()].to_vec());
                b.splice(y, p);
                b.splice(x, q);
            }
        }
        Damage::Stale { block, nth } => {
            let r = range(len, block, nth);
            let o = other.get(r.start..r.end.min(other.len()).max(r.start.min(other.len()))).unwrap_or(&[]).to_vec();
            b.splice(r, o);
        }
        Damage::Splice { at, other: o } => {
            b.truncate(1 + at as usize % len);
            b.extend(&other[(o as usize % (other.len() + 1)).min(other.len())..]);
        }
        Damage::Append { n, seed } => {
            let r = &mut Rng::new(seed as u64);
            b.extend((0..n).map(|_| b'A' + r.below(26) as u8));
        }
        Damage::Insert { at, n, seed } => {
            let r = &mut Rng::new(seed as u64);
            let x: Vec<u8> = (0..n).map(|_| b'A' + r.below(26) as u8).collect();
            let at = at as usize % len;
            b.splice(at..at, x);
        }
    }
}

fn damage(r: &mut Rng) -> Damage {
    // Near the ends as often as inside.
    let at = |r: &mut Rng| match r.below(3) {
        0 => r.below(40) as u32,
        _ => r.seed(),
    };
    let block = *r.pick(&[1, 3, 4, 16, 64, 512, 1024, 4096]);
    match r.below(14) {
        0 => Damage::CutAt(r.below(1000) as u32),
        1 => Damage::CutEnd(r.range(1, 40) as u32),
        2..=4 => Damage::FlipBit { at: at(r), bit: r.below(8) as u8 },
        5 => Damage::SetByte { at: at(r), to: r.below(256) as u8 },
        6 => Damage::Zero { block, nth: at(r) },
        7 => Damage::Lose { block, nth: at(r) },
        8 => Damage::Double { block, nth: at(r) },
        9 => Damage::Swap { block, a: at(r), b: at(r) },
        10 => Damage::Stale { block, nth: at(r) },
        11 => {
            let a = at(r);
            Damage::Splice { at: a, other: if r.bool() { a } else { at(r) } }
        }
        12 => Damage::Append { n: r.range(1, 40) as u32, seed: r.seed() },
        _ => Damage::Insert { at: at(r), n: r.range(1, 9) as u32, seed: r.seed() },
    }
}

pub fn generate(r: &mut Rng) -> CodecPlan {
    if r.below(250) == 0 {
        let n = *r.pick(&[LARGE, 5 * LARGE / 4, 5 * LARGE, 9 * LARGE]);
        let carries = (0..r.range(2, 6))
            .map(|_| Carry { second: false, inner: r.bool(), damage: vec![damage(r)] })
            .collect();
        return CodecPlan { source: Source::Plain { seed: r.seed(), n }, carries };
    }
    let source = if r.pct(65) {
        let mut cfg = GameCfg::random(r);
        cfg.textures = *r.pick(&[0, 0, 30]);
        cfg.entities = r.below(5) as u32;
        cfg.mode = *r.pick(&[TransformMode::Exact, TransformMode::Free]);
        cfg.remote = true;
        let edits = (0..r.range(1, 4)).map(|_| game::rand_edit(r, game::STRUCTURAL)).collect();
        Source::Game { cfg, edits }
    } else {
        Source::Plain { seed: r.seed(), n: *r.pick(&[0, 1, 5, 40, 400]) }
    };
    let carries = (0..r.range(40, 160))
        .map(|_| Carry {
            second: r.bool(),
            inner: r.bool(),
            damage: (0..if r.pct(85) { 1 } else { r.range(2, 4) }).map(|_| damage(r)).collect(),
        })
        .collect();
    CodecPlan { source, carries }
}
