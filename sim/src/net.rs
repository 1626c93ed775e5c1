//! Connections, their faults, and the HTTP front of the game (a stub of `RemoteHttpPlugin`).

use bevy::prelude::GlobalTransform;
use bevy_rerecast::editor_integration::{
    brp::{NavmeshInputResponse, VisualMesh},
    transmission::{deserialize, serialize},
};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    None,
    // Unusual, but correct.
    Chunked,
    CloseDelimited,
    Slow { us: u32 },
    // Before the answer.
    Refuse,
    ResetOnSend { at: u32 },
    CloseBeforeAnswer { rst: bool },
    /// The game crashes with the request in hand.
    CrashBefore,
    /// The game crashes when part of the answer is out.
    CrashDuring { permille: u32 },
    // Within the answer.
    Cut { permille: u32, rst: bool },
    StallThenCut { permille: u32, us: u32, rst: bool },
    StallThenGoOn { permille: u32, us: u32 },
    Flip { permille: u32, bit: u8 },
    Drop { permille: u32, len: u32 },
    Dup { permille: u32, len: u32 },
    Zero { permille: u32, len: u32 },
    /// Only the payload is damaged; the framing around it is intact.
    PayloadFlip { permille: u32, bit: u8 },
    PayloadCut { permille: u32 },
    PayloadDup { permille: u32, len: u32 },
    // Other answers.
    Status { code: u16, with_body: bool },
    Foreign { kind: u8 },
    RpcError { code: i16 },
    MissingResult,
    OtherResult { kind: u8 },
    /// A scene that refers to things it does not contain.
    Inconsistent { kind: u8, by: u32 },
}

impl Fault {
    pub fn name(&self) -> String {
        let d = format!("{self:?}");
        d.split([' ', '{', '(']).next().unwrap_or("").to_string()
    }
    /// Whether the exchange is as good as one without faults.
    pub fn harmless(&self) -> bool {
        matches!(
            self,
            Fault::None
                | Fault::Chunked
                | Fault::CloseDelimited
                | Fault::Slow { .. }
                | Fault::StallThenGoOn { .. }
        )
    }
    pub fn legal(r: &mut Rng) -> Fault {
        match r.below(8) {
            0 => Fault::Chunked,
            1 => Fault::CloseDelimited,
            2 => Fault::Slow { us: r.range(1_000, 400_000) as u32 },
            3 => Fault::StallThenGoOn {
                permille: r.below(1001) as u32,
                us: r.range(10_000, 20_000_000) as u32,
            },
            _ => Fault::None,
        }
    }
    pub fn random(r: &mut Rng) -> Fault {
        // Header, start, anywhere, end.
        let permille = |r: &mut Rng| match r.below(5) {
            0 => r.below(20) as u32,
            1 => 1000 - r.below(20) as u32,
            _ => r.below(1001) as u32,
        };
        let len = |r: &mut Rng| match r.below(3) {
            0 => 1,
            1 => r.range(1, 16) as u32,
            _ => r.range(1, 4000) as u32,
        };
        let bit = |r: &mut Rng| r.below(8) as u8;
        let p = permille(r);
        match r.below(25) {
            0 => Fault::Refuse,
            1 => Fault::ResetOnSend { at: r.below(400) as u32 },
            2 => Fault::CloseBeforeAnswer { rst: r.bool() },
            3 => Fault::CrashBefore,
            4 => Fault::CrashDuring { permille: p },
            5..=7 => Fault::Cut { permille: p, rst: r.bool() },
            8 => Fault::StallThenCut {
                permille: p,
                us: r.range(10_000, 30_000_000) as u32,
                rst: r.bool(),
            },
            9 => Fault::StallThenGoOn {
                permille: p,
                us: r.range(10_000, 30_000_000) as u32,
            },
            10 | 11 => Fault::Flip { permille: p, bit: bit(r) },
            12 => Fault::Drop { permille: p, len: len(r) },
            13 => Fault::Dup { permille: p, len: len(r) },
            14 => Fault::Zero { permille: p, len: len(r) },
            15 | 16 => Fault::PayloadFlip { permille: p, bit: bit(r) },
            17 => Fault::PayloadCut { permille: p },
            18 => Fault::PayloadDup { permille: p, len: len(r) },
            19 => Fault::Status {
                code: *r.pick(&[400, 403, 404, 500, 502, 503]),
                with_body: r.bool(),
            },
            20 => Fault::Foreign { kind: r.below(9) as u8 },
            21 => Fault::RpcError { code: *r.pick(&[-32601, -32602, -32603, -23402]) },
            22 => Fault::MissingResult,
            23 => Fault::Inconsistent { kind: r.below(4) as u8, by: *r.pick(&[0, 1, u32::MAX / 2]) },
            _ => Fault::OtherResult { kind: r.below(9) as u8 },
        }
    }
}

/// What reaches the client, and when (delay after the previous item).
#[derive(Clone, Debug)]
pub enum Item {
    Data(Vec<u8>),
    Eof,
    Reset,
}

pub fn envelope(id: &Value, body: Result<&Value, (i16, String)>) -> Value {
    let mut v = json!({ "jsonrpc": "2.0", "id": id });
    match body {
        Ok(r) => v["result"] = r.clone(),
        Err((code, message)) => v["error"] = json!({ "code": code, "message": message, "data": null }),
    }
    v
}

fn at(permille: u32, len: usize) -> usize {
    (len as u64 * permille as u64 / 1000) as usize
}

/// A payload string with something done to it.
fn damage_payload(f: &Fault, v: &Value) -> Value {
    let Some(s) = v.as_str() else {
        return v.clone();
    };
    // The alphabet of the encoding is ASCII, so bytes are characters.
    let mut b = s.as_bytes().to_vec();
    if b.is_empty() {
        return v.clone();
    }
    match f {
        Fault::PayloadFlip { permille, bit } => {
            let i = at(*permille, b.len() - 1);
            b[i] ^= 1 << (bit % 7);
        }
        Fault::PayloadCut { permille } => {
            // Whole groups, so that it is still well-formed.
            let n = at(*permille, b.len()) / 4 * 4;
            b.truncate(n.min(b.len().saturating_sub(4)));
        }
        Fault::PayloadDup { permille, len } => {
            let i = at(*permille, b.len() - 1) / 4 * 4;
            let n = ((*len as usize).div_ceil(4) * 4).min(b.len() - i);
            let part = b[i..i + n].to_vec();
            b.splice(i..i, part);
        }
        _ => {}
    }
    Value::String(String::from_utf8_lossy(&b).into_owned())
}

/// A scene that cannot have come from a game, correctly encoded.
fn inconsistent(kind: u8, by: u32, v: &Value) -> Value {
    let Ok(mut scene) = deserialize::<NavmeshInputResponse>(v) else {
        return v.clone();
    };
    match kind {
        0 | 1 => {
            if scene.visual_meshes.is_empty() {
                scene.visual_meshes.push(VisualMesh {
                    transform: GlobalTransform::IDENTITY,
                    mesh: 0,
                    material: None,
                });
            }
            let visual = scene.visual_meshes.last_mut().unwrap();
            if kind == 0 {
                visual.mesh = scene.meshes.len() as u32 + by;
            } else {
                visual.material = Some(scene.materials.len() as u32 + by);
            }
        }
        2 => scene.images.clear(),
        _ => {
            // An attribute of one mesh gets the name of another.
            for mesh in &mut scene.meshes {
                let mut m = serde_json::to_value(&*mesh).unwrap();
                if let Some(a) = m["attributes"].as_array_mut() {
                    for a in a {
                        a[0] = json!((a[0].as_u64().unwrap_or(0) + 1 + by as u64 % 5) % 8);
                    }
                }
                if let Ok(m) = serde_json::from_value(m) {
                    *mesh = m;
                }
            }
        }
    }
    serialize(&scene).unwrap_or_else(|_| v.clone())
}

/// The bytes of the answer on the wire, in pieces, followed by what happens then.
pub fn response(
    fault: &Fault,
    id: &Value,
    result: Result<&Value, (i16, String)>,
    r: &mut Rng,
) -> Vec<(u64, Item)> {
    let damaged;
    let result = match (&result, fault) {
        (
            Ok(v),
            Fault::PayloadFlip { .. } | Fault::PayloadCut { .. } | Fault::PayloadDup { .. },
        ) => {
            damaged = damage_payload(fault, v);
            Ok(&damaged)
        }
        (Ok(v), Fault::Inconsistent { kind, by }) => {
            damaged = inconsistent(*kind, *by, v);
            Ok(&damaged)
        }
        _ => result,
    };
    let mut env = envelope(id, result);
    let mut status = 200;
    let mut content_type = "application/json";
    match fault {
        Fault::MissingResult => {
            env.as_object_mut().unwrap().remove("result");
        }
        Fault::OtherResult { kind } => {
            env["result"] = match kind {
                0 => Value::Null,
                1 => json!(7),
                2 => json!(""),
                3 => json!("!!! not base64 !!!"),
                4 => json!("aGVsbG8gd29ybGQ="),
                5 => json!(["a"]),
                6 => json!({ "affector_meshes": [], "visual_meshes": [] }),
                // An empty gzip member.
                7 => json!("H4sIAAAAAAAA/wMAAAAAAAAAAAA="),
                _ => json!(true),
            };
        }
        Fault::RpcError { code } => {
            env = envelope(id, Err((*code, "simulated error".to_string())));
        }
        _ => {}
    }
    let mut body = serde_json::to_vec(&env).unwrap();
    match fault {
        Fault::Status { code, with_body } => {
            status = *code;
            if !with_body {
                body = b"error".to_vec();
                content_type = "text/plain";
            }
        }
        Fault::Foreign { kind } => {
            content_type = "text/html";
            body = match kind {
                0 => b"<html><body>It works!</body></html>".to_vec(),
                1 => Vec::new(),
                2 => b"null".to_vec(),
                3 => b"[]".to_vec(),
                4 => b"{}".to_vec(),
                5 => b"{\"result\":{}}".to_vec(),
                6 => b"\xff\xfe\x00binary".to_vec(),
                _ => b"SSH-2.0-OpenSSH_9.6\r\n".to_vec(),
            };
        }
        _ => {}
    }
    let mut eof = false;
    let mut wire = Vec::new();
    if matches!(fault, Fault::Foreign { kind: 7 }) {
        wire = body;
        eof = true;
    } else {
        if matches!(fault, Fault::Foreign { kind: 8 }) {
            status = r.below(100) as u16;
        }
        wire.extend(format!("HTTP/1.1 {status:03} X\r\ncontent-type: {content_type}\r\n").bytes());
        match fault {
            Fault::Chunked => {
                wire.extend(b"transfer-encoding: chunked\r\n\r\n");
                let n = r.range(1, 6) as usize;
                for c in body.chunks(body.len() / n + 1) {
                    wire.extend(format!("{:x}\r\n", c.len()).bytes());
                    wire.extend(c);
                    wire.extend(b"\r\n");
                }
                wire.extend(b"0\r\n\r\n");
            }
            Fault::CloseDelimited => {
                wire.extend(b"connection: close\r\n\r\n");
                wire.extend(body);
                eof = true;
            }
            _ => {
                wire.extend(
                    format!(
                        "content-length: {}\r\ndate: Thu, 01 Jan 1970 00:00:00 GMT\r\n\r\n",
                        body.len()
                    )
                    .bytes(),
                );
                wire.extend(body);
            }
        }
    }
    let mut end: Option<(u64, Item)> = eof.then_some((500, Item::Eof));
    let mut stall: Option<(usize, u64)> = None;
    let close = |rst: bool| if rst { Item::Reset } else { Item::Eof };
    match fault {
        Fault::Cut { permille, rst } => {
            wire.truncate(at(*permille, wire.len()).min(wire.len().saturating_sub(1)));
            end = Some((200, close(*rst)));
        }
        Fault::CrashDuring { permille } => {
            wire.truncate(at(*permille, wire.len()).min(wire.len().saturating_sub(1)));
            end = Some((200, Item::Reset));
        }
        Fault::StallThenCut { permille, us, rst } => {
            wire.truncate(at(*permille, wire.len()).min(wire.len().saturating_sub(1)));
            end = Some((*us as u64, close(*rst)));
        }
        Fault::StallThenGoOn { permille, us } => {
            stall = Some((at(*permille, wire.len()), *us as u64));
        }
        Fault::Flip { permille, bit } => {
            let i = at(*permille, wire.len() - 1);
            wire[i] ^= 1 << bit;
            end = Some((5_000, Item::Eof));
        }
        Fault::Drop { permille, len } => {
            let i = at(*permille, wire.len() - 1);
            let n = (*len as usize).min(wire.len() - i);
            wire.drain(i..i + n);
            end = Some((5_000, Item::Eof));
        }
        Fault::Dup { permille, len } => {
            let i = at(*permille, wire.len() - 1);
            let n = (*len as usize).min(wire.len() - i);
            let part = wire[i..i + n].to_vec();
            wire.splice(i..i, part);
            end = Some((5_000, Item::Eof));
        }
        Fault::Zero { permille, len } => {
            let i = at(*permille, wire.len() - 1);
            let n = (*len as usize).min(wire.len() - i);
            wire[i..i + n].fill(0);
            end = Some((5_000, Item::Eof));
        }
        _ => {}
    }
    // Pieces.
    let slow = matches!(fault, Fault::Slow { .. });
    let n = if slow { r.range(3, 12) } else { *r.pick(&[1, 1, 2, 3, 6]) };
    let mut cuts: Vec<usize> = (0..n - 1).map(|_| r.idx(wire.len() + 1)).collect();
    if let Some((at, _)) = stall {
        cuts.push(at);
    }
    cuts.sort();
    cuts.push(wire.len());
    let mut out = Vec::new();
    let mut from = 0;
    let mut stalled = false;
    for c in cuts {
        if c == from {
            continue;
        }
        let mut delay = match fault {
            Fault::Slow { us } => r.below(*us as u64 + 1),
            _ => r.below(1_500),
        };
        if let Some((at, us)) = stall {
            if from >= at && !stalled {
                delay += us;
                stalled = true;
            }
        }
        out.push((delay, Item::Data(wire[from..c].to_vec())));
        from = c;
    }
    if let Some(e) = end {
        out.push(e);
    }
    out
}

/// A complete HTTP request, if there is one: method, body.
pub fn parse_request(b: &[u8]) -> Option<(String, Vec<u8>)> {
    let head_end = b.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = String::from_utf8_lossy(&b[..head_end]).into_owned();
    let method = head.split(' ').next().unwrap_or("").to_string();
    let mut rest = &b[head_end + 4..];
    let lower = head.to_ascii_lowercase();
    if let Some(l) = lower.lines().find(|l| l.starts_with("content-length:")) {
        let n: usize = l["content-length:".len()..].trim().parse().ok()?;
        return (rest.len() >= n).then(|| (method, rest[..n].to_vec()));
    }
    if lower.contains("transfer-encoding: chunked") {
        let mut body = Vec::new();
        loop {
            let eol = rest.windows(2).position(|w| w == b"\r\n")?;
            let n = usize::from_str_radix(
                String::from_utf8_lossy(&rest[..eol]).split(';').next()?.trim(),
                16,
            )
            .ok()?;
            rest = &rest[eol + 2..];
            if n == 0 {
                return Some((method, body));
            }
            if rest.len() < n + 2 {
                return None;
            }
            body.extend(&rest[..n]);
            rest = &rest[n + 2..];
        }
    }
    Some((method, Vec::new()))
}
