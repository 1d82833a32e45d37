//! A fast restatement of Triangulation.tla, used to select the executions TLC must see.

use crate::{geom::*, record::*};

/// The requirements a recorded run breaks. `reject` is the expected rejection (Res::Ok for a valid input).
pub fn broken(input: &Input, clockwise: bool, reject: Res, events: &[Event]) -> Vec<&'static str> {
    #[derive(PartialEq, Clone, Copy)]
    enum Phase { Idle, Open, Refused, Erred, Failed, Built, Spoiled, Unwound }

    let mut out: Vec<&'static str> = Vec::new();
    let mut phase = Phase::Idle;
    let mut fault = Res::Ok;
    let mut tris: Vec<[usize; 3]> = Vec::new();
    let (mut root, mut last) = (0u32, 0u32);
    let n = input.pts.len() as u32;
    for e in events {
        let mut triangle = None;
        match e.op {
            Op::Initialize | Op::InitializeList => {
                if phase != Phase::Idle || reject != Res::Ok {
                    out.push("protocol");
                }
                if e.op == Op::Initialize {
                    triangle = Some(e.v);
                }
                if e.res == Res::Ok { phase = Phase::Open } else { phase = Phase::Refused; fault = e.res }
            }
            Op::NewFan | Op::ExtendFan | Op::AddTriangle => {
                if phase != Phase::Open {
                    out.push("protocol");
                }
                triangle = Some(if e.op == Op::ExtendFan { [root, last, e.v[0]] } else { e.v });
                if e.res != Res::Ok { phase = Phase::Erred; fault = e.res }
            }
            Op::Build => {
                if phase != Phase::Open {
                    out.push("protocol");
                } else if reject == Res::Ok && !out.contains(&"index") && !tiles(input, &tris) {
                    out.push("tiling");
                }
                if e.res == Res::Ok { phase = Phase::Built } else { phase = Phase::Spoiled; fault = e.res }
            }
            Op::Fail => {
                if phase != Phase::Erred {
                    out.push("protocol");
                } else if e.res != fault {
                    out.push("error");
                }
                phase = Phase::Failed;
            }
            Op::Trapezoidize => {
                let expected = if reject == Res::NoVertices { Res::Ok } else { reject };
                if e.res != expected { out.push(if reject == Res::Ok { "success" } else { "reject" }) }
            }
            Op::Return => {
                if reject != Res::Ok {
                    if e.res != reject { out.push("reject") }
                    if phase != Phase::Idle { out.push("protocol") }
                } else if fault == Res::Ok {
                    if e.res == Res::WrongOutput {
                        out.push("protocol")
                    } else if e.res != Res::Ok {
                        out.push("success")
                    } else if phase != Phase::Built {
                        out.push("protocol")
                    }
                } else {
                    if e.res != fault { out.push("error") }
                    if !matches!(phase, Phase::Refused | Phase::Failed | Phase::Spoiled | Phase::Unwound) { out.push("cleanup") }
                }
            }
        }
        if e.res == Res::Panic && !matches!(e.op, Op::Fail | Op::Trapezoidize | Op::Return) {
            phase = Phase::Unwound;
        }
        if let Some(t) = triangle {
            if t.iter().any(|&v| v == 0 || v > n) {
                out.push("index");
            } else {
                let t = [t[0] as usize - 1, t[1] as usize - 1, t[2] as usize - 1];
                if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
                    out.push("corners");
                } else {
                    let c = cross(input.pts[t[0]], input.pts[t[1]], input.pts[t[2]]);
                    if (if clockwise { -c } else { c }) < 0 {
                        out.push("winding");
                    }
                }
                if e.res == Res::Ok {
                    tris.push(t);
                }
            }
            (root, last) = (t[0], t[2]);
        }
    }
    out.sort_unstable();
    out.dedup();
    out
}
