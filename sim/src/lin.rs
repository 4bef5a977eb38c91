//! Linearizability of the recorded client history against one copy of the state machine.
//!
//! The committed log gives the order of the writes, so the check is exact and linear: a read of key k
//! that returned v may be placed anywhere between the write of v and the next write of k. Every
//! constraint coming from real time is a lower bound, so giving each read the smallest possible
//! position is optimal.

use std::collections::BTreeMap;

use openraft::EntryPayload;

use crate::oracle::OpKind;
use crate::oracle::Outcome;
use crate::types::fmt_lid;
use crate::world::World;

pub struct LinStats {
    pub reads: u64,
    pub writes: u64,
}

pub fn check(w: &mut World) -> LinStats {
    // position of every committed write
    let mut pos: BTreeMap<u64, i64> = BTreeMap::new();
    let mut by_key: BTreeMap<u8, Vec<(i64, u64)>> = BTreeMap::new();
    for r in &w.o.refs {
        let Some(e) = w.o.entries.get(&r.lid) else { continue };
        if let EntryPayload::Normal(q) = &e.entry.payload {
            pos.insert(q.id, r.lid.index as i64);
            by_key.entry(q.key).or_default().push((r.lid.index as i64, q.id));
        }
    }
    let ops = w.o.ops.clone();
    let mut evs: Vec<(u64, bool, usize)> = vec![];
    for (i, o) in ops.iter().enumerate() {
        evs.push((o.inv, false, i));
        if o.outcome == Outcome::Ok {
            evs.push((o.ret, true, i));
        }
    }
    evs.sort();
    let mut floor = -1i64;
    let mut why = String::from("start");
    let mut place: Vec<i64> = vec![-1; ops.len()];
    let mut st = LinStats { reads: 0, writes: 0 };
    for (seq, ret, i) in evs {
        let o = &ops[i];
        if !ret {
            match o.kind {
                OpKind::Write => {
                    if let Some(p) = pos.get(&o.id) {
                        if *p <= floor {
                            w.violate(
                                &["C08"],
                                "a write takes effect before it was submitted",
                                format!("write {} of key {} is at index {}, but before it was submitted {} was at {}", o.id, o.key, p, why, floor),
                            );
                        }
                        place[i] = *p;
                    } else if o.outcome == Outcome::Ok {
                        w.violate(&["C06", "C08", "C09"], "an acknowledged write is not in the committed log", format!("write {} on n{}", o.id, o.node));
                    }
                }
                OpKind::Read if o.outcome == Outcome::Ok => {
                    let lo = match o.got {
                        None => -1,
                        Some(v) => match pos.get(&v) {
                            Some(p) => *p,
                            None => {
                                w.violate(
                                    &["C08", "C07"],
                                    "a read returns a value that was never committed",
                                    format!("read of key {} on n{} returned {}", o.key, o.node, v),
                                );
                                continue;
                            }
                        },
                    };
                    let hi = by_key
                        .get(&o.key)
                        .and_then(|v| v.iter().find(|x| x.0 > lo))
                        .map(|x| x.0 - 1)
                        .unwrap_or(i64::MAX);
                    let p = lo.max(floor);
                    place[i] = p;
                    if p > hi {
                        let last = w.o.refs.get(hi as usize + 1).map(|r| fmt_lid(&Some(r.lid))).unwrap_or_default();
                        w.violate(
                            &["C08"],
                            "a stale read",
                            format!(
                                "read of key {} via n{} returned {:?} (index {}), overwritten at {}; before the read began, {} was at index {} (seq {})",
                                o.key, o.node, o.got, lo, last, why, floor, seq
                            ),
                        );
                    }
                }
                _ => {}
            }
        } else {
            match o.kind {
                OpKind::Write => st.writes += 1,
                OpKind::Read => st.reads += 1,
            }
            if place[i] > floor {
                floor = place[i];
                why = format!("{:?} {} of key {}", o.kind, o.id, o.key);
            }
        }
    }
    st
}
