//! The Tablet Store actor against the reference model: every kind of request,
//! several replicas, snapshots and changes of the leader.
use crate::core::*;
use crate::tenv::{describe, draw_layout};
use crate::tstore::*;
use prost::bytes::Bytes;
use prost::Message;
use tcp_tablet_store_service::apps::tablet_store::service as ts;
use ts::{tablet_op::Op, *};

fn draw_bytes(ctx: &mut Ctx) -> Bytes {
    let n = ctx.ch.pick(12);
    (0..n).map(|_| ctx.ch.pick(256) as u8).collect::<Vec<u8>>().into()
}

fn draw_op(ctx: &mut Ctx, s: &StoreServer, clean: bool) -> TabletOp {
    let names: Vec<String> = s.model.tables.keys().cloned().collect();
    let mut table_name = ctx.ch.of(&names).clone();
    let table = s.model.tables[&table_name].clone();
    let ids: Vec<u32> = table.keys().copied().collect();
    let mut id = *ctx.ch.of(&ids);
    let mut version = table[&id].tablet_version;
    if !clean {
        match ctx.ch.weighted(&[20, 2, 2, 2, 2]) {
            1 => table_name = ["t", "none", "A"][ctx.ch.pick(3)].to_string(),
            2 => id = [id.wrapping_add(1), 0, u32::MAX][ctx.ch.pick(3)],
            3 => version = version.wrapping_sub(1),
            4 => version = [version.wrapping_add(1), u32::MAX, 0][ctx.ch.pick(3)],
            _ => {}
        }
    }
    let kind = if clean { ctx.ch.weighted(&[3, 3, 1]) } else { ctx.ch.weighted(&[6, 6, 6, 1, 1, 1, 1]) };
    let op = match kind {
        0 => Some(Op::UpdateTablet(UpdateTabletOp {
            tablet_metadata: Some(TabletMetadata {
                tablet_id: id,
                tablet_version: version.wrapping_add(1),
                deleted: ctx.ch.chance(100),
                blob_encryption_key: draw_bytes(ctx),
                blob_size: ctx.ch.u32(),
                blob_hash: draw_bytes(ctx),
                blob_uri: format!("uri {}", ctx.ch.u32()),
            }),
        })),
        1 => Some(Op::CheckTablet(CheckTabletOp { tablet_id: id, tablet_version: version })),
        2 => {
            let mut one = |ctx: &mut Ctx| match ctx.ch.weighted(&[4, 3, 2]) {
                0 => {
                    let i = *ctx.ch.of(&ids);
                    [i, i.wrapping_sub(1), i.wrapping_add(1)][ctx.ch.pick(3)]
                }
                1 => ctx.ch.u32(),
                _ => [0, u32::MAX, 1 << 31][ctx.ch.pick(3)],
            };
            Some(Op::ListTablet(ListTabletOp { key_hash_from: one(ctx), key_hash_to: one(ctx) }))
        }
        3 => None,
        4 => Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: None })),
        5 => Some(Op::AddTablet(AddTabletOp::default())),
        _ => Some(Op::RemoveTablet(RemoveTabletOp::default())),
    };
    TabletOp { table_name, op }
}

pub fn store(ctx: &mut Ctx) -> R {
    let names = if ctx.ch.chance(100) { ["", "t\0", "\u{1f980}"] } else { ["a", "b", "ab"] };
    // Few runs have many tables, tablets and operations.
    let big = ctx.ch.chance(6);
    let n = if big && ctx.ch.pick(2) == 0 { 3 + ctx.ch.pick(40) } else { 1 + ctx.ch.weighted(&[2, 3, 2]) };
    let mut names: Vec<String> = names.iter().map(|x| x.to_string()).collect();
    names.extend((3..n).map(|i| format!("table {i}")));
    let mut s = if ctx.ch.chance(200) {
        if ctx.ch.chance(300) {
            ctx.fault("random numbers repeat");
            simseam::set_repeats(1 + ctx.ch.pick(30) as u32);
        }
        let tables: Vec<(String, usize)> = (0..n)
            .map(|i| {
                let most = if ctx.ch.chance(100) { 200 } else { 8 };
                (names[i].clone(), 1 + ctx.ch.pick(most))
            })
            .collect();
        ctx.ev(|| format!("{tables:x?}"));
        let s = StoreServer::random(ctx, &tables)?;
        simseam::set_repeats(0);
        s
    } else {
        let tables: Vec<(String, Vec<u32>)> = (0..n).map(|i| (names[i].clone(), draw_layout(ctx, &[]))).collect();
        let mut tables = tables;
        if big {
            for t in &mut tables {
                let more: std::collections::BTreeSet<u32> = t.1.iter().copied().chain((0..ctx.ch.pick(if n > 3 { 20 } else { 300 })).map(|_| ctx.ch.u32())).collect();
                t.1 = more.into_iter().collect();
            }
        }
        ctx.ev(|| format!("{tables:x?}"));
        StoreServer::new(&tables)
    };
    s.check_state(ctx)?;
    let total = 5 + ctx.ch.pick(if big { 150 } else { 40 });
    let mut corr = 0;
    let mut earlier: Vec<TabletsRequest> = Vec::new();
    for step in 0..total {
        corr += 1;
        match ctx.ch.weighted(&[20, 2, 2, 2, 3, 2]) {
            1 => {
                ctx.fault("tablet store failover to a snapshot");
                ctx.event("restore");
                s.failover(ctx)?;
            }
            2 if s.followers.len() < 3 => {
                ctx.event("join");
                s.join();
                s.check_state(ctx)?;
            }
            3 if !s.followers.is_empty() => {
                ctx.fault("tablet store leader change");
                let i = ctx.ch.pick(s.followers.len());
                ctx.ev(|| format!("elect {i}"));
                s.elect(i);
            }
            4 => {
                ctx.fault("malformed command");
                let good: Bytes = TabletStoreInMessage {
                    in_msg: Some(tablet_store_in_message::InMsg::ExecuteTabletOpsRequest(ExecuteTabletOpsRequest { sender_node_id: 1 })),
                }
                .encode_to_vec()
                .into();
                let (h, p): (Bytes, Bytes) = match ctx.ch.pick(4) {
                    0 => (vec![0xff, 0xff, 0xff].into(), Bytes::new()),
                    1 => (Bytes::new(), Bytes::new()),
                    2 => (good, vec![0x0a, 0x7f, 1].into()),
                    _ => (good, vec![0xff; 3].into()),
                };
                let not_leader = ctx.ch.chance(300);
                s.leader.set(!not_leader);
                ctx.ev(|| format!("malformed {h:?} {p:?} leader {}", !not_leader));
                s.refuse(ctx, corr, h, p)?;
                s.leader.set(true);
            }
            5 => {
                ctx.fault("command for a replica that is not the leader");
                let r = TabletsRequest { tablet_ops: vec![draw_op(ctx, &s, true)] };
                s.leader.set(false);
                s.execute(ctx, corr, r.encode_to_vec().into())?;
                s.leader.set(true);
                s.check_state(ctx)?;
            }
            _ => {
                let clean = ctx.ch.chance(600);
                let k = if big {
                    ctx.ch.pick(60)
                } else if clean { 1 + ctx.ch.weighted(&[4, 3, 2, 1]) } else { ctx.ch.weighted(&[1, 4, 4, 3, 2, 1]) };
                let mut r = TabletsRequest { tablet_ops: (0..k).map(|_| draw_op(ctx, &s, clean)).collect() };
                if !earlier.is_empty() && ctx.ch.chance(150) {
                    // The same request again: a duplicate or a late one.
                    ctx.fault("request repeated");
                    r = ctx.ch.of(&earlier).clone();
                } else if clean {
                    // Drop repeated updates.
                    let mut seen = std::collections::BTreeSet::new();
                    r.tablet_ops.retain(|o| match &o.op {
                        Some(Op::UpdateTablet(u)) => seen.insert((o.table_name.clone(), u.tablet_metadata.as_ref().unwrap().tablet_id)),
                        _ => true,
                    });
                }
                ctx.ev(|| format!("#{corr} {}", describe(&r.tablet_ops)));
                if let Some(e) = s.execute(ctx, corr, r.encode_to_vec().into())? {
                    ctx.ev(|| format!("success {}", e.success));
                    ctx.nontrivial |= e.success;
                    ctx.probe(if e.success { "request succeeded" } else { "request failed" });
                }
                if earlier.len() < 8 {
                    earlier.push(r);
                }
            }
        }
        if step % 4 == 0 {
            let h = hash_bytes(format!("{:?}", s.model.tables.values().map(|t| t.values().map(|m| m.tablet_version).collect::<Vec<_>>()).collect::<Vec<_>>()).as_bytes());
            ctx.state(h);
        }
        ctx.stats.sim_ms += 1;
    }
    Ok(())
}
