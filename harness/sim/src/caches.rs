//! The two caches of a cache node on their own: tablet data and metadata.
use crate::core::*;
use crate::tenv::{draw_layout, draw_region_size};
use crate::tstore::owner;
use prost::bytes::Bytes;
use sha2::{Digest, Sha256};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use tcp_runtime::logger::log::create_logger;
use tcp_tablet_cache_service::apps::tablet_cache::service as tc;
use tcp_tablet_cache_service::transaction::data::*;
use tcp_tablet_cache_service::transaction::metadata::*;
use tcp_tablet_cache_service::transaction::result::ResultHandle;
use tcp_tablet_cache_service::transaction::TableQuery;
use tcp_tablet_store_service::apps::tablet_store::service as ts;
use ts::{tablet_op::Op, tablet_op_result::OpResult, TabletMetadata, TabletOp, TabletOpResult, TabletsRequestStatus};

/// Values are stored reversed, so that serialized and live form differ.
struct Codec {
    refuse: Rc<Cell<u32>>,
}
fn encode(v: &[u8]) -> Bytes {
    v.iter().rev().copied().chain([0xee]).collect::<Vec<u8>>().into()
}
impl TabletDataSerializer<Bytes> for Codec {
    fn serialize(&self, v: &Bytes) -> Result<Bytes, ()> {
        if self.refuse.get() > 0 {
            self.refuse.set(self.refuse.get() - 1);
            if self.refuse.get() == 0 {
                return Err(());
            }
        }
        Ok(encode(v))
    }
    fn deserialize(&self, _table: &String, data: Bytes) -> Result<Bytes, ()> {
        if data.is_empty() {
            return Ok(data);
        }
        let mut v = data.to_vec();
        if v.pop() != Some(0xee) {
            return Err(());
        }
        v.reverse();
        Ok(v.into())
    }
    fn get_size(&self, v: &Bytes) -> usize {
        v.len()
    }
}

enum DataHandle {
    Load(Vec<TabletMetadata>, ResultHandle<Vec<(TabletMetadata, TabletData<Bytes>)>, tc::TabletDataStorageStatus>),
    Store(Vec<TabletMetadata>, ResultHandle<(), tc::TabletDataStorageStatus>),
}
struct Batch {
    handle: DataHandle,
    /// A response that fails one of its tablets was delivered while it waited.
    may_fail: bool,
    refused: bool,
    done: Option<bool>,
}

type Key = (u32, String);
fn key(m: &TabletMetadata) -> Key {
    (m.tablet_id, m.blob_uri.clone())
}

pub fn data(ctx: &mut Ctx) -> R {
    let refuse = Rc::new(Cell::new(0));
    let base = 2u64 << 56;
    let mut cache: DefaultTabletDataCache<Bytes> =
        DefaultTabletDataCache::create(base, Box::new(Codec { refuse: refuse.clone() }), Box::new(DefaultTabletDataCachePolicy::new()));
    cache.init(create_logger(), tc::TabletDataCacheConfig { tablet_cache_capacity: [0, 10, 1 << 20][ctx.ch.pick(3)] });
    // Known versions of tablets and their live contents.
    let mut known: Vec<(TabletMetadata, Bytes)> = Vec::new();
    let big = ctx.ch.chance(8);
    let size = if big { [4, 5000, 70_000][ctx.ch.pick(3)] } else { 4 };
    for i in 0..1 + ctx.ch.pick(if big { 60 } else { 4 }) {
        let id = if i < 4 { [5, 6, 0, u32::MAX][i] } else { 100 + i as u32 };
        if ctx.ch.chance(500) {
            known.push((TabletMetadata { tablet_id: id, ..Default::default() }, Bytes::new()));
        } else {
            let v: Bytes = vec![i as u8; 3 + i].into();
            let e = encode(&v);
            known.push((
                TabletMetadata {
                    tablet_id: id,
                    tablet_version: 4,
                    blob_size: e.len() as u32,
                    blob_hash: Sha256::digest(&e).to_vec().into(),
                    blob_uri: format!("old{i}"),
                    ..Default::default()
                },
                v,
            ));
        }
    }
    let mut storage: BTreeMap<String, Bytes> = known.iter().filter(|k| !k.0.blob_uri.is_empty()).map(|k| (k.0.blob_uri.clone(), encode(&k.1))).collect();
    let mut cached: BTreeSet<Key> = BTreeSet::new();
    let mut in_flight: BTreeMap<u64, (Key, bool)> = BTreeMap::new();
    let mut answered: Vec<TabletDataCacheInMessage> = Vec::new();
    let mut batches: Vec<Batch> = Vec::new();
    let mut used = BTreeSet::new();
    let mut failed_keys: BTreeSet<Key> = BTreeSet::new();
    let fault = [0, 100, 300][ctx.ch.pick(3)];
    let total = 10 + ctx.ch.pick(if big { 200 } else { 60 });
    let mut now = 0;
    for step in 0..total + 1 {
        let last = step == total;
        now += 1;
        ctx.stats.sim_ms += 1;
        // Requests that the cache sent.
        let pump = |ctx: &mut Ctx, cache: &mut DefaultTabletDataCache<Bytes>, in_flight: &mut BTreeMap<u64, (Key, bool)>, cached: &BTreeSet<Key>, used: &mut BTreeSet<u64>, storage: &BTreeMap<String, Bytes>, known: &Vec<(TabletMetadata, Bytes)>, stored: &BTreeMap<String, Bytes>| -> R {
            for m in cache.take_out_messages() {
                let (c, uri, is_load) = match &m {
                    TabletDataCacheOutMessage::LoadRequest(c, r) => (*c, r.blob_uri.clone(), true),
                    TabletDataCacheOutMessage::StoreRequest(c, r, _) => (*c, r.blob_uri.clone(), false),
                };
                ctx.ev(|| format!("request {} '{uri}' load {is_load}", c.wrapping_sub(base)));
                ctx.check(used.insert(c), "request ids are unique", || format!("request id {c} used twice"))?;
                if let TabletDataCacheOutMessage::StoreRequest(_, _, b) = &m {
                    let ok = stored.get(&uri) == Some(b);
                    ctx.check(ok, "stored contents", || format!("blob '{uri}' is stored with {b:?}, expected {:?}", stored.get(&uri)))?;
                } else {
                    let ok = uri.is_empty() || storage.contains_key(&uri) || stored.contains_key(&uri);
                    ctx.check(ok, "loads what was asked", || format!("load of '{uri}'"))?;
                }
                // Tablet of the request, for tablets that were never stored it is one of those not in flight.
                let k = if uri.is_empty() {
                    known.iter().map(|k| key(&k.0)).find(|k| k.1.is_empty() && !cached.contains(k) && !in_flight.values().any(|f| f.0 == *k)).unwrap_or((0, uri.clone()))
                } else {
                    (known.iter().find(|k| k.0.blob_uri == uri).map(|k| k.0.tablet_id).unwrap_or(0), uri.clone())
                };
                let again = cached.contains(&k) || in_flight.values().any(|f| f.0 == k && !k.1.is_empty());
                ctx.check(!again, "cached contents are not requested again", || format!("'{uri}' is requested again"))?;
                in_flight.insert(c, (k, is_load));
            }
            Ok(())
        };
        let action = if last { 9 } else { ctx.ch.weighted(&[5, 4, 3, 4, 1]) };
        let mut stored: BTreeMap<String, Bytes> = known.iter().filter(|k| !k.0.blob_uri.is_empty()).map(|k| (k.0.blob_uri.clone(), encode(&k.1))).collect();
        match action {
            0 | 9 => {
                // Answers, when finishing all of them without faults.
                let mut rounds = 0;
                loop {
                    let ids: Vec<u64> = in_flight.keys().copied().collect();
                    if ids.is_empty() {
                        break;
                    }
                    let c = ids[ctx.ch.pick(ids.len())];
                    let ((tablet, uri), is_load) = in_flight.remove(&c).unwrap();
                    let k = (tablet, uri.clone());
                    let what = if !last && ctx.ch.chance(fault) { 1 + ctx.ch.pick(4) } else { 0 };
                    let (ok, failed) = (tc::TabletDataStorageStatus::Succeeded as i32, tc::TabletDataStorageStatus::Failed as i32);
                    let m = if is_load {
                        let good = if uri.is_empty() { Bytes::new() } else { storage.get(&uri).or(stored.get(&uri)).unwrap().clone() };
                        match what {
                            0 => TabletDataCacheInMessage::LoadResponse(c, tc::LoadTabletResponse { status: ok }, good),
                            1 => {
                                ctx.fault("blob load failed");
                                TabletDataCacheInMessage::LoadResponse(c, tc::LoadTabletResponse { status: failed }, good)
                            }
                            2 => {
                                ctx.fault("storage response with unknown status");
                                TabletDataCacheInMessage::LoadResponse(c, tc::LoadTabletResponse { status: 77 }, good)
                            }
                            3 => {
                                ctx.fault("storage response of the other kind");
                                TabletDataCacheInMessage::StoreResponse(c, tc::StoreTabletResponse { status: ok })
                            }
                            _ => {
                                ctx.fault("blob tampered with on load");
                                let mut v = good.to_vec();
                                if v.is_empty() || ctx.ch.chance(300) {
                                    v = encode(b"other").to_vec();
                                } else if ctx.ch.chance(500) {
                                    v.clear();
                                } else {
                                    v[0] ^= 1;
                                }
                                TabletDataCacheInMessage::LoadResponse(c, tc::LoadTabletResponse { status: ok }, v.into())
                            }
                        }
                    } else {
                        match what {
                            0 => {
                                storage.insert(uri.clone(), stored[&uri].clone());
                                TabletDataCacheInMessage::StoreResponse(c, tc::StoreTabletResponse { status: ok })
                            }
                            1 => {
                                ctx.fault("blob store failed");
                                TabletDataCacheInMessage::StoreResponse(c, tc::StoreTabletResponse { status: failed })
                            }
                            2 => {
                                ctx.fault("storage response with unknown status");
                                TabletDataCacheInMessage::StoreResponse(c, tc::StoreTabletResponse { status: 0 })
                            }
                            _ => {
                                ctx.fault("storage response of the other kind");
                                TabletDataCacheInMessage::LoadResponse(c, tc::LoadTabletResponse { status: ok }, stored[&uri].clone())
                            }
                        }
                    };
                    ctx.ev(|| format!("answer {} '{uri}' fault {what}", c.wrapping_sub(base)));
                    if what == 0 {
                        cached.insert(k);
                    } else {
                        for b in &mut batches {
                            let ms = match &b.handle {
                                DataHandle::Load(ms, _) | DataHandle::Store(ms, _) => ms,
                            };
                            // Which of the never stored tablets it is, is not visible.
                            if b.done.is_none() && ms.iter().any(|m| key(m) == k || (k.1.is_empty() && m.blob_uri.is_empty())) {
                                b.may_fail = true;
                            }
                        }
                        failed_keys.insert(k);
                    }
                    answered.push(m.clone());
                    cache.process_in_message(m);
                    rounds += 1;
                    if !last || rounds > 500 {
                        break;
                    }
                    if in_flight.is_empty() {
                        // Failed entries are requested again only on demand.
                        cache.make_progress(now);
                        pump(ctx, &mut cache, &mut in_flight, &cached, &mut used, &storage, &known, &stored)?;
                    }
                }
            }
            1 => {
                let n = if big { ctx.ch.pick(40) } else { ctx.ch.weighted(&[1, 4, 3, 2]) };
                let ms: Vec<TabletMetadata> = (0..n).map(|_| ctx.ch.of(&known).0.clone()).collect();
                // An entry that failed is gone once the cache made progress.
                let stale = !failed_keys.is_empty();
                ctx.ev(|| format!("load {:?}", ms.iter().map(|m| (m.tablet_id, m.blob_uri.clone())).collect::<Vec<_>>()));
                let h = cache.load_tablets(&ms);
                batches.push(Batch { handle: DataHandle::Load(ms, h), may_fail: stale, refused: false, done: None });
            }
            2 => {
                // New versions of distinct tablets.
                let n = if big { ctx.ch.pick(20) } else { ctx.ch.weighted(&[1, 4, 2]) };
                let mut items: Vec<(TabletMetadata, Bytes)> = Vec::new();
                for _ in 0..n {
                    let m = ctx.ch.of(&known).0.clone();
                    if items.iter().all(|i| i.0.tablet_id != m.tablet_id) {
                        let v: Bytes = vec![7 + ctx.ch.pick(3) as u8; ctx.ch.pick(size)].into();
                        items.push((m, v));
                    }
                }
                let refuse_at = if !items.is_empty() && ctx.ch.chance(fault) { 1 + ctx.ch.pick(items.len()) as u32 } else { 0 };
                refuse.set(if refuse_at > 0 { refuse_at } else { 0 });
                if refuse_at > 0 {
                    ctx.fault("application serializer refuses");
                }
                let before: Vec<TabletMetadata> = items.iter().map(|i| i.0.clone()).collect();
                let values: Vec<Bytes> = items.iter().map(|i| i.1.clone()).collect();
                let mut ms = before.clone();
                let stale = !failed_keys.is_empty();
                let h = cache.store_tablets(ms.iter_mut().zip(values.iter().cloned()).collect());
                refuse.set(0);
                ctx.ev(|| format!("store {:?} refused {refuse_at}", ms.iter().map(|m| (m.tablet_id, m.blob_uri.clone())).collect::<Vec<_>>()));
                if refuse_at > 0 {
                    batches.push(Batch { handle: DataHandle::Store(vec![], h), may_fail: true, refused: true, done: None });
                } else {
                    for ((m, b), v) in ms.iter().zip(&before).zip(&values) {
                        let e = encode(v);
                        ctx.check(
                            m.tablet_version == b.tablet_version + 1
                                && m.tablet_id == b.tablet_id
                                && m.blob_size as usize == e.len()
                                && m.blob_hash == Sha256::digest(&e).to_vec()
                                && !m.blob_uri.is_empty(),
                            "metadata describes the blob",
                            || format!("{b:?} became {m:?} for {} bytes", e.len()),
                        )?;
                        let clash = known.iter().any(|k| k.0.blob_uri == m.blob_uri && (k.0.tablet_id != m.tablet_id || k.0.tablet_version != m.tablet_version || k.1 != *v));
                        ctx.check(!clash, "blob names are unique", || format!("'{}' names two different versions", m.blob_uri))?;
                        stored.insert(m.blob_uri.clone(), e);
                        if !known.iter().any(|k| k.0 == *m) {
                            known.push((m.clone(), v.clone()));
                        }
                    }
                    batches.push(Batch { handle: DataHandle::Store(ms, h), may_fail: stale, refused: false, done: None });
                }
            }
            3 => {
                ctx.event("progress");
                cache.make_progress(now);
                failed_keys.clear();
            }
            _ => {
                // Late duplicates and responses to nothing.
                ctx.fault("stale or unknown response");
                let m = if !answered.is_empty() && ctx.ch.chance(700) {
                    ctx.ch.of(&answered).clone()
                } else if ctx.ch.chance(500) {
                    TabletDataCacheInMessage::LoadResponse(1, tc::LoadTabletResponse { status: 2 }, vec![1, 0xee].into())
                } else {
                    TabletDataCacheInMessage::StoreResponse(1, tc::StoreTabletResponse { status: 2 })
                };
                cache.process_in_message(m);
            }
        }
        pump(ctx, &mut cache, &mut in_flight, &cached, &mut used, &storage, &known, &stored)?;
        if last {
            for _ in 0..3 {
                cache.make_progress(now);
            }
            pump(ctx, &mut cache, &mut in_flight, &cached, &mut used, &storage, &known, &stored)?;
        }
        // Results.
        for (i, b) in batches.iter_mut().enumerate() {
            let (result, ms) = match &b.handle {
                DataHandle::Load(ms, h) => {
                    let r = h.check_result();
                    if let Some(Ok(values)) = &r {
                        for m in ms {
                            let want = &known.iter().find(|k| k.0 == *m).unwrap().1;
                            let got: Vec<&Bytes> = values.iter().filter(|v| v.0 == *m).map(|v| &*v.1).collect();
                            let ok = !got.is_empty() && got.iter().all(|g| *g == want);
                            ctx.check(ok, "loaded contents", || format!("batch {i}: tablet {} '{}' should be {want:?}, got {got:?}", m.tablet_id, m.blob_uri))?;
                        }
                        for v in values {
                            ctx.check(ms.contains(&v.0), "loaded contents", || format!("batch {i} returned {:?} which was not asked", v.0))?;
                        }
                    }
                    (r.map(|r| r.is_ok()), ms)
                }
                DataHandle::Store(ms, h) => {
                    let r = h.check_result();
                    (r.map(|r| r.is_ok()), ms)
                }
            };
            match (b.done, result) {
                (Some(d), r) => ctx.check(r == Some(d), "results are stable", || format!("batch {i} was {d} and is {r:?}"))?,
                (None, Some(r)) => {
                    ctx.ev(|| format!("batch {i} ok {r}"));
                    ctx.probe(if r { "batch succeeded" } else { "batch failed" });
                    if r {
                        ctx.nontrivial = true;
                        ctx.check(!b.refused, "failed tablets fail the batch", || format!("batch {i} succeeded although a value was refused"))?;
                        for m in ms {
                            let ok = cached.contains(&key(m)) || m.blob_uri.is_empty();
                            ctx.check(ok, "batches complete when all tablets are ready", || format!("batch {i} completed before '{}' was confirmed", m.blob_uri))?;
                        }
                    } else {
                        ctx.check(b.may_fail, "batches fail only when a tablet fails", || format!("batch {i} failed without a reason"))?;
                    }
                    b.done = Some(r);
                }
                (None, None) => {
                    let left = last || b.refused;
                    ctx.check(!left, "batches complete when all tablets are ready", || format!("batch {i} never completes"))?;
                }
            }
        }
        let h = hash_bytes(format!("{} {} {}", cached.len(), in_flight.len(), batches.iter().filter(|b| b.done.is_none()).count()).as_bytes());
        ctx.state(h);
    }
    Ok(())
}

struct Asked {
    wanted: BTreeMap<(String, u32), BTreeSet<u32>>,
    ids: BTreeSet<(String, u64)>,
    floor: BTreeMap<(String, u32), u32>,
    handle: Option<ResultHandle<Vec<(TableQuery, TabletMetadata)>, TabletsRequestStatus>>,
    by_handler: Option<Rc<RefCell<Vec<Vec<(String, u64, u32, BTreeSet<u32>)>>>>>,
    done: bool,
}

pub fn metadata(ctx: &mut Ctx) -> R {
    let base = 3u64 << 56;
    let mut cache = DefaultTabletMetadataCache::create(base);
    let interesting: Vec<u32> = vec![ctx.ch.u32(), ctx.ch.u32(), 0, u32::MAX, 0x8000_0000];
    let mut tables: Vec<(String, u32, BTreeMap<u32, TabletMetadata>)> = Vec::new();
    let big = ctx.ch.chance(20);
    let names = if ctx.ch.chance(100) { ["", "t\0", "\u{1f980}"] } else { ["a", "b", "ab"] };
    for t in 0..1 + ctx.ch.weighted(&[3, 2, 1]) {
        let mut ids: BTreeSet<u32> = draw_layout(ctx, &interesting).into_iter().collect();
        if big && ctx.ch.pick(2) == 0 {
            ids.extend((0..ctx.ch.pick(150)).map(|_| ctx.ch.u32()));
        }
        // Few tables have very many regions.
        let region = if big && ctx.ch.pick(3) == 0 { *ctx.ch.of(&[0x0100_0000, 0x0040_0001]) } else { draw_region_size(ctx) };
        tables.push((names[t].to_string(), region, ids.into_iter().map(|i| (i, TabletMetadata { tablet_id: i, ..Default::default() })).collect()));
    }
    cache.init(
        create_logger(),
        tc::TabletMetadataCacheConfig {
            table_configs: tables.iter().map(|t| tc::TableMetadataCacheConfig { table_name: t.0.clone(), table_region_size: t.1 }).collect(),
        },
    );
    ctx.ev(|| format!("{:x?}", tables.iter().map(|t| (&t.0, t.1, t.2.keys().collect::<Vec<_>>())).collect::<Vec<_>>()));
    let all: BTreeMap<(String, u32), Vec<TabletMetadata>> = BTreeMap::new();
    let mut versions = all;
    for t in &tables {
        for (id, m) in &t.2 {
            versions.insert((t.0.clone(), *id), vec![m.clone()]);
        }
    }
    // What the cache was told: latest version of each tablet.
    let mut told: BTreeMap<(String, u32), u32> = BTreeMap::new();
    let mut asked: Vec<Asked> = Vec::new();
    // Requests at the store and responses on their way.
    let mut requests: Vec<(u64, Vec<TabletOp>)> = Vec::new();
    let mut responses: Vec<(u64, Vec<TabletOpResult>)> = Vec::new();
    let mut old: Vec<(u64, Vec<TabletOpResult>)> = Vec::new();
    let mut used = BTreeSet::new();
    let mut stale_after_conflict: BTreeSet<(String, u32)> = BTreeSet::new();
    let fault = [0, 100, 300][ctx.ch.pick(3)];
    let total = 10 + ctx.ch.pick(50);
    let mut query = 0u64;
    let mut step = 0;
    loop {
        step += 1;
        ctx.stats.sim_ms += 1;
        let ending = step > total;
        let left = asked.iter().any(|a| !a.done);
        if ending && !left && requests.is_empty() && responses.is_empty() {
            break;
        }
        ctx.check(step < total + 400, "resolution completes", || "queries are not resolved although the store answers".into())?;
        let action = if ending { [2, 3, 4][step % 3] } else { ctx.ch.weighted(&[4, 2, 4, 4, 4, 1, 2]) };
        match action {
            0 => {
                let mut wanted: BTreeMap<(String, u32), BTreeSet<u32>> = BTreeMap::new();
                let mut ids = BTreeSet::new();
                let mut qs = Vec::new();
                let n_queries = if big { ctx.ch.pick(12) } else { ctx.ch.weighted(&[1, 6, 3, 2]) };
                for _ in 0..n_queries {
                    let t = ctx.ch.pick(tables.len());
                    let tab: Vec<u32> = tables[t].2.keys().copied().collect();
                    let name = tables[t].0.clone();
                    let region = tables[t].1;
                    let mut hs = Vec::new();
                    let n_hashes = if big { ctx.ch.pick(80) } else { ctx.ch.weighted(&[1, 5, 4, 3, 2, 2]) };
                    for _ in 0..n_hashes {
                        let h = match ctx.ch.weighted(&[4, 3, 2, 3]) {
                            0 => {
                                let i = *ctx.ch.of(&tab);
                                [i, i.wrapping_sub(1), i.wrapping_add(1)][ctx.ch.pick(3)]
                            }
                            1 => *ctx.ch.of(&interesting),
                            2 => ctx.ch.u32(),
                            _ => {
                                // Around the boundaries of a region.
                                let n = (u32::MAX / region) as usize + 1;
                                let s = (ctx.ch.pick(n) as u32).wrapping_mul(region);
                                [s, s.wrapping_sub(1), s.wrapping_add(1)][ctx.ch.pick(3)]
                            }
                        };
                        hs.push(h);
                        wanted.entry((name.clone(), owner(tab.iter().copied(), h).unwrap())).or_default().insert(h);
                    }
                    query += 1;
                    ids.insert((name.clone(), query));
                    qs.push(TableQuery::create(query, name, hs));
                }
                ctx.ev(|| format!("resolve {wanted:x?}"));
                let mut a = Asked { wanted, ids, floor: told.clone(), handle: None, by_handler: None, done: false };
                if ctx.ch.chance(300) {
                    let log = Rc::new(RefCell::new(Vec::new()));
                    let l = log.clone();
                    cache.resolve_tablets_with_handler(
                        &qs,
                        Box::new(move |r| {
                            l.borrow_mut().push(r.into_iter().map(|(q, d)| (q.get_table_name().clone(), q.get_id(), d.get_id(), q.get_key_hashes().clone())).collect())
                        }),
                    );
                    a.by_handler = Some(log);
                } else {
                    a.handle = Some(cache.resolve_tablets(&qs));
                }
                // What a conflict made doubtful is asked for again.
                for (t, o) in a.wanted.keys() {
                    for h in &a.wanted[&(t.clone(), *o)] {
                        let region = h / tables.iter().find(|x| x.0 == *t).unwrap().1;
                        if stale_after_conflict.contains(&(t.clone(), region)) {
                            let now = match (&a.handle, &a.by_handler) {
                                (Some(x), _) => x.check_result().is_some(),
                                (_, Some(l)) => !l.borrow().is_empty(),
                                _ => false,
                            };
                            ctx.check(!now, "conflicts refresh the metadata", || format!("hash {h:x} of table {t} is resolved from the cache after a conflict"))?;
                        }
                    }
                }
                asked.push(a);
            }
            1 => {
                // The table moves on at the store.
                let t = ctx.ch.pick(tables.len());
                let name = tables[t].0.clone();
                let ids: Vec<u32> = tables[t].2.keys().copied().collect();
                let m = tables[t].2.get_mut(ctx.ch.of(&ids)).unwrap();
                m.tablet_version += 1;
                m.blob_uri = format!("{}v{}", m.tablet_id, m.tablet_version);
                versions.get_mut(&(name, m.tablet_id)).unwrap().push(m.clone());
            }
            2 => {
                cache.make_progress(step as u64);
                for m in cache.take_out_messages() {
                    let TabletMetadataCacheOutMessage::ListRequest(c, ops) = m;
                    ctx.ev(|| format!("list #{} {}", c.wrapping_sub(base), crate::tenv::describe(&ops)));
                    ctx.check(used.insert(c), "request ids are unique", || format!("{c}"))?;
                    ctx.check(!ops.is_empty() && crate::tstore::is_list(&ops), "requests only list tablets", || format!("{ops:?}"))?;
                    requests.push((c, ops));
                }
            }
            3 if !requests.is_empty() => {
                let i = ctx.ch.pick(requests.len());
                let (c, ops) = requests.remove(i);
                let failed = !ending && ctx.ch.chance(fault);
                // Nothing that comes with another status than success counts.
                let status = match (failed, if failed { ctx.ch.pick(4) } else { 0 }) {
                    (false, _) => ts::TabletOpStatus::Succeeded as i32,
                    (true, 0) => 0,
                    (true, 1) => 77,
                    _ => ts::TabletOpStatus::Failed as i32,
                };
                if failed {
                    ctx.fault(if status == ts::TabletOpStatus::Failed as i32 { "list request failed" } else { "list response with unknown status" });
                }
                let mut res = Vec::new();
                for o in ops {
                    let Some(Op::ListTablet(l)) = o.op else { continue };
                    let t = tables.iter().find(|t| t.0 == o.table_name).unwrap();
                    // The same answer as the store gives, from the definition.
                    let mut ids: BTreeSet<u32> = t.2.keys().copied().filter(|i| *i >= l.key_hash_from && *i <= l.key_hash_to).collect();
                    for h in [l.key_hash_from, l.key_hash_to] {
                        ids.insert(owner(t.2.keys().copied(), h).unwrap());
                    }
                    let tablets = if failed && status == ts::TabletOpStatus::Failed as i32 {
                        vec![]
                    } else if failed {
                        // Versions that do not exist.
                        ids.iter().take(1).map(|i| TabletMetadata { tablet_version: 1_000_000, ..t.2[i].clone() }).collect()
                    } else { ids.iter().map(|i| t.2[i].clone()).collect() };
                    res.push(TabletOpResult {
                        table_name: o.table_name.clone(),
                        status,
                        op_result: Some(OpResult::ListTablet(ts::ListTabletResult { key_hash_from: l.key_hash_from, key_hash_to: l.key_hash_to, tablets })),
                    });
                }
                responses.push((c, res));
            }
            4 if !responses.is_empty() => {
                let i = ctx.ch.pick(responses.len());
                let (c, res) = responses.remove(i);
                ctx.ev(|| format!("answer #{}", c.wrapping_sub(base)));
                for r in &res {
                    if let Some(OpResult::ListTablet(l)) = &r.op_result {
                        if r.status == ts::TabletOpStatus::Succeeded as i32 {
                            let size = tables.iter().find(|t| t.0 == r.table_name).unwrap().1;
                            stale_after_conflict.remove(&(r.table_name.clone(), l.key_hash_from / size));
                        }
                        for m in l.tablets.iter().filter(|_| r.status == ts::TabletOpStatus::Succeeded as i32) {
                            let e = told.entry((r.table_name.clone(), m.tablet_id)).or_default();
                            *e = (*e).max(m.tablet_version);
                        }
                    }
                }
                cache.process_in_message(TabletMetadataCacheInMessage::ListResponse(c, res.clone()));
                old.push((c, res));
            }
            6 => {
                // The outcome of a transaction, possibly out of date.
                let t = ctx.ch.pick(tables.len());
                let name = tables[t].0.clone();
                let ids: Vec<u32> = tables[t].2.keys().copied().collect();
                let id = *ctx.ch.of(&ids);
                let vs = &versions[&(name.clone(), id)];
                let m = vs[ctx.ch.pick(vs.len())].clone();
                let conflict = ctx.ch.chance(500);
                ctx.ev(|| format!("update {name}/{id:x} v{} conflict {conflict}", m.tablet_version));
                let e = told.entry((name.clone(), id)).or_default();
                *e = (*e).max(m.tablet_version);
                if conflict {
                    stale_after_conflict.insert((name.clone(), id / tables[t].1));
                }
                cache.update_tablet(name, m, conflict);
            }
            5 => {
                ctx.fault("message reordered or delayed");
                // Nothing happens for a while; a request waits at the store.
                if requests.len() > 1 {
                    requests.rotate_left(1);
                }
            }
            _ => {}
        }
        for (i, a) in asked.iter_mut().enumerate() {
            if a.done {
                if let Some(l) = &a.by_handler {
                    ctx.check(l.borrow().len() == 1, "resolution is reported once", || format!("resolution {i} was reported again"))?;
                }
                continue;
            }
            let mut got: BTreeMap<(String, u32), BTreeSet<u32>> = BTreeMap::new();
            let mut parts: Vec<(String, u64, u32, BTreeSet<u32>)> = Vec::new();
            if let Some(h) = &a.handle {
                match h.check_result() {
                    None => continue,
                    Some(Err(e)) => ctx.fail("resolution completes", format!("{e:?}"))?,
                    Some(Ok(v)) => {
                        for (q, m) in v {
                            let k = (q.get_table_name().clone(), m.tablet_id);
                            let real = versions.get(&k).is_some_and(|v| v.contains(&m));
                            ctx.check(real, "resolved metadata is real", || format!("{m:?} never existed"))?;
                            let floor = a.floor.get(&k).copied().unwrap_or(0);
                            ctx.check(m.tablet_version >= floor, "metadata does not go back", || format!("{k:x?} is resolved to version {} after version {floor} was known", m.tablet_version))?;
                            parts.push((q.get_table_name().clone(), q.get_id(), m.tablet_id, q.get_key_hashes().clone()));
                        }
                    }
                }
            } else if let Some(l) = &a.by_handler {
                let l = l.borrow();
                if l.is_empty() {
                    continue;
                }
                parts = l[0].clone();
            }
            for (t, q, id, hs) in parts {
                ctx.check(a.ids.contains(&(t.clone(), q)), "keys map to their tablets", || format!("result for query {q} of {t}"))?;
                let first = got.insert((t.clone(), id), hs).is_none();
                ctx.check(first, "keys map to their tablets", || format!("{t}/{id:x} is given twice"))?;
            }
            ctx.check(got == a.wanted, "keys map to their tablets", || format!("expected {:x?} got {got:x?}", a.wanted))?;
            a.done = true;
            ctx.nontrivial = true;
            ctx.probe("resolution completed");
        }
        let h = hash_bytes(format!("{} {} {} {}", told.len(), requests.len(), responses.len(), asked.iter().filter(|a| !a.done).count()).as_bytes());
        ctx.state(h);
    }
    let _ = old;
    Ok(())
}
