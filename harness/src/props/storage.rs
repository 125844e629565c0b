//! Building and reading back: C01, C02, C03, C08, C21, C26.

use crate::model::*;
use crate::util::*;
use carmen_core::gridstore::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn gen_ops(ctx: &mut Ctx, odd: bool) -> (Pools, Vec<Op>) {
    let rng = &mut ctx.rng;
    let max = 1u64 << rng.pick(&[2u32, 6, 8, 14, 16, 16]);
    let mut pools = Pools::gen(rng, max);
    if odd {
        pools.stray(rng);
    }
    let n = rng.range(1, 14);
    let rows = rng.pick(&[2u64, 8, 30, 120]);
    let mut ops = pools.ops(rng, n, rows);
    if !cfg!(miri) && rng.chance(1, 300) {
        ops.extend(pools.large(rng, max, 17_000));
    }
    (pools, ops)
}

/// Stored rows in the order `get` hands them out.
pub fn get_rows(store: &GridStore, key: &Key) -> Result<Option<Vec<Row>>, String> {
    match store.get(&gk(key)).map_err(|e| format!("get failed: {}", e))? {
        None => Ok(None),
        Some(it) => {
            let mut v = Vec::new();
            for e in it {
                v.push(Row::returned(&e)?);
            }
            Ok(Some(v))
        }
    }
}

fn absent_keys(rng: &mut Rng, m: &Model) -> Vec<Key> {
    let mut out = Vec::new();
    for (p, l) in m.data.keys() {
        for k in &[
            (p.wrapping_add(1), *l),
            (p.wrapping_sub(1), *l),
            (*p, l ^ 1),
            (*p, 0),
            (*p, u128::MAX),
            (*p, l << 8),
            (*p, l >> 8),
            (*p, !l),
            (p ^ 0x0100_0000, *l),
            (*p, rng.u128()),
        ] {
            if !m.data.contains_key(k) {
                out.push(*k);
            }
        }
    }
    rng.shuffle(&mut out);
    out.truncate(24);
    out
}

pub fn sign_model(ctx: &mut Ctx, m: &Model) {
    for (k, rows) in &m.data {
        ctx.sign(k);
        ctx.sign(rows);
    }
    ctx.sign(&m.bounds);
}

/// C01: what was written is what is read, under every way of writing it.
pub fn c01_round_trip(ctx: &mut Ctx) -> Res {
    let (pools, ops) = gen_ops(ctx, true);
    let mut model = Model::of(&ops);
    if ctx.rng.chance(1, 3) {
        model.bounds = gen_bounds(&mut ctx.rng, &pools.phrases);
    }
    sign_model(ctx, &model);
    let (store, _path) = build_open(ctx, &ops, &model.bounds)?;
    for (key, rows) in &model.data {
        let got = match get_rows(&store, key)? {
            Some(g) => g,
            None => fail!("key {:?} was written ({} rows) but get finds nothing", key, rows.len()),
        };
        let got_set: BTreeSet<Row> = got.iter().cloned().collect();
        ensure!(
            got_set.len() == got.len(),
            "get {:?} returned {} rows of which only {} are distinct",
            key,
            got.len(),
            got_set.len()
        );
        if let Some(r) = rows.difference(&got_set).next() {
            fail!("key {:?}: row {:?} {:?} was written but is not returned", key, r, r.xy());
        }
        if let Some(r) = got_set.difference(rows).next() {
            fail!("key {:?}: row {:?} {:?} is returned but was never written", key, r, r.xy());
        }
        ctx.count("keys_read_back", 1);
        ctx.count("rows_compared", got.len() as u64);
    }
    for k in absent_keys(&mut ctx.rng, &model) {
        ensure!(
            get_rows(&store, &k)?.is_none(),
            "key {:?} was never written but get finds an entry for it",
            k
        );
        ctx.count("absent_keys_probed", 1);
    }
    ctx.max("rows_in_one_store", model.row_count() as u64);
    ctx.nontrivial = model.row_count() >= 2;
    ctx.sample(|| format!("{} ops -> {} keys, {} rows; first op {:?}", ops.len(), model.data.len(), model.row_count(), ops[0]));
    Ok(())
}

/// C02: rows come back best first.
pub fn c02_order(ctx: &mut Ctx) -> Res {
    let (_pools, ops) = gen_ops(ctx, true);
    let model = Model::of(&ops);
    sign_model(ctx, &model);
    let (store, _path) = build_open(ctx, &ops, &[])?;
    let check = |what: &str, key: &Key, rows: &[Row]| -> Res {
        for w in rows.windows(2) {
            let (a, b) = (w[0], w[1]);
            ensure!(
                (a.relev, a.score) >= (b.relev, b.score),
                "{} {:?}: {:?} comes before the better {:?}",
                what,
                key,
                a,
                b
            );
            ensure!(
                (a.relev, a.score) != (b.relev, b.score) || a.z >= b.z,
                "{} {:?}: at equal relevance and score, tile {:?} (z-order {}) comes before {:?} (z-order {})",
                what, key, a.xy(), a.z, b.xy(), b.z
            );
            ensure!(
                a > b,
                "{} {:?}: {:?} comes before {:?} at the same tile, relevance and score",
                what,
                key,
                a,
                b
            );
        }
        Ok(())
    };
    let mut pairs = 0;
    for (key, _) in &model.data {
        if let Some(rows) = get_rows(&store, key)? {
            check("get", key, &rows)?;
            pairs += rows.len().saturating_sub(1) as u64;
        }
    }
    for item in store.iter() {
        let (k, es) = item.map_err(|e| format!("iter failed: {}", e))?;
        let rows = es.iter().map(Row::returned).collect::<Result<Vec<_>, _>>()?;
        check("iter", &(k.phrase_id, k.lang_set), &rows)?;
        pairs += rows.len().saturating_sub(1) as u64;
    }
    ctx.count("adjacent_pairs_checked", pairs);
    ctx.nontrivial = pairs >= 2;
    ctx.sample(|| format!("{} keys, {} adjacent pairs", model.data.len(), pairs));
    Ok(())
}

/// C03: enumeration lists every key exactly once, with its exact languages and rows.
pub fn c03_keys(ctx: &mut Ctx) -> Res {
    let (pools, mut ops) = gen_ops(ctx, false);
    // make sure keys of several lengths occur
    for _ in 0..ctx.rng.range(0, 6) {
        let key = (ctx.rng.pick(&pools.phrases), ctx.rng.u128() >> ctx.rng.below(128));
        let e = pools.entry(&mut ctx.rng);
        ops.push(Op::Append(key, vec![e]));
    }
    let mut model = Model::of(&ops);
    if ctx.rng.chance(1, 2) {
        model.bounds = gen_bounds(&mut ctx.rng, &pools.phrases);
    }
    sign_model(ctx, &model);
    let (store, _path) = build_open(ctx, &ops, &model.bounds)?;
    let mut listed: Vec<Key> = Vec::new();
    for k in store.keys() {
        let k = k.map_err(|e| format!("keys failed: {}", e))?;
        listed.push((k.phrase_id, k.lang_set));
    }
    let check = |what: &str, listed: &Vec<Key>| -> Res {
        let set: BTreeSet<Key> = listed.iter().cloned().collect();
        ensure!(set.len() == listed.len(), "{} lists a key more than once: {:x?}", what, listed);
        for k in &set {
            ensure!(model.data.contains_key(k), "{} lists {:x?}, which was never written", what, k);
        }
        for k in model.data.keys() {
            ensure!(set.contains(k), "{} does not list {:x?}", what, k);
        }
        for w in listed.windows(2) {
            ensure!(
                w[0].0 <= w[1].0,
                "{} lists phrase {} before phrase {}",
                what,
                w[0].0,
                w[1].0
            );
        }
        Ok(())
    };
    check("keys()", &listed)?;
    let mut iterated = Vec::new();
    for item in store.iter() {
        let (k, es) = item.map_err(|e| format!("iter failed: {}", e))?;
        let key = (k.phrase_id, k.lang_set);
        let mut rows = BTreeSet::new();
        for e in &es {
            rows.insert(Row::returned(e)?);
        }
        ensure!(rows.len() == es.len(), "iter() repeats rows of {:x?}", key);
        if let Some(want) = model.data.get(&key) {
            ensure!(rows == *want, "iter() gives other rows than were written for {:x?}", key);
        }
        iterated.push(key);
    }
    check("iter()", &iterated)?;
    ensure!(listed == iterated, "keys() and iter() list keys in different orders");
    // the recorded boundaries survive too
    let want: BTreeSet<u32> = model.bounds.iter().cloned().collect();
    let got: BTreeSet<u32> = store.bin_boundaries.iter().cloned().collect();
    ensure!(want == got, "prefix boundaries {:?} were recorded as {:?}", want, got);
    ctx.count("keys_listed", listed.len() as u64);
    if !model.bounds.is_empty() {
        ctx.count("stores_with_prefix_bins", 1);
    }
    ctx.nontrivial = listed.len() >= 2;
    ctx.sample(|| format!("keys {:x?} bounds {:?}", listed, model.bounds));
    Ok(())
}

/// C08: renumbering moves every key as the mapping says, or fails.
pub fn c08_renumber(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng;
    let mut pools = Pools::gen(rng, 1 << 8);
    let many = !cfg!(miri) && rng.chance(1, 300);
    let mut n = if many { rng.pick(&[300, 3000]) } else { rng.range(1, 12) as u32 };
    pools.phrases = (0..n).collect();
    if pools.langs.len() > 3 {
        pools.langs.truncate(3);
    }
    let nops = if many { n as u64 } else { rng.range(1, 12) };
    let mut ops = pools.ops(rng, nops, if many { 2 } else { 12 });
    let mut model = Model::of(&ops);
    let style = rng.below(6);
    // temporary ids far apart
    let sparse = !cfg!(miri) && rng.chance(1, 12);
    if sparse {
        let apart = rng.pick(&[256u32, 256, 1000, 65_536]);
        let spread = |p: u32| p % 3 * apart + p / 3;
        for op in &mut ops {
            match op {
                Op::Insert(k, _) | Op::Append(k, _) | Op::Compact { key: k, .. } => k.0 = spread(k.0),
            }
        }
        model = Model::of(&ops);
        n = spread(2) + (n + 2) / 3;
        ctx.count("mappings_of_sparse_ids", 1);
    }
    let rng = &mut ctx.rng;
    let mut map: Vec<u32> = match style {
        // a permutation
        0 => {
            let mut v: Vec<u32> = (0..n).collect();
            rng.shuffle(&mut v);
            v
        }
        // injective into a sparse range
        1 => {
            let mut v: Vec<u32> = (0..n).map(|i| i.wrapping_mul(1_000_003).wrapping_add(7)).collect();
            rng.shuffle(&mut v);
            if rng.chance(1, 2) {
                v[0] = u32::MAX;
            }
            v
        }
        // a cyclic shift, so targets coincide with other sources
        2 => (0..n).map(|i| (i + 1) % n).collect(),
        // may collide
        3 => (0..n).map(|_| rng.below(n as u64 + 2) as u32).collect(),
        // most keep their ids
        4 => {
            let mut v: Vec<u32> = (0..n).collect();
            for i in 0..rng.range(1, 3) as u32 {
                let at = if rng.chance(1, 2) { v.len() - 1 } else { rng.idx(v.len()) };
                v[at] = n + i * 7;
            }
            v
        }
        // may be too short
        _ => (0..n).map(|i| n - 1 - i).collect(),
    };
    if style == 5 {
        let cut = rng.range(0, n as u64) as usize;
        map.truncate(cut);
    } else if rng.chance(1, 3) {
        map.extend((0..4).map(|i| 900 + i));
    }
    let split = rng.chance(1, 3);
    let tail: Vec<Op> = if split {
        // data can still be added under the final ids afterwards
        let ids: Vec<u32> = map.clone();
        if ids.is_empty() {
            vec![]
        } else {
            let mut p2 = pools.clone();
            p2.phrases = ids;
            p2.ops(rng, 2, 6)
        }
    } else {
        vec![]
    };
    sign_model(ctx, &model);
    ctx.sign(&map);
    let path = ctx.fresh_path();
    let mut b = start_build(&path, &ops)?;
    // boundaries are of the new ids, whenever they are given
    let bounds = if !map.is_empty() && ctx.rng.chance(1, 3) { gen_bounds(&mut ctx.rng, &map) } else { vec![] };
    let early = ctx.rng.chance(1, 2);
    if !bounds.is_empty() && early {
        b.load_bin_boundaries(bounds.clone()).map_err(|e| format!("load_bin_boundaries: {}", e))?;
    }
    let result = b.renumber(&map);
    let mut target: BTreeMap<Key, Rows> = BTreeMap::new();
    let mut impossible = None;
    for ((p, l), rows) in &model.data {
        match map.get(*p as usize) {
            None => impossible = Some(format!("phrase {} has no new id", p)),
            Some(np) => {
                if target.insert((*np, *l), rows.clone()).is_some() {
                    impossible = Some(format!("two keys would become ({}, {:x})", np, l));
                }
            }
        }
    }
    match (impossible, result) {
        (Some(why), Ok(())) => fail!("renumber with {:?} succeeded although {}", map, why),
        (Some(_), Err(_)) => {
            ctx.count("impossible_mappings_refused", 1);
            ctx.nontrivial = true;
        }
        (None, Err(e)) => fail!("renumber with {:?} failed: {}", map, e),
        (None, Ok(())) => {
            model.data = target;
            // and once more, if the new ids are few enough
            if ctx.rng.chance(1, 4) && map.iter().all(|v| *v < 64) {
                let mut again: Vec<u32> = (0..64).collect();
                ctx.rng.shuffle(&mut again);
                b.renumber(&again).map_err(|e| format!("renumber again: {}", e))?;
                model.data = model.data.into_iter().map(|((p, l), rows)| ((again[p as usize], l), rows)).collect();
                ctx.count("renumbered_twice", 1);
            }
            for op in &tail {
                apply(&mut b, op)?;
                model.apply(op);
            }
            if !bounds.is_empty() && !early {
                b.load_bin_boundaries(bounds.clone()).map_err(|e| format!("load_bin_boundaries: {}", e))?;
            }
            b.finish().map_err(|e| format!("finish: {}", e))?;
            let store = open(&path)?;
            compare_all(&store, &model)?;
            // what the prefix bins hold has moved, too
            for w in bounds.windows(2) {
                let k = MatchKey { match_phrase: MatchPhrase::Range { start: w[0], end: w[1] }, lang_set: u128::MAX };
                let o = MatchOpts { bbox: None, proximity: None, zoom: 6 };
                let mut got = BTreeSet::new();
                for e in super::matching::matches(&store, &k, &o, 100_000)? {
                    got.insert(super::matching::base_row(&e)?);
                }
                let want: BTreeSet<Row> = model.in_range(&k.match_phrase).into_iter().flat_map(|(_, r)| r.iter().cloned()).collect();
                ensure!(
                    got == want,
                    "renumbered with {:?}: matching {:?} gives {} rows instead of {}",
                    map, k.match_phrase, got.len(), want.len()
                );
                ctx.count("bins_of_renumbered_phrases_compared", 1);
            }
            ctx.count("mappings_applied", 1);
            ctx.count("keys_moved", model.data.len() as u64);
            ctx.nontrivial = model.data.len() > 1;
        }
    }
    ctx.sample(|| format!("{} keys, mapping {:?}", model.data.len(), map));
    Ok(())
}

/// The whole content of a store equals the model.
pub fn compare_all(store: &GridStore, model: &Model) -> Res {
    let mut seen = BTreeSet::new();
    for item in store.iter() {
        let (k, es) = item.map_err(|e| format!("iter failed: {}", e))?;
        let key = (k.phrase_id, k.lang_set);
        let rows = es.iter().map(Row::returned).collect::<Result<BTreeSet<_>, _>>()?;
        match model.data.get(&key) {
            None => fail!("unexpected key {:x?} in the store", key),
            Some(want) => ensure!(
                *want == rows,
                "key {:x?}: stored rows differ; missing {:?}, extra {:?}",
                key,
                want.difference(&rows).next(),
                rows.difference(want).next()
            ),
        }
        seen.insert(key);
    }
    for k in model.data.keys() {
        ensure!(seen.contains(k), "key {:x?} is missing from the store", k);
    }
    Ok(())
}

type Dump = Vec<(Key, Vec<GridEntry>)>;

fn dump(store: &GridStore) -> Result<Dump, String> {
    let mut out = Vec::new();
    for item in store.iter() {
        let (k, es) = item.map_err(|e| format!("iter failed: {}", e))?;
        out.push(((k.phrase_id, k.lang_set), es));
    }
    Ok(out)
}

/// C26: the same content gives the same store however it was written.
pub fn c26_build_independence(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng;
    let max = 1u64 << rng.pick(&[4u32, 8, 16]);
    let mut pools = Pools::gen(rng, max);
    if rng.chance(1, 3) {
        pools.stray(rng);
    }
    let many = !cfg!(miri) && rng.chance(1, 300);
    if many {
        // most of it in the same place
        pools.tiles = TileStyle::Hot { tiles: vec![pools.tiles.draw(rng)], max };
        let one = rng.pick(&pools.scores);
        pools.scores = vec![one];
        if rng.chance(1, 2) {
            pools.ids = (0..1000).collect();
        }
        pools.phrases.truncate(2);
        pools.langs.truncate(1);
    }
    let n = if many { rng.pick(&[600, 6000]) } else { rng.range(1, 60) };
    let keyed: Vec<(Key, GridEntry)> = (0..n).map(|_| (pools.key(rng), pools.entry(rng))).collect();
    let bounds = if rng.chance(1, 2) { gen_bounds(rng, &pools.phrases) } else { vec![] };
    // variant 1: everything grouped, one append per key
    let grouped = |keyed: &[(Key, GridEntry)]| -> BTreeMap<Key, Vec<GridEntry>> {
        let mut m: BTreeMap<Key, Vec<GridEntry>> = BTreeMap::new();
        for (k, e) in keyed {
            m.entry(*k).or_default().push(e.clone());
        }
        m
    };
    let one: Vec<Op> = grouped(&keyed).into_iter().map(|(k, v)| Op::Insert(k, v)).collect();
    // variant 2: shuffled, in random chunks, by a mixture of operations, with duplicates
    let mut shuffled = keyed.clone();
    for _ in 0..rng.below(5) {
        let d = rng.pick(&keyed);
        shuffled.push(d);
    }
    rng.shuffle(&mut shuffled);
    let mut two: Vec<Op> = Vec::new();
    let mut rest = &shuffled[..];
    while !rest.is_empty() {
        let take = (rng.range(1, 7) as usize * if many { 40 } else { 1 }).min(rest.len());
        for (k, v) in grouped(&rest[..take]) {
            if rng.chance(1, 2) {
                two.push(Op::Append(k, v));
            } else {
                for e in v {
                    two.push(Op::Compact {
                        key: k,
                        relev: e.relev,
                        score: e.score,
                        id: e.id,
                        hash: e.source_phrase_hash,
                        coords: vec![(e.x, e.y)],
                    });
                }
            }
        }
        rest = &rest[take..];
    }
    // variant 3: decoys first, then replaced by an insert with the real content
    let mut three: Vec<Op> = Vec::new();
    for (k, v) in grouped(&shuffled) {
        let decoy = pools.entry(rng);
        three.push(Op::Append(k, vec![decoy]));
        let cut = rng.idx(v.len());
        three.push(Op::Insert(k, v[cut..].to_vec()));
        three.push(Op::Append(k, v[..cut].to_vec()));
    }
    let probes: Vec<(MatchKey, MatchOpts)> = (0..4)
        .map(|_| {
            let match_phrase = gen_phrase(rng, &pools.phrases, &bounds);
            let lang_set = gen_query_lang(rng, &pools.langs);
            let zoom = (max as f64).log2() as u16;
            (MatchKey { match_phrase, lang_set }, gen_match_opts(rng, &pools.tiles, zoom))
        })
        .collect();
    ctx.sign(&Model::of(&one).data);
    let (a, _) = build_open(ctx, &one, &bounds)?;
    let (b, _) = build_open(ctx, &two, &bounds)?;
    let (c, _) = build_open(ctx, &three, &bounds)?;
    let da = dump(&a)?;
    for (what, other) in &[("shuffled appends", &b), ("replaced inserts", &c)] {
        let d = dump(other)?;
        if let Some(i) = (0..da.len().max(d.len())).find(|i| da.get(*i) != d.get(*i)) {
            fail!(
                "the same content written through {} reads back differently: {:?} against {:?}",
                what,
                da.get(i),
                d.get(i)
            );
        }
        for (k, o) in &probes {
            let q = |s: &GridStore| -> Result<Vec<MatchEntry>, String> {
                Ok(s.streaming_get_matching(k, o, 1000).map_err(|e| format!("match: {}", e))?.collect())
            };
            let (ra, ro) = (q(&a)?, q(other)?);
            ensure!(
                ra == ro,
                "the same content written through {} answers {:?} {:?} differently: {:?} against {:?}",
                what,
                k,
                o,
                ra,
                ro
            );
            ctx.count("probe_answers_compared", 1);
            ctx.count("probe_rows_compared", ra.len() as u64);
        }
    }
    ctx.count("stores_compared", 2);
    ctx.nontrivial = n > 2;
    ctx.sample(|| format!("{} rows; {} ops against {} ops against {} ops", n, one.len(), two.len(), three.len()));
    Ok(())
}

/// C21: a failing disk is reported, never papered over.
pub fn c21_faults(ctx: &mut Ctx) -> Res {
    use rocksdb::verif as f;
    let (pools, ops) = gen_ops(ctx, false);
    let mut model = Model::of(&ops);
    if ctx.rng.chance(1, 2) {
        model.bounds = gen_bounds(&mut ctx.rng, &pools.phrases);
    }
    sign_model(ctx, &model);
    // how many writes does a good build do?
    let puts0 = f::PUTS.load(std::sync::atomic::Ordering::SeqCst);
    let good = ctx.fresh_path();
    build(&good, &ops, &model.bounds)?;
    let writes = f::PUTS.load(std::sync::atomic::Ordering::SeqCst) - puts0;
    f::take_faults_fired();
    // every single write failing in turn
    let points: Vec<u64> = if writes <= 40 {
        (0..writes).collect()
    } else {
        let mut v: Vec<u64> = (0..40).map(|_| ctx.rng.below(writes)).collect();
        v.push(0);
        v.push(writes - 1);
        v
    };
    for at in points {
        let path = ctx.fresh_path();
        let mut b = start_build(&path, &ops)?;
        b.load_bin_boundaries(model.bounds.clone()).map_err(|e| e.to_string())?;
        f::fail_put_after(Some(at));
        let r = b.finish();
        f::fail_put_after(None);
        let fired = f::take_faults_fired();
        if fired == 0 {
            continue;
        }
        ensure!(
            r.is_err(),
            "write number {} of {} failed while finishing a build, but finish reported success",
            at + 1,
            writes
        );
        ctx.count("failed_writes_reported", 1);
        let _ = std::fs::remove_dir_all(&path);
    }
    // opening the database to build fails
    {
        let path = ctx.fresh_path();
        let b = start_build(&path, &ops)?;
        f::fail_open_after(Some(0));
        let r = b.finish();
        f::fail_open_after(None);
        if f::take_faults_fired() > 0 {
            ensure!(r.is_err(), "the database could not be opened, but finish reported success");
            ctx.count("failed_build_opens_reported", 1);
        }
    }
    // opening to read fails, at either step
    f::fail_open_after(Some(0));
    let r = GridStore::new(&good);
    f::fail_open_after(None);
    if f::take_faults_fired() > 0 {
        ensure!(r.is_err(), "the database could not be opened, but a store was returned");
        ctx.count("failed_opens_reported", 1);
    }
    drop(r);
    f::fail_get_after(Some(0));
    let r = GridStore::new(&good);
    f::fail_get_after(None);
    if f::take_faults_fired() > 0 {
        ensure!(r.is_err(), "reading the store's settings failed, but a store was returned");
        ctx.count("failed_opens_reported", 1);
    }
    drop(r);
    // a read that fails is an error, not a missing key
    let store = open(&good)?;
    for (k, _) in model.data.iter().take(5) {
        f::fail_get_after(Some(0));
        let r = store.get(&gk(k)).map(|o| o.map(|i| i.count()));
        f::fail_get_after(None);
        if f::take_faults_fired() > 0 {
            ensure!(r.is_err(), "reading {:?} failed, but get returned {:?}", k, r.map_err(|_| ()));
            ctx.count("failed_reads_reported", 1);
        }
        // and the store recovers
        ensure!(get_rows(&store, k)?.is_some(), "key {:?} unreadable after an earlier fault", k);
    }
    // what the earlier failed builds left behind did not disturb the good one
    compare_all(&store, &model)?;
    // places with no store in them
    let nowhere = ctx.fresh_path();
    ensure!(GridStore::new(&nowhere).is_err(), "opened a store that does not exist");
    ensure!(!nowhere.join("000001.kv").exists(), "opening a missing store created one");
    std::fs::create_dir_all(&nowhere).map_err(|e| e.to_string())?;
    ensure!(GridStore::new(&nowhere).is_err(), "opened an empty directory as a store");
    let parent = ctx.fresh_path();
    let b = start_build(&parent.join("missing/parent"), &ops)?;
    ensure!(b.finish().is_err(), "finished a build into a directory that cannot be created");
    ctx.count("missing_stores_refused", 3);
    // a damaged store is refused
    let bad = ctx.fresh_path();
    std::fs::create_dir_all(&bad).map_err(|e| e.to_string())?;
    let mut bytes = std::fs::read(good.join("000001.kv")).map_err(|e| e.to_string())?;
    bytes.truncate(bytes.len() - 1);
    std::fs::write(bad.join("000001.kv"), &bytes).map_err(|e| e.to_string())?;
    ensure!(GridStore::new(&bad).is_err(), "opened a truncated store");
    // (a build may hand over everything it has at once: it can still fail)
    ctx.nontrivial = writes > 1 || (writes > 0 && model.data.len() > 1);
    ctx.max("writes_in_one_build", writes);
    ctx.sample(|| format!("{} keys, {} writes, each failed in turn", model.data.len(), writes));
    Ok(())
}
