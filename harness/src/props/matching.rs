//! Answering a single match key: C04, C05, C06, C07, C09.

use crate::model::*;
use crate::util::*;
use carmen_core::gridstore::*;
use std::collections::{BTreeMap, BTreeSet};

pub struct Scene {
    pub model: Model,
    pub pools: Pools,
    pub store: GridStore,
    pub opts: Opts,
    /// a phrase of a large addition
    pub big: Option<u32>,
}

impl Scene {
    fn queries(&self) -> u64 {
        if self.big.is_some() { 16 } else { 6 }
    }
}

/// A store with some content, opened at some zoom and radius.
pub fn scene(ctx: &mut Ctx, binned: bool, max_rows: u64) -> Result<Scene, String> {
    let rng = &mut ctx.rng;
    let zoom = rng.pick(&[0u16, 1, 4, 5, 6, 6, 8, 12, 14, 14, 15, 16]);
    let mut pools = Pools::gen(rng, 1u64 << zoom);
    let n = rng.range(1, 14);
    let mut ops = pools.ops(rng, n, max_rows);
    let mut big = None;
    if !cfg!(miri) && rng.chance(1, 200) {
        let most = rng.pick(&[3000, 17_000]);
        let more = pools.large(rng, 1u64 << zoom, most);
        big = match &more[rng.idx(more.len())] {
            Op::Insert(k, _) | Op::Append(k, _) => Some(k.0),
            Op::Compact { key, .. } => Some(key.0),
        };
        ops.extend(more);
        ctx.count("large_stores", 1);
    }
    let rng = &mut ctx.rng;
    let mut model = Model::of(&ops);
    if binned {
        model.bounds = gen_bounds(rng, &pools.phrases);
    }
    let radius = rng.pick(&[0.0, 0.5, 1.0, 25.0, 200.0, 400.0, 5000.0]);
    let opts = Opts {
        zoom,
        type_id: 0,
        radius,
        bboxes: global_bbox_for_zoom(zoom),
        max_score: 1.0,
    };
    for (k, rows) in &model.data {
        ctx.sign(k);
        ctx.sign(rows);
    }
    ctx.sign(&model.bounds);
    let path = ctx.fresh_path();
    build(&path, &ops, &model.bounds)?;
    let store = open_with(&path, &opts)?;
    Ok(Scene { model, pools, store, opts, big })
}

pub fn matches(store: &GridStore, k: &MatchKey, o: &MatchOpts, cap: usize) -> Result<Vec<MatchEntry>, String> {
    Ok(store
        .streaming_get_matching(k, o, cap)
        .map_err(|e| format!("matching {:?} {:?} failed: {}", k, o, e))?
        .collect())
}

/// The row behind a match entry: the relevance it carries may have been reduced.
pub fn base_row(e: &MatchEntry) -> Result<Row, String> {
    let g = &e.grid_entry;
    for (i, r) in RELEV.iter().enumerate() {
        if close(g.relev, *r) || close(g.relev, r * 0.96) {
            return Ok(Row {
                relev: i as u8,
                score: g.score,
                z: zcode(g.x, g.y),
                id: g.id,
                hash: g.source_phrase_hash,
            });
        }
    }
    Err(format!("relevance {} is neither a stored level nor one reduced by 4%: {:?}", g.relev, e))
}

pub fn language_matches(key_langs: u128, query: u128) -> bool {
    key_langs == u128::MAX || (key_langs & query) != 0
}

fn query(ctx: &mut Ctx, s: &Scene) -> (MatchKey, MatchOpts) {
    let rng = &mut ctx.rng;
    let mut match_phrase = gen_phrase(rng, &s.pools.phrases, &s.model.bounds);
    let lang_set = gen_query_lang(rng, &s.pools.langs);
    let mut o = gen_match_opts(rng, &s.pools.tiles, s.opts.zoom);
    if let Some(p) = s.big {
        if rng.chance(1, 2) {
            match_phrase = MatchPhrase::Exact(p);
        }
        if rng.chance(1, 3) {
            o.bbox = Some(most_of(rng, 1 << s.opts.zoom));
        }
    }
    ctx.sign(&format!("{:?}{:?}{}", match_phrase, o, lang_set));
    (MatchKey { match_phrase, lang_set }, o)
}

/// C04: the matched rows are exactly the stored rows in range and in the box.
pub fn c04_content(ctx: &mut Ctx) -> Res {
    let s = scene(ctx, false, 60)?;
    for _ in 0..s.queries() {
        let (k, o) = query(ctx, &s);
        let keys = s.model.in_range(&k.match_phrase);
        let cap = keys.len() + ctx.rng.idx(3);
        let cap = if ctx.rng.chance(1, 2) { 100_000 } else { cap };
        let got = matches(&s.store, &k, &o, cap)?;
        let mut want: BTreeMap<(Row, bool), i64> = BTreeMap::new();
        for (key, rows) in &keys {
            for r in rows.iter() {
                let (x, y) = r.xy();
                if o.bbox.map_or(true, |b| in_bbox(x, y, &b)) {
                    *want.entry((*r, language_matches(key.1, k.lang_set))).or_insert(0) += 1;
                }
            }
        }
        let total: i64 = want.values().sum();
        for e in &got {
            let r = base_row(e)?;
            *want.entry((r, e.matches_language)).or_insert(0) -= 1;
        }
        for ((r, lang), n) in want {
            if n > 0 {
                fail!(
                    "{:?} {:?}: stored row {:?} at {:?} (language match {}) should match but is missing",
                    k, o, r, r.xy(), lang
                );
            }
            if n < 0 {
                fail!(
                    "{:?} {:?}: row {:?} at {:?} (language match {}) is returned {} time(s) too many",
                    k, o, r, r.xy(), lang, -n
                );
            }
        }
        ctx.count("queries", 1);
        ctx.count("rows_matched", got.len() as u64);
        if total > 0 && o.bbox.is_some() {
            ctx.count("queries_with_a_box_and_matches", 1);
        }
        if total > 0 && o.proximity.is_some() {
            ctx.count("queries_with_proximity_and_matches", 1);
        }
        if total > 1 {
            ctx.nontrivial = true;
        }
        ctx.max("rows_in_one_answer", got.len() as u64);
        ctx.sample(|| format!("zoom {} {:?} {:?} -> {} rows", s.opts.zoom, k, o, got.len()));
    }
    Ok(())
}

/// C05: every matched row carries the right annotations.
pub fn c05_annotations(ctx: &mut Ctx) -> Res {
    let s = scene(ctx, true, 40)?;
    for _ in 0..s.queries() {
        let (k, o) = query(ctx, &s);
        // which language sets hold each row?
        let mut holders: BTreeMap<Row, BTreeSet<u128>> = BTreeMap::new();
        for (key, rows) in s.model.in_range(&k.match_phrase) {
            for r in rows.iter() {
                holders.entry(*r).or_default().insert(key.1);
            }
        }
        for e in matches(&s.store, &k, &o, 100_000)? {
            let r = base_row(&e)?;
            let langs = match holders.get(&r) {
                Some(l) => l,
                None => fail!("{:?} {:?}: {:?} is not a stored row in range", k, o, e),
            };
            ensure!(
                langs.iter().any(|l| language_matches(*l, k.lang_set) == e.matches_language),
                "{:?}: language match reported as {} for a row stored under languages {:x?}",
                k,
                e.matches_language,
                langs
            );
            let g = &e.grid_entry;
            let (dist, sd, within) = match o.proximity {
                None => (0.0, g.score as f64, Some(false)),
                Some(p) => {
                    let d = distance(p, g.x, g.y);
                    let limit = s.opts.radius * tiles_per_mile(o.zoom);
                    let within = if (d - limit).abs() < 1e-6 * (1.0 + limit) && d != 0.0 {
                        None // too close to the edge of the radius to call
                    } else {
                        Some(d <= limit)
                    };
                    (d, scoredist(o.zoom, d, g.score, s.opts.radius), within)
                }
            };
            ensure!(close(e.distance, dist), "{:?} {:?}: distance {} should be {}", k, o, e.distance, dist);
            ensure!(
                close(e.scoredist, sd),
                "{:?} {:?} radius {}: scoredist {} should be {} for {:?}",
                k, o, s.opts.radius, e.scoredist, sd, e
            );
            let full = RELEV[r.relev as usize];
            let reduced = full * 0.96;
            let ok = match within {
                None => close(g.relev, full) || close(g.relev, reduced),
                Some(w) if w || e.matches_language => close(g.relev, full),
                _ => close(g.relev, reduced),
            };
            ensure!(
                ok,
                "{:?} {:?} radius {}: relevance {} is wrong for a row stored at {} (language match {}, within radius {:?})",
                k, o, s.opts.radius, g.relev, full, e.matches_language, within
            );
            ctx.count("rows_annotated", 1);
            if !e.matches_language {
                ctx.count("language_mismatches", 1);
            }
            if within == Some(true) {
                ctx.count("rows_within_radius", 1);
            }
            if o.proximity.is_some() {
                ctx.nontrivial = true;
            }
        }
        ctx.sample(|| format!("zoom {} radius {} {:?} {:?}", s.opts.zoom, s.opts.radius, k, o));
    }
    Ok(())
}

fn rank(e: &MatchEntry) -> (f64, u8, bool) {
    (e.grid_entry.relev, e.grid_entry.score, e.matches_language)
}

/// C06: without proximity, best first; and a cap keeps the best.
pub fn c06_best_first(ctx: &mut Ctx) -> Res {
    let binned = ctx.rng.chance(1, 3);
    let s = scene(ctx, binned, 30)?;
    for _ in 0..s.queries() {
        let (k, mut o) = query(ctx, &s);
        o.proximity = None;
        let all = matches(&s.store, &k, &o, 100_000)?;
        for w in all.windows(2) {
            ensure!(
                rank(&w[0]) >= rank(&w[1]),
                "{:?} {:?}: {:?} comes before the better {:?}",
                k, o, w[0], w[1]
            );
        }
        ctx.count("adjacent_pairs_checked", all.len().saturating_sub(1) as u64);
        let caps = [0usize, 1, 2, 3, ctx.rng.range(4, 80) as usize, ctx.rng.idx(all.len() + 2)];
        for cap in caps.iter() {
            let top = matches(&s.store, &k, &o, *cap)?;
            let n = (*cap).min(all.len());
            ensure!(
                top.len() >= n,
                "{:?} {:?}: with a cap of {} only {} of {} rows come back",
                k, o, cap, top.len(), all.len()
            );
            for i in 0..n {
                ensure!(
                    rank(&top[i]) == rank(&all[i]),
                    "{:?} {:?}: with a cap of {} row {} ranks {:?}, but without the cap it ranks {:?}",
                    k, o, cap, i, rank(&top[i]), rank(&all[i])
                );
            }
            ctx.count("capped_answers_checked", 1);
            if n > 0 && s.model.in_range(&k.match_phrase).len() > *cap {
                ctx.count("caps_that_dropped_records", 1);
            }
        }
        if all.len() > 2 {
            ctx.nontrivial = true;
        }
        ctx.max("rows_in_one_answer", all.len() as u64);
        ctx.sample(|| format!("{:?} {:?} -> {} rows, caps {:?}", k, o, all.len(), caps));
    }
    Ok(())
}

type Seen = BTreeSet<(Row, bool, u64, u64)>;

fn seen(es: &[MatchEntry]) -> Result<Seen, String> {
    es.iter()
        .map(|e| Ok((base_row(e)?, e.matches_language, e.grid_entry.relev.to_bits(), e.scoredist.to_bits())))
        .collect()
}

/// C07: prefix bins never change what a query finds.
pub fn c07_bins(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng;
    let zoom = rng.pick(&[1u16, 4, 6, 8, 14, 16]);
    let mut pools = Pools::gen(rng, 1u64 << zoom);
    if rng.chance(1, 2) {
        let n = rng.range(3, 20);
        pools.phrases = phrase_pool(rng, n);
    }
    let n = rng.range(1, 30);
    let mut ops = pools.ops(rng, n, 12);
    if !cfg!(miri) && rng.chance(1, 200) {
        ops.extend(pools.large(rng, 1u64 << zoom, 3000));
        ctx.count("large_stores", 1);
    }
    let rng = &mut ctx.rng;
    let mut model = Model::of(&ops);
    model.bounds = gen_bounds(rng, &pools.phrases);
    for (k, rows) in &model.data {
        ctx.sign(k);
        ctx.sign(rows);
    }
    ctx.sign(&model.bounds);
    let radius = ctx.rng.pick(&[0.0, 1.0, 40.0, 400.0]);
    let o = Opts { zoom, type_id: 0, radius, bboxes: global_bbox_for_zoom(zoom), max_score: 1.0 };
    let (p1, p2) = (ctx.fresh_path(), ctx.fresh_path());
    build(&p1, &ops, &[])?;
    build(&p2, &ops, &model.bounds)?;
    let (plain, binned) = (open_with(&p1, &o)?, open_with(&p2, &o)?);
    // every aligned range, plus some others
    let mut phrases = Vec::new();
    let nb = model.bounds.len();
    ctx.max("boundaries_of_a_store", nb as u64);
    if nb > 60 {
        for _ in 0..10 {
            let i = ctx.rng.idx(nb);
            let j = if ctx.rng.chance(1, 2) { (i + ctx.rng.idx(5)).min(nb - 1) } else { i + ctx.rng.idx(nb - i) };
            phrases.push(MatchPhrase::Range { start: model.bounds[i], end: model.bounds[j] });
        }
    } else {
        for i in 0..nb {
            for j in i..nb {
                phrases.push(MatchPhrase::Range { start: model.bounds[i], end: model.bounds[j] });
            }
        }
    }
    ctx.rng.shuffle(&mut phrases);
    phrases.truncate(10);
    for _ in 0..6 {
        phrases.push(gen_phrase(&mut ctx.rng, &pools.phrases, &model.bounds));
    }
    for match_phrase in phrases {
        let lang_set = gen_query_lang(&mut ctx.rng, &pools.langs);
        let k = MatchKey { match_phrase, lang_set };
        let mo = gen_match_opts(&mut ctx.rng, &pools.tiles, zoom);
        let a = matches(&plain, &k, &mo, 100_000)?;
        let b = matches(&binned, &k, &mo, 100_000)?;
        let (sa, sb) = (seen(&a)?, seen(&b)?);
        if let Some(r) = sa.difference(&sb).next() {
            fail!(
                "{:?} {:?}: {:?} at {:?} is found without prefix boundaries but not with {:?}",
                k, mo, r.0, r.0.xy(), model.bounds
            );
        }
        if let Some(r) = sb.difference(&sa).next() {
            fail!(
                "{:?} {:?}: {:?} at {:?} is found with prefix boundaries {:?} but not without",
                k, mo, r.0, r.0.xy(), model.bounds
            );
        }
        ctx.count("ranges_compared", 1);
        if model.aligned(&k.match_phrase) {
            ctx.count("aligned_ranges_compared", 1);
            if !sa.is_empty() {
                ctx.count("aligned_ranges_with_matches", 1);
                ctx.nontrivial = true;
            }
        }
        ctx.sample(|| format!("bounds {:?} {:?} {:?} -> {} rows", model.bounds, k, mo, sa.len()));
    }
    Ok(())
}

/// C09: with proximity, one key's rows of one relevance and score come nearest first.
pub fn c09_proximity_order(ctx: &mut Ctx) -> Res {
    let s = scene(ctx, false, 120)?;
    let keys: Vec<Key> = s.model.data.keys().cloned().collect();
    for _ in 0..s.queries() {
        let (mut k, mut o) = query(ctx, &s);
        let key = ctx.rng.pick(&keys);
        // a phrase with a single language set, so that there is one stored record to read
        if keys.iter().filter(|q| q.0 == key.0).count() != 1 {
            continue;
        }
        k.match_phrase = MatchPhrase::Exact(key.0);
        if o.proximity.is_none() {
            let (x, y) = s.pools.tiles.near(&mut ctx.rng, 1u64 << s.opts.zoom);
            o.proximity = Some([x, y]);
        }
        let p = o.proximity.unwrap();
        let pz = zcode(p[0], p[1]) as i64;
        let got = matches(&s.store, &k, &o, 100_000)?;
        let mut last: BTreeMap<(u8, u8), (i64, (u16, u16))> = BTreeMap::new();
        let mut pairs = 0;
        let mut last_relev = u8::max_value();
        for e in &got {
            let r = base_row(e)?;
            ensure!(
                r.relev <= last_relev,
                "{:?} {:?}: a row of stored relevance {} comes after one of {}",
                k, o, RELEV[r.relev as usize], RELEV[last_relev as usize]
            );
            last_relev = r.relev;
            let d = (r.z as i64 - pz).abs();
            if let Some((before, tile)) = last.insert((r.relev, r.score), (d, r.xy())) {
                pairs += 1;
                ensure!(
                    before <= d,
                    "{:?} {:?}: tile {:?} (z-order distance {}) comes before tile {:?} (z-order distance {}) of the same relevance and score",
                    k, o, tile, before, r.xy(), d
                );
            }
        }
        ctx.count("queries", 1);
        ctx.count("adjacent_pairs_checked", pairs);
        if o.bbox.is_some() {
            ctx.count("queries_with_a_box", 1);
        }
        if pairs > 1 {
            ctx.nontrivial = true;
        }
        ctx.sample(|| format!("{:?} {:?} -> {} rows", k, o, got.len()));
    }
    Ok(())
}
