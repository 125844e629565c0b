//! Combining matches across indexes: C13, C14, C15, C16, C19, C25, C28.

use super::matching::language_matches;
use super::opts::{ref_adjust, ref_nearby};
use super::stack::{bits, gen_non_overlapping, ref_stacks, Sub};
use crate::model::*;
use crate::util::*;
use carmen_core::gridstore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub struct Index {
    pub idx: u16,
    pub zoom: u16,
    pub radius: f64,
    pub store: Arc<GridStore>,
    pub model: Model,
    pub phrases: Vec<u32>,
    pub langs: Vec<u128>,
}

pub struct World {
    pub indexes: Vec<Index>,
    pub subs: Vec<Sub>,
    pub opts: MatchOpts,
}

/// One stored row as a query should see it.
#[derive(Clone, Debug)]
pub struct Seen {
    pub row: Row,
    pub x: u16,
    pub y: u16,
    pub lang: bool,
    /// stored relevance, reduced if it must be
    pub relev: f64,
    pub dist: f64,
    pub sd: f64,
    /// the row is too close to the edge of the radius to call
    pub edge: bool,
}

fn same(a: f64, b: f64) -> bool {
    close(a, b)
}

/// Everything a key matches in an index, with its annotations, in no particular order.
pub fn ref_rows(ix: &Index, key: &MatchKeyWithId, o: &MatchOpts, nearby: bool) -> Vec<Seen> {
    let o = ref_adjust(o, ix.zoom);
    let mut out = Vec::new();
    for (k, rows) in ix.model.in_range(&key.key.match_phrase) {
        let lang = language_matches(k.1, key.key.lang_set);
        for r in rows.iter() {
            let (x, y) = r.xy();
            if !o.bbox.map_or(true, |b| in_bbox(x, y, &b)) {
                continue;
            }
            if nearby && !ref_nearby(&o, x, y) {
                continue;
            }
            let (mut dist, mut sd, mut within, mut edge) = (0.0, r.score as f64, false, false);
            if let Some(p) = o.proximity {
                dist = distance(p, x, y);
                sd = scoredist(ix.zoom, dist, r.score, ix.radius);
                let limit = ix.radius * tiles_per_mile(ix.zoom);
                within = dist <= limit;
                edge = dist != 0.0 && (dist - limit).abs() < 1e-6 * (1.0 + limit);
            }
            let relev = r.relev_f() * if lang || within { 1.0 } else { 0.96 };
            out.push(Seen { row: *r, x, y, lang, relev, dist, sd, edge: edge && !lang });
        }
    }
    out
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub max_indexes: u64,
    pub max_phrases: u64,
    pub max_rows: u64,
    pub max_subs: u64,
    /// one key per subquery, distinct indexes, and nothing limited to nearby, as for `coalesce`
    pub plain: bool,
    pub proximity: bool,
    /// how many contexts there may be to combine
    pub limit: u64,
    /// many subqueries of different phrases, each with few rows
    pub wide: bool,
    /// the deepest index is one in which prefixes are slow to look up, and is asked for prefixes
    pub slow: bool,
    /// one phrase has this many rows, around as many tiles as that suits
    pub big: u64,
    /// very many types, all of which stack
    pub deep: bool,
}

fn gen_places(rng: &mut Rng) -> Vec<(u64, u64)> {
    let n = rng.range(1, 4);
    let (bx, by) = (rng.below(WORLD), rng.below(WORLD));
    (0..n)
        .map(|_| match rng.below(4) {
            0 => {
                let p = 1u64 << rng.range(4, 15);
                let m = rng.below(WORLD / p);
                ((p * m).min(WORLD - 1), (p * m + rng.below(3)).min(WORLD - 1))
            }
            1 => ((bx + rng.below(64)) % WORLD, (by + rng.below(64)) % WORLD),
            2 => (rng.pick(&[0, WORLD - 1]), rng.pick(&[0, WORLD - 1])),
            _ => (rng.below(WORLD), rng.below(WORLD)),
        })
        .collect()
}

/// A place far away whose coordinates are easily mistaken for those of this one.
fn kin(rng: &mut Rng, (x, y): (u64, u64)) -> (u64, u64) {
    let bit = 1u64 << rng.range(0, 15);
    match rng.below(5) {
        0 => (y, x),
        1 => (x ^ bit, y),
        2 => (x, y ^ bit),
        3 if x + bit < WORLD && y >= bit => (x + bit, y - bit),
        3 => (x ^ bit, y ^ bit),
        _ => (WORLD - 1 - x, y),
    }
}

fn tile_at(rng: &mut Rng, places: &[(u64, u64)], zoom: u16, spread: u64) -> (u16, u16) {
    let (x, y) = rng.pick(places);
    let max = (1i64 << zoom) - 1;
    let mut one = |v: u64| -> u16 {
        let t = (v >> (16 - zoom)) as i64;
        let j = rng.range(0, 2 * spread) as i64 - spread as i64;
        (t + j).max(0).min(max) as u16
    };
    (one(x), one(y))
}

pub fn gen_world(ctx: &mut Ctx, sh: Shape) -> Result<World, String> {
    // worlds in which much stacks: more indexes, of many types, around the same few tiles, and
    // subqueries that mostly cover different parts of the query
    let dense = sh.deep || sh.wide || sh.slow || sh.max_indexes > 1 && ctx.rng.chance(1, 2);
    let n = if sh.deep { ctx.rng.range(7, 10) } else if dense { ctx.rng.range(2, sh.max_indexes + 2) } else { ctx.rng.range(1, sh.max_indexes) };
    let mut places = gen_places(&mut ctx.rng);
    if dense {
        let some = if sh.deep { 1 } else { ctx.rng.range(1, 2) as usize };
        places.truncate(some);
    }
    if !sh.deep && ctx.rng.chance(1, 4) {
        let of = ctx.rng.pick(&places);
        places.push(kin(&mut ctx.rng, of));
        ctx.count("worlds_with_places_easily_mistaken", 1);
    }
    let mut zooms: Vec<u16> = (0..n)
        .map(|_| match ctx.rng.below(5) {
            0 => ctx.rng.below(17) as u16,
            1 => ctx.rng.pick(&[14u16, 15, 16]),
            _ => ctx.rng.pick(&[4u16, 6, 6, 8, 11, 12, 13, 14]),
        })
        .collect();
    zooms.sort();
    if sh.slow {
        let deepest = zooms.len() - 1;
        zooms[deepest] = zooms[deepest].max(ctx.rng.pick(&[14, 15, 16]));
    }
    let mut idxs: Vec<u16> = Vec::new();
    while idxs.len() < n as usize {
        let i = match ctx.rng.below(4) {
            0 => ctx.rng.below(128) as u16,
            1 => ctx.rng.pick(&[0u16, 1, 127]),
            _ => ctx.rng.below(12) as u16,
        };
        if !idxs.contains(&i) {
            idxs.push(i);
        }
    }
    let shared_radius = ctx.rng.pick(&[0.0, 1.3, 25.3, 25.8, 200.2, 200.7, 400.7]);
    // the index with the phrase of many rows is mostly one on which others stack
    let big_one = if ctx.rng.chance(1, 3) { ctx.rng.idx(n as usize) } else { 0 };
    let big_spread = ctx.rng.pick(&[3u64, 20, 40]);
    // its rows may be where nothing else is, but for a few
    let crowd = if sh.big > 0 && ctx.rng.chance(1, 2) { Some((ctx.rng.below(WORLD), ctx.rng.below(WORLD))) } else { None };
    let den = if sh.deep { 1000 } else if dense { 16 } else { ctx.rng.pick(&[4u64, 12]) };
    let non = gen_non_overlapping(&mut ctx.rng, &idxs, 1, den);
    let rel_style = ctx.rng.below(3);
    let mut indexes: Vec<Index> = Vec::new();
    let mut type_id = ctx.rng.below(3) as u16;
    for i in 0..n as usize {
        let rng = &mut ctx.rng;
        if i > 0 && (sh.deep || !(zooms[i] == zooms[i - 1] && rng.chance(1, if dense { 8 } else { 3 }))) {
            type_id += rng.range(1, 3) as u16;
        }
        let zoom = zooms[i];
        // more records than features are asked for, sharing features
        let many = sh.max_phrases > 40 && rng.chance(2, 3);
        let big = if i == big_one { sh.big } else { 0 };
        let np = if sh.deep { 1 } else if sh.wide { rng.range(8, 30) } else if many { rng.range(41, sh.max_phrases) } else if dense { rng.range(1, 2.min(sh.max_phrases)) } else { rng.range(1, sh.max_phrases) };
        let base = if rng.chance(1, 5) { rng.next() as u32 >> 1 } else { rng.below(3) as u32 };
        let phrases: Vec<u32> = (0..np).map(|p| base + p as u32).collect();
        let langs = match rng.below(3) {
            0 => vec![u128::MAX],
            1 => vec![1, 2],
            _ => vec![1, u128::MAX, 6],
        };
        let nids = if big > 0 { big * rng.range(1, 2) } else if many { rng.range(10, 80) } else { rng.range(1, sh.max_rows * 2) };
        let id_base = rng.pick(&[0u32, 0, 1, 1000, (1 << 24) - 1 - nids as u32]);
        // a bit in which ids that are otherwise equal may differ
        let id_alike = if rng.chance(1, 4) { 1u32 << rng.pick(&[8u32, 15, 16, 20, 23]) } else { 0 };
        let spread = if sh.big > 0 {
            // all around the same area
            let (z, b) = (zoom as u32, zooms[big_one] as u32);
            if z >= b { big_spread << (z - b) } else { big_spread >> (b - z) }
        } else if sh.deep {
            0
        } else if dense { rng.pick(&[0u64, 0, 0, 1]) } else { rng.pick(&[0u64, 0, 1, 1, 2, 40]) };
        let mut ops = Vec::new();
        for p in &phrases {
            for _ in 0..if sh.wide { 1 } else { rng.range(1, 2) } {
                let key = (*p, rng.pick(&langs));
                let rows = if big > 0 && ops.is_empty() { big } else { rng.range(1, sh.max_rows) };
                let crowd = if rows == big { crowd } else { None };
                let mut es: Vec<GridEntry> = (0..rows)
                    .map(|_| {
                        let (x, y) = match crowd {
                            Some(c) => tile_at(rng, &[c], zoom, 200),
                            None => tile_at(rng, &places, zoom, spread),
                        };
                        GridEntry {
                            relev: match rel_style {
                                0 => 1.0,
                                1 => rng.pick(&[1.0, 1.0, 0.8]),
                                _ => rng.pick(&RELEV),
                            },
                            score: rng.below(16) as u8,
                            x,
                            y,
                            id: (id_base + rng.below(nids) as u32) ^ (rng.below(2) as u32 * id_alike),
                            source_phrase_hash: rng.below(3) as u8,
                        }
                    })
                    .collect();
                if crowd.is_some() {
                    for i in 0..rng.range(1, 3) {
                        let (x, y) = tile_at(rng, &places, zoom, 0);
                        let relev = if rel_style == 0 { 1.0 } else { rng.pick(&RELEV) };
                        es.push(GridEntry { relev, score: 0, x, y, id: i as u32, source_phrase_hash: 0 });
                    }
                }
                ops.push(Op::Append(key, es));
            }
        }
        let model = Model::of(&ops);
        // boxes that cover everything stored
        let bboxes = if rng.chance(1, 2) {
            global_bbox_for_zoom(zoom)
        } else {
            let mut boxes: Vec<[u16; 4]> = Vec::new();
            let halves = rng.range(1, 3) as usize;
            for h in 0..halves {
                let mut b: Option<[u16; 4]> = None;
                for rows in model.data.values() {
                    for r in rows {
                        if r.id as usize % halves == h {
                            let (x, y) = r.xy();
                            let c = b.unwrap_or([x, y, x, y]);
                            b = Some([c[0].min(x), c[1].min(y), c[2].max(x), c[3].max(y)]);
                        }
                    }
                }
                boxes.extend(b);
            }
            boxes
        };
        let radius = if rng.chance(1, 6) { rng.pick(&[0.0, 1.7, 40.7, 200.2, 1000.7]) } else { shared_radius };
        let max_score = rng.pick(&[0.0, 1.0, 15.0]);
        let bounds = if ctx.rng.chance(1, 4) { gen_bounds(&mut ctx.rng, &phrases) } else { vec![] };
        let path = ctx.fresh_path();
        build(&path, &ops, &bounds)?;
        let store = Arc::new(open_with(&path, &Opts { zoom, type_id, radius, bboxes, max_score })?);
        for (k, rows) in &model.data {
            ctx.sign(k);
            ctx.sign(rows);
        }
        let mut model = model;
        // within prefix bins a row stored under several phrases appears once per language set
        model.bounds = bounds;
        indexes.push(Index { idx: idxs[i], zoom, radius, store, model, phrases, langs });
    }
    let rng = &mut ctx.rng;
    // subqueries
    let tokens = if sh.deep { n } else if dense { rng.range(2, 7) } else { rng.range(1, 5) };
    let nsubs = if sh.deep { n } else if sh.wide { rng.range(sh.max_subs / 3, sh.max_subs) } else if dense { rng.range(2, sh.max_subs + 1) } else { rng.range(1, sh.max_subs) };
    let mut token_order: Vec<u64> = (0..tokens).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut token_order);
    }
    // masks may lie anywhere in their 32 bits
    let shift = rng.pick(&[0u32, 0, 32 - tokens as u32]);
    let wstyle = rng.below(4);
    let mut order: Vec<usize> = (0..indexes.len()).collect();
    rng.shuffle(&mut order);
    let mut subs: Vec<Sub> = Vec::new();
    let mut next_key = rng.below(5) as u32;
    let wide_keys = rng.chance(1, 4);
    // only so many prefixes are looked up; one may be looked up alone and for stacks, and in high
    // zooms count once for every stack in a chunk
    let (mut letters, mut high_words, mut high, mut words, mut any) = (4, 4, 20, 20, if sh.wide { 60 } else { 3 });
    let range_den = if sh.wide { rng.pick(&[20, 20, 3, 1]) } else { 3 };
    for s in 0..nsubs as usize {
        let i = if sh.plain {
            if s >= order.len() {
                break;
            }
            order[s]
        } else if sh.deep {
            s
        } else {
            rng.idx(indexes.len())
        };
        let ix = &indexes[i];
        let (a, b) = if dense && (sh.deep || rng.chance(4, 5)) {
            // the type decides which part of the query, most of the time
            let a = token_order[i % token_order.len()];
            // prefixes of several words, under many parents
            if sh.wide && sh.slow && i == indexes.len() - 1 { (a, (a + 2).min(tokens)) } else { (a, a + 1) }
        } else if rng.chance(1, 2) {
            let a = rng.below(tokens);
            (a, a + 1)
        } else {
            let a = rng.below(tokens);
            (a, rng.range(a + 1, tokens))
        };
        let mask = (((1u32 << b) - 1) & !((1u32 << a) - 1)) << shift;
        let weight = match wstyle {
            _ if sh.wide && rng.chance(1, 2) => rng.range(1, 40) as f64 / 41.0,
            0 | 1 => (b - a) as f64 / tokens as f64,
            2 => rng.pick(&[0.25, 0.5, 1.0]),
            _ => 1.0,
        };
        let nk = if sh.plain || sh.deep || sh.wide && rng.chance(3, 4) { 1 } else { rng.range(1, 2) };
        let mut match_keys = Vec::new();
        for _ in 0..nk {
            let mut p = rng.pick(&ix.phrases);
            let mut match_phrase = MatchPhrase::Exact(p);
            let phrase_length = rng.pick(&[0, 1, 2, 2, 3]);
            let nearby_only = !sh.plain && rng.chance(1, 6);
            let slow = sh.slow && i == indexes.len() - 1;
            if slow && rng.chance(3, 4) || rng.chance(1, range_den) || ix.phrases.len() > 40 {
                let mut q = rng.pick(&ix.phrases);
                if (slow || ix.phrases.len() > 40) && rng.chance(2, 3) {
                    p = ix.phrases[0];
                    q = ix.phrases[ix.phrases.len() - 1];
                }
                let one_word = mask.count_ones() == 1;
                let letter = one_word && phrase_length == 1;
                let is_high = ix.zoom >= 14 && !nearby_only;
                if any > 0 && !(letter && letters == 0) && !(is_high && high == 0) && !(is_high && one_word && high_words == 0) && !(one_word && words == 0) {
                    any -= 1;
                    letters -= letter as u32;
                    high -= is_high as u32;
                    high_words -= (is_high && one_word) as u32;
                    words -= one_word as u32;
                    match_phrase = MatchPhrase::Range { start: p.min(q), end: p.max(q) + 1 };
                }
            }
            next_key += rng.range(1, 2) as u32;
            match_keys.push(MatchKeyWithId {
                id: if wide_keys { next_key.wrapping_mul(0x1000_0001) } else { next_key },
                nearby_only,
                phrase_length,
                key: MatchKey { match_phrase, lang_set: gen_query_lang(rng, &ix.langs) },
            });
        }
        subs.push(PhrasematchSubquery {
            store: ix.store.clone(),
            idx: ix.idx,
            non_overlapping_indexes: bits(non.get(&ix.idx).unwrap_or(&BTreeSet::new())),
            weight,
            mask,
            match_keys,
        });
    }
    let zoom = if rng.chance(1, 2) { rng.pick(&indexes.iter().map(|i| i.zoom).collect::<Vec<_>>()) } else { rng.pick(&[6u16, 12, 14, 16]) };
    let proximity = if sh.proximity && rng.chance(1, 2) {
        let (x, y) = { let spread = rng.pick(&[0, 1, 30]); tile_at(rng, &places, zoom, spread) };
        Some([x, y])
    } else {
        None
    };
    let bbox = if rng.chance(1, 3) {
        let a = { let spread = rng.pick(&[0, 1, 30]); tile_at(rng, &places, zoom, spread) };
        let b = { let spread = rng.pick(&[0, 1, 30]); tile_at(rng, &places, zoom, spread) };
        Some([a.0.min(b.0), a.1.min(b.1), a.0.max(b.0), a.1.max(b.1)])
    } else {
        None
    };
    let opts = MatchOpts { zoom, proximity, bbox };
    // rows that pile up on one tile combine into powers of their number; stay where an answer
    // takes milliseconds
    while combinations(&indexes, &subs, sh.plain) > sh.limit {
        subs.pop();
        ctx.count("subqueries_left_out_as_too_many_combinations", 1);
    }
    for s in &subs {
        ctx.sign(&(s.idx, s.mask, s.weight.to_bits()));
        ctx.sign(&format!("{:?}", s.match_keys));
    }
    ctx.sign(&format!("{:?}", opts));
    Ok(World { indexes, subs, opts })
}

/// No fewer than the contexts there are to combine.
fn combinations(indexes: &[Index], subs: &[Sub], plain: bool) -> u64 {
    let mut order: Vec<&Sub> = subs.iter().collect();
    if plain {
        order.sort_by_key(|s| (s.store.zoom, s.idx));
    } else {
        order.sort_by_key(|s| (s.store.type_id, s.store.zoom, s.idx));
    }
    let mut made: Vec<BTreeMap<(u16, u16), u64>> = Vec::new();
    let mut total: u64 = 0;
    for (i, s) in order.iter().enumerate() {
        let ix = indexes.iter().find(|x| x.idx == s.idx).unwrap();
        let mut here: BTreeMap<(u16, u16), u64> = BTreeMap::new();
        for k in &s.match_keys {
            for (_, rows) in ix.model.in_range(&k.key.match_phrase) {
                for r in rows.iter() {
                    *here.entry(r.xy()).or_insert(0) += 1;
                }
            }
        }
        for (tile, n) in here.iter_mut() {
            let mut under: u64 = 1;
            for (j, p) in order[..i].iter().enumerate() {
                if !plain && (p.mask & s.mask != 0 || p.store.type_id == s.store.type_id) {
                    continue;
                }
                let dz = s.store.zoom.saturating_sub(p.store.zoom);
                let up = ((tile.0 as u32 >> dz) as u16, (tile.1 as u32 >> dz) as u16);
                under = under.saturating_add(made[j].get(&up).cloned().unwrap_or(0));
            }
            *n = n.saturating_mul(under);
            total = total.saturating_add(*n);
        }
        made.push(here);
    }
    total
}

impl World {
    pub fn ix(&self, idx: u16) -> Option<&Index> {
        self.indexes.iter().find(|i| i.idx == idx)
    }
    pub fn describe(&self) -> String {
        let subs: Vec<String> = self
            .subs
            .iter()
            .map(|s| {
                format!(
                    "idx {} zoom {} type {} mask {:b} weight {} keys {:?}",
                    s.idx, s.store.zoom, s.store.type_id, s.mask, s.weight, s.match_keys
                )
            })
            .collect();
        format!("{:?}; {}", self.opts, subs.join("; "))
    }
    fn total_rows(&self) -> usize {
        self.indexes.iter().map(|i| i.model.row_count()).sum()
    }
}

fn run_coalesce(w: &World) -> Result<Vec<CoalesceContext>, String> {
    coalesce(w.subs.clone(), &w.opts).map_err(|e| format!("coalesce failed on {}: {}", w.describe(), e))
}

fn run_tree(w: &World) -> Result<Vec<CoalesceContext>, String> {
    stack_and_coalesce(&w.subs, &w.opts).map_err(|e| format!("stack_and_coalesce failed on {}: {}", w.describe(), e))
}

/// Is the entry a row that the subquery it names really matches, properly annotated?
fn entry_sound(w: &World, e: &CoalesceEntry, tree: bool) -> Res {
    let ix = match w.ix(e.idx) {
        Some(i) => i,
        None => fail!("an entry names index {}, which is not queried: {:?}", e.idx, e),
    };
    let mut named = false;
    for s in w.subs.iter().filter(|s| s.idx == e.idx && s.mask == e.mask) {
        for (i, k) in s.match_keys.iter().enumerate() {
            if tree && k.id != e.phrasematch_id {
                continue;
            }
            if !tree && i > 0 {
                continue;
            }
            named = true;
            for r in ref_rows(ix, k, &w.opts, tree && k.nearby_only) {
                let g = &e.grid_entry;
                let relev_ok = same(g.relev, r.relev * s.weight)
                    || (r.edge
                        && (same(g.relev, r.row.relev_f() * s.weight)
                            || same(g.relev, r.row.relev_f() * 0.96 * s.weight)));
                if (r.x, r.y, r.row.id, r.row.score, r.row.hash) == (g.x, g.y, g.id, g.score, g.source_phrase_hash)
                    && relev_ok
                    && r.lang == e.matches_language
                    && same(r.dist, e.distance)
                    && same(r.sd, e.scoredist)
                {
                    ensure!(
                        e.tmp_id == ((e.idx as u32) << 25) + g.id,
                        "the temporary id of {:?} should be {}",
                        e,
                        ((e.idx as u32) << 25) + g.id
                    );
                    return Ok(());
                }
            }
        }
    }
    if !named {
        fail!("an entry names a subquery or key that was not asked for: {:?}", e);
    }
    fail!("an entry is no row its subquery matches with these annotations: {:?}", e)
}

fn sound(w: &World, contexts: &[CoalesceContext], tree: bool) -> Res {
    let mut checked: BTreeSet<String> = BTreeSet::new();
    for c in contexts {
        ensure!(!c.entries.is_empty(), "a context without entries");
        let mut mask = 0;
        let mut relev = 0.0;
        for (i, e) in c.entries.iter().enumerate() {
            if checked.insert(format!("{:?}", e)) {
                entry_sound(w, e, tree)?;
            }
            ensure!(
                mask & e.mask == 0,
                "the entries of a context cover the same part of the query twice (masks {:?}): {:?}",
                c.entries.iter().map(|e| e.mask).collect::<Vec<_>>(),
                c
            );
            mask |= e.mask;
            relev += e.grid_entry.relev;
            let z = w.ix(e.idx).map_or(0, |i| i.zoom);
            for f in &c.entries[i + 1..] {
                let (zf, tf) = (w.ix(f.idx).map_or(0, |i| i.zoom), (f.grid_entry.x, f.grid_entry.y));
                let (deep, shallow, dz) = if z >= zf {
                    ((e.grid_entry.x, e.grid_entry.y), tf, z - zf)
                } else {
                    (tf, (e.grid_entry.x, e.grid_entry.y), zf - z)
                };
                let up = ((deep.0 as u32 >> dz) as u16, (deep.1 as u32 >> dz) as u16);
                ensure!(
                    up == shallow,
                    "stacked entries lie apart: {:?} at zoom {} against {:?} at zoom {}",
                    (e.grid_entry.x, e.grid_entry.y), z, tf, zf
                );
                if tree {
                    let (a, b) = (w.subs.iter().find(|s| s.idx == e.idx), w.subs.iter().find(|s| s.idx == f.idx));
                    if let (Some(a), Some(b)) = (a, b) {
                        ensure!(
                            !a.non_overlapping_indexes.contains(b.idx as usize) && !b.non_overlapping_indexes.contains(a.idx as usize),
                            "indexes {} and {} are stacked although they can't overlap",
                            a.idx,
                            b.idx
                        );
                        ensure!(
                            a.store.type_id > b.store.type_id,
                            "entries of types {} and {} are stacked in that order",
                            a.store.type_id,
                            b.store.type_id
                        );
                    }
                }
            }
        }
        ensure!(mask == c.mask, "a context's mask is {:b} but its entries cover {:b}", c.mask, mask);
        ensure!(
            same(c.relev, relev) || same(c.relev, relev - 0.01),
            "a context's relevance is {} but its entries add up to {}: {:?}",
            c.relev, relev, c
        );
        if c.entries.len() > 1 && c.entries[0].mask < c.entries[1].mask {
            ensure!(
                same(c.relev, relev),
                "a context in the query's order is penalised: {} instead of {}: {:?}",
                c.relev, relev, c
            );
        }
        if tree && c.entries.len() > 1 && c.entries[0].mask > c.entries[1].mask {
            ensure!(
                same(c.relev, relev - 0.01),
                "a context against the query's order is not penalised: {} instead of {}: {:?}",
                c.relev, relev - 0.01, c
            );
        }
    }
    Ok(())
}

fn gen_shape(rng: &mut Rng) -> Shape {
    let max_rows = rng.pick(&[2u64, 6, 20, 60]);
    Shape {
        max_indexes: 5,
        max_phrases: 4,
        max_rows,
        max_subs: 7,
        plain: rng.chance(2, 5),
        proximity: true,
        limit: 20_000,
        wide: false,
        slow: false,
        big: 0,
        deep: false,
    }
}

/// A world as `coalesce` wants it: a lone subquery is asked at its own zoom.
fn for_coalesce(mut w: World) -> World {
    if w.subs.len() == 1 {
        let z = w.subs[0].store.zoom;
        w.opts = ref_adjust(&w.opts, z);
    }
    w
}

/// A world whose question is cheap enough to be asked over and over.
pub fn world_for_repetition(ctx: &mut Ctx, plain: bool) -> Result<World, String> {
    let mut sh = Shape { plain, limit: 1000, max_rows: ctx.rng.pick(&[2u64, 6, 20]), ..gen_shape(&mut ctx.rng) };
    if !plain && ctx.rng.chance(1, 8) {
        sh = Shape { max_rows: 2, max_subs: 30, wide: true, ..sh };
    }
    let w = gen_world(ctx, sh)?;
    Ok(if plain { for_coalesce(w) } else { w })
}

/// Rows of a phrase of many. Now and then as many as are ever read of a phrase, or nearly.
fn big_size(rng: &mut Rng) -> u64 {
    if rng.chance(1, 12) {
        rng.pick(&[20_000u64, 70_000, 95_000])
    } else {
        rng.pick(&[300u64, 3000, 8000])
    }
}

fn any_world(ctx: &mut Ctx) -> Result<(World, bool, Vec<CoalesceContext>), String> {
    let mut sh = gen_shape(&mut ctx.rng);
    if !sh.plain && ctx.rng.chance(1, 8) {
        sh = Shape { max_rows: ctx.rng.pick(&[1u64, 2, 6]), max_subs: 60, wide: true, ..sh };
    } else if !sh.plain && ctx.rng.chance(1, 30) {
        sh = Shape { max_rows: 2, deep: true, ..sh };
    } else if !cfg!(miri) && ctx.rng.chance(1, 60) {
        sh = Shape { max_rows: 6, max_subs: 3, big: big_size(&mut ctx.rng), ..sh };
    }
    let w = gen_world(ctx, sh)?;
    let tree = !sh.plain;
    let w = if tree { w } else { for_coalesce(w) };
    let got = if tree { run_tree(&w)? } else { run_coalesce(&w)? };
    Ok((w, tree, got))
}

/// C13: every context returned is made of real matches that really belong together.
pub fn c13_sound(ctx: &mut Ctx) -> Res {
    let (w, tree, got) = any_world(ctx)?;
    sound(&w, &got, tree).map_err(|m| format!("{} [{}]", m, w.describe()))?;
    ctx.count("contexts_checked", got.len() as u64);
    ctx.count("entries_checked", got.iter().map(|c| c.entries.len() as u64).sum());
    let deep = got.iter().map(|c| c.entries.len()).max().unwrap_or(0);
    ctx.max("deepest_stack", deep as u64);
    if deep > 1 {
        ctx.count(if tree { "stack_and_coalesce_with_stacks" } else { "coalesce_with_stacks" }, 1);
    }
    if got.iter().any(|c| c.entries.len() > 1 && c.entries[0].mask > c.entries[1].mask) {
        ctx.count("answers_with_penalised_stacks", 1);
    }
    ctx.nontrivial = !got.is_empty();
    ctx.sample(|| format!("{} -> {} contexts", w.describe(), got.len()));
    Ok(())
}

/// C14: the list as a whole is sorted, bounded, free of repeats, and close to the best.
pub fn c14_shape(ctx: &mut Ctx) -> Res {
    let (w, tree, got) = any_world(ctx)?;
    for p in got.windows(2) {
        let key = |c: &CoalesceContext| {
            let e = &c.entries[0];
            (c.relev, e.scoredist, std::cmp::Reverse(e.idx), e.grid_entry.x, e.grid_entry.y, e.grid_entry.id)
        };
        let (a, b) = (key(&p[0]), key(&p[1]));
        ensure!(
            a >= b,
            "a context of (relevance, scoredist, index, x, y, id) {:?} comes before one of {:?} [{}]",
            a, b, w.describe()
        );
        // contexts compare as they rank
        let said = p[0].cmp(&p[1]);
        ensure!(
            Some(said) == a.partial_cmp(&b) && (p[0] == p[1]) == (a == b) && p[0] == p[0].clone() && p[1].cmp(&p[0]) == said.reverse(),
            "contexts ranking {:?} and {:?} compare as {:?}", a, b, said
        );
        ctx.count("adjacent_pairs_that_tie_in_relevance_and_scoredist", ((a.0, a.1) == (b.0, b.1)) as u64);
    }
    if tree {
        ensure!(got.len() <= 800, "{} contexts, more than 800", got.len());
    } else {
        ensure!(got.len() <= 40, "{} contexts, more than 40", got.len());
        let mut seen = BTreeSet::new();
        for c in &got {
            let e = &c.entries[0];
            ensure!(
                seen.insert((e.idx, e.grid_entry.id)),
                "feature {} of index {} leads two contexts [{}]",
                e.grid_entry.id, e.idx, w.describe()
            );
            ensure!(
                got[0].relev - c.relev < 0.25 + 1e-9,
                "a context of relevance {} is returned though the best has {} [{}]",
                c.relev, got[0].relev, w.describe()
            );
        }
        if got.len() == 40 {
            ctx.count("answers_of_40_contexts", 1);
        }
    }
    ctx.count("adjacent_pairs_checked", got.len().saturating_sub(1) as u64);
    ctx.max("contexts_in_one_answer", got.len() as u64);
    ctx.nontrivial = got.len() > 1;
    ctx.sample(|| format!("{} -> {} contexts", w.describe(), got.len()));
    Ok(())
}

/// What ranks alike: relevance to a millionth (and an arbitrary fraction, to keep clear of round
/// numbers), so that sums taken in another order compare equal.
fn bucket(relev: f64) -> i64 {
    (relev * 1e6 + 0.1237).round() as i64
}

/// Keep the `n` best by relevance and scoredist. False if the last of them could be others because
/// of how the relevances were rounded.
fn keep_best(list: &mut Vec<(f64, f64, Vec<u64>)>, n: usize) -> bool {
    list.sort_by(|a, b| (bucket(b.0), b.1).partial_cmp(&(bucket(a.0), a.1)).unwrap());
    if list.len() <= n {
        return true;
    }
    let last = bucket(list[n].0);
    let mut tied = list.iter().filter(|l| bucket(l.0) == last);
    let first = tied.next().unwrap();
    let clear = bucket(list[n - 1].0) != last || tied.all(|l| l.2 == first.2);
    list.truncate(n);
    clear
}

/// Compare two rankings given as (relevance, scoredist), both in any order.
fn same_ranking(got: &mut Vec<(f64, f64)>, want: &mut Vec<(f64, f64)>) -> Res {
    let order = |a: &(f64, f64), b: &(f64, f64)| {
        (bucket(b.0), b.1).partial_cmp(&(bucket(a.0), a.1)).unwrap()
    };
    got.sort_by(order);
    want.sort_by(order);
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) => ensure!(
                bucket(g.0) == bucket(w.0) && same(g.1, w.1),
                "rank {}: (relevance, scoredist) is {:?} but should be {:?}",
                i, g, w
            ),
            (Some(g), None) => fail!("rank {}: {:?} is returned beyond the {} expected", i, g, want.len()),
            (None, w) => fail!("rank {}: {:?} is missing; only {} are returned", i, w, got.len()),
        }
    }
    Ok(())
}

/// C15: a single subquery finds the best features.
pub fn c15_single(ctx: &mut Ctx) -> Res {
    let max_rows = ctx.rng.pick(&[4u64, 30, 60, 150]);
    // many records with few features, or few with many
    let max_phrases = if max_rows == 4 && ctx.rng.chance(1, 2) { 70 } else { 12 };
    let big = if !cfg!(miri) && max_phrases == 12 && ctx.rng.chance(1, 60) { big_size(&mut ctx.rng) } else { 0 };
    let sh = Shape { max_indexes: 1, max_phrases, max_rows, max_subs: 1, plain: true, proximity: true, limit: 200_000, wide: false, slow: false, big, deep: false };
    let mut w = gen_world(ctx, sh)?;
    let via_tree = ctx.rng.chance(1, 2);
    if !via_tree {
        w = for_coalesce(w);
    }
    let key = w.subs[0].match_keys[0].clone();
    let weight = w.subs[0].weight;
    let ix = &w.indexes[0];
    // no more records than are read at once
    if ix.model.in_range(&key.key.match_phrase).len() > 80 {
        return Ok(());
    }
    let got = if via_tree { run_tree(&w)? } else { run_coalesce(&w)? };
    let mut rows = ref_rows(ix, &key, &w.opts, false);
    let mut features: BTreeMap<u32, (f64, f64)> = BTreeMap::new();
    rows.sort_by(|a, b| (b.relev, b.sd).partial_cmp(&(a.relev, a.sd)).unwrap());
    for r in &rows {
        features.entry(r.row.id).or_insert((r.relev * weight, r.sd));
    }
    let best = features.values().map(|f| f.0).fold(0.0, f64::max);
    let found: BTreeMap<u32, (f64, f64)> = got
        .iter()
        .map(|c| (c.entries[0].grid_entry.id, (c.relev, c.entries[0].scoredist)))
        .collect();
    ensure!(found.len() == got.len(), "a feature is returned twice [{}]", w.describe());
    for c in &got {
        ensure!(c.entries.len() == 1, "a single subquery gives a context with {} entries", c.entries.len());
    }
    let unsure = |r: f64| (best - r - 0.25).abs() < 1e-9;
    if features.values().any(|f| unsure(f.0)) {
        return Ok(());
    }
    if w.opts.proximity.is_none() {
        let mut want: Vec<(f64, f64)> = features.values().filter(|f| best - f.0 < 0.25).cloned().collect();
        want.sort_by(|a, b| b.partial_cmp(a).unwrap());
        want.truncate(40);
        let mut list: Vec<(f64, f64)> = found.values().cloned().collect();
        same_ranking(&mut list, &mut want).map_err(|m| format!("{} [{}]", m, w.describe()))?;
        for (id, f) in &found {
            let of = features.get(id).cloned().unwrap_or((-1.0, -1.0));
            ensure!(
                same(of.0, f.0) && same(of.1, f.1),
                "feature {} is returned at {:?} although its best match is {:?} [{}]",
                id, f, of, w.describe()
            );
        }
        ctx.count("rankings_compared", 1);
    } else if rows.iter().any(|r| r.edge) {
        return Ok(());
    } else if rows.iter().all(|r| same(r.relev, r.row.relev_f())) {
        // nothing is reduced for its language, so records are in order of relevance
        let mut want: Vec<(f64, f64)> = features.values().filter(|f| best - f.0 < 0.25).cloned().collect();
        want.sort_by(|a, b| b.partial_cmp(a).unwrap());
        want.truncate(40);
        let mut list: Vec<(f64, f64)> = found.values().cloned().collect();
        same_ranking(&mut list, &mut want).map_err(|m| format!("{} [{}]", m, w.describe()))?;
        for (id, f) in &found {
            let of = features.get(id).cloned().unwrap_or((-1.0, -1.0));
            ensure!(
                same(of.0, f.0) && same(of.1, f.1),
                "feature {} is returned at {:?} although its best match is {:?} [{}]",
                id, f, of, w.describe()
            );
        }
        ctx.count("rankings_compared_with_proximity", 1);
        if rows.len() > 2000 {
            ctx.count("rankings_of_over_2000_rows_compared_with_proximity", 1);
        }
        if features.len() > 80 {
            ctx.count("rankings_of_over_80_features_compared_with_proximity", 1);
        }
    } else {
        if features.len() > 80 {
            return Ok(());
        }
        // a row that the 4% reduction would put below the cut may be dropped along with reduced ones
        let clear: BTreeMap<u32, (f64, f64)> = features
            .iter()
            .filter(|(id, _)| {
                rows.iter().any(|r| r.row.id == **id && best - r.row.relev_f() * 0.96 * weight < 0.25 - 1e-9)
            })
            .map(|(i, f)| (*i, *f))
            .collect();
        if features.len() <= 40 {
            for (id, f) in &clear {
                ensure!(
                    found.contains_key(id),
                    "feature {} matches with {:?} but is not returned; best relevance {} [{}]",
                    id, f, best, w.describe()
                );
            }
            ctx.count("presence_checked_with_proximity", 1);
        }
    }
    let records = ix.model.in_range(&key.key.match_phrase).len() as u64;
    ctx.max("records_in_one_case", records);
    if records > 40 {
        ctx.count("cases_with_more_than_40_records", 1);
    }
    ctx.max("features_in_one_case", features.len() as u64);
    if features.len() > 40 {
        ctx.count("cases_with_more_than_40_features", 1);
    }
    ctx.nontrivial = features.len() > 1;
    ctx.sample(|| format!("{} -> {} of {} features", w.describe(), got.len(), features.len()));
    Ok(())
}

/// A partial or complete stack in the reference.
#[derive(Clone)]
struct Path {
    entries: Vec<(u32, u16, u16, u32)>, // (key id, x, y, feature), deepest first
    details: Vec<(f64, f64, bool)>,     // weighted relevance, scoredist, language
    masks: Vec<u32>,
    relev: f64,
}

struct Expected {
    /// every context that may be returned, by identity
    all: BTreeMap<Vec<(u32, u16, u16, u32)>, (f64, Vec<(f64, f64, bool)>, bool)>,
    /// per node and key, the (relevance, scoredist) of all its contexts, and what the relevance sums
    groups: Vec<Vec<(f64, f64, Vec<u64>)>>,
    any_optional: bool,
    single: BTreeMap<(u32, u32), (f64, f64, bool)>,
    too_big: bool,
    uncertain: bool,
    /// keys of lone subqueries of whose features it isn't certain which place leads
    unsure: BTreeSet<u32>,
    best: f64,
}

/// Brute force over everything `stack_and_coalesce` may combine.
fn expected(w: &World) -> Expected {
    let mut ex = Expected {
        all: BTreeMap::new(),
        groups: Vec::new(),
        any_optional: false,
        single: BTreeMap::new(),
        too_big: false,
        uncertain: false,
        unsure: BTreeSet::new(),
        best: f64::MIN,
    };
    let subs = collapsed(&w.subs);
    let stacks = match ref_stacks(&subs, 3000) {
        Some(s) => s,
        None => {
            ex.too_big = true;
            return ex;
        }
    };
    let inner: BTreeSet<&[usize]> = stacks.iter().map(|p| &p[..p.len() - 1]).collect();
    if stacks.iter().filter(|p| !inner.contains(&p[..])).count() >= 2000 {
        // more than are kept
        ex.too_big = true;
        return ex;
    }
    // the rows each key contributes, once per tile and feature
    let mut rows: BTreeMap<u32, Vec<Seen>> = BTreeMap::new();
    for s in &subs {
        let ix = w.ix(s.idx).unwrap();
        for k in &s.match_keys {
            let mut r = ref_rows(ix, k, &w.opts, k.nearby_only);
            if r.iter().any(|r| r.edge) {
                ex.uncertain = true;
            }
            r.sort_by(|a, b| (b.relev, b.sd, b.lang).partial_cmp(&(a.relev, a.sd, a.lang)).unwrap());
            rows.insert(k.id, r);
        }
    }
    let with_proximity = w.opts.proximity.is_some();
    let unique = |r: &Vec<Seen>, uncertain: &mut bool| -> Vec<Seen> {
        let mut out: Vec<Seen> = Vec::new();
        let mut have: BTreeMap<(u16, u16, u32), (f64, f64, bool)> = BTreeMap::new();
        for s in r {
            let v = (s.relev, s.sd, s.lang);
            match have.get(&(s.x, s.y, s.row.id)) {
                None => {
                    have.insert((s.x, s.y, s.row.id), v);
                    out.push(s.clone());
                }
                Some(before) => {
                    if with_proximity && *before != v {
                        // which of them is met first depends on the order within records
                        *uncertain = true;
                    }
                }
            }
        }
        out
    };
    let mut states: BTreeMap<Vec<usize>, Vec<Path>> = BTreeMap::new();
    let mut optional_candidates: Vec<(Vec<(u32, u16, u16, u32)>, f64)> = Vec::new();
    for path in &stacks {
        let s = &subs[*path.last().unwrap()];
        let leaf = !inner.contains(&path[..]);
        if path.len() == 1 && leaf {
            for k in &s.match_keys {
                let r = &rows[&k.id];
                let mut best: BTreeMap<u32, (f64, f64, bool, u16, u16)> = BTreeMap::new();
                for x in r {
                    best.entry(x.row.id).or_insert((x.relev * s.weight, x.sd, x.lang, x.x, x.y));
                }
                let top = best.values().map(|b| b.0).fold(0.0, f64::max);
                if best.values().any(|b| (top - b.0 - 0.25).abs() < 1e-9) {
                    ex.unsure.insert(k.id);
                }
                // see C15
                if with_proximity && r.iter().any(|r| !same(r.relev, r.row.relev_f())) {
                    ex.unsure.insert(k.id);
                }
                let mut group = Vec::new();
                for (id, b) in best {
                    if top - b.0 < 0.25 {
                        ex.single.insert((k.id, id), (b.0, b.1, b.2));
                        group.push((b.0, b.1, vec![b.0.to_bits()]));
                        ex.best = ex.best.max(b.0);
                    }
                }
                let is_range = match k.key.match_phrase {
                    MatchPhrase::Exact(_) => false,
                    MatchPhrase::Range { start, end } => end - start > 1,
                };
                if is_range && s.mask.count_ones() == 1 && s.store.zoom >= 14 {
                    for (id, b) in ex.single.iter().filter(|((kk, _), _)| *kk == k.id) {
                        optional_candidates.push((vec![(k.id, 0, 0, id.1)], b.0));
                    }
                }
                ex.groups.push(group);
            }
            continue;
        }
        let mut here: Vec<Path> = Vec::new();
        let mut under: BTreeMap<(u16, u16), Vec<&Path>> = BTreeMap::new();
        if path.len() > 1 {
            for p in states.get(&path[..path.len() - 1]).map(|v| &v[..]).unwrap_or(&[]) {
                under.entry((p.entries[0].1, p.entries[0].2)).or_default().push(p);
            }
        }
        for k in &s.match_keys {
            let r = unique(&rows[&k.id], &mut ex.uncertain);
            let is_range = match k.key.match_phrase {
                MatchPhrase::Exact(_) => false,
                MatchPhrase::Range { start, end } => end - start > 1,
            };
            let maybe_skipped = is_range && s.mask.count_ones() == 1 && s.store.zoom >= 14 && leaf;
            let mut group = Vec::new();
            for x in &r {
                let relev = x.relev * s.weight;
                let mut made: Vec<Path> = Vec::new();
                if path.len() == 1 {
                    made.push(Path {
                        entries: vec![(k.id, x.x, x.y, x.row.id)],
                        details: vec![(relev, x.sd, x.lang)],
                        masks: vec![s.mask],
                        relev,
                    });
                } else {
                    let parent = &subs[path[path.len() - 2]];
                    let dz = s.store.zoom - parent.store.zoom;
                    let up = ((x.x as u32 >> dz) as u16, (x.y as u32 >> dz) as u16);
                    for p in under.get(&up).map(|v| &v[..]).unwrap_or(&[]) {
                        let mut q: Path = (*p).clone();
                        q.entries.insert(0, (k.id, x.x, x.y, x.row.id));
                        q.details.insert(0, (relev, x.sd, x.lang));
                        q.masks.insert(0, s.mask);
                        q.relev += relev;
                        made.push(q);
                    }
                }
                for m in made {
                    let penalty = m.masks.len() == 1 || m.masks[0] > m.masks[1];
                    let out = if penalty { m.relev - 0.01 } else { m.relev };
                    ex.best = ex.best.max(out);
                    group.push((out, m.details[0].1, m.details.iter().map(|d| d.0.to_bits()).collect()));
                    ex.all.insert(m.entries.clone(), (out, m.details.clone(), false));
                    if maybe_skipped {
                        optional_candidates.push((m.entries.clone(), m.relev));
                    }
                    if !leaf {
                        here.push(m);
                    }
                }
                if ex.all.len() > 40_000 {
                    ex.too_big = true;
                    return ex;
                }
            }
            ex.groups.push(group);
        }
        states.insert(path.clone(), here);
    }
    // what a slow last step could add may be left out when it is well below the best
    for (e, relev) in optional_candidates {
        if relev <= 0.75 * (ex.best + 0.01) + 1e-9 {
            ex.any_optional = true;
            if e.len() == 1 && ex.single.contains_key(&(e[0].0, e[0].3)) && !ex.all.contains_key(&e) {
                ex.single_optional(e[0].0, e[0].3);
            } else if let Some(x) = ex.all.get_mut(&e) {
                x.2 = true;
            }
        }
    }
    ex
}

impl Expected {
    fn single_optional(&mut self, key: u32, id: u32) {
        if let Some(v) = self.single.remove(&(key, id)) {
            self.all.insert(vec![(key, u16::max_value(), u16::max_value(), id)], (v.0, vec![v], true));
        }
    }
}

fn collapsed(subs: &[Sub]) -> Vec<Sub> {
    let mut out: Vec<Sub> = Vec::new();
    for s in subs {
        match out.iter_mut().find(|w| w.weight == s.weight && w.idx == s.idx && w.mask == s.mask) {
            Some(w) => w.match_keys.extend(s.match_keys.iter().cloned()),
            None => out.push(s.clone()),
        }
    }
    out
}

fn stacked_completeness(ctx: &mut Ctx) -> Res {
    let large = ctx.rng.chance(1, 4);
    let mut sh = Shape {
        max_indexes: 4,
        max_phrases: 3,
        max_rows: if large { 40 } else { ctx.rng.pick(&[1u64, 2, 4, 7]) },
        max_subs: if large { 5 } else { 6 },
        plain: false,
        proximity: ctx.rng.chance(2, 3),
        limit: 30_000,
        wide: false,
        slow: false,
        big: 0,
        deep: false,
    };
    if ctx.rng.chance(1, 5) {
        let limit = ctx.rng.pick(&[800, 800, 8000]);
        sh = Shape { max_rows: ctx.rng.pick(&[1u64, 1, 2]), max_subs: 60, limit, wide: true, slow: ctx.rng.chance(1, 4), ..sh };
    } else if ctx.rng.chance(1, 6) {
        sh.slow = true;
    } else if ctx.rng.chance(1, 30) {
        sh = Shape { max_rows: 6, max_phrases: 2, big: big_size(&mut ctx.rng), limit: 200_000, ..sh };
    } else if ctx.rng.chance(1, 30) {
        sh = Shape { max_rows: ctx.rng.range(1, 2), deep: true, limit: 8_000, ..sh };
    }
    let w = gen_world(ctx, sh)?;
    if sh.big > 0 {
        ctx.count("worlds_with_a_phrase_of_many_rows", 1);
    }
    if sh.wide {
        ctx.count("worlds_of_many_subqueries", 1);
        ctx.max("subqueries_in_one_question", w.subs.len() as u64);
    }
    // bins merge equal rows of different phrases; harmless, as rows are told apart by tile and id
    let got = run_tree(&w)?;
    let ex = expected(&w);
    if ex.too_big {
        ctx.count("cases_too_big_to_enumerate", 1);
        return Ok(());
    }
    let tell = |m: String| format!("{} [{}]", m, w.describe());
    let fits = ex.groups.iter().all(|g| g.len() <= 40) && ex.groups.iter().map(|g| g.len()).sum::<usize>() <= 800;
    if fits {
        let mut seen = BTreeSet::new();
        let mut seen_single = BTreeSet::new();
        for c in &got {
            let id: Vec<_> = c
                .entries
                .iter()
                .map(|e| (e.phrasematch_id, e.grid_entry.x, e.grid_entry.y, e.grid_entry.id))
                .collect();
            let details: Vec<_> = c.entries.iter().map(|e| (e.grid_entry.relev, e.scoredist, e.matches_language)).collect();
            let one = id.len() == 1;
            if one && !ex.all.contains_key(&id) {
                let k = (id[0].0, id[0].3);
                let spare = vec![(id[0].0, u16::max_value(), u16::max_value(), id[0].3)];
                ensure!(seen_single.insert(k), "{}", tell(format!("feature {} of key {} is returned twice", k.1, k.0)));
                let v = ex.single.get(&k).cloned().or_else(|| ex.all.get(&spare).map(|v| v.1[0]));
                match v {
                    Some(v) => {
                        if !ex.uncertain && !ex.unsure.contains(&k.0) {
                            ensure!(
                                // rows in and out of the language may be equally near
                                same(v.0, c.relev) && same(v.1, details[0].1) && (v.2 == details[0].2 || w.opts.proximity.is_some()),
                                "{}",
                                tell(format!("feature {} of key {} is returned at {:?} (relevance {}) instead of {:?}", k.1, k.0, details, c.relev, v))
                            );
                        }
                    }
                    None => ensure!(ex.uncertain || ex.unsure.contains(&k.0), "{}", tell(format!("{:?} should not be returned", c))),
                }
                continue;
            }
            ensure!(seen.insert(id.clone()), "{}", tell(format!("{:?} is returned twice", c)));
            match ex.all.get(&id) {
                None => fail!("{}", tell(format!("{:?} is no valid combination of matches", c))),
                Some((relev, want, _)) => {
                    if !ex.uncertain {
                        ensure!(same(*relev, c.relev), "{}", tell(format!("relevance {} should be {}: {:?}", c.relev, relev, c)));
                        ensure!(
                            want.len() == details.len()
                                && want.iter().zip(details.iter()).all(|(a, b)| same(a.0, b.0) && same(a.1, b.1) && a.2 == b.2),
                            "{}",
                            tell(format!("the entries should rank {:?}: {:?}", want, c))
                        );
                    }
                }
            }
        }
        for (id, v) in &ex.all {
            if !v.2 && !seen.contains(id) {
                fail!(
                    "{}",
                    tell(format!("the combination {:?} (key, x, y, feature; deepest first) of relevance {} is missing", id, v.0))
                );
            }
        }
        if !ex.uncertain {
            for (k, v) in &ex.single {
                ensure!(
                    seen_single.contains(k) || ex.unsure.contains(&k.0),
                    "{}",
                    tell(format!("feature {} of key {} with {:?} is missing", k.1, k.0, v))
                );
            }
        }
        ctx.count("contexts_compared", ex.all.len() as u64);
        ctx.count("answers_compared_in_full", 1);
        if ex.any_optional {
            ctx.count("answers_with_skippable_parts", 1);
        }
    } else if !ex.uncertain && ex.unsure.is_empty() {
        // each step keeps its best 40, and the answer the best 800 of those
        if !ex.any_optional {
            let mut want = Vec::new();
            let mut clear = true;
            for g in &ex.groups {
                let mut g = g.clone();
                clear &= keep_best(&mut g, 40);
                want.extend(g);
            }
            let total = want.len();
            clear &= keep_best(&mut want, 800);
            // where sums that are equal but for rounding straddle the cut, which of them have the
            // greater scoredist does not decide
            // nor does it when the answer is full: what can no more than tie with the last is not
            // looked at
            let last = if total > 800 { want.iter().map(|w| bucket(w.0)).min() } else { None };
            let sd = |relev: f64, sd: f64| if clear && Some(bucket(relev)) != last { sd } else { 0.0 };
            let mut want: Vec<(f64, f64)> = want.iter().map(|w| (w.0, sd(w.0, w.1))).collect();
            let mut list: Vec<(f64, f64)> = got.iter().map(|c| (c.relev, sd(c.relev, c.entries[0].scoredist))).collect();
            same_ranking(&mut list, &mut want).map_err(tell)?;
            if clear {
                ctx.count("rankings_compared_with_scoredist", 1);
            }
            ctx.count("rankings_compared", 1);
            ctx.count("ranks_compared", want.len() as u64);
        }
        ensure!(
            !got.is_empty() && same(got[0].relev, ex.best),
            "{}",
            tell(format!("the best context should have relevance {} but has {:?}", ex.best, got.get(0).map(|c| c.relev)))
        );
    }
    if ex.uncertain {
        ctx.count("answers_uncertain", 1);
    } else if !ex.unsure.is_empty() {
        ctx.count("answers_partly_uncertain", 1);
    }
    if w.opts.proximity.is_some() && !ex.uncertain && fits {
        ctx.count("answers_with_proximity_compared", 1);
    }
    if !got.is_empty() && !ex.uncertain && ex.unsure.is_empty() {
        ensure!(
            same(got[0].relev, ex.best),
            "{}",
            tell(format!("the best context should have relevance {} but has {}", ex.best, got[0].relev))
        );
    }
    let deep = got.iter().map(|c| c.entries.len()).max().unwrap_or(0);
    if deep > 1 {
        ctx.nontrivial = true;
        ctx.count("answers_with_stacks", 1);
    }
    ctx.max("deepest_stack", deep as u64);
    ctx.sample(|| format!("{} -> {} contexts", w.describe(), got.len()));
    Ok(())
}

fn pair_completeness(ctx: &mut Ctx) -> Res {
    let max_rows = ctx.rng.pick(&[2u64, 6, 20, 60]);
    let big = if ctx.rng.chance(1, 30) { big_size(&mut ctx.rng) } else { 0 };
    let sh = Shape { max_indexes: 4, max_phrases: if big > 0 { 2 } else { 3 }, max_rows: if big > 0 { 6 } else { max_rows }, max_subs: 2, plain: true, proximity: true, limit: 200_000, wide: false, slow: false, big, deep: false };
    let mut w = gen_world(ctx, sh)?;
    if w.subs.len() != 2 {
        return Ok(());
    }
    let got = run_coalesce(&w)?;
    w.subs.sort_by_key(|s| (s.store.zoom, s.idx));
    let rows: Vec<Vec<Seen>> =
        w.subs.iter().map(|s| ref_rows(w.ix(s.idx).unwrap(), &s.match_keys[0], &w.opts, false)).collect();
    if rows.iter().any(|r| r.iter().any(|r| r.edge)) {
        return Ok(());
    }
    let (a, b) = (&w.subs[0], &w.subs[1]);
    let dz = b.store.zoom - a.store.zoom;
    let mut by_tile: BTreeMap<(u16, u16), f64> = BTreeMap::new();
    let mut all: Vec<((u16, u32), f64, f64)> = Vec::new();
    let mut top = f64::MIN;
    for r in &rows[0] {
        let relev = r.relev * a.weight;
        let e = by_tile.entry((r.x, r.y)).or_insert(relev);
        if relev > *e {
            *e = relev;
        }
        top = top.max(relev);
        all.push(((a.idx, r.row.id), relev, r.sd));
    }
    let mut stacked = 0;
    for r in &rows[1] {
        let relev = r.relev * b.weight;
        let up = ((r.x as u32 >> dz) as u16, (r.y as u32 >> dz) as u16);
        let below = if a.mask & b.mask == 0 { by_tile.get(&up) } else { None };
        let (sum, out) = match below {
            Some(p) => {
                stacked += 1;
                let sum = relev + p;
                (sum, if b.mask > a.mask { sum - 0.01 } else { sum })
            }
            None => (relev, relev - 0.01),
        };
        top = top.max(sum);
        all.push(((b.idx, r.row.id), out, r.sd));
    }
    // where sums equal but for rounding occur, the greater scoredist does not decide between them
    let mut exact: BTreeMap<i64, u64> = BTreeMap::new();
    if all.iter().any(|(_, relev, _)| *exact.entry(bucket(*relev)).or_insert(relev.to_bits()) != relev.to_bits()) {
        for a in &mut all {
            a.2 = 0.0;
        }
        ctx.count("pairs_compared_without_scoredist", 1);
    }
    let by_sd = all.iter().any(|a| a.2 != 0.0);
    let mut features: BTreeMap<(u16, u32), (f64, f64)> = BTreeMap::new();
    for (f, relev, sd) in &all {
        let e = features.entry(*f).or_insert((*relev, *sd));
        if (bucket(*relev), *sd) > (bucket(e.0), e.1) {
            *e = (*relev, *sd);
        }
    }
    let best = features.values().map(|f| f.0).fold(f64::MIN, f64::max);
    // up to the penalty, whether something lies within 0.25 of the best depends on which best
    let clear_in = |r: f64| top - r < 0.25 - 1e-9 && best - r < 0.25 - 1e-9;
    let clear_out = |r: f64| best - r >= 0.25 + 1e-9;
    let tell = |m: String| format!("{} [{}]", m, w.describe());
    let mut want: Vec<(f64, f64)> = features.values().filter(|f| clear_in(f.0)).cloned().collect();
    let unclear = features.values().any(|f| !clear_in(f.0) && !clear_out(f.0));
    want.sort_by(|a, b| (bucket(b.0), b.1).partial_cmp(&(bucket(a.0), a.1)).unwrap());
    want.truncate(40);
    let found: BTreeMap<(u16, u32), (f64, f64)> = got
        .iter()
        .map(|c| ((c.entries[0].idx, c.entries[0].grid_entry.id), (c.relev, if by_sd { c.entries[0].scoredist } else { 0.0 })))
        .collect();
    for (f, v) in &found {
        match features.get(f) {
            Some(b) => ensure!(
                bucket(b.0) == bucket(v.0) && same(b.1, v.1),
                "{}",
                tell(format!("feature {:?} (index, id) leads at {:?} although its best is {:?}", f, v, b))
            ),
            None => fail!("{}", tell(format!("feature {:?} matches nothing", f))),
        }
    }
    let mut list: Vec<(f64, f64)> = found.values().filter(|f| clear_in(f.0)).cloned().collect();
    if unclear && list.len() < want.len() && got.len() == 40 {
        return Ok(());
    }
    same_ranking(&mut list, &mut want).map_err(tell)?;
    ctx.count("pair_rankings_compared", 1);
    ctx.count("pair_stacks_expected", stacked);
    ctx.nontrivial = stacked > 0;
    ctx.sample(|| format!("coalesce of two: {} -> {} of {} features", w.describe(), got.len(), features.len()));
    Ok(())
}

fn full_stack_found(ctx: &mut Ctx) -> Res {
    let max_rows = ctx.rng.pick(&[2u64, 6, 20]);
    let sh = Shape { max_indexes: 5, max_phrases: 2, max_rows, max_subs: 5, plain: true, proximity: false, limit: 60_000, wide: false, slow: false, big: 0, deep: false };
    let mut w = gen_world(ctx, sh)?;
    if w.subs.len() < 2 {
        return Ok(());
    }
    // every subquery covers its own part of the query
    let n = w.subs.len();
    let mut perm: Vec<usize> = (0..n).collect();
    ctx.rng.shuffle(&mut perm);
    for (i, s) in w.subs.iter_mut().enumerate() {
        s.mask = 1 << perm[i];
        s.weight = 1.0 / n as f64;
    }
    let got = run_coalesce(&w)?;
    w.subs.sort_by_key(|s| (s.store.zoom, s.idx));
    let rows: Vec<Vec<Seen>> =
        w.subs.iter().map(|s| ref_rows(w.ix(s.idx).unwrap(), &s.match_keys[0], &w.opts, false)).collect();
    let mut best = f64::MIN;
    for r in &rows[n - 1] {
        let z = w.subs[n - 1].store.zoom;
        let mut sum = r.relev * w.subs[n - 1].weight;
        let mut all = true;
        for i in 0..n - 1 {
            let dz = z - w.subs[i].store.zoom;
            let up = ((r.x as u32 >> dz) as u16, (r.y as u32 >> dz) as u16);
            let m = rows[i].iter().filter(|q| (q.x, q.y) == up).map(|q| q.relev).fold(f64::MIN, f64::max);
            if m == f64::MIN {
                all = false;
            }
            sum += m * w.subs[i].weight;
        }
        if all {
            best = best.max(sum);
        }
    }
    if best > 0.0 {
        let first = got.get(0).map_or(0.0, |c| c.relev);
        ensure!(
            first > best - 0.01 - 1e-9,
            "all {} subqueries match at one place with relevance {}, but the best context has {} [{}]",
            n, best, first, w.describe()
        );
        ctx.count("full_stacks_found", 1);
        if n > 2 {
            ctx.count("full_stacks_of_three_or_more_found", 1);
        }
        ctx.nontrivial = true;
    }
    ctx.sample(|| format!("{} -> {} contexts, full stack {}", w.describe(), got.len(), best));
    Ok(())
}

/// C16: nothing that stacks is missed.
pub fn c16_complete(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(10) {
        0..=5 => stacked_completeness(ctx),
        6..=8 => pair_completeness(ctx),
        _ => full_stack_found(ctx),
    }
}

fn exact(contexts: &[CoalesceContext]) -> String {
    serde_json::to_string(contexts).unwrap_or_default()
}

/// C19: the same question gives the same answer, however it is scheduled.
pub fn c19_deterministic(ctx: &mut Ctx) -> Res {
    let small = cfg!(miri);
    let max_rows = if small { 3 } else { ctx.rng.pick(&[4u64, 20, 60]) };
    let plain = ctx.rng.chance(1, 4);
    let sh = Shape {
        max_indexes: if small { 3 } else { 5 },
        max_phrases: if small { 2 } else { 4 },
        max_rows,
        max_subs: if small { 5 } else { 12 },
        plain,
        proximity: true,
        limit: if small { 200 } else { 4000 },
        wide: false,
        slow: false,
        big: 0,
        deep: false,
    };
    let mut sh = sh;
    if !plain && !small && ctx.rng.chance(1, 6) {
        sh = Shape { max_rows: 2, max_subs: 50, wide: true, ..sh };
    }
    let mut worlds = vec![gen_world(ctx, sh)?];
    if plain {
        worlds = worlds.into_iter().map(for_coalesce).collect();
    }
    // further questions to the same stores
    let w0 = worlds.remove(0);
    let mut questions: Vec<(Vec<Sub>, MatchOpts)> = vec![(w0.subs.clone(), w0.opts.clone())];
    if w0.subs.len() > 2 {
        let half = w0.subs[..w0.subs.len() / 2 + 1].to_vec();
        questions.push((half, MatchOpts { proximity: None, ..w0.opts.clone() }));
    }
    if plain {
        questions.truncate(1);
    }
    // and questions that differ from the first in little, to the same stores or to copies of them
    for _ in 0..if small { 1 } else { 3 } {
        let (mut subs, mut opts) = (w0.subs.clone(), w0.opts.clone());
        match ctx.rng.below(6) {
            0..=2 => {
                let by = ctx.rng.pick(&[0.25, 0.6, -0.25, 3.0]);
                let score = ctx.rng.chance(1, 4);
                for s in subs.iter_mut() {
                    let st = &s.store;
                    let o = Opts {
                        zoom: st.zoom,
                        type_id: st.type_id,
                        radius: (st.coalesce_radius + by).max(0.0),
                        bboxes: st.bboxes.clone(),
                        max_score: if score { st.max_score + 0.5 } else { st.max_score },
                    };
                    s.store = Arc::new(open_with(&st.path, &o)?);
                }
            }
            3 => {
                if let Some(p) = opts.proximity.as_mut() {
                    p[0] ^= 1;
                }
            }
            4 => {
                if let Some(b) = opts.bbox.as_mut() {
                    b[0] = b[0].saturating_add(1).min(b[2]);
                } else {
                    opts.proximity = None;
                }
            }
            _ => {
                for s in subs.iter_mut() {
                    for k in s.match_keys.iter_mut() {
                        k.key.lang_set ^= 1;
                    }
                }
            }
        }
        questions.push((subs, opts));
        ctx.count("questions_that_differ_in_little", 1);
    }
    let ask = |q: &(Vec<Sub>, MatchOpts)| -> Result<String, String> {
        let r = if plain { coalesce(q.0.clone(), &q.1) } else { stack_and_coalesce(&q.0, &q.1) };
        r.map(|c| exact(&c)).map_err(|e| e.to_string())
    };
    let mut first: Vec<String> = Vec::new();
    for q in &questions {
        // by threads that have done nothing before
        let fresh = rayon::ThreadPoolBuilder::new().num_threads(1).build().map_err(|e| format!("inconclusive: {}", e))?;
        first.push(fresh.install(|| ask(q)).map_err(|e| format!("{} [{}]", e, w0.describe()))?);
    }
    let delay_seed = ctx.rng.next() | 1;
    let check = |what: &str, i: usize, got: Result<String, String>| -> Res {
        ensure!(
            got.as_ref() == Ok(&first[i]),
            "{}: another answer to the same question: {:?} instead of {} [{}]",
            what, got, first[i], w0.describe()
        );
        Ok(())
    };
    let pools: &[usize] = if small { &[3] } else { &[1, 3, 8] };
    for threads in pools {
        let pool = rayon::ThreadPoolBuilder::new()
            .num_threads(*threads)
            .build()
            .map_err(|e| format!("inconclusive: {}", e))?;
        if *threads != 1 {
            rocksdb::verif::set_delays(delay_seed.wrapping_add(*threads as u64));
        }
        for round in 0..if small { 1 } else { 2 } {
            let mut order: Vec<(usize, &(Vec<Sub>, MatchOpts))> = questions.iter().enumerate().collect();
            ctx.rng.shuffle(&mut order);
            for (i, q) in order {
                let got = pool.install(|| ask(q));
                check(&format!("{} threads, round {}", threads, round), i, got)?;
                ctx.count("answers_compared", 1);
            }
        }
        rocksdb::verif::set_delays(0);
    }
    // everything at once, on shared stores
    rocksdb::verif::set_delays(delay_seed);
    let results: Vec<(usize, Result<String, String>)> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..if small { 2 } else { 6 })
            .map(|t| {
                let i = t % questions.len();
                let q = &questions[i];
                let ask = &ask;
                s.spawn(move || (i, ask(q)))
            })
            .collect();
        handles
            .into_iter()
            .map(|h| match h.join() {
                Ok(r) => r,
                Err(_) => (0, Err("a thread panicked".to_string())),
            })
            .collect()
    });
    rocksdb::verif::set_delays(0);
    for (i, r) in results {
        check("six threads at once", i, r)?;
        ctx.count("concurrent_answers_compared", 1);
    }
    // one read takes long
    if !small && ctx.rng.chance(1, 20) {
        let ms = ctx.rng.pick(&[20u64, 120, 600, 1100, 2700]);
        let i = ctx.rng.idx(questions.len());
        rocksdb::verif::stall_after(Some(ctx.rng.below(6)), ms);
        let got = ask(&questions[i]);
        rocksdb::verif::stall_after(None, 0);
        check(&format!("a read takes {} ms", ms), i, got)?;
        ctx.count("answers_with_a_slow_read_compared", 1);
    }
    ctx.nontrivial = first.iter().any(|f| f.len() > 2);
    ctx.max("bytes_in_one_answer", first.iter().map(|f| f.len() as u64).max().unwrap_or(0));
    ctx.sample(|| format!("{} -> {} bytes", w0.describe(), first[0].len()));
    Ok(())
}

/// C25: however many low-information lookups a question contains, few are carried out.
pub fn c25_quotas(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng;
    let high = rng.chance(1, 2);
    let mixed = rng.chance(1, 3);
    let nstores = rng.range(1, 4) as usize;
    let mut stores: Vec<(Arc<GridStore>, bool)> = Vec::new();
    for t in 0..nstores {
        let is_high = if mixed { t * 2 >= nstores } else { high };
        let zoom = if is_high { ctx.rng.pick(&[14u16, 16]) } else { ctx.rng.pick(&[6u16, 12, 13]) };
        let mut ops = Vec::new();
        // distinct starting phrases, so that each lookup can be told from its start
        for p in 0..1500u32 {
            if ctx.rng.chance(1, 8) {
                ops.push(Op::Insert(
                    (p * 4 + ctx.rng.below(4) as u32, u128::MAX),
                    vec![GridEntry { relev: 1.0, score: 1, x: 1, y: 1, id: p, source_phrase_hash: 0 }],
                ));
            }
        }
        let path = ctx.fresh_path();
        build(&path, &ops, &[])?;
        let o = Opts { zoom, type_id: t as u16, radius: 200.0, bboxes: global_bbox_for_zoom(zoom), max_score: 1.0 };
        stores.push((Arc::new(open_with(&path, &o)?), is_high));
    }
    stores.sort_by_key(|s| s.0.zoom);
    // reopen so that types ascend with zoom
    let mut sorted = Vec::new();
    for (t, (s, is_high)) in stores.iter().enumerate() {
        let o = Opts { zoom: s.zoom, type_id: t as u16, radius: 200.0, bboxes: global_bbox_for_zoom(s.zoom), max_score: 1.0 };
        sorted.push((Arc::new(open_with(&s.path, &o)?), *is_high));
    }
    let stores = sorted;
    let rng = &mut ctx.rng;
    let nsubs = rng.pick(&[6u64, 30, 60, 100]);
    let keys_per = rng.pick(&[1u64, 2, 10]);
    let one_letter = rng.below(5);
    let range_share = rng.range(1, 10);
    let one_word = rng.range(3, 10);
    let mut subs: Vec<Sub> = Vec::new();
    let mut next = vec![0u32; nstores];
    let mut id = 0;
    struct About {
        word: bool,
        letter: bool,
        range: bool,
        high: bool,
        nearby: bool,
    }
    let mut about: BTreeMap<(usize, u32), About> = BTreeMap::new();
    for _ in 0..nsubs {
        let s = rng.idx(nstores);
        let mask = if rng.chance(one_word, 10) { 1u32 << rng.below(2) } else { 3 << rng.below(2) };
        let mut match_keys = Vec::new();
        for _ in 0..keys_per {
            if next[s] >= 1490 {
                break;
            }
            let start = next[s] * 4;
            next[s] += 1;
            let range = rng.chance(range_share, 10);
            let match_phrase = if range {
                MatchPhrase::Range { start, end: start + rng.range(2, 4) as u32 }
            } else {
                MatchPhrase::Exact(start)
            };
            let phrase_length = if rng.chance(one_letter, 4) { 1 } else { rng.range(2, 9) as usize };
            let nearby_only = rng.chance(1, 8);
            about.insert(
                (s, start),
                About {
                    word: mask.count_ones() == 1,
                    letter: phrase_length == 1,
                    range,
                    high: stores[s].1,
                    nearby: nearby_only,
                },
            );
            match_keys.push(MatchKeyWithId {
                id,
                nearby_only,
                phrase_length,
                key: MatchKey { match_phrase, lang_set: 1 },
            });
            id += 1;
        }
        if match_keys.is_empty() {
            continue;
        }
        subs.push(PhrasematchSubquery {
            store: stores[s].0.clone(),
            idx: s as u16,
            non_overlapping_indexes: bits(&BTreeSet::new()),
            // distinct, so that nothing is merged
            weight: 0.25 + id as f64 * 1e-4,
            mask,
            match_keys,
        });
    }
    for s in &subs {
        ctx.sign(&(s.idx, s.mask));
        ctx.sign(&format!("{:?}", s.match_keys));
    }
    let opts = MatchOpts {
        zoom: stores[0].0.zoom,
        proximity: if ctx.rng.chance(1, 2) { Some([1, 1]) } else { None },
        bbox: None,
    };
    rocksdb::verif::start_log();
    let r = stack_and_coalesce(&subs, &opts);
    let log = rocksdb::verif::take_log();
    let got = r.map_err(|e| format!("stack_and_coalesce failed: {}", e))?;
    let mut letters = 0;
    let mut words = 0;
    let mut high_words = 0;
    let mut high_ranges = 0;
    let mut high_all = 0;
    let mut times: BTreeMap<(usize, u32), u32> = BTreeMap::new();
    for ev in &log {
        let s = match stores.iter().position(|s| s.0.path == ev.path) {
            Some(s) => s,
            None => continue,
        };
        let from = match &ev.from {
            Some(f) if f.len() >= 5 => f,
            other => fail!("a lookup starts at the odd key {:?}", other),
        };
        let start = u32::from_be_bytes([from[1], from[2], from[3], from[4]]);
        let a = match about.get(&(s, start)) {
            Some(a) => a,
            None => fail!("phrase {} of store {} is looked up although nothing asks for it", start, s),
        };
        *times.entry((s, start)).or_insert(0) += 1;
        if a.range && a.word {
            words += 1;
            letters += a.letter as u32;
            high_words += (a.high && !a.nearby) as u32;
        }
        if a.high && !a.nearby {
            high_all += 1;
            high_ranges += a.range as u32;
        }
    }
    for (what, n, limit) in &[
        ("one-letter prefix", letters, 8),
        ("single-word prefix", words, 40),
        ("single-word prefix in high-zoom indexes", high_words, 8),
        ("prefix in high-zoom indexes", high_ranges, 40),
        ("any kind in high-zoom indexes", high_all, 600),
    ] {
        ensure!(
            *n <= *limit,
            "{} lookups of the kind '{}' are carried out, more than {} ({} subqueries with {} keys)",
            n, what, limit, subs.len(), about.len()
        );
    }
    // a key is fetched at most once as part of stacks and once on its own
    if let Some((k, n)) = times.iter().find(|(_, n)| **n > 2) {
        fail!("phrase {} of store {} is looked up {} times in one question", k.1, k.0, n);
    }
    ctx.count("lookups_observed", log.len() as u64);
    ctx.count("keys_asked_for", about.len() as u64);
    ctx.count("contexts_returned", got.len() as u64);
    ctx.max("one_letter_lookups", letters as u64);
    ctx.max("single_word_lookups", words as u64);
    ctx.max("single_word_high_zoom_lookups", high_words as u64);
    ctx.max("high_zoom_prefix_lookups", high_ranges as u64);
    ctx.max("high_zoom_lookups", high_all as u64);
    if log.len() < about.len() {
        ctx.count("questions_cut_short", 1);
    }
    ctx.nontrivial = log.len() < about.len() && !log.is_empty();
    ctx.sample(|| format!("{} subqueries, {} keys, {} lookups", subs.len(), about.len(), log.len()));
    Ok(())
}

fn is_asked(k: &Key, subs: &[&Sub]) -> bool {
    subs.iter().flat_map(|s| &s.match_keys).any(|m| match m.key.match_phrase {
        MatchPhrase::Exact(p) => p == k.0,
        MatchPhrase::Range { start, end } => start <= k.0 && k.0 < end,
    })
}

/// C28: an answer depends on nothing but what is asked for.
pub fn c28_only_what_is_asked(ctx: &mut Ctx) -> Res {
    let (w, tree, got) = any_world(ctx)?;
    if w.subs.is_empty() {
        return Ok(());
    }
    let ask = |subs: Vec<Sub>| -> Result<Vec<CoalesceContext>, String> {
        let r = if tree { stack_and_coalesce(&subs, &w.opts) } else { coalesce(subs, &w.opts) };
        r.map_err(|e| format!("{} [{}]", e, w.describe()))
    };
    let changed = if ctx.rng.chance(2, 3) { other_rows(ctx, &w, &got, &ask)? } else { other_subqueries(ctx, &w, tree, &got, &ask)? };
    ctx.count("contexts_compared", got.len() as u64);
    ctx.nontrivial = changed && !got.is_empty();
    ctx.sample(|| format!("{} -> {} contexts", w.describe(), got.len()));
    Ok(())
}

type Ask<'a> = dyn Fn(Vec<Sub>) -> Result<Vec<CoalesceContext>, String> + 'a;

/// Rows that aren't asked for come and go.
fn other_rows(ctx: &mut Ctx, w: &World, got: &[CoalesceContext], ask: &Ask) -> Result<bool, String> {
    let mut stores: BTreeMap<u16, Arc<GridStore>> = BTreeMap::new();
    let (mut more, mut fewer, mut hundreds) = (0u64, 0u64, 0u64);
    let thorough = ctx.rng.chance(1, 2);
    let aliens: Vec<(u16, u16)> = w.indexes.iter().flat_map(|i| i.model.data.values().flatten().map(|r| r.xy())).take(50).collect();
    for ix in &w.indexes {
        let path = ctx.fresh_path();
        let rng = &mut ctx.rng;
        let subs: Vec<&Sub> = w.subs.iter().filter(|s| s.idx == ix.idx).collect();
        let bbox = ref_adjust(&w.opts, ix.zoom).bbox;
        let wanted = |k: &Key, r: &Row| {
            let (x, y) = r.xy();
            is_asked(k, &subs) && bbox.map_or(true, |b| in_bbox(x, y, &b))
        };
        let max = 1u64 << ix.zoom;
        let covered = |x: u16, y: u16| (x as u64) < max && (y as u64) < max && ix.store.bboxes.iter().any(|b| in_bbox(x, y, b));
        let mut data: BTreeMap<Key, Rows> = BTreeMap::new();
        let mut tiles: Vec<(u16, u16)> = Vec::new();
        for (k, rows) in &ix.model.data {
            for r in rows {
                tiles.push(r.xy());
                if wanted(k, r) || !(thorough || rng.chance(1, 3)) {
                    data.entry(*k).or_default().insert(*r);
                } else {
                    fewer += 1;
                }
            }
        }
        // tiles around, and those of other indexes
        for _ in 0..6 {
            let (x, y) = rng.pick(&tiles);
            tiles.push((x ^ (1 << rng.below(ix.zoom.max(1) as u64)), y));
            tiles.push((x, y ^ (1 << rng.below(ix.zoom.max(1) as u64))));
            tiles.push(rng.pick(&aliens));
            tiles.push((rng.below(max) as u16, rng.below(max) as u16));
        }
        tiles.retain(|t| covered(t.0, t.1));
        if rng.chance(3, 4) && !tiles.is_empty() {
            let mut ids: Vec<u32> = ix.phrases.clone();
            let (first, last) = (ix.phrases[0], ix.phrases[ix.phrases.len() - 1]);
            ids.extend([first.wrapping_sub(1), last.wrapping_add(1), first ^ 0x100, last.wrapping_add(0x1_0000), last ^ 1 << 31, 0, u32::MAX, last.wrapping_add(2)]);
            let feature = ix.model.data.values().flatten().map(|r| r.id).max().unwrap_or(0);
            for _ in 0..rng.pick(&[3u64, 20, 200]) {
                let k = (rng.pick(&ids), rng.pick(&[u128::MAX, 0, 1, 2, 3, 6, 1 << 127]));
                let (x, y) = rng.pick(&tiles);
                let r = Row { relev: 3 - rng.below(2) as u8, score: 15 - rng.below(3) as u8, z: zcode(x, y), id: (feature + 2).saturating_sub(rng.below(5) as u32).min((1 << 24) - 1), hash: rng.below(3) as u8 };
                if !wanted(&k, &r) {
                    data.entry(k).or_default().insert(r);
                    more += 1;
                }
            }
        }
        // hundreds of phrases that are asked for, but only elsewhere
        let ranges: Vec<(u32, u32)> = subs
            .iter()
            .flat_map(|s| &s.match_keys)
            .filter_map(|k| match k.key.match_phrase {
                MatchPhrase::Range { start, end } if start < end => Some((start, end)),
                _ => None,
            })
            .collect();
        if bbox.is_some() && !ranges.is_empty() && rng.chance(1, 12) {
            let (start, end) = rng.pick(&ranges);
            let elsewhere: Vec<(u16, u16)> = tiles.iter().cloned().filter(|t| !in_bbox(t.0, t.1, &bbox.unwrap())).collect();
            if !elsewhere.is_empty() {
                let n = rng.range(90, 700);
                for i in 0..n {
                    let lang = if rng.chance(1, 2) { rng.u128() } else { 1 << rng.below(128) };
                    let (x, y) = rng.pick(&elsewhere);
                    let r = Row { relev: rng.below(4) as u8, score: rng.below(16) as u8, z: zcode(x, y), id: 1 + i as u32, hash: 0 };
                    data.entry((start + rng.below((end - start) as u64) as u32, lang)).or_default().insert(r);
                    more += 1;
                }
                hundreds += 1;
            }
        }
        let ops: Vec<Op> = data
            .iter()
            .map(|(k, rows)| {
                Op::Append(
                    *k,
                    rows.iter()
                        .map(|r| {
                            let (x, y) = r.xy();
                            GridEntry { relev: r.relev_f(), score: r.score, x, y, id: r.id, source_phrase_hash: r.hash }
                        })
                        .collect(),
                )
            })
            .collect();
        build(&path, &ops, &ix.model.bounds)?;
        let st = &ix.store;
        let o = Opts { zoom: st.zoom, type_id: st.type_id, radius: st.coalesce_radius, bboxes: st.bboxes.clone(), max_score: st.max_score };
        stores.insert(ix.idx, Arc::new(open_with(&path, &o)?));
    }
    let mut subs = w.subs.clone();
    for s in subs.iter_mut() {
        s.store = stores[&s.idx].clone();
    }
    let again = ask(subs)?;
    ensure!(
        exact(&again) == exact(got),
        "{} rows that aren't asked for more, {} fewer, and the answer is another: {} instead of {} [{}]",
        more, fewer, exact(&again), exact(got), w.describe()
    );
    ctx.count("rows_not_asked_for_added", more);
    ctx.count("rows_not_asked_for_removed", fewer);
    ctx.count("with_hundreds_of_phrases_elsewhere", hundreds);
    Ok(more + fewer > 0)
}

/// The same question put in other words.
fn other_subqueries(ctx: &mut Ctx, w: &World, tree: bool, got: &[CoalesceContext], ask: &Ask) -> Result<bool, String> {
    // with more than are kept it may be others of those that rank alike, and with more lookups
    // than are allowed others may be left out
    let ranges: u64 = w.subs.iter().flat_map(|s| &s.match_keys).filter(|k| matches!(k.key.match_phrase, MatchPhrase::Range { .. })).count() as u64;
    if got.len() >= 40 || w.subs.len() > 12 || ranges > 4 {
        ctx.count("questions_too_large_to_be_put_otherwise", 1);
        return Ok(false);
    }
    let mut subs = w.subs.clone();
    let mut what = Vec::new();
    let rng = &mut ctx.rng;
    if tree && rng.chance(1, 2) {
        // each key in a subquery of its own
        subs = subs
            .into_iter()
            .flat_map(|s| s.match_keys.clone().into_iter().map(move |k| PhrasematchSubquery { match_keys: vec![k], ..s.clone() }))
            .collect();
        if subs.len() > w.subs.len() {
            what.push("keys_in_subqueries_of_their_own");
        }
    }
    if rng.chance(2, 3) && subs.len() > 1 {
        rng.shuffle(&mut subs);
        what.push("subqueries_in_another_order");
    }
    if what.is_empty() {
        return Ok(false);
    }
    let again = ask(subs)?;
    let listed = |c: &[CoalesceContext]| {
        let mut v: Vec<String> = c
            .iter()
            .map(|c| {
                let es: Vec<String> = c
                    .entries
                    .iter()
                    .map(|e| format!("{} {} {:?} {} {} {} {} {}", e.idx, e.mask, e.grid_entry, e.matches_language, e.tmp_id, e.phrasematch_id, e.distance, e.scoredist))
                    .collect();
                format!("{:.6} {} {}", c.relev, c.mask, es.join(", "))
            })
            .collect();
        v.sort();
        v
    };
    ensure!(
        listed(&again) == listed(got),
        "{}: another answer: {:?} instead of {:?} [{}]",
        what.join(", "), listed(&again), listed(got), w.describe()
    );
    for x in what {
        ctx.count(x, 1);
    }
    Ok(true)
}
