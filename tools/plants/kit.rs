//! Short hands for the demonstrations.
#![allow(dead_code, unused_imports)]
pub use carmen_core::gridstore::*;
pub use std::collections::BTreeSet;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};

pub const ALL: u128 = std::u128::MAX;

/// A new directory for a store, inside the directory demo.sh made.
pub fn dir() -> PathBuf {
    static N: AtomicUsize = AtomicUsize::new(0);
    let base = std::env::var("DEMO_DIR").expect("DEMO_DIR");
    let p = PathBuf::from(base).join(format!("store{}", N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).expect("scratch directory");
    p
}

pub fn row(id: u32, x: u16, y: u16, relev: f64, score: u8, hash: u8) -> GridEntry {
    GridEntry { id, x, y, relev, score, source_phrase_hash: hash }
}

pub fn built(content: &[(u32, u128, Vec<GridEntry>)], bounds: &[u32]) -> PathBuf {
    let p = dir();
    let mut b = GridStoreBuilder::new(&p).unwrap();
    for (phrase_id, lang_set, rows) in content {
        b.append(&GridKey { phrase_id: *phrase_id, lang_set: *lang_set }, rows.clone()).unwrap();
    }
    if !bounds.is_empty() {
        b.load_bin_boundaries(bounds.to_vec()).unwrap();
    }
    b.finish().unwrap();
    p
}

pub fn store(content: &[(u32, u128, Vec<GridEntry>)], bounds: &[u32]) -> GridStore {
    GridStore::new(built(content, bounds)).unwrap()
}

pub fn store_at(zoom: u16, type_id: u16, radius: f64, content: &[(u32, u128, Vec<GridEntry>)]) -> GridStore {
    GridStore::new_with_options(built(content, &[]), zoom, type_id, radius, global_bbox_for_zoom(zoom), 7.0).unwrap()
}

pub fn exact(p: u32) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Exact(p), lang_set: ALL }
}
pub fn range(start: u32, end: u32) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Range { start, end }, lang_set: ALL }
}

pub fn matching(s: &GridStore, k: &MatchKey, o: &MatchOpts) -> Vec<MatchEntry> {
    s.streaming_get_matching(k, o, 100_000).unwrap().collect()
}

/// The rows under a key as (id, x, y, relevance in tenths, score, hash).
pub fn rows(s: &GridStore, phrase_id: u32, lang_set: u128) -> Vec<(u32, u16, u16, u32, u8, u8)> {
    match s.get(&GridKey { phrase_id, lang_set }).unwrap() {
        Some(it) => it.map(|e| plain(&e)).collect(),
        None => vec![],
    }
}
pub fn plain(e: &GridEntry) -> (u32, u16, u16, u32, u8, u8) {
    (e.id, e.x, e.y, (e.relev * 1000.0).round() as u32, e.score, e.source_phrase_hash)
}

pub fn bits(v: &[usize]) -> fixedbitset::FixedBitSet {
    let mut b = fixedbitset::FixedBitSet::with_capacity(128);
    for i in v {
        b.insert(*i);
    }
    b
}

pub fn sub<'a>(store: &'a GridStore, idx: u16, mask: u32, weight: f64, key: MatchKey, id: u32) -> PhrasematchSubquery<&'a GridStore> {
    PhrasematchSubquery {
        store,
        idx,
        non_overlapping_indexes: bits(&[]),
        weight,
        mask,
        match_keys: vec![MatchKeyWithId { key, id, ..MatchKeyWithId::default() }],
    }
}

pub fn opts(zoom: u16) -> MatchOpts {
    MatchOpts { bbox: None, proximity: None, zoom }
}

/// Contexts as (relevance in thousandths, ids of the entries).
pub fn shape(c: &[CoalesceContext]) -> Vec<(i64, Vec<u32>)> {
    c.iter()
        .map(|c| ((c.relev * 1000.0).round() as i64, c.entries.iter().map(|e| e.grid_entry.id).collect()))
        .collect()
}
