//! A plain reference model of a store, the operations that build one, and workload generators.

use crate::util::{hash_of, Ctx, Rng};
use carmen_core::gridstore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// One stored row. Derived ordering is ascending; stores hand rows out in descending order.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Row {
    pub relev: u8,
    pub score: u8,
    pub z: u32,
    pub id: u32,
    pub hash: u8,
}

pub fn zcode(x: u16, y: u16) -> u32 {
    let mut z = 0u32;
    for b in 0..16 {
        z |= (((x >> b) & 1) as u32) << (2 * b);
        z |= (((y >> b) & 1) as u32) << (2 * b + 1);
    }
    z
}

pub fn zdecode(z: u32) -> (u16, u16) {
    let (mut x, mut y) = (0u16, 0u16);
    for b in 0..16 {
        x |= (((z >> (2 * b)) & 1) as u16) << b;
        y |= (((z >> (2 * b + 1)) & 1) as u16) << b;
    }
    (x, y)
}

pub fn quantise(relev: f64) -> u8 {
    if relev == 0.4 {
        0
    } else if relev == 0.6 {
        1
    } else if relev == 0.8 {
        2
    } else {
        3
    }
}

pub const RELEV: [f64; 4] = [0.4, 0.6, 0.8, 1.0];

impl Row {
    /// The row that storing `e` must produce.
    pub fn stored(e: &GridEntry) -> Row {
        Row {
            relev: quantise(e.relev),
            score: e.score % 16,
            z: zcode(e.x, e.y),
            id: e.id % (1 << 24),
            hash: e.source_phrase_hash,
        }
    }
    /// The row that a returned entry denotes; an error if it is not a possible stored value.
    pub fn returned(e: &GridEntry) -> Result<Row, String> {
        if RELEV.iter().all(|r| *r != e.relev) {
            return Err(format!("relevance {} is not one of the four stored levels: {:?}", e.relev, e));
        }
        Ok(Row {
            relev: quantise(e.relev),
            score: e.score,
            z: zcode(e.x, e.y),
            id: e.id,
            hash: e.source_phrase_hash,
        })
    }
    pub fn xy(&self) -> (u16, u16) {
        zdecode(self.z)
    }
    pub fn relev_f(&self) -> f64 {
        RELEV[self.relev as usize]
    }
}

pub type Rows = BTreeSet<Row>;
pub type Key = (u32, u128);

#[derive(Clone, Debug)]
pub enum Op {
    Insert(Key, Vec<GridEntry>),
    Append(Key, Vec<GridEntry>),
    Compact { key: Key, relev: f64, score: u8, id: u32, hash: u8, coords: Vec<(u16, u16)> },
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub data: BTreeMap<Key, Rows>,
    pub bounds: Vec<u32>,
}

impl Model {
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Insert(k, es) => {
                self.data.insert(*k, es.iter().map(Row::stored).collect());
            }
            Op::Append(k, es) => {
                self.data.entry(*k).or_default().extend(es.iter().map(Row::stored));
            }
            Op::Compact { key, relev, score, id, hash, coords } => {
                let rows = self.data.entry(*key).or_default();
                for (x, y) in coords {
                    rows.insert(Row {
                        relev: quantise(*relev),
                        score: *score % 16,
                        z: zcode(*x, *y),
                        id: *id % (1 << 24),
                        hash: *hash,
                    });
                }
            }
        }
    }
    pub fn of(ops: &[Op]) -> Model {
        let mut m = Model::default();
        for op in ops {
            m.apply(op);
        }
        m
    }
    pub fn row_count(&self) -> usize {
        self.data.values().map(|r| r.len()).sum()
    }
    pub fn in_range(&self, phrase: &MatchPhrase) -> Vec<(Key, &Rows)> {
        self.data
            .iter()
            .filter(|((p, _), _)| match phrase {
                MatchPhrase::Exact(id) => p == id,
                MatchPhrase::Range { start, end } => start <= p && p < end,
            })
            .map(|(k, r)| (*k, r))
            .collect()
    }
    /// Are both ends of the range among the prefix boundaries the store was built with?
    pub fn aligned(&self, phrase: &MatchPhrase) -> bool {
        match phrase {
            MatchPhrase::Exact(_) => false,
            MatchPhrase::Range { start, end } => {
                self.bounds.contains(start) && self.bounds.contains(end)
            }
        }
    }
}

pub fn gk(k: &Key) -> GridKey {
    GridKey { phrase_id: k.0, lang_set: k.1 }
}

pub fn apply(builder: &mut GridStoreBuilder, op: &Op) -> Result<(), String> {
    match op {
        Op::Insert(k, es) => builder.insert(&gk(k), es.clone()).map_err(|e| format!("insert: {}", e)),
        Op::Append(k, es) => builder.append(&gk(k), es.clone()).map_err(|e| format!("append: {}", e)),
        Op::Compact { key, relev, score, id, hash, coords } => {
            builder.compact_append(&gk(key), *relev, *score, *id, *hash, coords);
            Ok(())
        }
    }
}

pub fn start_build(path: &Path, ops: &[Op]) -> Result<GridStoreBuilder, String> {
    let mut b = GridStoreBuilder::new(path).map_err(|e| format!("builder: {}", e))?;
    for op in ops {
        apply(&mut b, op)?;
    }
    Ok(b)
}

/// The boundaries may be given at any time before the end.
pub fn build(path: &Path, ops: &[Op], bounds: &[u32]) -> Result<(), String> {
    let at = match hash_of(&bounds) % 3 {
        0 => 0,
        1 => ops.len() / 2,
        _ => ops.len(),
    };
    let mut b = start_build(path, &ops[..at])?;
    if !bounds.is_empty() {
        b.load_bin_boundaries(bounds.to_vec()).map_err(|e| format!("load_bin_boundaries: {}", e))?;
    }
    for op in &ops[at..] {
        apply(&mut b, op)?;
    }
    b.finish().map_err(|e| format!("finish: {}", e))
}

pub fn open(path: &Path) -> Result<GridStore, String> {
    GridStore::new(path).map_err(|e| format!("open: {}", e))
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub zoom: u16,
    pub type_id: u16,
    pub radius: f64,
    pub bboxes: Vec<[u16; 4]>,
    pub max_score: f64,
}

pub fn open_with(path: &Path, o: &Opts) -> Result<GridStore, String> {
    GridStore::new_with_options(path, o.zoom, o.type_id, o.radius, o.bboxes.clone(), o.max_score)
        .map_err(|e| format!("open: {}", e))
}

pub fn build_open(ctx: &mut Ctx, ops: &[Op], bounds: &[u32]) -> Result<(GridStore, PathBuf), String> {
    let p = ctx.fresh_path();
    build(&p, ops, bounds)?;
    Ok((open(&p)?, p))
}

/// Build a small store, read it in every way, and remove it, so that whatever of it is remembered by
/// its path or place in memory is about to be wrong.
pub fn predecessor(path: &Path, rng: &mut Rng) {
    let ids: Vec<u32> = (0..rng.range(1, 5)).map(|_| rng.pick(&[0u32, 1, 2, 3, 5, 255, 256, 65536, u32::MAX])).collect();
    let ops: Vec<Op> = ids
        .iter()
        .map(|p| {
            let n = rng.range(1, 3);
            let rows = (0..n)
                .map(|_| GridEntry {
                    relev: rng.pick(&RELEV),
                    score: rng.below(16) as u8,
                    x: rng.below(4) as u16,
                    y: rng.below(4) as u16,
                    id: rng.below(50) as u32,
                    source_phrase_hash: 0,
                })
                .collect();
            Op::Append((*p, rng.pick(&[u128::MAX, 1, 2])), rows)
        })
        .collect();
    let bounds = if rng.chance(1, 2) { rng.pick(&[vec![0, 1], vec![0, 2, 256], vec![1]]) } else { vec![] };
    build(path, &ops, &bounds).expect("building the predecessor of a store");
    let zoom = rng.pick(&[2u16, 6, 14]);
    let o = Opts { zoom, type_id: 1, radius: 25.0, bboxes: vec![[0, 0, 3, 3]], max_score: 1.0 };
    let store = Arc::new(open_with(path, &o).expect("opening the predecessor of a store"));
    let mut rows = store.keys().count() + store.iter().count();
    for (k, _) in store.iter().filter_map(|r| r.ok()) {
        rows += store.get(&k).unwrap().map_or(0, |rows| rows.count());
    }
    let opts = MatchOpts { bbox: None, proximity: if rng.chance(1, 2) { Some([1, 1]) } else { None }, zoom };
    for match_phrase in ids.iter().map(|p| MatchPhrase::Exact(*p)).chain(vec![MatchPhrase::Range { start: 0, end: 2 }]) {
        let key = MatchKey { match_phrase, lang_set: 1 };
        rows += store.streaming_get_matching(&key, &opts, 100).unwrap().count();
        let sub = PhrasematchSubquery {
            store: store.clone(),
            idx: 1,
            non_overlapping_indexes: Default::default(),
            weight: 1.0,
            match_keys: vec![MatchKeyWithId { key, nearby_only: false, id: 1, phrase_length: 2 }],
            mask: 1,
        };
        rows += stack_and_coalesce(&vec![sub.clone()], &opts).unwrap().len();
        rows += coalesce(vec![sub], &opts).unwrap().len();
    }
    std::hint::black_box(rows);
    drop(store);
    let _ = std::fs::remove_dir_all(path);
}

// ---------------------------------------------------------------------------------------------
// generators

pub const WORLD: u64 = 1 << 16;

/// How a case draws its values: small pools give collisions, extreme values give edges.
#[derive(Clone, Debug)]
pub struct Pools {
    pub phrases: Vec<u32>,
    pub langs: Vec<u128>,
    pub ids: Vec<u32>,
    pub tiles: TileStyle,
    pub scores: Vec<u8>,
    pub odd_relevs: bool,
    pub hashes: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum TileStyle {
    /// anywhere in a square block of tiles
    Block { x: u64, y: u64, size: u64 },
    /// around the corners of power-of-two blocks, where z-order jumps
    Seams { max: u64 },
    /// anywhere in 0..max
    World { max: u64 },
    /// a mixture with repeated hot tiles
    Hot { tiles: Vec<(u16, u16)>, max: u64 },
}

impl TileStyle {
    pub fn gen(rng: &mut Rng, max: u64) -> TileStyle {
        match rng.below(6) {
            0 | 1 => {
                let size = rng.pick(&[1u64, 2, 3, 4, 8, 16, 33]).min(max);
                let x = match rng.below(3) {
                    0 => 0,
                    1 => max - size,
                    _ => rng.below(max - size + 1),
                };
                let y = match rng.below(3) {
                    0 => 0,
                    1 => max - size,
                    _ => rng.below(max - size + 1),
                };
                TileStyle::Block { x, y, size }
            }
            2 | 3 => TileStyle::Seams { max },
            4 => TileStyle::World { max },
            _ => {
                if max > 1 && rng.chance(1, 2) {
                    let bits = 63 - max.leading_zeros() as u64;
                    let (xs, ys) = (lookalikes(rng, bits), lookalikes(rng, bits));
                    let tiles = xs.iter().flat_map(|x| ys.iter().map(move |y| (*x as u16, *y as u16)));
                    return TileStyle::Hot { tiles: tiles.collect(), max };
                }
                let n = rng.range(1, 6);
                let inner = TileStyle::Seams { max };
                TileStyle::Hot { tiles: (0..n).map(|_| inner.draw(rng)).collect(), max }
            }
        }
    }
    pub fn draw(&self, rng: &mut Rng) -> (u16, u16) {
        match self {
            TileStyle::Block { x, y, size } => {
                ((x + rng.below(*size)) as u16, (y + rng.below(*size)) as u16)
            }
            TileStyle::Seams { max } => {
                let seam = |rng: &mut Rng| -> u16 {
                    let p = 1u64 << rng.below(17);
                    let mult = rng.range(0, 3);
                    let v = (p * mult) as i64 + rng.range(0, 4) as i64 - 2;
                    v.max(0).min(*max as i64 - 1) as u16
                };
                (seam(rng), seam(rng))
            }
            TileStyle::World { max } => (rng.below(*max) as u16, rng.below(*max) as u16),
            TileStyle::Hot { tiles, max } => {
                if rng.chance(4, 5) {
                    rng.pick(tiles)
                } else {
                    (rng.below(*max) as u16, rng.below(*max) as u16)
                }
            }
        }
    }
    /// A tile that relates to the drawn ones: near one, or anywhere.
    pub fn near(&self, rng: &mut Rng, max: u64) -> (u16, u16) {
        let (x, y) = self.draw(rng);
        let spread = rng.pick(&[0i64, 1, 1, 2, 5, 20, 300, 20000]);
        let mut j = |v: u16| -> u16 {
            let d = rng.range(0, 2 * spread as u64) as i64 - spread;
            (v as i64 + d).max(0).min(max as i64 - 1) as u16
        };
        (j(x), j(y))
    }
}

pub fn lang_pool(rng: &mut Rng) -> Vec<u128> {
    let all = [
        0u128,
        1,
        2,
        3,
        0x80,
        0xff,
        0x100,
        0xff00,
        0x0100_0000,
        1 << 63,
        1 << 64,
        1 << 120,
        1 << 127,
        u128::MAX,
        u128::MAX - 1,
        u128::MAX >> 1,
        u128::MAX >> 8,
        u128::MAX << 8,
        0xff_u128 << 120,
    ];
    let n = rng.range(1, 6);
    let mut v: Vec<u128> = (0..n)
        .map(|_| match rng.below(5) {
            0 => {
                let shift = rng.below(128);
                rng.u128() >> shift
            }
            1 => 1u128 << rng.below(128),
            _ => rng.pick(&all),
        })
        .collect();
    if rng.chance(1, 2) {
        v.push(u128::MAX);
    }
    v
}

pub fn phrase_pool(rng: &mut Rng, n: u64) -> Vec<u32> {
    let base: u32 = match rng.below(8) {
        0 => 250,
        1 if rng.chance(1, 2) => return lookalikes(rng, 32).into_iter().map(|v| v as u32).collect(),
        1 => 65_530,
        2 => u32::MAX - n as u32,
        3 => (1 << 24) - 3,
        4 => rng.next() as u32 >> 1,
        5 => 0x7fff_fffa,
        _ => 0,
    };
    let mut v: Vec<u32> = (0..n)
        .map(|_| {
            let off = rng.below(n * 2) as u32;
            base.saturating_add(off)
        })
        .collect();
    if rng.chance(1, 6) {
        v.push(u32::MAX);
    }
    if rng.chance(1, 6) {
        v.push(0);
    }
    v
}

/// Values of so many bits that agree in their lower or upper bits, or differ in one bit only.
pub fn lookalikes(rng: &mut Rng, bits: u64) -> Vec<u64> {
    let mask = (1u64 << bits) - 1;
    let base = match rng.below(3) {
        0 => 0,
        1 => rng.below(4) & mask,
        _ => rng.next() & mask,
    };
    let mut v = vec![base];
    for _ in 0..rng.range(1, 5) {
        let b = rng.pick(&v);
        let any = rng.below(bits);
        v.push(b ^ (1u64 << rng.pick(&[bits - 1, bits - 1, 8, 16, any]).min(bits - 1)));
    }
    v.sort();
    v.dedup();
    v
}

impl Pools {
    pub fn gen(rng: &mut Rng, max_tile: u64) -> Pools {
        let n = rng.range(1, 8);
        let ids: Vec<u32> = match rng.below(5) {
            4 => lookalikes(rng, 24).into_iter().map(|v| v as u32).collect(),
            0 => vec![0, 1],
            1 => (0..rng.range(2, 40)).map(|i| i as u32).collect(),
            2 => (0..rng.range(1, 20)).map(|_| rng.below(1 << 24) as u32).collect(),
            _ => vec![0, 1, 2, 255, 256, (1 << 24) - 1, (1 << 24) - 2, 1 << 23],
        };
        Pools {
            phrases: phrase_pool(rng, n),
            langs: lang_pool(rng),
            ids,
            tiles: TileStyle::gen(rng, max_tile),
            scores: match rng.below(4) {
                0 => vec![rng.below(16) as u8],
                1 => vec![0, 15],
                2 => vec![0, 1, 2, 7, 8],
                _ => (0..16).collect(),
            },
            odd_relevs: false,
            hashes: match rng.below(3) {
                0 => vec![0],
                1 => vec![0, 255],
                _ => (0..8).collect(),
            },
        }
    }
    /// Also draw values that do not fit what is stored of them.
    pub fn stray(&mut self, rng: &mut Rng) {
        self.odd_relevs = rng.chance(1, 2);
        if rng.chance(1, 3) {
            self.scores = vec![0, 15, 16, 17, 31, 32, 128, 240, 255];
        }
        if rng.chance(1, 3) {
            self.ids = vec![0, 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, u32::MAX, 0x8000_0001];
        }
    }
    pub fn key(&self, rng: &mut Rng) -> Key {
        (rng.pick(&self.phrases), rng.pick(&self.langs))
    }
    pub fn relev(&self, rng: &mut Rng) -> f64 {
        if self.odd_relevs && rng.chance(1, 5) {
            rng.pick(&[0.0, 0.5, 0.7, 0.39999999999, 0.40000001, 0.9, 2.0, -1.0, 1e300])
        } else {
            rng.pick(&RELEV)
        }
    }
    pub fn entry(&self, rng: &mut Rng) -> GridEntry {
        let (x, y) = self.tiles.draw(rng);
        GridEntry {
            relev: self.relev(rng),
            score: rng.pick(&self.scores),
            x,
            y,
            id: rng.pick(&self.ids),
            source_phrase_hash: rng.pick(&self.hashes),
        }
    }
    pub fn op(&self, rng: &mut Rng, max_rows: u64) -> Op {
        let key = self.key(rng);
        let n = match rng.below(10) {
            0 => 0,
            1 => 1,
            _ => rng.range(1, max_rows),
        };
        match rng.below(3) {
            0 => Op::Insert(key, (0..n).map(|_| self.entry(rng)).collect()),
            1 => Op::Append(key, (0..n).map(|_| self.entry(rng)).collect()),
            _ => Op::Compact {
                key,
                relev: self.relev(rng),
                score: rng.pick(&self.scores),
                id: rng.pick(&self.ids),
                hash: rng.pick(&self.hashes),
                coords: (0..n).map(|_| self.tiles.draw(rng)).collect(),
            },
        }
    }
    pub fn ops(&self, rng: &mut Rng, n: u64, max_rows: u64) -> Vec<Op> {
        (0..n).map(|_| self.op(rng, max_rows)).collect()
    }
}

impl Pools {
    /// A record of many tiles, or of one tile with many features, or many records.
    pub fn large(&mut self, rng: &mut Rng, max: u64, most: u64) -> Vec<Op> {
        let style = rng.below(5);
        if style < 2 {
            let wide = TileStyle::World { max };
            let one = wide.draw(rng);
            let (many_tiles, many_ids, alike) = (rng.chance(2, 3), rng.chance(1, 2), rng.chance(1, 2));
            let (relev, score) = (self.relev(rng), rng.pick(&self.scores));
            let es = (0..rng.pick(&[300u64, 3000, 17_000]).min(most))
                .map(|i| {
                    let (mut x, mut y) = if many_tiles { wide.draw(rng) } else { one };
                    if many_tiles && rng.chance(1, 64) {
                        // on the edge of the world
                        let edge = rng.pick(&[0, (max - 1) as u16]);
                        *if rng.chance(1, 2) { &mut x } else { &mut y } = edge;
                    }
                    let e = GridEntry { x, y, id: if many_ids { i as u32 } else { 7 }, ..self.entry(rng) };
                    if alike { GridEntry { relev, score, ..e } } else { e }
                })
                .collect();
            vec![Op::Append(self.key(rng), es)]
        } else if style == 2 {
            // few phrases in many languages
            let n = rng.pick(&[70usize, 300, 1000]).min(most as usize);
            let known = self.langs.clone();
            let more: Vec<u128> = (0..n)
                .map(|i| match rng.below(4) {
                    0 => 1u128 << (i % 128),
                    1 => rng.u128() >> rng.below(128),
                    2 => i as u128,
                    _ => rng.pick(&known) ^ (1u128 << rng.below(128)),
                })
                .collect();
            self.langs.extend(more.iter().step_by(n / 8).cloned());
            more.into_iter().map(|l| Op::Append((rng.pick(&self.phrases), l), vec![self.entry(rng)])).collect()
        } else {
            let n = rng.pick(&[260u32, 2000]).min(most as u32);
            let from = rng.pick(&[0u32, 250, 65_000, u32::MAX - n]);
            self.phrases.extend((from..from + n).step_by(7));
            (from..from + n).map(|p| Op::Append((p, rng.pick(&self.langs)), vec![self.entry(rng)])).collect()
        }
    }
}

/// Ascending prefix boundaries around the phrase ids in use.
pub fn gen_bounds(rng: &mut Rng, phrases: &[u32]) -> Vec<u32> {
    let mut b: BTreeSet<u32> = BTreeSet::new();
    let n = match phrases.len() {
        200..=usize::MAX => rng.pick(&[20, 60, 400, 4000]),
        31..=199 => rng.range(1, 60),
        _ => rng.range(1, 6),
    };
    for _ in 0..n {
        let p = rng.pick(phrases);
        let v = match rng.below(4) {
            0 => p,
            1 => p.saturating_add(1),
            2 => p.saturating_sub(1),
            _ => p.saturating_add(rng.range(0, 6) as u32),
        };
        b.insert(v);
    }
    if rng.chance(1, 2) {
        b.insert(0);
    }
    if rng.chance(1, 3) {
        b.insert(phrases.iter().max().unwrap().saturating_add(1));
    }
    b.into_iter().collect()
}

pub fn gen_phrase(rng: &mut Rng, phrases: &[u32], bounds: &[u32]) -> MatchPhrase {
    match rng.below(10) {
        0..=2 => {
            let p = rng.pick(phrases);
            MatchPhrase::Exact(if rng.chance(1, 6) { p.wrapping_add(1) } else { p })
        }
        3..=5 if bounds.len() > 1 => {
            let i = rng.idx(bounds.len());
            let j = i + rng.idx(bounds.len() - i);
            MatchPhrase::Range { start: bounds[i], end: bounds[j] }
        }
        6 => {
            let lo = *phrases.iter().min().unwrap();
            let hi = *phrases.iter().max().unwrap();
            MatchPhrase::Range { start: lo, end: hi.saturating_add(1) }
        }
        _ => {
            let a = rng.pick(phrases);
            let b = if rng.chance(1, 3) && !bounds.is_empty() {
                rng.pick(bounds)
            } else {
                rng.pick(phrases).saturating_add(rng.below(3) as u32)
            };
            MatchPhrase::Range { start: a.min(b), end: a.max(b) }
        }
    }
}

/// All but the outermost tiles.
pub fn most_of(rng: &mut Rng, max: u64) -> [u16; 4] {
    let last = max - 1;
    let mut off = || rng.below(3).min(last);
    let (a, b, c, d) = (off(), off(), off(), off());
    [a as u16, b as u16, (last - c).max(a) as u16, (last - d).max(b) as u16]
}

pub fn gen_bbox(rng: &mut Rng, tiles: &TileStyle, max: u64) -> [u16; 4] {
    if rng.chance(1, 12) {
        return [0, 0, (max - 1) as u16, (max - 1) as u16];
    }
    if rng.chance(1, 12) {
        return most_of(rng, max);
    }
    let a = tiles.near(rng, max);
    let b = if rng.chance(1, 5) { a } else { tiles.near(rng, max) };
    [a.0.min(b.0), a.1.min(b.1), a.0.max(b.0), a.1.max(b.1)]
}

pub fn gen_match_opts(rng: &mut Rng, tiles: &TileStyle, zoom: u16) -> MatchOpts {
    let max = 1u64 << zoom;
    let bbox = if rng.chance(1, 2) { Some(gen_bbox(rng, tiles, max)) } else { None };
    let proximity = if rng.chance(1, 2) {
        let (x, y) = tiles.near(rng, max);
        Some([x, y])
    } else {
        None
    };
    MatchOpts { bbox, proximity, zoom }
}

pub fn gen_query_lang(rng: &mut Rng, langs: &[u128]) -> u128 {
    match rng.below(5) {
        0 => 0,
        1 => u128::MAX,
        2 => 1u128 << rng.below(128),
        3 => rng.pick(langs),
        _ => rng.pick(langs) & rng.u128(),
    }
}

pub fn in_bbox(x: u16, y: u16, b: &[u16; 4]) -> bool {
    x >= b[0] && x <= b[2] && y >= b[1] && y <= b[3]
}

// ---------------------------------------------------------------------------------------------
// the documented distance formulas

pub fn tiles_per_mile(zoom: u16) -> f64 {
    0.8 * 1.5f64.powi(zoom as i32 - 14)
}

pub fn distance(p: [u16; 2], x: u16, y: u16) -> f64 {
    let dx = p[0] as f64 - x as f64;
    let dy = p[1] as f64 - y as f64;
    (dx * dx + dy * dy).sqrt()
}

/// The score used for ranking when there is a proximity point.
pub fn scoredist(zoom: u16, distance: f64, score: u8, radius: f64) -> f64 {
    let d = if distance < 1.0 { 0.8 } else { distance };
    let ratio = (d / (radius * tiles_per_mile(zoom.max(6)))).min(1.0);
    let s = score.min(7) as i32;
    (6.0 * ((s - 7) as f64).exp() + 1.0) / ratio
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
