//! What lies on disk: C29.

use super::storage::{gen_ops, get_rows, sign_model};
use crate::model::*;
use crate::util::*;
use carmen_core::gridstore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

// ---------------------------------------------------------------------------------------------
// The form stores have always had, written down once more, apart from the library:
//
//   key     one byte, 0 for a phrase or 1 for a prefix bin; the number of the phrase or of the bin's
//           first, big-endian; the languages, big-endian without leading zero bytes, but one zero
//           byte for none and nothing at all for all
//   value   lists one after the other, addressed by their place; the last four bytes (little-endian)
//           are the place of the outermost one
//     outermost  how many, then each: a byte (relevance level in the upper, score in the lower half),
//                the place of its tiles
//     tiles      how many, the bytes per tile, then each: z-order code (four bytes, little-endian),
//                the place of its features in the remaining bytes (little-endian)
//     features   how many, then each: four bytes (little-endian), the upper 24 bits the feature's
//                id and the lower 8 the hash
//   "~BOUNDS"  the prefix boundaries, four bytes each (little-endian)
//
// How many there are and the places of tiles take seven bits to the byte, least significant first, the upper
// bit set in all but the last.

pub const BOUNDS: &[u8] = b"~BOUNDS";

fn number(out: &mut Vec<u8>, mut n: u64) {
    while n > 127 {
        out.push(n as u8 & 127 | 128);
        n >>= 7;
    }
    out.push(n as u8);
}

fn read_number(v: &[u8], at: &mut usize) -> Result<usize, String> {
    let mut n = 0u64;
    for i in 0..5 {
        let b = *v.get(*at).ok_or("a number lies beyond the end")?;
        *at += 1;
        n |= ((b & 127) as u64) << (7 * i);
        if b < 128 {
            return Ok(n as usize);
        }
    }
    Err("a number takes more than five bytes".into())
}

fn bytes<'v>(v: &'v [u8], at: &mut usize, n: usize) -> Result<&'v [u8], String> {
    let b = v.get(*at..*at + n).ok_or("something lies beyond the end")?;
    *at += n;
    Ok(b)
}

fn little(b: &[u8]) -> u32 {
    b.iter().rev().fold(0, |n, b| n << 8 | *b as u32)
}

pub fn encode_key(marker: u8, (phrase, lang): &Key) -> Vec<u8> {
    let mut k = vec![marker];
    k.extend_from_slice(&phrase.to_be_bytes());
    if *lang == 0 {
        k.push(0);
    } else if *lang != u128::MAX {
        let b = lang.to_be_bytes();
        k.extend_from_slice(&b[lang.leading_zeros() as usize / 8..]);
    }
    k
}

fn decode_key(k: &[u8]) -> Result<Key, String> {
    ensure!(k.len() >= 5 && k.len() <= 21, "a key of {} bytes", k.len());
    let phrase = u32::from_be_bytes([k[1], k[2], k[3], k[4]]);
    let lang = match &k[5..] {
        [] => u128::MAX,
        b => b.iter().fold(0u128, |n, b| n << 8 | *b as u128),
    };
    Ok((phrase, lang))
}

fn encode_value(rows: &Rows, share: bool, padding: usize) -> Vec<u8> {
    let mut groups: BTreeMap<u8, BTreeMap<u32, Vec<u32>>> = BTreeMap::new();
    for r in rows.iter().rev() {
        groups.entry(r.relev << 4 | r.score).or_default().entry(r.z).or_default().push(r.id << 8 | r.hash as u32);
    }
    // nothing says that everything in a value is in use
    let mut out = vec![0xa5; padding];
    let mut places: BTreeMap<Vec<u32>, usize> = BTreeMap::new();
    let mut outermost: Vec<(u8, usize)> = Vec::new();
    for (rs, tiles) in groups.into_iter().rev() {
        let mut list: Vec<(u32, usize)> = Vec::new();
        for (z, ids) in tiles.into_iter().rev() {
            let place = match places.get(&ids) {
                Some(p) if share => *p,
                _ => {
                    let p = out.len();
                    number(&mut out, ids.len() as u64);
                    for i in &ids {
                        out.extend_from_slice(&i.to_le_bytes());
                    }
                    places.insert(ids, p);
                    p
                }
            };
            list.push((z, place));
        }
        outermost.push((rs, out.len()));
        number(&mut out, list.len() as u64);
        let wide = match list.iter().map(|l| l.1).max().unwrap_or(0) {
            0..=0xff => 1,
            0x100..=0xffff => 2,
            0x1_0000..=0xff_ffff => 3,
            _ => 4,
        };
        out.push(4 + wide as u8);
        for (z, place) in list {
            out.extend_from_slice(&z.to_le_bytes());
            out.extend_from_slice(&(place as u32).to_le_bytes()[..wide]);
        }
    }
    let place = out.len() as u32;
    number(&mut out, outermost.len() as u64);
    for (rs, place) in outermost {
        out.push(rs);
        number(&mut out, place as u64);
    }
    out.extend_from_slice(&place.to_le_bytes());
    out
}

/// The rows in the order they lie there.
fn decode_value(v: &[u8]) -> Result<Vec<Row>, String> {
    ensure!(v.len() >= 5, "a value of {} bytes", v.len());
    let mut rows = Vec::new();
    let mut at = little(&v[v.len() - 4..]) as usize;
    for _ in 0..read_number(v, &mut at)? {
        let rs = bytes(v, &mut at, 1)?[0];
        let mut tiles = read_number(v, &mut at)?;
        let n = read_number(v, &mut tiles)?;
        let size = bytes(v, &mut tiles, 1)?[0] as usize;
        ensure!(n == 0 || size >= 5 && size <= 8, "{} bytes for each tile", size);
        for _ in 0..n {
            let t = bytes(v, &mut tiles, size)?;
            let mut features = little(&t[4..]) as usize;
            for _ in 0..read_number(v, &mut features)? {
                let f = little(bytes(v, &mut features, 4)?);
                rows.push(Row { relev: rs >> 4, score: rs & 15, z: little(&t[..4]), id: f >> 8, hash: f as u8 });
            }
        }
    }
    Ok(rows)
}

/// Everything a store of these rows and boundaries holds.
fn bins(model: &Model) -> BTreeMap<Key, Rows> {
    let mut out: BTreeMap<Key, Rows> = BTreeMap::new();
    for ((p, l), rows) in &model.data {
        if let Some(b) = model.bounds.iter().filter(|b| *b <= p).max() {
            out.entry((*b, *l)).or_default().extend(rows.iter());
        }
    }
    out
}

/// C29: stores keep the form that other versions of the library read and write.
pub fn c29_form(ctx: &mut Ctx) -> Res {
    let (pools, ops) = gen_ops(ctx, true);
    let mut model = Model::of(&ops);
    if ctx.rng.chance(1, 2) {
        model.bounds = gen_bounds(&mut ctx.rng, &pools.phrases);
    }
    sign_model(ctx, &model);
    ctx.nontrivial = model.row_count() >= 2;
    ctx.count("rows", model.row_count() as u64);
    if ctx.rng.chance(1, 2) {
        let path = ctx.fresh_path();
        build(&path, &ops, &model.bounds)?;
        let mut longest = 0;
        written(&path, &model, &mut longest)?;
        ctx.count("stores_written_by_the_library", 1);
        ctx.max("bytes_of_one_value", longest);
        ctx.sample(|| format!("written by the library: {} keys, {} rows, boundaries {:?}", model.data.len(), model.row_count(), model.bounds));
    } else {
        let share = ctx.rng.chance(3, 4);
        // places that take more bytes
        let padding = match ctx.rng.below(2000) {
            0 => (1 << 24) - 40 + ctx.rng.below(80) as usize,
            n if n < 60 => (1 << 16) - 40 + ctx.rng.below(80) as usize,
            n if n < 120 => (1 << 14) - 40 + ctx.rng.below(80) as usize,
            n if n < 400 => ctx.rng.below(300) as usize,
            _ => 0,
        };
        ctx.max("bytes_of_padding", padding as u64);
        // stores of before there were boundaries have no word of them
        let bounds_written = !model.bounds.is_empty() || ctx.rng.chance(1, 2);
        let path = ctx.fresh_path();
        write_out(&path, &model, share, padding, bounds_written)?;
        let store = open(&path)?;
        read_back(&store, &model, ctx)?;
        ctx.count("stores_written_by_other_means", 1);
        ctx.sample(|| format!("written by other means: {} keys, {} rows, boundaries {:?}", model.data.len(), model.row_count(), model.bounds));
    }
    Ok(())
}

fn write_out(path: &Path, model: &Model, share: bool, padding: usize, bounds: bool) -> Res {
    let mut o = rocksdb::Options::default();
    o.create_if_missing(true);
    let e = |e: rocksdb::Error| format!("inconclusive: {}", e);
    let db = rocksdb::DB::open(&o, path).map_err(e)?;
    // much of it in one value of a kind only: they are all kept in memory
    let padding_of = |i: usize| if i == 0 || padding < 1 << 20 { padding } else { 0 };
    for (i, (k, rows)) in model.data.iter().enumerate() {
        db.put(encode_key(0, k), encode_value(rows, share, padding_of(i))).map_err(e)?;
    }
    for (i, (k, rows)) in bins(model).iter().enumerate() {
        db.put(encode_key(1, k), encode_value(rows, share, padding_of(i))).map_err(e)?;
    }
    if bounds {
        let b: Vec<u8> = model.bounds.iter().flat_map(|b| b.to_le_bytes().to_vec()).collect();
        db.put(BOUNDS, b).map_err(e)?;
    }
    Ok(())
}

fn written(path: &Path, model: &Model, longest: &mut u64) -> Res {
    let mut o = rocksdb::Options::default();
    o.set_read_only(true);
    let db = rocksdb::DB::open(&o, path).map_err(|e| format!("what was built can't be opened: {}", e))?;
    let (mut phrases, mut prefixes) = (BTreeSet::new(), BTreeSet::new());
    let expected = bins(model);
    let mut bounds: Option<Vec<u32>> = None;
    for (k, v) in db.iterator(rocksdb::IteratorMode::Start) {
        *longest = (*longest).max(v.len() as u64);
        if &k[..] == BOUNDS {
            ensure!(v.len() % 4 == 0, "the boundaries take {} bytes", v.len());
            bounds = Some(v.chunks(4).map(little).collect());
            continue;
        }
        let key = decode_key(&k)?;
        ensure!(k[0] < 2, "a key of kind {}: {:?}", k[0], k);
        ensure!(encode_key(k[0], &key) == &k[..], "key {:?} is not how phrase {} in languages {:x} is written", k, key.0, key.1);
        let rows = decode_value(&v).map_err(|e| format!("the value under {:?}: {}", key, e))?;
        for w in rows.windows(2) {
            ensure!(w[0] > w[1], "under {:?} of kind {}, {:?} lies before {:?}", key, k[0], w[0], w[1]);
        }
        let rows: Rows = rows.into_iter().collect();
        let want = if k[0] == 0 { model.data.get(&key) } else { expected.get(&key) };
        ensure!(want == Some(&rows), "under {:?} of kind {} lie {:?} instead of {:?}", key, k[0], rows, want);
        if k[0] == 0 { phrases.insert(key) } else { prefixes.insert(key) };
    }
    ensure!(phrases.len() == model.data.len(), "{} of {} keys are there", phrases.len(), model.data.len());
    ensure!(prefixes.len() == expected.len(), "{} of {} prefix bins are there", prefixes.len(), expected.len());
    let got: BTreeSet<u32> = bounds.unwrap_or_default().into_iter().collect();
    ensure!(got == model.bounds.iter().cloned().collect(), "boundaries {:?} instead of {:?}", got, model.bounds);
    Ok(())
}

fn read_back(store: &GridStore, model: &Model, ctx: &mut Ctx) -> Res {
    let mut listed: BTreeMap<Key, Rows> = BTreeMap::new();
    for item in store.iter() {
        let (k, es) = item.map_err(|e| format!("iter failed: {}", e))?;
        let rows = es.iter().map(Row::returned).collect::<Result<Rows, _>>()?;
        listed.insert((k.phrase_id, k.lang_set), rows);
    }
    ensure!(listed == model.data, "iter() lists {:?} instead of {:?}", listed, model.data);
    for (k, rows) in &model.data {
        let got = get_rows(store, k)?.ok_or_else(|| format!("get finds nothing under {:?}", k))?;
        let want: Vec<Row> = rows.iter().rev().cloned().collect();
        ensure!(got == want, "under {:?} get finds {:?} instead of {:?}", k, got, want);
    }
    let bounds: BTreeSet<u32> = store.bin_boundaries.iter().cloned().collect();
    ensure!(bounds == model.bounds.iter().cloned().collect(), "boundaries {:?} instead of {:?}", bounds, model.bounds);
    // by way of the bins, and past them
    let rng = &mut ctx.rng;
    let mut asked: Vec<MatchPhrase> = model.bounds.windows(2).take(3).map(|w| MatchPhrase::Range { start: w[0], end: w[1] }).collect();
    if let (Some(a), Some(b)) = (model.bounds.first(), model.bounds.last()) {
        asked.push(MatchPhrase::Range { start: *a, end: *b });
    }
    let ids: Vec<u32> = model.data.keys().map(|k| k.0).collect();
    for _ in 0..3 {
        let (p, q) = (rng.pick(&ids), rng.pick(&ids));
        asked.push(MatchPhrase::Exact(p));
        asked.push(MatchPhrase::Range { start: p.min(q), end: p.max(q) });
    }
    let n = asked.len();
    for match_phrase in asked {
        let want: Rows = model.in_range(&match_phrase).into_iter().flat_map(|(_, r)| r.iter().cloned()).collect();
        let key = MatchKey { match_phrase, lang_set: u128::MAX };
        let o = MatchOpts { bbox: None, proximity: None, zoom: store.zoom };
        let mut got = Rows::new();
        for m in store.streaming_get_matching(&key, &o, usize::MAX).map_err(|e| format!("matching failed: {}", e))? {
            // those of no language at all are worth less
            let relev = RELEV.iter().find(|r| m.matches_language && **r == m.grid_entry.relev || !m.matches_language && (**r * 0.96 - m.grid_entry.relev).abs() < 1e-9);
            let e = GridEntry { relev: *relev.ok_or_else(|| format!("relevance of {:?}", m))?, ..m.grid_entry };
            got.insert(Row::returned(&e)?);
        }
        ensure!(got == want, "{:?} finds {:?} instead of {:?}", key, got, want);
    }
    ctx.count("questions", n as u64);
    Ok(())
}
