//! Stores and questions written out and read back in: C24.

use super::coalesce::{gen_world, Shape};
use crate::model::*;
use crate::util::*;
use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;
use std::collections::BTreeSet;
use std::io::Write;
use std::path::Path;
use std::sync::Arc;

fn content(store: &GridStore) -> Result<Vec<(Key, Vec<Row>)>, String> {
    let mut out = Vec::new();
    for item in store.iter() {
        let (k, es) = item.map_err(|e| format!("iter: {}", e))?;
        let rows: Result<Vec<Row>, String> = es.iter().map(Row::returned).collect();
        out.push(((k.phrase_id, k.lang_set), rows?));
    }
    Ok(out)
}

/// Both stores hold the same and answer the same.
fn same_store(ctx: &mut Ctx, model: &Model, phrases: &[u32], langs: &[u128], a: &GridStore, b: &GridStore, how: &str) -> Res {
    let (ca, cb) = (content(a)?, content(b)?);
    ensure!(ca.len() == cb.len(), "{}: {} keys instead of {}", how, cb.len(), ca.len());
    for (x, y) in ca.iter().zip(cb.iter()) {
        ensure!(x == y, "{}: {:?} is now {:?}", how, x, y);
    }
    let stored: Vec<Key> = model.data.keys().cloned().collect();
    ensure!(cb.iter().map(|x| x.0).collect::<BTreeSet<_>>() == stored.into_iter().collect(), "{}: other keys than stored", how);
    ensure!(a.bin_boundaries == b.bin_boundaries, "{}: boundaries {:?} are now {:?}", how, a.bin_boundaries, b.bin_boundaries);
    for _ in 0..4 {
        let key = MatchKey {
            match_phrase: gen_phrase(&mut ctx.rng, phrases, &model.bounds),
            lang_set: gen_query_lang(&mut ctx.rng, langs),
        };
        let opts = MatchOpts { zoom: 14, ..MatchOpts::default() };
        let ask = |s: &GridStore| -> Result<Vec<MatchEntry>, String> {
            Ok(s.streaming_get_matching(&key, &opts, usize::max_value()).map_err(|e| format!("{}", e))?.collect())
        };
        let (x, y) = (ask(a)?, ask(b)?);
        ensure!(x == y, "{}: {:?} matched {} rows, now {}", how, key, x.len(), y.len());
        ctx.count("answers_compared", 1);
    }
    ctx.count("rows_compared", ca.iter().map(|x| x.1.len() as u64).sum());
    Ok(())
}

fn compress(from: &Path, to: &Path) -> Res {
    let bytes = std::fs::read(from).map_err(|e| e.to_string())?;
    compress_bytes(&bytes, to)
}

fn compress_bytes(bytes: &[u8], to: &Path) -> Res {
    let f = std::fs::File::create(to).map_err(|e| e.to_string())?;
    let mut enc = lz4::EncoderBuilder::new().build(f).map_err(|e| e.to_string())?;
    enc.write_all(bytes).map_err(|e| e.to_string())?;
    enc.finish().1.map_err(|e| e.to_string())
}

/// C24: dumped and loaded, a store is the same; serialised and read, a question is the same.
pub fn c24_written_out(ctx: &mut Ctx) -> Res {
    match ctx.rng.below(12) {
        0..=6 => store_round_trip(ctx),
        7 => small_helpers(ctx),
        _ => question_round_trip(ctx),
    }
}

/// What tests and benchmarks make stores and language sets with.
fn small_helpers(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng;
    let langs: Vec<u32> = (0..rng.below(9)).map(|_| rng.below(128) as u32).collect();
    let want = langs.iter().fold(0u128, |a, l| a | 1u128 << l);
    ensure!(test_utils::langarray_to_langfield(&langs) == want, "languages {:?} become {:x}", langs, test_utils::langarray_to_langfield(&langs));
    let (value, digits) = (rng.below(2_000_001) as f64 / 1000.0 - 1000.0, rng.below(4) as i32);
    let got = test_utils::round(value, digits);
    let unit = 10f64.powi(-digits);
    ensure!(
        (got - value).abs() <= unit / 2.0 + 1e-9 && ((got / unit).round() - got / unit).abs() < 1e-6,
        "{} to {} digits is {}", value, digits, got
    );
    // a store out of records
    let mut model = Model::default();
    let mut blocks = Vec::new();
    let mut phrases = Vec::new();
    let n = rng.range(1, 5);
    for _ in 0..n {
        let key = (rng.pick(&[0u32, 1, 2, 255, 256, u32::max_value()]), rng.pick(&[0u128, 1, 6, 1 << 127, u128::max_value()]));
        if model.data.contains_key(&key) {
            continue;
        }
        let entries: Vec<GridEntry> = (0..rng.range(1, 4)).map(|_| GridEntry {
            id: rng.below(1 << 24) as u32, x: rng.below(64) as u16, y: rng.below(64) as u16,
            relev: rng.pick(&[0.4, 0.6, 0.8, 1.0]), score: rng.below(16) as u8, source_phrase_hash: rng.below(3) as u8,
        }).collect();
        let rows: Vec<Row> = entries.iter().map(Row::stored).collect();
        phrases.push(key.0);
        blocks.push(test_utils::StoreEntryBuildingBlock { grid_key: GridKey { phrase_id: key.0, lang_set: key.1 }, entries });
        model.data.insert(key, rows.into_iter().collect());
    }
    let (idx, zoom, type_id, radius) = (rng.below(128) as u16, rng.range(0, 14) as u16, rng.below(8) as u16, rng.below(500) as f64);
    let mut apart = FixedBitSet::with_capacity(128);
    for _ in 0..rng.below(4) {
        apart.insert(rng.idx(128));
    }
    std::env::set_var("TMPDIR", &ctx.dir);
    let made = test_utils::create_store(blocks, idx, zoom, type_id, apart.clone(), radius);
    ensure!(
        made.idx == idx && made.non_overlapping_indexes == apart && made.store.zoom == zoom && made.store.type_id == type_id
            && made.store.coalesce_radius == radius && made.store.bboxes == global_bbox_for_zoom(zoom),
        "a store asked for as {} {} {} {} is {} {:?}", idx, zoom, type_id, radius, made.idx, made.store
    );
    let want: Vec<(Key, BTreeSet<Row>)> = model.data.iter().map(|(k, v)| (*k, v.iter().cloned().collect())).collect();
    let mut got: Vec<(Key, BTreeSet<Row>)> = content(&made.store)?.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect();
    got.sort();
    ensure!(got == want, "a store of {:?} holds {:?}", want, got);
    for (k, v) in &want {
        ctx.sign(&format!("{:?}{:?}", k, v));
    }
    ctx.count("stores_made_of_records", 1);
    ctx.nontrivial = model.row_count() >= 2;
    Ok(())
}

fn store_round_trip(ctx: &mut Ctx) -> Res {
    let (pools, ops) = super::storage::gen_ops(ctx, true);
    let mut model = Model::of(&ops);
    if ctx.rng.chance(1, 2) {
        model.bounds = gen_bounds(&mut ctx.rng, &pools.phrases);
    }
    super::storage::sign_model(ctx, &model);
    let (store, path) = build_open(ctx, &ops, &model.bounds)?;
    let s = |p: &Path| p.to_str().unwrap().to_string();
    std::fs::create_dir_all(&ctx.dir).map_err(|e| e.to_string())?;
    let dump = ctx.dir.join("some-index.gridstore.dat");
    let splits = ctx.dir.join("some-index.gridstore.splits");
    test_utils::dump_db_to_json(&s(&path), &s(&dump));
    // one line for every key
    let text = std::fs::read_to_string(&dump).map_err(|e| e.to_string())?;
    ensure!(
        text.lines().filter(|l| !l.is_empty()).count() == model.data.len(),
        "a store of {} keys is dumped as {} records", model.data.len(), text.lines().count()
    );
    let loaded = ctx.fresh_path();
    test_utils::load_db_from_json(&s(&dump), &s(&splits), &s(&loaded));
    let again = open(&loaded)?;
    same_store(ctx, &model, &pools.phrases, &pools.langs, &store, &again, "dumped and loaded")?;
    // and once more, from what was loaded
    let second = ctx.dir.join("second.gridstore.dat");
    test_utils::dump_db_to_json(&s(&loaded), &s(&second));
    ensure!(
        std::fs::read(&second).ok() == std::fs::read(&dump).ok(),
        "the dump of a loaded dump differs from it"
    );
    ctx.count("stores_dumped_and_loaded", 1);
    // the same by the programs
    if ctx.rng.chance(1, 60) {
        by_program(ctx, &model, &pools, &store, &path, &dump, &splits)?;
    }
    // compressed, as they are downloaded
    if ctx.rng.chance(1, 2) {
        std::env::set_var("TMPDIR", &ctx.dir);
        let down = ctx.dir.join("carmen_core_data/downloads");
        std::fs::create_dir_all(&down).map_err(|e| e.to_string())?;
        compress(&dump, &down.join("some-index.gridstore.dat.lz4"))?;
        compress(&splits, &down.join("some-index.gridstore.splits.lz4"))?;
        let at = test_utils::ensure_store("some-index.gridstore.dat.lz4");
        ensure!(at.starts_with(&ctx.dir), "the store of a download is put at {:?}", at);
        let third = open(&at)?;
        same_store(ctx, &model, &pools.phrases, &pools.langs, &store, &third, "dumped, compressed and loaded")?;
        // asked for again it is the same one
        drop(third);
        ensure!(test_utils::ensure_store("some-index.gridstore.dat.lz4") == at, "a store loaded before is put elsewhere");
        ctx.count("downloads_loaded", 1);
    }
    ctx.nontrivial = model.row_count() >= 2;
    ctx.sample(|| format!("{} keys, {} rows, boundaries {:?}; first line {}", model.data.len(), model.row_count(), model.bounds, text.lines().next().unwrap_or("")));
    Ok(())
}

/// The programs that dump and load do what the functions do.
fn by_program(ctx: &mut Ctx, model: &Model, pools: &Pools, store: &GridStore, path: &Path, dump: &Path, splits: &Path) -> Res {
    let here = std::env::current_exe().map_err(|e| e.to_string())?;
    let (dumper, loader) = (here.with_file_name("dump_store"), here.with_file_name("load_store"));
    if !dumper.exists() || !loader.exists() {
        return Ok(());
    }
    let run = |what: &Path, args: &[&Path]| -> Result<bool, String> {
        let out = std::process::Command::new(what).args(args).env_remove("RUST_BACKTRACE").output().map_err(|e| format!("inconclusive: {}", e))?;
        Ok(out.status.success())
    };
    let (d2, s2) = (ctx.dir.join("program.gridstore.dat"), ctx.dir.join("program.gridstore.splits"));
    ensure!(!run(&dumper, &[path])? && !run(&dumper, &[])?, "dump_store succeeds although it isn't told what to write");
    ensure!(run(&dumper, &[path, &d2])?, "dump_store fails on {:?}", path);
    ensure!(
        std::fs::read(&d2).ok() == std::fs::read(dump).ok() && std::fs::read(&s2).ok() == std::fs::read(splits).ok(),
        "dump_store writes other than dump_db_to_json"
    );
    let to = ctx.fresh_path();
    ensure!(!run(&loader, &[&d2, &s2])? && !run(&loader, &[&d2])?, "load_store succeeds although it isn't told what to write");
    ensure!(run(&loader, &[&d2, &s2, &to])?, "load_store fails on {:?}", d2);
    let made = open(&to)?;
    same_store(ctx, model, &pools.phrases, &pools.langs, store, &made, "dumped and loaded by the programs")?;
    ctx.count("stores_dumped_and_loaded_by_the_programs", 1);
    Ok(())
}

fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}

fn question_round_trip(ctx: &mut Ctx) -> Res {
    let sh = Shape { max_indexes: 3, max_phrases: 4, max_rows: 6, max_subs: 6, plain: false, proximity: true, limit: 2000, wide: false, slow: false, big: 0, deep: false };
    let w = gen_world(ctx, sh)?;
    std::env::set_var("TMPDIR", &ctx.dir);
    let base = ctx.dir.join("carmen_core_data");
    let (down, indexes) = (base.join("downloads"), base.join("indexes"));
    std::fs::create_dir_all(&down).map_err(|e| e.to_string())?;
    std::fs::create_dir_all(&indexes).map_err(|e| e.to_string())?;
    // the indexes as they are downloaded, found by the last part of the path they had
    for ix in &w.indexes {
        let name = ix.store.path.file_name().unwrap().to_str().unwrap().to_string();
        let dump = ctx.dir.join(format!("{}.gridstore.dat", name));
        test_utils::dump_db_to_json(ix.store.path.to_str().unwrap(), dump.to_str().unwrap());
        compress(&dump, &down.join(format!("{}.gridstore.dat.lz4", name)))?;
        compress(&ctx.dir.join(format!("{}.gridstore.splits", name)), &down.join(format!("{}.gridstore.splits.lz4", name)))?;
    }
    // what is recorded names the stores <somewhere>/<name>.gridstore.rocksdb
    let mut parts = Vec::new();
    for sub in &w.subs {
        let name = sub.store.path.file_name().unwrap().to_str().unwrap();
        let text = serde_json::to_string(sub).map_err(|e| format!("a question cannot be serialised: {}", e))?;
        let was = format!("\"path\":{}", serde_json::json!(sub.store.path));
        ensure!(text.matches(&was).count() == 1, "a store at {:?} is not in what is written: {}", sub.store.path, text);
        parts.push(text.replace(&was, &format!("\"path\":\"/elsewhere/{}.gridstore.rocksdb\"", name)));
    }
    let opts = serde_json::to_string(&w.opts).map_err(|e| format!("options cannot be serialised: {}", e))?;
    let line = format!("[[{}],{}]", parts.join(","), opts);
    let text = format!("{}\n\n{}\n", line, line);
    compress_bytes(text.as_bytes(), &down.join("questions.lz4"))?;
    stackable_only(ctx, &w.subs, &w.opts, &down)?;
    let back = test_utils::prepare_phrasematches("questions.lz4");
    ensure!(back.len() == 2, "two questions were written and {} read", back.len());
    for (subs, opts) in &back {
        ensure!(*opts == w.opts, "options {:?} are read as {:?}", w.opts, opts);
        ensure!(subs.len() == w.subs.len(), "{} subqueries are read as {}", w.subs.len(), subs.len());
        for (a, b) in w.subs.iter().zip(subs.iter()) {
            ensure!(a.idx == b.idx && a.mask == b.mask, "idx and mask {} {} are read as {} {}", a.idx, a.mask, b.idx, b.mask);
            ensure!(near(a.weight, b.weight), "weight {} is read as {}", a.weight, b.weight);
            let set = |f: &FixedBitSet| f.ones().collect::<Vec<_>>();
            ensure!(
                set(&a.non_overlapping_indexes) == set(&b.non_overlapping_indexes),
                "non-overlapping indexes {:?} are read as {:?}", set(&a.non_overlapping_indexes), set(&b.non_overlapping_indexes)
            );
            ensure!(
                format!("{:?}", a.match_keys) == format!("{:?}", b.match_keys),
                "keys {:?} are read as {:?}", a.match_keys, b.match_keys
            );
            let (s, t): (&GridStore, &GridStore) = (&a.store, &b.store);
            ensure!(
                s.zoom == t.zoom && s.type_id == t.type_id && s.bboxes == t.bboxes && near(s.coalesce_radius, t.coalesce_radius) && near(s.max_score, t.max_score),
                "a store {:?} is read as {:?}", s, t
            );
            ensure!(content(s)? == content(t)?, "a store's content is read as another");
        }
        let shared = subs.iter().zip(w.subs.iter()).all(|(x, a)| {
            subs.iter().zip(w.subs.iter()).all(|(y, b)| a.idx != b.idx || Arc::ptr_eq(&x.store, &y.store))
        });
        ensure!(shared, "subqueries of one store are read as of several");
        // so the answer is the same
        let (x, y) = (
            stack_and_coalesce(&w.subs, &w.opts).map_err(|e| e.to_string())?,
            stack_and_coalesce(subs, opts).map_err(|e| e.to_string())?,
        );
        same_answer(&x, &y, "a question read back")?;
        ctx.max("contexts_in_one_answer", x.len() as u64);
        // and answers survive being written out too
        let text = serde_json::to_string(&x).map_err(|e| format!("an answer cannot be serialised: {}", e))?;
        let z: Vec<CoalesceContext> = serde_json::from_str(&text).map_err(|e| format!("an answer cannot be read back: {}", e))?;
        same_answer(&x, &z, "an answer read back")?;
        ctx.count("questions_read_back", 1);
        ctx.nontrivial |= !x.is_empty();
    }
    ctx.sample(|| format!("{} subqueries: {}", w.subs.len(), line));
    Ok(())
}

/// Questions recorded to be stacked only, from before keys could be limited to nearby and had lengths.
fn stackable_only(ctx: &mut Ctx, subs: &[super::stack::Sub], opts: &MatchOpts, down: &Path) -> Res {
    let any = "aa-country-both_wvus-fa5c865008-e06f993377.gridstore";
    if let Some(s) = subs.first() {
        let dump = ctx.dir.join(format!("{}.dat", any));
        test_utils::dump_db_to_json(s.store.path.to_str().unwrap(), dump.to_str().unwrap());
        compress(&dump, &down.join(format!("{}.dat.lz4", any)))?;
        compress(&ctx.dir.join(format!("{}.splits", any)), &down.join(format!("{}.splits.lz4", any)))?;
    }
    let mut parts = Vec::new();
    for sub in subs {
        let text = serde_json::to_string(sub).map_err(|e| e.to_string())?;
        let keys = text.find("\"match_keys\":").ok_or("a question is recorded without its keys")?;
        let mut keys = text[keys..].to_string();
        for k in &sub.match_keys {
            keys = keys.replacen(&format!("\"nearby_only\":{},", k.nearby_only), "", 1);
            keys = keys.replacen(&format!(",\"phrase_length\":{}}}", k.phrase_length), "}", 1);
        }
        if ctx.rng.chance(1, 2) {
            parts.push(text);
        } else {
            ctx.count("subqueries_of_old_recordings", 1);
            parts.push(format!("{}{}", &text[..text.find("\"match_keys\":").unwrap()], keys));
        }
    }
    let said = serde_json::to_string(opts).map_err(|e| e.to_string())?;
    compress_bytes(format!("[[{}],{}]\n", parts.join(","), said).as_bytes(), &down.join("stackable.lz4"))?;
    let back = test_utils::prepare_stackable_phrasematches("stackable.lz4");
    ensure!(back.len() == 1 && back[0].len() == subs.len(), "one question of {} was written and {} read", subs.len(), back.len());
    for ((a, b), text) in subs.iter().zip(back[0].iter()).zip(&parts) {
        let set = |f: &FixedBitSet| f.ones().collect::<Vec<_>>();
        ensure!(
            a.idx == b.idx && a.mask == b.mask && near(a.weight, b.weight) && set(&a.non_overlapping_indexes) == set(&b.non_overlapping_indexes),
            "{} is read as {} {} {} {:?}", text, b.idx, b.mask, b.weight, set(&b.non_overlapping_indexes)
        );
        let whole = text.contains("nearby_only");
        ensure!(
            a.match_keys.len() == b.match_keys.len() && a.match_keys.iter().zip(&b.match_keys).all(|(x, y)| {
                x.key == y.key && x.id == y.id
                    && y.nearby_only == (whole && x.nearby_only) && y.phrase_length == if whole { x.phrase_length } else { 0 }
            }),
            "{} is read as having keys {:?}", text, b.match_keys
        );
        ensure!(
            a.store.zoom == b.store.zoom && a.store.type_id == b.store.type_id && near(a.store.coalesce_radius, b.store.coalesce_radius),
            "{} is read as of store {:?}", text, b.store
        );
    }
    ctx.count("questions_read_back_for_stacking", 1);
    Ok(())
}

fn same_answer(x: &[CoalesceContext], y: &[CoalesceContext], how: &str) -> Res {
    ensure!(x.len() == y.len(), "{}: {} contexts instead of {}", how, y.len(), x.len());
    for (a, b) in x.iter().zip(y.iter()) {
        ensure!(a.mask == b.mask && near(a.relev, b.relev) && a.entries.len() == b.entries.len(), "{}: {:?} instead of {:?}", how, b, a);
        for (e, f) in a.entries.iter().zip(b.entries.iter()) {
            ensure!(
                near(e.grid_entry.relev, f.grid_entry.relev) && e.grid_entry.score == f.grid_entry.score
                    && (e.grid_entry.x, e.grid_entry.y, e.grid_entry.id, e.grid_entry.source_phrase_hash)
                        == (f.grid_entry.x, f.grid_entry.y, f.grid_entry.id, f.grid_entry.source_phrase_hash)
                    && e.matches_language == f.matches_language
                    && (e.idx, e.tmp_id, e.mask, e.phrasematch_id) == (f.idx, f.tmp_id, f.mask, f.phrasematch_id)
                    && near(e.distance, f.distance) && near(e.scoredist, f.scoredist),
                "{}: {:?} instead of {:?}", how, f, e
            );
        }
    }
    Ok(())
}
