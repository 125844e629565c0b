//! C20: memory safety of the iterators over borrowed storage, mostly for the sanitizer builds.

use crate::model::*;
use crate::util::*;
use carmen_core::gridstore::*;

/// Mostly iterators; now and then, for the sanitizers' sake, what another property does, whatever
/// that property makes of the outcome.
pub fn c20_memory(ctx: &mut Ctx) -> Res {
    if ctx.case % 4 != 3 {
        return iterators(ctx);
    }
    let others: &[(&'static str, fn(&mut Ctx) -> Res)] = if cfg!(miri) {
        &[("as_C01", super::storage::c01_round_trip), ("as_C04", super::matching::c04_content)]
    } else {
        &[
            ("as_C01", super::storage::c01_round_trip),
            ("as_C04", super::matching::c04_content),
            ("as_C07", super::matching::c07_bins),
            ("as_C09", super::matching::c09_proximity_order),
            #[cfg(feature = "format")]
            ("as_C12", super::format::c12_format),
            ("as_C13", super::coalesce::c13_sound),
            ("as_C15", super::coalesce::c15_single),
            ("as_C21", super::storage::c21_faults),
        ]
    };
    let (name, f) = ctx.rng.pick(others);
    ctx.count(name, 1);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ctx)));
    rocksdb::verif::reset();
    ctx.nontrivial = true;
    Ok(())
}

// all that a row carries, to the bit
type Seen = (Row, Option<(u64, u64, u64, bool)>);
type Pending = (Vec<Seen>, Vec<Seen>, Box<dyn Iterator<Item = Seen>>, String);

fn seen(e: &MatchEntry) -> Option<Seen> {
    let row = super::matching::base_row(e).ok()?;
    let more = (e.grid_entry.relev.to_bits(), e.distance.to_bits(), e.scoredist.to_bits(), e.matches_language);
    Some((row, Some(more)))
}

// Iterators keep what they read alive: after the store is gone, when dropped half way, when
// interleaved, and when moved around.
fn iterators(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng;
    let zoom = rng.pick(&[6u16, 14, 16]);
    let mut pools = Pools::gen(rng, 1u64 << zoom);
    let n = rng.range(1, 8);
    // long lists, and many readers at once
    let (long, many) = (!cfg!(miri) && rng.chance(1, 100), !cfg!(miri) && rng.chance(1, 100));
    let rows = if cfg!(miri) { rng.pick(&[3u64, 8]) } else { rng.pick(&[3u64, 12, 60]) };
    let mut ops = pools.ops(rng, n, rows);
    if long {
        ops.extend(pools.large(rng, 1u64 << zoom, 3000));
    }
    let mut model = Model::of(&ops);
    if rng.chance(1, 2) {
        model.bounds = gen_bounds(rng, &pools.phrases);
    }
    for (k, rows) in &model.data {
        ctx.sign(k);
        ctx.sign(rows);
    }
    let path = ctx.fresh_path();
    build(&path, &ops, &model.bounds)?;
    let o = Opts {
        zoom,
        type_id: 0,
        radius: ctx.rng.pick(&[1.0, 40.0, 100.0, 400.0]),
        bboxes: global_bbox_for_zoom(zoom),
        max_score: ctx.rng.pick(&[1.0, 15.0]),
    };
    // in memory of its own, which is given back when the store is dropped or moved
    let store = Box::new(open_with(&path, &o)?);
    let mut pending: Vec<Pending> = Vec::new();
    let keys: Vec<Key> = model.data.keys().cloned().collect();
    for _ in 0..if many { ctx.rng.range(40, 150) } else { ctx.rng.range(2, 7) } {
        let rng = &mut ctx.rng;
        if rng.chance(1, 2) {
            let key = rng.pick(&keys);
            let want: Vec<Seen> = {
                let mut v: Vec<Seen> = model.data[&key].iter().map(|r| (r.clone(), None)).collect();
                v.reverse();
                v
            };
            let it = store.get(&gk(&key)).map_err(|e| e.to_string())?;
            if let Some(it) = it {
                let it = it.filter_map(|e| Row::returned(&e).ok().map(|r| (r, None)));
                pending.push((vec![], want, Box::new(it), format!("get {:?}", key)));
            }
        } else {
            let k = MatchKey {
                match_phrase: gen_phrase(rng, &pools.phrases, &model.bounds),
                lang_set: u128::max_value(),
            };
            let mo = gen_match_opts(rng, &pools.tiles, zoom);
            let ask = || -> Result<Box<dyn Iterator<Item = Seen>>, String> {
                let it = store.streaming_get_matching(&k, &mo, 1000).map_err(|e| e.to_string())?;
                Ok(Box::new(it.filter_map(|e| seen(&e))))
            };
            let want: Vec<Seen> = ask()?.collect();
            pending.push((vec![], want, ask()?, format!("{:?} {:?}", k, mo)));
        }
    }
    // take some, in turns
    let mut store = Some(store);
    let steps = ctx.rng.range(0, if long || many { 3000 } else { 60 });
    ctx.max("iterators_at_once", pending.len() as u64);
    for step in 0..steps {
        if pending.is_empty() {
            break;
        }
        if step == steps / 3 && ctx.rng.chance(1, 2) {
            // move the store to other memory, and overwrite what it leaves
            store = store.map(|mut old| {
                match GridStore::new_with_options(&path, zoom, 9, 1.0e9, vec![], 1.0e-9) {
                    Ok(mut other) => {
                        std::mem::swap(&mut *old, &mut other);
                        Box::new(other)
                    }
                    Err(_) => old,
                }
            });
            ctx.count("stores_moved_under_iterators", 1);
        }
        if step == steps / 2 && ctx.rng.chance(1, 2) {
            store = None;
            let _ = std::fs::remove_dir_all(&path);
            // let something else use the memory
            let junk: Vec<Vec<u8>> = (0..20).map(|i| vec![0xA5u8; 40 + i * 37]).collect();
            ctx.count("stores_dropped_under_iterators", junk.len() as u64 / 20);
        }
        let i = ctx.rng.idx(pending.len());
        match ctx.rng.below(12) {
            0 => {
                pending.swap_remove(i);
                ctx.count("iterators_dropped_half_way", 1);
            }
            1 => {
                // move it somewhere else
                let p = pending.swap_remove(i);
                pending.insert(0, p);
                ctx.count("iterators_moved", 1);
            }
            _ => {
                let p = &mut pending[i];
                if let Some(r) = p.2.next() {
                    p.0.push(r);
                }
            }
        }
    }
    if ctx.rng.chance(1, 2) {
        drop(store);
    }
    for (mut got, want, it, what) in pending {
        got.extend(it);
        ensure!(got == want, "{}: read in turns, it gives {} rows instead of {}", what, got.len(), want.len());
        ctx.count("iterators_read_to_the_end", 1);
        ctx.count("rows_read", got.len() as u64);
        if got.len() > 1 {
            ctx.nontrivial = true;
        }
    }
    ctx.sample(|| format!("{} ops, {} keys", ops.len(), keys.len()));
    Ok(())
}

const WARM_UP: usize = 2;
const ROUNDS: usize = 8;
const ROUNDS_AT_MOST: usize = 512;

/// C27: what is dropped is given back. The same work is done over and over; what is left in use
/// afterwards may differ a little from time to time (thread pools keep some space), but not grow
/// every time, and no database, value or iterator may stay open at all.
pub fn c27_released(ctx: &mut Ctx) -> Res {
    if ctx.rng.chance(1, 2) {
        released_stores(ctx)
    } else {
        released_answers(ctx)
    }
}

fn over_and_over(ctx: &mut Ctx, what: &str, mut work: impl FnMut(usize) -> Result<u64, String>) -> Res {
    let before = rocksdb::verif::live();
    let count = crate::alloc::Count::start();
    let mut done = 0;
    let mut n = 0u64;
    let mut rounds = |times: usize| -> Result<isize, String> {
        for _ in 0..times {
            n += work(done)?;
            done += 1;
            let now = rocksdb::verif::live();
            if now != before {
                return Err(format!(
                    "after {} and dropping everything, {} databases, {} values read and {} iterators are still open",
                    what, now[0] - before[0], now[1] - before[1], now[2] - before[2]
                ));
            }
        }
        Ok(count.in_use())
    };
    let warm = rounds(WARM_UP)?;
    let mut marks = vec![warm, rounds(ROUNDS)?];
    // What fills up and then stays, such as what the threads of a pool keep at hand, is no
    // leak: it is one if it goes on growing.
    let grows = |m: &[isize], times: usize| m[m.len() - 1] - m[m.len() - 2] >= times as isize * 4;
    let mut more = ROUNDS;
    while grows(&marks, more) && more < ROUNDS_AT_MOST {
        more *= 4;
        marks.push(rounds(more)?);
    }
    drop(count);
    ensure!(
        !grows(&marks, more),
        "{} over and over leaves more memory in use every time: {:?} bytes after {} times and after {}, 4 times as many, and so on from then on",
        what, marks, WARM_UP, ROUNDS
    );
    ctx.count("repetitions", done as u64);
    ctx.count("rows_and_contexts_seen", n);
    ctx.max("most_repetitions_of_one_piece_of_work", done as u64);
    ctx.max("bytes_in_use_after_the_last_repetition", marks[marks.len() - 1].max(0) as u64);
    if n > 0 {
        ctx.nontrivial = true;
    }
    Ok(())
}

fn released_stores(ctx: &mut Ctx) -> Res {
    use rocksdb::verif as f;
    let rng = &mut ctx.rng;
    let zoom = rng.pick(&[6u16, 14, 16]);
    let mut pools = Pools::gen(rng, 1u64 << zoom);
    let n = rng.range(1, 8);
    let rows = rng.pick(&[3u64, 12, 60]);
    let ops = pools.ops(rng, n, rows);
    let mut model = Model::of(&ops);
    if rng.chance(1, 2) {
        model.bounds = gen_bounds(rng, &pools.phrases);
    }
    let keys: Vec<Key> = model.data.keys().cloned().collect();
    let asked: Vec<(MatchKey, MatchOpts, usize, u64)> = (0..4)
        .map(|_| {
            let match_phrase = gen_phrase(rng, &pools.phrases, &model.bounds);
            let k = MatchKey { match_phrase, lang_set: u128::max_value() };
            (k, gen_match_opts(rng, &pools.tiles, zoom), rng.pick(&[0, 1, 2, 5, 1000]), rng.pick(&[0, 1, 3, 1000]))
        })
        .collect();
    let (how_built, how_read) = (rng.below(6), rng.next());
    let failing = rng.below(6);
    for (k, rows) in &model.data {
        ctx.sign(k);
        ctx.sign(rows);
    }
    ctx.sign(&format!("{:?} {} {}", asked, how_built, failing));
    let o = Opts { zoom, type_id: 0, radius: 40.0, bboxes: global_bbox_for_zoom(zoom), max_score: 1.0 };
    let dir = ctx.dir.clone();
    let good = ctx.fresh_path();
    build(&good, &ops, &model.bounds)?;
    let what = match how_built {
        0 => "abandoning a build",
        1 => "failing to renumber",
        2 => "failing to write a build",
        3 => "failing to open a store",
        _ => "building and reading a store",
    };
    over_and_over(ctx, what, |round| {
        let path = dir.join(format!("r{:04}", round));
        let mut b = start_build(&path, &ops)?;
        b.load_bin_boundaries(model.bounds.clone()).map_err(|e| e.to_string())?;
        let mut n = 0;
        match how_built {
            0 => {
                drop(b);
                n += 1;
            }
            1 => {
                let _ = b.renumber(&[]);
                drop(b);
                n += 1;
            }
            2 => {
                f::fail_put_after(Some(failing));
                let _ = b.finish();
                f::fail_put_after(None);
                n += 1;
            }
            3 => {
                drop(b);
                f::fail_open_after(Some(0));
                let _ = open_with(&good, &o);
                f::fail_open_after(None);
                f::fail_get_after(Some(0));
                let _ = open_with(&good, &o);
                f::fail_get_after(None);
                let _ = GridStore::new(dir.join("nowhere"));
                f::take_faults_fired();
                n += 1;
            }
            _ => {
                b.finish().map_err(|e| format!("finish: {}", e))?;
                let store = open_with(&path, &o)?;
                let mut halves = Vec::new();
                for (i, k) in keys.iter().enumerate() {
                    let take = (how_read >> (i % 16 * 2) & 3) as usize;
                    if let Some(mut it) = store.get(&gk(k)).map_err(|e| e.to_string())? {
                        n += it.by_ref().take([0, 1, 2, 1000][take]).count() as u64;
                        halves.push(it);
                    }
                    let _ = store.get(&GridKey { phrase_id: k.0 ^ 0x1234_5678, lang_set: 77 }).map(|o| o.is_some());
                }
                n += store.keys().take((how_read & 7) as usize).count() as u64;
                n += store.iter().take((how_read >> 3 & 7) as usize).count() as u64;
                let mut matched = Vec::new();
                for (k, mo, cap, take) in &asked {
                    let mut it = store.streaming_get_matching(k, mo, *cap).map_err(|e| e.to_string())?;
                    n += it.by_ref().take(*take as usize).count() as u64;
                    matched.push(it);
                }
                if let Some(k) = keys.first() {
                    f::fail_get_after(Some(0));
                    let _ = store.get(&gk(k)).map(|o| o.is_some());
                    f::fail_get_after(None);
                    f::take_faults_fired();
                }
                if how_read >> 40 & 1 == 0 {
                    drop(store);
                }
            }
        }
        let _ = std::fs::remove_dir_all(&path);
        Ok(n)
    })?;
    ctx.sample(|| format!("{}: {} keys, {:?}", what, keys.len(), asked));
    Ok(())
}

fn released_answers(ctx: &mut Ctx) -> Res {
    let plain = ctx.rng.chance(1, 3);
    let world = super::coalesce::world_for_repetition(ctx, plain)?;
    let again: Vec<(std::path::PathBuf, Opts)> = world
        .subs
        .iter()
        .map(|s| {
            let st = &s.store;
            let o = Opts {
                zoom: st.zoom,
                type_id: st.type_id,
                radius: st.coalesce_radius,
                bboxes: st.bboxes.clone(),
                max_score: st.max_score,
            };
            (st.path.clone(), o)
        })
        .collect();
    // of stores that stay open, or that are opened for the question
    let reopen = ctx.rng.chance(1, 3);
    over_and_over(ctx, "asking a question", |_| {
        let mut subs = world.subs.clone();
        if reopen {
            for (s, (path, o)) in subs.iter_mut().zip(&again) {
                s.store = std::sync::Arc::new(open_with(path, o)?);
            }
        }
        let r = if plain { coalesce(subs, &world.opts) } else { stack_and_coalesce(&subs, &world.opts) };
        let answer = r.map_err(|e| e.to_string())?;
        Ok(answer.len() as u64)
    })?;
    ctx.sample(|| format!("asking a question: {}", world.describe()));
    Ok(())
}
