//! Parts of the library that anyone may use on their own: C30, C31.

use super::disk::{encode_key, BOUNDS};
use super::matching::language_matches;
use crate::model::*;
use crate::util::*;
use carmen_core::gridstore::*;
use std::cell::Cell;
use std::rc::Rc;

/// C30: keys are told apart, ordered and matched as what they stand for.
pub fn c30_keys(ctx: &mut Ctx) -> Res {
    let rng = &mut ctx.rng;
    let mut ids: Vec<u32> = lookalikes(rng, 32).into_iter().map(|v| v as u32).collect();
    ids.extend([0, 1, 255, 256, u32::MAX, u32::MAX - 1, 0x7e42_4f55]);
    let mut langs: Vec<u128> = vec![0, 1, u128::MAX, 1 << 127, u128::MAX >> 8, u128::MAX - 1, u128::MAX << 8];
    for _ in 0..4 {
        let l = rng.u128() >> rng.below(128);
        langs.extend([l, l << 8, l >> 8, 1 << rng.below(128)]);
    }
    let keys: Vec<Key> = (0..rng.range(2, 10)).map(|_| (rng.pick(&ids), rng.pick(&langs))).collect();
    let asked: Vec<MatchKey> = (0..rng.range(2, 6))
        .map(|_| {
            let (a, b) = (rng.pick(&ids), rng.pick(&ids));
            let match_phrase = match rng.below(4) {
                0 => MatchPhrase::Exact(a),
                1 => MatchPhrase::Range { start: a, end: a.saturating_add(rng.below(3) as u32) },
                2 => MatchPhrase::Range { start: a, end: b },
                _ => MatchPhrase::Range { start: a.min(b), end: a.max(b) },
            };
            MatchKey { match_phrase, lang_set: rng.pick(&langs) }
        })
        .collect();
    let markers = [TypeMarker::SinglePhrase, TypeMarker::PrefixBin];
    let before: Vec<u8> = (0..rng.below(3)).map(|_| rng.next() as u8).collect();
    ctx.sign(&keys);
    ctx.sign(&format!("{:?}", asked));
    let mut all: Vec<(usize, Key, Vec<u8>)> = Vec::new();
    for k in &keys {
        for (m, marker) in markers.iter().enumerate() {
            let mut b = before.clone();
            gk(k).write_to(*marker, &mut b).map_err(|e| format!("write_to: {}", e))?;
            ensure!(b.starts_with(&before), "write_to changes what the buffer held: {:?}, {:?}", before, b);
            let b = b[before.len()..].to_vec();
            ensure!(b.len() <= MAX_KEY_LENGTH, "{:?} takes {} bytes", k, b.len());
            ensure!(b == encode_key(m as u8, k), "{:?} of kind {} is written as {:?} instead of {:?}", k, m, b, encode_key(m as u8, k));
            all.push((m, *k, b));
        }
    }
    for (i, (m, k, b)) in all.iter().enumerate() {
        for (n, l, c) in &all[i + 1..] {
            ensure!((m, k) == (n, l) || b != c, "{:?} of kind {} and {:?} of kind {} are both written as {:?}", k, m, l, n, b);
            ensure!((m, k.0) == (n, l.0) || ((m, k.0) < (n, l.0)) == (b < c), "{:?} of kind {} and {:?} of kind {} lie in the wrong order", k, m, l, n);
        }
    }
    let mut matched = 0;
    for a in &asked {
        for (m, marker) in markers.iter().enumerate() {
            let mut start = before.clone();
            a.write_start_to(*marker, &mut start).map_err(|e| format!("write_start_to: {}", e))?;
            ensure!(start.starts_with(&before), "write_start_to changes what the buffer held: {:?}, {:?}", before, start);
            let start = &start[before.len()..];
            let (lo, hi) = match a.match_phrase {
                MatchPhrase::Exact(p) => (p as u64, p as u64 + 1),
                MatchPhrase::Range { start, end } => (start as u64, end as u64),
            };
            for (n, k, b) in &all {
                let within = *n == m && lo <= k.0 as u64 && (k.0 as u64) < hi;
                let got = a.matches_key(*marker, b).map_err(|e| format!("matches_key: {}", e))?;
                ensure!(got == within, "{:?} of kind {} {} {:?} of kind {}", a, m, if got { "matches" } else { "does not match" }, k, n);
                ensure!(!within || start <= &b[..], "looking up {:?} of kind {} starts after {:?}", a, m, k);
                ensure!(*n != m || k.0 as u64 >= lo || start > &b[..], "looking up {:?} of kind {} starts before {:?}", a, m, k);
                let got = a.matches_language(b).map_err(|e| format!("matches_language: {}", e))?;
                ensure!(got == language_matches(k.1, a.lang_set), "languages {:x} {} {:x}", a.lang_set, if got { "match" } else { "do not match" }, k.1);
                matched += within as u64;
            }
            let got = a.matches_key(*marker, BOUNDS).map_err(|e| format!("matches_key: {}", e))?;
            ensure!(!got, "{:?} of kind {} matches the boundaries", a, m);
        }
    }
    ctx.count("keys", all.len() as u64);
    ctx.count("matches", matched);
    ctx.nontrivial = matched > 0;
    ctx.sample(|| format!("{:?} {:?}", keys, asked));
    Ok(())
}

/// C31: grouping hands on every element once, in order, in groups as long as can be.
pub fn c31_grouping(ctx: &mut Ctx) -> Res {
    struct Item {
        n: usize,
        key: f64,
        alive: Rc<Cell<i64>>,
    }
    impl Drop for Item {
        fn drop(&mut self) {
            self.alive.set(self.alive.get() - 1);
        }
    }
    let rng = &mut ctx.rng;
    let n = if rng.chance(1, 200) { rng.range(300, 20_000) as usize } else { rng.pick(&[0usize, 1, 2, 3, 8, 30, 300]) };
    let pool: Vec<f64> = match rng.below(4) {
        0 => vec![1.0],
        1 => vec![0.4, 0.6, 0.8, 1.0],
        2 => vec![0.0, -0.0, f64::NAN, f64::INFINITY],
        _ => (0..50).map(f64::from).collect(),
    };
    let stay = rng.pick(&[0u64, 1, 3, 10, 1000]);
    let mut keys: Vec<f64> = Vec::new();
    while keys.len() < n {
        let k = match keys.last() {
            Some(k) if rng.below(stay + 1) > 0 => *k,
            _ => rng.pick(&pool),
        };
        keys.push(k);
    }
    let take = if rng.chance(1, 4) { rng.idx(n + 1) } else { usize::MAX };
    let bits: Vec<u64> = keys.iter().map(|k| k.to_bits()).collect();
    ctx.sign(&bits);
    ctx.sign(&take);
    // the groups there are
    let mut want: Vec<Vec<usize>> = Vec::new();
    for (i, k) in keys.iter().enumerate() {
        if i > 0 && keys[i - 1] == *k {
            want.last_mut().unwrap().push(i);
        } else {
            want.push(vec![i]);
        }
    }
    let alive = Rc::new(Cell::new(0i64));
    let pulled = Rc::new(Cell::new(0usize));
    let (made, seen) = (alive.clone(), pulled.clone());
    let source_keys = keys.clone();
    let source = source_keys.into_iter().enumerate().map(move |(n, key)| {
        seen.set(n + 1);
        made.set(made.get() + 1);
        Item { n, key, alive: made.clone() }
    });
    let mut groups = somewhat_eager_groupby(source, |i: &Item| i.key);
    let mut given = 0;
    for (g, w) in want.iter().enumerate() {
        if g >= take {
            break;
        }
        let (k, items) = match groups.next() {
            Some(x) => x,
            None => fail!("{} groups instead of {} of {:?}", g, want.len(), keys),
        };
        let got: Vec<usize> = items.iter().map(|i| i.n).collect();
        ensure!(got == *w, "group {} is {:?} instead of {:?} of {:?}", g, got, w, keys);
        ensure!(k == keys[w[0]] || k.is_nan() && keys[w[0]].is_nan(), "the key of group {} is {} of {:?}", g, k, keys);
        given += w.len();
        ensure!(pulled.get() <= given + 1, "{} elements were taken for {} groups of {}: {:?}", pulled.get(), g + 1, given, keys);
        let waiting = (pulled.get() - given) as i64;
        ensure!(alive.get() == w.len() as i64 + waiting, "{} elements are alive with group {} of {:?} at hand", alive.get(), g, keys);
    }
    if take >= want.len() {
        ensure!(groups.next().is_none(), "more than {} groups of {:?}", want.len(), keys);
        ensure!(groups.next().is_none(), "a group after the last of {:?}", keys);
    }
    drop(groups);
    ensure!(alive.get() == 0, "{} elements are left of {:?}", alive.get(), keys);
    for level in 0u8..4 {
        let f = relev_int_to_float(level);
        ensure!(f == RELEV[level as usize] && relev_float_to_int(f) == level, "relevance level {} is {}", level, f);
    }
    ctx.count("groups", want.len() as u64);
    ctx.count("elements", given as u64);
    ctx.nontrivial = want.len() > 1;
    ctx.sample(|| format!("{:?}", keys));
    Ok(())
}
