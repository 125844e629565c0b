//! Combining subqueries into stacks: C17, C18; and the bounded queue: C23.

use crate::model::*;
use crate::util::*;
use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type Sub = PhrasematchSubquery<Arc<GridStore>>;

pub fn bits(of: &BTreeSet<u16>) -> FixedBitSet {
    let mut b = FixedBitSet::with_capacity(128);
    for i in of {
        b.insert(*i as usize);
    }
    b
}

/// Which pairs of indexes may not be stacked (declared by both, or by one of them only).
pub fn gen_non_overlapping(rng: &mut Rng, idxs: &[u16], num: u64, den: u64) -> BTreeMap<u16, BTreeSet<u16>> {
    let mut out: BTreeMap<u16, BTreeSet<u16>> = BTreeMap::new();
    let one_sided = rng.chance(1, 3);
    for a in idxs {
        for b in idxs {
            if a < b && rng.chance(num, den) {
                let by = if one_sided { rng.below(3) } else { 2 };
                if by != 0 {
                    out.entry(*a).or_default().insert(*b);
                }
                if by != 1 {
                    out.entry(*b).or_default().insert(*a);
                }
            }
        }
    }
    out
}

/// Every valid stack, as lists of positions in `subs`.
pub fn ref_stacks(subs: &[Sub], limit: usize) -> Option<Vec<Vec<usize>>> {
    let mut by_type: BTreeMap<u16, Vec<usize>> = BTreeMap::new();
    for (i, s) in subs.iter().enumerate() {
        by_type.entry(s.store.type_id).or_default().push(i);
    }
    let types: Vec<Vec<usize>> = by_type.into_iter().map(|(_, v)| v).collect();
    let mut out = Vec::new();
    fn go(
        types: &[Vec<usize>],
        from: usize,
        path: &mut Vec<usize>,
        subs: &[Sub],
        out: &mut Vec<Vec<usize>>,
        limit: usize,
    ) -> bool {
        for t in from..types.len() {
            for i in &types[t] {
                let s = &subs[*i];
                let ok = path.iter().all(|j| {
                    let p = &subs[*j];
                    p.mask & s.mask == 0
                        && !p.non_overlapping_indexes.contains(s.idx as usize)
                        && !s.non_overlapping_indexes.contains(p.idx as usize)
                });
                if ok {
                    path.push(*i);
                    out.push(path.clone());
                    if out.len() > limit {
                        return false;
                    }
                    if !go(types, t + 1, path, subs, out, limit) {
                        return false;
                    }
                    path.pop();
                }
            }
        }
        true
    }
    if go(&types, 0, &mut Vec::new(), subs, &mut out, limit) {
        Some(out)
    } else {
        None
    }
}

thread_local! {
    static EMPTY: std::cell::RefCell<Option<(std::path::PathBuf, Vec<Arc<GridStore>>)>> = std::cell::RefCell::new(None);
}

/// One store per type id, with no content of interest, shared by all cases of a worker.
fn type_stores(ctx: &mut Ctx) -> Result<Vec<Arc<GridStore>>, String> {
    if let Some(v) = EMPTY.with(|e| e.borrow().as_ref().map(|x| x.1.clone())) {
        return Ok(v);
    }
    let p = ctx.fresh_path();
    let op = Op::Insert((0, 1), vec![]);
    build(&p, &[op], &[])?;
    let mut v = Vec::new();
    for t in 0..40u16 {
        let o = Opts { zoom: (t / 2).min(16), type_id: t, radius: 0.0, bboxes: vec![], max_score: 0.0 };
        v.push(Arc::new(open_with(&p, &o)?));
    }
    EMPTY.with(|e| *e.borrow_mut() = Some((p, v.clone())));
    Ok(v)
}

fn describe(subs: &[Sub], path: &[usize]) -> String {
    path.iter()
        .map(|i| {
            let s = &subs[*i];
            format!("#{}(type {} idx {} mask {:b} weight {})", i, s.store.type_id, s.idx, s.mask, s.weight)
        })
        .collect::<Vec<_>>()
        .join(" + ")
}

/// C17: the tree of stacks holds exactly the valid combinations.
pub fn c17_stackable(ctx: &mut Ctx) -> Res {
    let stores = type_stores(ctx)?;
    let rng = &mut ctx.rng;
    let big = rng.chance(1, 16);
    // many types, all of whose subqueries stack
    let deep = !big && rng.chance(1, 30);
    let ntypes = if deep { rng.range(7, 12) } else if big { rng.range(4, 6) } else { rng.range(1, 6) };
    let mut types: Vec<usize> = (0..40).collect();
    rng.shuffle(&mut types);
    types.truncate(ntypes as usize);
    let nidx = if deep { ntypes + rng.below(2) } else { rng.range(1, if big { 12 } else { 7 }) };
    let mut pool: Vec<u16> = (0..128).collect();
    rng.shuffle(&mut pool);
    let mut idxs: Vec<u16> = pool[..nidx as usize].to_vec();
    if rng.chance(1, 3) {
        idxs[0] = 0;
    }
    if rng.chance(1, 3) {
        let l = idxs.len();
        idxs[l - 1] = 127;
    }
    idxs.sort();
    idxs.dedup();
    let den = rng.pick(&[3u64, 6, 12]);
    let non = gen_non_overlapping(rng, &idxs, if big { 0 } else { 1 }, if deep { 60 } else { den });
    let idx_type: BTreeMap<u16, usize> =
        idxs.iter().enumerate().map(|(n, i)| (*i, if deep { types[n % types.len()] } else { rng.pick(&types) })).collect();
    let tokens = if deep { ntypes + rng.below(5) } else if big { rng.range(4, 8) } else { rng.range(1, 6) };
    let n = if deep { ntypes + rng.below(2) } else if big { rng.range(24, 60) } else { rng.range(1, 14) };
    let mut turn: Vec<u64> = (0..tokens).collect();
    rng.shuffle(&mut turn);
    let wstyle = rng.below(3);
    let subs: Vec<Sub> = (0..n)
        .map(|i| {
            let idx = if deep { idxs[i as usize % idxs.len()] } else { rng.pick(&idxs) };
            let (a, b) = if deep {
                let a = turn[i as usize % turn.len()];
                (a, a + 1)
            } else if big && rng.chance(4, 5) {
                let a = rng.below(tokens);
                (a, a + 1)
            } else {
                let a = rng.below(tokens);
                (a, rng.range(a + 1, tokens))
            };
            let mut mask = ((1u32 << b) - 1) & !((1u32 << a) - 1);
            if rng.chance(1, 10) {
                mask = mask.rotate_left(31 - b as u32 + 1);
            }
            // covering nothing, or all of the query
            if rng.chance(1, 24) {
                mask = rng.pick(&[0, 0, u32::MAX]);
            }
            let weight = match wstyle {
                0 => (b - a) as f64 / tokens as f64,
                1 => rng.pick(&[0.25, 0.5, 1.0, 0.3333333333333333, 0.2, 0.0]),
                _ => rng.f64() + 0.001,
            };
            PhrasematchSubquery {
                store: stores[idx_type[&idx]].clone(),
                idx,
                non_overlapping_indexes: bits(non.get(&idx).unwrap_or(&BTreeSet::new())),
                weight,
                mask,
                match_keys: vec![MatchKeyWithId { id: i as u32, ..MatchKeyWithId::default() }],
            }
        })
        .collect();
    for s in &subs {
        ctx.sign(&(s.idx, s.mask, s.weight.to_bits(), s.store.type_id));
    }
    ctx.sign(&format!("{:?}", non));
    let want = match ref_stacks(&subs, 120_000) {
        Some(w) => w,
        None => return Ok(()),
    };
    let tree = stackable(&subs);
    let mut got: BTreeSet<Vec<usize>> = BTreeSet::new();
    let mut max_relevs: Vec<(Vec<usize>, bool, f64)> = Vec::new();
    // walk
    let position = |p: &Sub| subs.iter().position(|s| std::ptr::eq(s, p));
    let mut todo = vec![(Vec::new(), tree.root.clone())];
    while let Some((path, node)) = todo.pop() {
        for c in &node.children {
            if let Some(child) = tree.arena.get(*c) {
                let sub = match child.phrasematch {
                    Some(s) => s,
                    None => fail!("a stack with no subquery in it below {}", describe(&subs, &path)),
                };
                let i = match position(sub) {
                    Some(i) => i,
                    None => fail!("a subquery in the tree that was not passed in"),
                };
                let mut p = path.clone();
                p.push(i);
                max_relevs.push((p.clone(), child.is_leaf(), child.max_relev));
                ensure!(got.insert(p.clone()), "the stack {} appears twice", describe(&subs, &p));
                ensure!(got.len() <= 1_000_000, "the tree has over a million stacks");
                todo.push((p, child.clone()));
            }
        }
    }
    let want_set: BTreeSet<Vec<usize>> = want.iter().cloned().collect();
    if let Some(p) = got.difference(&want_set).next() {
        fail!("{} is not a valid stack", describe(&subs, p));
    }
    let weight = |p: &[usize]| -> f64 { p.iter().map(|i| subs[*i].weight).sum() };
    // leaves: stacks that cannot be extended
    let mut inner: BTreeSet<&[usize]> = BTreeSet::new();
    for p in &want {
        inner.insert(&p[..p.len() - 1]);
    }
    let mut leaf_weights: Vec<f64> = Vec::new();
    for p in &want {
        if !inner.contains(&p[..]) {
            leaf_weights.push(weight(p));
        }
    }
    leaf_weights.sort_by(|a, b| b.partial_cmp(a).unwrap());
    ctx.max("complete_stacks_in_one_case", leaf_weights.len() as u64);
    if leaf_weights.len() < 2000 {
        if let Some(p) = want_set.difference(&got).next() {
            fail!("{} is a valid stack but is not in the tree", describe(&subs, p));
        }
        // the best that can still come of each stack
        let mut best: BTreeMap<&[usize], f64> = BTreeMap::new();
        for p in &want {
            let w = weight(p);
            for l in 1..=p.len() {
                let e = best.entry(&p[..l]).or_insert(w);
                if w > *e {
                    *e = w;
                }
            }
        }
        for (p, _, m) in &max_relevs {
            ensure!(
                close(*m, best[&p[..]]),
                "the best that can come of {} is {}, not {}",
                describe(&subs, p),
                best[&p[..]],
                m
            );
        }
        ctx.count("trees_compared_in_full", 1);
    } else {
        let floor = leaf_weights[1999] + 1e-9;
        for p in &want {
            if !inner.contains(&p[..]) && weight(p) > floor && !got.contains(p) {
                fail!(
                    "{} weighs {}, more than the 2000th best ({}), but is not in the tree",
                    describe(&subs, p),
                    weight(p),
                    floor
                );
            }
        }
        ctx.count("trees_over_the_limit", 1);
    }
    // no more than are needed for the heaviest 2000
    let mut kept: Vec<f64> = max_relevs.iter().filter(|(_, leaf, _)| *leaf).map(|m| m.2).collect();
    kept.sort_by(|a, b| b.partial_cmp(a).unwrap());
    if let Some(least) = kept.last() {
        let above = kept.iter().filter(|k| *k > least).count();
        ensure!(above <= 2000, "{} complete stacks are kept that are heavier than the lightest kept", above);
        ctx.max("complete_stacks_kept", kept.len() as u64);
    }
    ctx.count("stacks_checked", got.len() as u64);
    ctx.max("deepest_stack", got.iter().map(|p| p.len() as u64).max().unwrap_or(0));
    if got.iter().any(|p| p.len() > 2) {
        ctx.count("trees_with_stacks_of_three_or_more", 1);
    }
    ctx.nontrivial = got.iter().any(|p| p.len() > 1);
    ctx.sample(|| format!("{} subqueries, {} stacks; {}", subs.len(), want.len(), describe(&subs, &want[want.len() / 2])));
    Ok(())
}

/// C18: collapsing groups like subqueries and loses nothing.
pub fn c18_collapse(ctx: &mut Ctx) -> Res {
    let stores = type_stores(ctx)?;
    let rng = &mut ctx.rng;
    let many = rng.chance(1, 60);
    let n = if many { rng.pick(&[100, 400]) } else { rng.range(0, 24) };
    let (ni, nm, nw) = if many { (128, 4, 3) } else { (rng.range(1, 4), rng.range(1, 4), rng.range(1, 3)) };
    // some hard to tell apart
    let weights = match rng.below(3) {
        0 => [0.5, 0.25, 0.1 + 0.2],
        1 => [0.3, 0.1 + 0.2, 0.3 + 1e-9],
        _ => [1.0, 1.0 + f64::EPSILON, 1.0 / 3.0],
    };
    let masks: Vec<u32> = match rng.below(3) {
        0 => (0..4).map(|i| 1 << i).collect(),
        1 => lookalikes(rng, 32).into_iter().map(|m| m as u32).collect(),
        _ => (0..4).map(|_| 1 << rng.below(32)).collect(),
    };
    let idxs: Vec<u16> = match rng.below(2) {
        _ if many => (0..128).collect(),
        0 => (0..4).collect(),
        _ => lookalikes(rng, 7).into_iter().map(|m| m as u16).collect(),
    };
    let mut next = 0u32;
    let subs: Vec<Sub> = (0..n)
        .map(|_| {
            let idx = idxs[rng.below(ni) as usize % idxs.len()];
            let nk = rng.range(1, 4);
            PhrasematchSubquery {
                store: stores[idx as usize % stores.len()].clone(),
                idx,
                non_overlapping_indexes: bits(&[(idx + 7) % 128].iter().cloned().collect()),
                weight: weights[rng.below(nw) as usize],
                mask: masks[rng.below(nm) as usize % masks.len()],
                match_keys: (0..nk)
                    .map(|_| {
                        next += 1;
                        MatchKeyWithId {
                            id: next,
                            nearby_only: rng.chance(1, 2),
                            phrase_length: rng.range(0, 3) as usize,
                            key: MatchKey { match_phrase: MatchPhrase::Exact(rng.next() as u32), lang_set: rng.u128() },
                        }
                    })
                    .collect(),
            }
        })
        .collect();
    let show = |s: &Sub| -> String { serde_json::to_string(s).unwrap_or_default() };
    let mut want: Vec<Sub> = Vec::new();
    for s in &subs {
        match want.iter_mut().find(|w| w.weight == s.weight && w.idx == s.idx && w.mask == s.mask) {
            Some(w) => w.match_keys.extend(s.match_keys.iter().cloned()),
            None => want.push(s.clone()),
        }
    }
    ctx.sign(&subs.iter().map(show).collect::<Vec<_>>());
    let got = collapse_phrasematches(subs.clone());
    ensure!(got.len() == want.len(), "{} subqueries collapse into {}, not {}", subs.len(), got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        ensure!(show(g) == show(w), "group {} should be {} but is {}", i, show(w), show(g));
        ensure!(Arc::ptr_eq(&g.store, &w.store), "group {} refers to another store", i);
    }
    ctx.count("subqueries", subs.len() as u64);
    ctx.count("groups", got.len() as u64);
    ctx.count("match_keys", got.iter().map(|g| g.match_keys.len() as u64).sum());
    ctx.nontrivial = got.len() < subs.len() && got.len() > 1;
    ctx.sample(|| format!("{} subqueries into {} groups", subs.len(), got.len()));
    Ok(())
}

/// C23: the bounded queue keeps the greatest elements.
pub fn c23_queue(ctx: &mut Ctx) -> Res {
    let large = !cfg!(miri) && ctx.rng.chance(1, 600);
    let cap = match ctx.rng.below(5) {
        _ if large => ctx.rng.pick(&[100, 255, 256, 800]),
        0 => 0,
        1 => 1,
        2 => 40,
        _ => ctx.rng.range(2, 30),
    } as usize;
    let span = ctx.rng.pick(&[2u64, 5, 50, 1_000_000]);
    let n = if large { ctx.rng.range(0, 1500) } else { ctx.rng.range(0, 120) };
    let mut q = ConstrainedPriorityQueue::new(cap);
    let mut model: Vec<u64> = Vec::new(); // ascending
    let mut log = Vec::new();
    let order = ctx.rng.below(4);
    for i in 0..n {
        if ctx.rng.chance(1, 14) {
            let got = q.pop_max();
            let want = model.pop();
            log.push(format!("pop {:?}", got));
            ensure!(got == want, "cap {}: pop_max gives {:?} instead of {:?} after {:?}", cap, got, want, log);
            ctx.count("pops", 1);
        } else {
            let v = match order {
                0 => i,
                1 => n - i,
                _ => ctx.rng.below(span),
            };
            let kept = q.push(v);
            log.push(format!("push {}", v));
            let at = model.partition_point(|m| *m < v);
            model.insert(at, v);
            let should = if model.len() > cap {
                let dropped = model.remove(0);
                dropped < v
            } else {
                true
            };
            ensure!(kept == should, "cap {}: push {} reports {} after {:?}", cap, v, kept, log);
            ctx.count("pushes", 1);
            if !kept {
                ctx.count("pushes_refused", 1);
            }
        }
        ensure!(q.len() == model.len(), "cap {}: length {} instead of {} after {:?}", cap, q.len(), model.len(), log);
        ensure!(q.peek_max() == model.last(), "cap {}: greatest is {:?} instead of {:?}", cap, q.peek_max(), model.last());
        ensure!(q.peek_min() == model.first(), "cap {}: least is {:?} instead of {:?}", cap, q.peek_min(), model.first());
    }
    ctx.sign(&log);
    if ctx.rng.chance(1, 2) {
        let got = q.into_vec_desc();
        model.reverse();
        ensure!(got == model, "cap {}: holds {:?} instead of {:?}", cap, got, model);
    } else {
        let mut got: Vec<u64> = q.into_iter().collect();
        got.sort();
        ensure!(got == model, "cap {}: holds {:?} instead of {:?}", cap, got, model);
    }
    ctx.nontrivial = n as usize > cap && cap > 0;
    ctx.sample(|| format!("cap {}: {}", cap, log.join(", ")));
    Ok(())
}
