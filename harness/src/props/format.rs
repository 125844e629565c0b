//! The stored record format: C12, through the `verif_hooks` re-export.

use crate::util::*;
use carmen_core::gridstore::verif_hooks::*;
use std::collections::BTreeMap;

type Groups = Vec<(u8, Vec<(u32, Vec<u32>)>)>;

/// What is written, up to the part before which `stop` says to.
fn write(groups: &Groups, pads: &[(usize, Vec<usize>)], share: bool, stop: Option<usize>) -> Vec<u8> {
    let mut w = Writer::new();
    let mut n = 0;
    let mut rses = Vec::new();
    let mut pad = |w: &mut Writer, n: usize| {
        for (at, lens) in pads {
            if *at == n {
                // unrelated data in between pushes what follows to higher addresses
                for len in lens {
                    w.write_fixed_vec(&vec![0xDEAD_BEEFu32; *len]);
                }
            }
        }
        stop == Some(n)
    };
    // what may be referred to again
    let mut shared: BTreeMap<&[u32], FixedVecOffset<u32>> = BTreeMap::new();
    for (rs, coords) in groups {
        let mut cs = Vec::new();
        for (c, ids) in coords {
            if pad(&mut w, n) {
                return w.finish();
            }
            n += 1;
            let off = match shared.get(&ids[..]) {
                Some(off) if share => *off,
                _ => {
                    let off = w.write_fixed_vec(ids);
                    shared.insert(&ids[..], off);
                    off
                }
            };
            cs.push(Coord { coord: *c, ids: off });
        }
        if pad(&mut w, n) {
            return w.finish();
        }
        n += 1;
        rses.push(RelevScore { relev_score: *rs, coords: w.write_uniform_vec(&cs) });
    }
    if pad(&mut w, n) {
        return w.finish();
    }
    let rses = w.write_var_vec(&rses);
    w.write_fixed_scalar(PhraseRecord { relev_scores: rses });
    w.finish()
}

fn read(bytes: &[u8]) -> Result<Groups, String> {
    let reader = Reader::new(bytes);
    let record = read_phrase_record_from(&reader);
    let mut out = Vec::new();
    let rses = reader.read_var_vec(record.relev_scores);
    let raw = read_var_vec_raw(bytes, read_phrase_record_from(&reader).relev_scores);
    ensure!(raw.len() == rses.len(), "the same list has {} or {} members", raw.len(), rses.len());
    ensure!(rses.iter().count() == rses.len(), "a list of {} yields {} members", rses.len(), rses.iter().count());
    for (rs, rs2) in rses.iter().zip(raw.into_iter()) {
        ensure!(rs.relev_score == rs2.relev_score, "two readings of one list differ");
        let coords = reader.read_uniform_vec(rs.coords);
        let craw = read_uniform_vec_raw(bytes, rs2.coords);
        ensure!(coords.len() == craw.len(), "two readings of one list differ in length");
        ensure!(
            coords.iter().count() == coords.len() && coords.iter().map(|x| x.coord).eq(craw.into_iter().map(|x| x.coord)),
            "two readings of one list of {} differ", coords.len()
        );
        let mut cs = Vec::new();
        for (i, c) in craw.into_iter().enumerate() {
            let by_index = coords.get(i);
            let ids = reader.read_fixed_vec(c.ids);
            let ids2 = read_fixed_vec_raw(bytes, by_index.ids);
            let v: Vec<u32> = ids.iter().collect();
            ensure!(by_index.coord == c.coord, "member {} is {} or {}", i, by_index.coord, c.coord);
            ensure!(v.len() == ids.len(), "a list of {} yields {} members", ids.len(), v.len());
            ensure!(
                (0..v.len()).all(|i| ids2.get(i) == v[i]) && ids2.into_iter().eq(v.iter().cloned()),
                "reading ids by position differs from reading them in turn"
            );
            cs.push((c.coord, v));
        }
        ensure!(cs.len() == coords.len(), "a list of {} yields {} members", coords.len(), cs.len());
        out.push((rs.relev_score, cs));
    }
    Ok(out)
}

/// C12: a record reads back as it was written, wherever its parts lie.
pub fn c12_format(ctx: &mut Ctx) -> Res {
    let thorough = ctx.tier == Tier::Thorough;
    let mut placed = 0;
    let rng = &mut ctx.rng;
    let mut groups: Groups = Vec::new();
    // id lists that coordinates, near or far, may have in common
    let mut common: Vec<Vec<u32>> = Vec::new();
    let repeats = rng.pick(&[0u64, 1, 5]);
    let nrs = match rng.below(400) {
        0..=32 => rng.range(60, 64),
        33..=64 => rng.range(126, 130),
        65 => rng.range(16382, 16386),
        66..=69 => 0,
        _ => rng.range(1, 6),
    };
    // once in a while a list so long that its length takes three bytes or reaches beyond sixteen bits
    let mut long = if nrs < 20 { rng.below(400) } else { 400 };
    let edge = [0u32, 1, 127, 128, 255, 256, 65535, 65536, 0x7fff_ffff, 0xff00_0000, u32::MAX];
    for _ in 0..nrs {
        let nc = if nrs > 20 {
            rng.range(1, 2)
        } else {
            match rng.below(120) {
                _ if long == 0 => {
                    long = 400;
                    rng.pick(&[16383u64, 16384, 16385, 65535, 65536, 65537])
                }
                0..=9 => rng.range(126, 130),
                10..=19 => rng.range(254, 258),
                20..=29 => rng.range(1, 60),
                30 => 0,
                _ => rng.range(1, 6),
            }
        };
        let mut coords = Vec::new();
        for _ in 0..nc {
            let ni = match rng.below(40) {
                _ if nc > 1000 => rng.range(0, 1),
                _ if long == 1 => {
                    long = 400;
                    rng.pick(&[65535u64, 65536, 65537, 65792])
                }
                0 if nc < 60 => rng.range(126, 130),
                1 if nc < 20 => rng.range(16382, 16386),
                2 => rng.range(0, 40),
                _ => rng.range(1, 4),
            };
            let mut ids: Vec<u32> =
                (0..ni).map(|_| if rng.chance(1, 3) { rng.pick(&edge) } else { rng.next() as u32 }).collect();
            if !common.is_empty() && rng.chance(repeats, 10) {
                ids = rng.pick(&common);
            } else if common.len() < 8 {
                common.push(ids.clone());
            }
            coords.push((if rng.chance(1, 3) { rng.pick(&edge) } else { rng.next() as u32 }, ids));
        }
        groups.push((rng.next() as u8, coords));
    }
    let parts: usize = groups.iter().map(|g| g.1.len() + 1).sum();
    // push parts across the addresses where pointers get longer
    let mut pads: Vec<(usize, Vec<usize>)> = Vec::new();
    let share = rng.chance(1, 2);
    for _ in 0..rng.below(4) {
        let at = rng.idx(parts + 1);
        let jump = match rng.below(if thorough { 160 } else { 400 }) {
            0 => (1 << 24) / 4,
            1..=30 => (1 << 16) / 4,
            31..=34 => (1 << 21) / 4,
            35..=100 => (1 << 14) / 4,
            _ => 256 / 4,
        };
        let near = (jump as i64 + rng.range(0, 12) as i64 - 8).max(0) as usize;
        // so that a part starts just there
        let target = (jump * 4) as i64 + rng.range(0, 6) as i64 - 3;
        if rng.chance(1, 2) {
            let room = target - write(&groups, &pads, share, Some(at)).len() as i64;
            let len_len = |n: i64| [1 << 7, 1 << 14, 1 << 21].iter().filter(|l| n >= **l).count() as i64 + 1;
            if room > 0 {
                let mut n = room / 4;
                while n > 0 && len_len(n) + 4 * n > room {
                    n -= 1;
                }
                let rest = room - (len_len(n) + 4 * n);
                let mut lens = vec![n as usize];
                lens.extend((0..rest).map(|_| 0));
                pads.push((at, lens));
                let now = write(&groups, &pads, share, Some(at)).len() as i64;
                ensure!(now == target, "inconclusive: a part meant to start at {} starts at {}", target, now);
                placed += 1;
                continue;
            }
        }
        pads.push((at, vec![near]));
    }
    ctx.count("parts_placed_around_an_edge", placed);
    ctx.sign(&groups);
    ctx.sign(&pads);
    let bytes = write(&groups, &pads, share, None);
    let got = read(&bytes)?;
    if got != groups {
        for (i, (g, w)) in got.iter().zip(groups.iter()).enumerate() {
            ensure!(g.0 == w.0, "group {} was written as {} and reads as {} (record of {} bytes)", i, w.0, g.0, bytes.len());
            for (j, (gc, wc)) in g.1.iter().zip(w.1.iter()).enumerate() {
                ensure!(
                    gc == wc,
                    "group {} coordinate {} was written as {} with {} ids {:?}.. and reads as {} with {} ids {:?}.. (record of {} bytes)",
                    i, j, wc.0, wc.1.len(), &wc.1[..wc.1.len().min(4)], gc.0, gc.1.len(), &gc.1[..gc.1.len().min(4)], bytes.len()
                );
            }
            ensure!(g.1.len() == w.1.len(), "group {} lost coordinates: {} of {}", i, g.1.len(), w.1.len());
        }
        fail!("{} groups were written and {} read", groups.len(), got.len());
    }
    // a reader over an owned buffer sees the same
    let owned = Reader::new(bytes.clone());
    let rec = read_phrase_record_from(&owned);
    ensure!(owned.read_var_vec(rec.relev_scores).len() == groups.len(), "an owned buffer reads differently");
    #[cfg(feature = "format-more")]
    scalars(ctx, &groups, &pads)?;
    ctx.max("groups_of_a_record", groups.len() as u64);
    ctx.max("coordinates_of_a_group", groups.iter().map(|g| g.1.len() as u64).max().unwrap_or(0));
    ctx.max("ids_of_a_coordinate", groups.iter().flat_map(|g| g.1.iter().map(|c| c.1.len() as u64)).max().unwrap_or(0));
    ctx.count("groups", groups.len() as u64);
    ctx.count("coordinates", groups.iter().map(|g| g.1.len() as u64).sum());
    ctx.count("ids", groups.iter().flat_map(|g| g.1.iter().map(|c| c.1.len() as u64)).sum());
    ctx.max("record_bytes", bytes.len() as u64);
    match bytes.len() {
        0..=255 => ctx.count("records_under_256_bytes", 1),
        256..=65535 => ctx.count("records_under_65536_bytes", 1),
        65536..=16777215 => ctx.count("records_under_16777216_bytes", 1),
        _ => ctx.count("records_of_16777216_bytes_or_more", 1),
    }
    ctx.nontrivial = parts > 2;
    ctx.sample(|| format!("{} groups, {} parts, {} bytes, pads {:?}", groups.len(), parts, bytes.len(), pads));
    Ok(())
}

/// The same, one by one instead of in lists, several records in one buffer.
#[cfg(feature = "format-more")]
fn scalars(ctx: &mut Ctx, groups: &Groups, pads: &[(usize, Vec<usize>)]) -> Res {
    let mut w = Writer::new();
    let mut first = Vec::new();
    let mut written = Vec::new();
    for (n, (rs, coords)) in groups.iter().take(6).enumerate() {
        for (at, lens) in pads.iter() {
            if *at == n {
                for len in lens.iter().filter(|l| **l < 1 << 18) {
                    w.write_fixed_vec(&vec![0xDEAD_BEEFu32; *len]);
                }
            }
        }
        let mut singles = Vec::new();
        let mut list = Vec::new();
        for (c, ids) in coords.iter().take(4) {
            let coord = Coord { coord: *c, ids: w.write_fixed_vec(ids) };
            // any room that suffices does
            let least = coord.get_min_size();
            ensure!(least >= 4 && least <= Coord::MAX_SIZE, "a coordinate takes {} bytes", least);
            let size = ctx.rng.range(least as u64, Coord::MAX_SIZE as u64) as usize;
            singles.push((size, w.write_uniform_scalar_with_size(coord, size)));
            list.push(coord);
        }
        let of = w.write_uniform_vec(&list);
        let single = w.write_var_scalar(RelevScore { relev_score: *rs, coords: of });
        // behind it, so that it's the last bytes of no buffer
        let number = w.write_fixed_scalar(rs.wrapping_mul(77) as u32 ^ 0x1020_3040);
        let record = PhraseRecord { relev_scores: w.write_var_vec(&[RelevScore { relev_score: *rs, coords: of }]) };
        first.push(record);
        written.push((singles, single, number));
    }
    let records = w.write_fixed_vec(&first);
    let bytes = w.finish();
    let reader = Reader::new(&bytes[..]);
    let again = reader.read_fixed_vec(records);
    ensure!(again.len() == first.len(), "{} records are read as {}", first.len(), again.len());
    for (i, ((rs, coords), (singles, single, number))) in groups.iter().zip(written).enumerate() {
        for ((size, at), (c, ids)) in singles.iter().zip(coords.iter()) {
            let got: Coord = reader.read_uniform_scalar(*size, *at);
            let got_ids: Vec<u32> = reader.read_fixed_vec(got.ids).into_iter().collect();
            ensure!(got.coord == *c && got_ids == *ids, "a coordinate {} written on its own in {} bytes is read as {} with {} ids instead of {}", c, size, got.coord, got_ids.len(), ids.len());
        }
        let (got, len) = reader.read_var_scalar(single);
        let mut alone = Vec::new();
        let said = RelevScore { relev_score: got.relev_score, coords: got.coords }.write_to(&mut alone);
        ensure!(said == alone.len() && len == said, "a group of {} bytes is said to have {} written and {} read", alone.len(), said, len);
        let rec = again.get(i);
        let of = reader.read_var_vec(rec.relev_scores);
        let inner: Vec<RelevScore> = of.iter().collect();
        ensure!(inner.len() == 1 && inner[0].relev_score == *rs && got.relev_score == *rs, "a group {} is read as {}", rs, got.relev_score);
        let want: Vec<u32> = coords.iter().take(4).map(|c| c.0).collect();
        for l in &[got.coords, inner[0].coords] {
            let v = reader.read_uniform_vec(*l);
            ensure!(v.iter().map(|c| c.coord).eq(want.iter().cloned()), "a list of coordinates reads differently");
        }
        let n: u32 = reader.read_fixed_scalar(number);
        ensure!(n == rs.wrapping_mul(77) as u32 ^ 0x1020_3040, "a number is read as {:x}", n);
        ctx.count("scalars", singles.len() as u64 + 2);
    }
    Ok(())
}
