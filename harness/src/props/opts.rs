//! Moving query options between zoom levels, and limiting them to nearby: C10, C11.

use crate::model::*;
use crate::util::*;
use carmen_core::gridstore::*;

/// The tile range at `to` that covers tile `v` at `from` (one axis): first and last tile.
fn scale(v: u16, from: u16, to: u16) -> (u64, u64) {
    let v = v as u64;
    if to <= from {
        let t = v >> (from - to);
        (t, t)
    } else {
        let m = 1u64 << (to - from);
        (v * m, v * m + m - 1)
    }
}

pub fn ref_bbox(b: [u16; 4], from: u16, to: u16) -> [u16; 4] {
    [
        scale(b[0], from, to).0 as u16,
        scale(b[1], from, to).0 as u16,
        scale(b[2], from, to).1 as u16,
        scale(b[3], from, to).1 as u16,
    ]
}

pub fn ref_point(p: [u16; 2], from: u16, to: u16) -> [u16; 2] {
    let one = |v: u16| -> u16 {
        let (a, b) = scale(v, from, to);
        // the upper left one of the middle tiles
        (a + (b - a) / 2) as u16
    };
    [one(p[0]), one(p[1])]
}

pub fn ref_adjust(o: &MatchOpts, to: u16) -> MatchOpts {
    MatchOpts {
        zoom: to,
        bbox: o.bbox.map(|b| ref_bbox(b, o.zoom, to)),
        proximity: o.proximity.map(|p| ref_point(p, o.zoom, to)),
    }
}

/// How many tiles 25 miles are at most.
fn ref_padding(zoom: u16) -> u64 {
    (25.0 / (24901.0 / (1u64 << zoom) as f64)).ceil() as u64
}

/// Is the tile within the nearby box, and the previous box?
pub fn ref_nearby(o: &MatchOpts, x: u16, y: u16) -> bool {
    let boxed = o.bbox.map_or(true, |b| in_bbox(x, y, &b));
    match o.proximity {
        None => boxed,
        Some(p) => {
            let pad = ref_padding(o.zoom) as i64;
            boxed
                && (x as i64 - p[0] as i64).abs() <= pad
                && (y as i64 - p[1] as i64).abs() <= pad
        }
    }
}

fn gen_point(rng: &mut Rng, zoom: u16) -> (u16, u16) {
    let max = 1u64 << zoom;
    match rng.below(4) {
        0 => {
            let e = |rng: &mut Rng| rng.pick(&[0, max - 1, max / 2, (max / 2).saturating_sub(1)]) as u16;
            (e(rng), e(rng))
        }
        _ => {
            let t = TileStyle::gen(rng, max);
            t.draw(rng)
        }
    }
}

fn gen_opts(rng: &mut Rng) -> MatchOpts {
    let zoom = rng.below(17) as u16;
    let proximity = if rng.chance(4, 5) {
        let (x, y) = gen_point(rng, zoom);
        Some([x, y])
    } else {
        None
    };
    let bbox = if rng.chance(3, 5) {
        let a = gen_point(rng, zoom);
        let b = if rng.chance(1, 4) { a } else { gen_point(rng, zoom) };
        Some([a.0.min(b.0), a.1.min(b.1), a.0.max(b.0), a.1.max(b.1)])
    } else {
        None
    };
    MatchOpts { zoom, proximity, bbox }
}

/// C10: boxes and points scale exactly between any two zoom levels.
pub fn c10_adjust(ctx: &mut Ctx) -> Res {
    let o = gen_opts(&mut ctx.rng);
    ctx.sign(&format!("{:?}", o));
    for to in 0..=16u16 {
        let got = o.adjust_to_zoom(to);
        let want = ref_adjust(&o, to);
        ensure!(got.zoom == to, "{:?} adjusted to zoom {} claims zoom {}", o, to, got.zoom);
        ensure!(got.bbox == want.bbox, "{:?} adjusted to zoom {}: box {:?} should be {:?}", o, to, got.bbox, want.bbox);
        ensure!(
            got.proximity == want.proximity,
            "{:?} adjusted to zoom {}: point {:?} should be {:?}",
            o, to, got.proximity, want.proximity
        );
        // in and back out again is where it started
        if to >= o.zoom {
            let back = got.adjust_to_zoom(o.zoom);
            ensure!(back == o, "{:?} adjusted to zoom {} and back is {:?}", o, to, back);
            ctx.count("round_trips", 1);
        }
        // out in one step is out in two steps
        if to < o.zoom {
            let mid = ctx.rng.range(to as u64, o.zoom as u64) as u16;
            let two = o.adjust_to_zoom(mid).adjust_to_zoom(to);
            ensure!(two == got, "{:?} out to {} by way of {} is {:?}, directly {:?}", o, to, mid, two, got);
            ctx.count("two_step_zooms", 1);
        }
        ctx.count("adjustments", 1);
    }
    ctx.nontrivial = o.bbox.is_some() || o.proximity.is_some();
    ctx.sample(|| format!("{:?}", o));
    Ok(())
}

/// C11: nearby keeps exactly the tiles within 25 miles of the point (whole tiles, rounded up).
pub fn c11_nearby(ctx: &mut Ctx) -> Res {
    let o = gen_opts(&mut ctx.rng);
    ctx.sign(&format!("{:?}", o));
    let got = o.with_nearby_only();
    ensure!(
        got.zoom == o.zoom && got.proximity == o.proximity,
        "limiting {:?} to nearby changed its zoom or its point: {:?}",
        o,
        got
    );
    let p = match o.proximity {
        None => {
            ensure!(got == o, "limiting {:?} to nearby without a point changed it to {:?}", o, got);
            ctx.count("without_a_point", 1);
            ctx.nontrivial = o.bbox.is_some();
            return Ok(());
        }
        Some(p) => p,
    };
    let max = (1i64 << o.zoom) - 1;
    let pad = ref_padding(o.zoom) as i64;
    let b = got.bbox;
    let inside = |x: u16, y: u16| b.map_or(true, |b| in_bbox(x, y, &b));
    // all the tiles around every edge that matters, kept within the world
    let mut xs: Vec<i64> = Vec::new();
    let mut ys: Vec<i64> = Vec::new();
    for d in -2..=2 {
        for s in &[-pad, 0, pad] {
            xs.push(p[0] as i64 + s + d);
            ys.push(p[1] as i64 + s + d);
        }
        if let Some(b) = o.bbox {
            xs.extend_from_slice(&[b[0] as i64 + d, b[2] as i64 + d]);
            ys.extend_from_slice(&[b[1] as i64 + d, b[3] as i64 + d]);
        }
        xs.extend_from_slice(&[d, max + d]);
        ys.extend_from_slice(&[d, max + d]);
    }
    for _ in 0..5 {
        xs.push(ctx.rng.below(max as u64 + 1) as i64);
        ys.push(ctx.rng.below(max as u64 + 1) as i64);
    }
    let mut kept = 0;
    for x in &xs {
        for y in &ys {
            if *x < 0 || *y < 0 || *x > max || *y > max {
                continue;
            }
            let (x, y) = (*x as u16, *y as u16);
            let want = ref_nearby(&o, x, y);
            ensure!(
                inside(x, y) == want,
                "{:?} limited to nearby is {:?}: tile ({}, {}) should be {} (25 miles are {} tiles)",
                o, b, x, y, if want { "kept" } else { "left out" }, pad
            );
            ctx.count("tiles_probed", 1);
            kept += want as u64;
        }
    }
    // limiting twice is limiting once
    ensure!(got.with_nearby_only() == got, "limiting {:?} to nearby twice differs from once", o);
    ctx.count("tiles_kept", kept);
    if kept == 0 {
        ctx.count("nothing_nearby_in_the_box", 1);
    }
    ctx.nontrivial = true;
    ctx.sample(|| format!("{:?} -> {:?}", o, got));
    Ok(())
}
