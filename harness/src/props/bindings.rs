//! The Node bindings against the library they wrap: C22. What they release: C32.
//!
//! A node process with the bindings loaded (bindings/driver.js) is told what to call; the same calls
//! are made here directly, and what comes back is compared value by value, number by number.

use super::coalesce::{gen_world, Shape, World};
use super::stack::Sub;
use crate::model::*;
use crate::util::*;
use carmen_core::gridstore::*;
use fuzzy_phrase::glue as fp;
use serde_json::{json, Map, Value};
use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

// ---------------------------------------------------------------------------------------------
// the node process

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    said: std::fs::File,
}

static NODE: Mutex<Option<Node>> = Mutex::new(None);

/// Longer than this without an answer is a hang.
const PATIENCE_MS: i32 = 120_000;

impl Node {
    fn start() -> Result<Node, String> {
        let addon = std::env::var("VERIF_ADDON").map_err(|_| "BROKEN: VERIF_ADDON is not set".to_string())?;
        let driver = crate::verif_dir().join("bindings/driver.js");
        let index = std::env::var("VERIF_INDEX_JS").unwrap_or_else(|_| "/repo/index.js".to_string());
        let fd = unsafe { libc::memfd_create(b"node-stderr\0".as_ptr() as *const libc::c_char, 0) };
        if fd < 0 {
            return Err("BROKEN: memfd_create".into());
        }
        let said = unsafe { std::fs::File::from_raw_fd(fd) };
        let err = said.try_clone().map_err(|e| format!("BROKEN: {}", e))?;
        let mut cmd = Command::new("node");
        cmd.arg("--expose-gc").arg("--max-old-space-size=512").arg(driver).arg(addon).arg(index);
        cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(err);
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // node reserves more address space than workers are allowed
                let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::getrlimit(libc::RLIMIT_AS, &mut l);
                l.rlim_cur = l.rlim_max;
                libc::setrlimit(libc::RLIMIT_AS, &l);
                Ok(())
            });
        }
        let mut child = cmd.spawn().map_err(|e| format!("BROKEN: node does not start: {}", e))?;
        let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Ok(Node { child, to, from, said })
    }
    fn last_words(&mut self) -> String {
        let mut s = String::new();
        let _ = self.said.seek(SeekFrom::Start(0));
        let _ = self.said.read_to_string(&mut s);
        let tail: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).take(8).collect();
        tail.join(" | ")
    }
    fn run(&mut self, scenario: &str) -> Result<Value, String> {
        let gone = |n: &mut Node| {
            let _ = n.child.kill();
            let status = n.child.wait().map(|s| s.to_string()).unwrap_or_default();
            format!("the node process ended ({}): {}", status, n.last_words())
        };
        if self.to.write_all(scenario.as_bytes()).and_then(|_| self.to.write_all(b"\n")).and_then(|_| self.to.flush()).is_err() {
            return Err(gone(self));
        }
        let mut line = String::new();
        if self.from.buffer().is_empty() {
            let mut p = libc::pollfd { fd: self.from.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 };
            loop {
                let r = unsafe { libc::poll(&mut p, 1, PATIENCE_MS) };
                if r == 0 {
                    let _ = self.child.kill();
                    let _ = self.child.wait();
                    return Err(format!("no answer within {} s", PATIENCE_MS / 1000));
                }
                if r > 0 {
                    break;
                }
            }
        }
        match self.from.read_line(&mut line) {
            Ok(n) if n > 0 && line.ends_with('\n') => {
                serde_json::from_str(&line).map_err(|e| format!("BROKEN: the driver wrote {:?}: {}", line, e))
            }
            _ => Err(gone(self)),
        }
    }
}

fn run(scenario: &Value) -> Result<Vec<Value>, String> {
    let mut slot = NODE.lock().unwrap_or_else(|e| e.into_inner());
    if slot.is_none() {
        *slot = Some(Node::start()?);
    }
    match slot.as_mut().unwrap().run(&scenario.to_string()) {
        Ok(v) => v["results"].as_array().cloned().ok_or_else(|| format!("BROKEN: no results: {}", v)),
        Err(e) => {
            if let Some(mut n) = slot.take() {
                let _ = n.child.kill();
                let _ = n.child.wait();
            }
            Err(e)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// values

fn num(v: f64) -> Value {
    if v.is_nan() {
        json!({"$": "nan"})
    } else if v == f64::INFINITY {
        json!({"$": "inf"})
    } else if v == f64::NEG_INFINITY {
        json!({"$": "-inf"})
    } else {
        json!(v)
    }
}
fn undefined() -> Value {
    json!({"$": "undefined"})
}
fn is_undefined(v: &Value) -> bool {
    v["$"] == "undefined"
}
fn number(v: &Value) -> Option<f64> {
    if let Some(n) = v.as_f64() {
        return Some(n);
    }
    if v["$"] == "f" {
        let bits = u64::from_str_radix(v["b"].as_str()?, 16).ok()?;
        return Some(f64::from_bits(bits));
    }
    None
}
/// The same value, down to the last bit of every number, and nothing besides.
fn same(what: &str, want: &Value, got: &Value) -> Res {
    match want {
        Value::Number(n) => {
            let w = n.as_f64().unwrap();
            match number(got) {
                Some(g) if g.to_bits() == w.to_bits() => Ok(()),
                _ => Err(format!("{}: {} instead of {}", what, got, want)),
            }
        }
        Value::Array(w) => {
            let g = got.as_array().ok_or_else(|| format!("{}: {} instead of a list of {}", what, got, w.len()))?;
            ensure!(g.len() == w.len(), "{}: {} values instead of {}: {}", what, g.len(), w.len(), got);
            for (i, (a, b)) in w.iter().zip(g.iter()).enumerate() {
                same(&format!("{}[{}]", what, i), a, b)?;
            }
            Ok(())
        }
        Value::Object(w) => {
            let g = got.as_object().ok_or_else(|| format!("{}: {} instead of {}", what, got, want))?;
            for k in w.keys().chain(g.keys()) {
                match (w.get(k), g.get(k)) {
                    (Some(a), Some(b)) => same(&format!("{}.{}", what, k), a, b)?,
                    (Some(_), None) => fail!("{}.{} is missing: {}", what, k, got),
                    _ => fail!("{}.{} was added: {}", what, k, got),
                }
            }
            Ok(())
        }
        _ if want == got => Ok(()),
        _ => Err(format!("{}: {} instead of {}", what, got, want)),
    }
}

fn entry_js(e: &GridEntry) -> Value {
    json!({"relev": num(e.relev), "score": e.score, "x": e.x, "y": e.y, "id": e.id, "source_phrase_hash": e.source_phrase_hash})
}
fn context_js(c: &CoalesceContext) -> Value {
    let entries: Vec<Value> = c
        .entries
        .iter()
        .map(|e| {
            json!({"grid_entry": entry_js(&e.grid_entry), "matches_language": e.matches_language, "idx": e.idx,
                "tmp_id": e.tmp_id, "mask": e.mask, "distance": num(e.distance), "scoredist": num(e.scoredist),
                "phrasematch_id": e.phrasematch_id})
        })
        .collect();
    json!({"mask": c.mask, "relev": num(c.relev), "entries": entries})
}
fn langs_of(set: u128) -> Vec<u32> {
    (0..128).filter(|i| set >> i & 1 == 1).collect()
}
/// A set of languages as a caller may write it.
fn langs_js(rng: &mut Rng, set: u128) -> Value {
    if set == u128::MAX && rng.chance(2, 3) {
        return if rng.chance(1, 2) { Value::Null } else { undefined() };
    }
    let mut l = langs_of(set);
    if rng.chance(1, 2) {
        rng.shuffle(&mut l);
    }
    if rng.chance(1, 4) && !l.is_empty() {
        l.push(l[0]);
    }
    // languages there is no room for are left out
    if rng.chance(1, 6) {
        let extra = rng.pick(&[128u32, 129, 200, 256, 1 << 20, u32::MAX]);
        let at = rng.idx(l.len() + 1);
        l.insert(at, extra);
    }
    json!(l)
}
fn key_js(rng: &mut Rng, k: &Key) -> Value {
    let langs = langs_js(rng, k.1);
    if is_undefined(&langs) && rng.chance(1, 2) {
        return json!({"phrase_id": k.0});
    }
    json!({"phrase_id": k.0, "lang_set": langs})
}
fn words_js(words: &[u32]) -> Value {
    json!({"$": "words", "words": words})
}
/// Now and then the same value reached in another way.
fn disguise(rng: &mut Rng, v: Value) -> Value {
    if (v.is_array() || v.is_object()) && v.get("$").is_none() && rng.chance(1, 12) {
        return json!({"$": "getters", "of": v});
    }
    v
}
fn undisguised(v: &Value) -> Value {
    match v {
        Value::Object(o) if v["$"] == "getters" => undisguised(&o["of"]),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), undisguised(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(undisguised).collect()),
        _ => v.clone(),
    }
}

// ---------------------------------------------------------------------------------------------
// values that do not belong

/// What an argument, or a part of one, has to be.
#[derive(Clone, Debug)]
enum Kind {
    Whole(u64),
    Float,
    Text,
    Flag,
    List(Box<Kind>),
    Tuple(Vec<Kind>),
    Record(Vec<(&'static str, Kind)>),
    Maybe(Box<Kind>),
    Langs,
    Phrase,
    Words,
    Store,
    Call,
}
use Kind::*;

fn wrong_scalar(rng: &mut Rng) -> Value {
    match rng.below(12) {
        0 => json!([]),
        1 => json!({}),
        2 => json!({"$": "function"}),
        3 => json!({"$": "symbol"}),
        4 => json!({"$": "bigint", "v": "1"}),
        5 => json!({"$": "date"}),
        6 => json!({"$": "throwing"}),
        7 => json!([1]),
        8 => json!({"value": 1}),
        9 => words_js(&[1, 2]),
        10 => json!({"$": "typed", "words": [1, 2]}),
        _ => json!([[]]),
    }
}
fn nothing(rng: &mut Rng) -> Value {
    if rng.chance(1, 2) {
        Value::Null
    } else {
        undefined()
    }
}
/// A value that is no `kind`, given one that is.
fn wrong(rng: &mut Rng, kind: &Kind, good: &Value) -> Value {
    match kind {
        Whole(max) => match rng.below(9) {
            0 => wrong_scalar(rng),
            1 => nothing(rng),
            2 => rng.pick(&[json!(true), json!(false), json!("1"), json!("")]),
            3 => rng.pick(&[json!(-1), json!(-128), json!(-1e300), json!(i32::min_value())]),
            4 => rng.pick(&[json!(0.5), json!(-0.5), json!(1.000001), json!(1e-300), json!(254.99)]),
            5 => json!({"$": "nan"}),
            _ if *max >= 1 << 53 => json!(-1),
            6 => rng.pick(&[json!({"$": "inf"}), json!({"$": "-inf"}), json!(1e300), json!(*max as f64 * 2.0 + 2.0), json!(9.3e18)]),
            _ => json!(max + 1),
        },
        Float => match rng.below(3) {
            0 => wrong_scalar(rng),
            1 => nothing(rng),
            _ => rng.pick(&[json!(true), json!("0.5"), json!("")]),
        },
        Text => match rng.below(3) {
            0 => wrong_scalar(rng),
            1 => nothing(rng),
            _ => rng.pick(&[json!(true), json!(1), json!(0.5)]),
        },
        Flag => match rng.below(3) {
            0 => wrong_scalar(rng),
            1 => Value::Null,
            _ => rng.pick(&[json!("true"), json!(1), json!(0)]),
        },
        Words => match rng.below(4) {
            0 => nothing(rng),
            1 => rng.pick(&[json!(1), json!("words"), json!(true)]),
            2 => json!({"$": "typed", "words": [0, 1, 2]}),
            _ => rng.pick(&[json!([0, 1, 2]), json!({}), json!({"$": "function"}), json!({"$": "throwing"})]),
        },
        Store | Call => match rng.below(3) {
            0 => loop {
                let v = wrong_scalar(rng);
                if v["$"] != "function" {
                    break v;
                }
            },
            1 => nothing(rng),
            _ => rng.pick(&[json!(true), json!(1), json!("store")]),
        },
        List(_) | Tuple(_) | Langs | Record(_) | Phrase if rng.chance(1, 4) => match kind {
            Record(_) | Phrase => rng.pick(&[json!(1), json!("x"), json!(true), Value::Null, undefined(), json!({}), json!({"$": "function"}), json!({"$": "throwing"})]),
            Langs => rng.pick(&[json!(1), json!("en"), json!(true), json!({}), json!({"0": 1, "length": 1}), json!({"$": "typed", "words": [0]}), json!({"$": "throwing"})]),
            _ => match rng.below(3) {
                0 => nothing(rng),
                1 => rng.pick(&[json!(1), json!("x"), json!(true)]),
                _ => rng.pick(&[json!({}), json!({"0": 1, "length": 1}), json!({"$": "typed", "words": [0, 0, 9, 9]}), json!({"$": "throwing"}), json!({"$": "function"}), json!({"$": "sparse", "n": 5}), json!({"$": "sparse", "n": 4294967295u32})]),
            },
        },
        Langs => {
            // one bad language among good ones
            let mut l = good.as_array().cloned().unwrap_or_default();
            let bad = match rng.below(5) {
                0 => nothing(rng),
                1 => rng.pick(&[json!("1"), json!(true), json!([]), json!({}), json!({"$": "bigint", "v": "1"})]),
                2 => rng.pick(&[json!(-1), json!(-200), json!({"$": "-inf"})]),
                3 => json!({"$": "nan"}),
                _ => rng.pick(&[json!(0.5), json!(-0.5), json!(127.5), json!(1.25)]),
            };
            let at = rng.idx(l.len() + 1);
            l.insert(at, bad);
            json!(l)
        }
        Phrase => {
            let u32k = Whole(u32::max_value() as u64);
            match rng.below(5) {
                0 => json!({"Exact": wrong(rng, &u32k, &json!(0))}),
                1 => json!({"Range": {"start": wrong(rng, &u32k, &json!(0)), "end": 3}}),
                2 => json!({"Range": {"start": 0, "end": wrong(rng, &u32k, &json!(0))}}),
                3 => rng.pick(&[json!({"Range": {"start": 0}}), json!({"Range": {"end": 9}}), json!({"Range": {}}), json!({"Range": 3}), json!({"Range": null}), json!("Range")]),
                _ => rng.pick(&[json!("Exact"), json!({"exact": 1}), json!({"Other": 1}), json!({"Exact": 1, "Range": {"start": 0, "end": 1}}), json!("Other"), json!("")]),
            }
        }
        List(of) => {
            let mut l = good.as_array().cloned().unwrap_or_default();
            if l.is_empty() {
                l.push(wrong(rng, of, &Value::Null));
            } else {
                let at = rng.idx(l.len());
                l[at] = wrong(rng, of, &l[at].clone());
            }
            json!(l)
        }
        Tuple(of) => {
            let mut l = good.as_array().cloned().unwrap_or_default();
            if l.len() != of.len() || rng.chance(1, 3) {
                let keep = rng.idx(of.len());
                l.truncate(keep);
            } else {
                let at = rng.idx(of.len());
                l[at] = wrong(rng, &of[at], &l[at].clone());
            }
            json!(l)
        }
        Record(fields) => {
            let mut o = good.as_object().cloned().unwrap_or_default();
            let (name, of) = rng.pick(fields);
            let optional = match of {
                Maybe(_) | Langs | Flag => true,
                _ => false,
            };
            if !optional && rng.chance(1, 4) {
                o.remove(name);
            } else {
                let was = o.get(name).cloned().unwrap_or(Value::Null);
                let now = wrong(rng, &of, &was);
                o.insert(name.to_string(), now);
            }
            Value::Object(o)
        }
        Maybe(of) => loop {
            let w = wrong(rng, of, good);
            if !w.is_null() && !is_undefined(&w) {
                break w;
            }
        },
    }
}

fn u8k() -> Kind {
    Whole(255)
}
fn u16k() -> Kind {
    Whole(65535)
}
fn u32k() -> Kind {
    Whole(u32::max_value() as u64)
}
fn fixed(n: usize) -> Kind {
    Tuple(vec![u16k(); n])
}
fn key_kind() -> Kind {
    Record(vec![("phrase_id", u32k()), ("phrase_id", u32k()), ("lang_set", Langs)])
}
fn entry_kind() -> Kind {
    Record(vec![
        ("relev", Float), ("score", u8k()), ("x", u16k()), ("y", u16k()), ("id", u32k()), ("source_phrase_hash", u8k()),
    ])
}
fn store_opts_kind() -> Kind {
    Record(vec![
        ("zoom", u16k()), ("type_id", u16k()), ("coalesce_radius", Float),
        ("bboxes", List(Box::new(fixed(4)))), ("max_score", Float),
    ])
}
fn opts_kind() -> Kind {
    let many = |n| Maybe(Box::new(fixed(n)));
    Record(vec![("zoom", u16k()), ("proximity", many(2)), ("bbox", many(4))])
}
fn match_kind() -> Kind {
    Record(vec![
        ("store", Store), ("weight", Float), ("mask", u32k()), ("id", u32k()), ("idx", u16k()), ("nearby_only", Flag),
        ("match_key", Record(vec![("match_phrase", Phrase), ("lang_set", Langs)])),
        ("non_overlapping_indexes", List(Box::new(u32k()))), ("phrase", Text),
    ])
}

/// The arguments with one of them made wrong, or left out.
fn spoilt(rng: &mut Rng, kinds: &[Kind], args: &[Value]) -> Vec<Value> {
    let mut args: Vec<Value> = args.iter().map(undisguised).collect();
    let at = rng.idx(kinds.len());
    if rng.chance(1, 8) {
        args.truncate(at);
    } else {
        args[at] = wrong(rng, &kinds[at], &args[at].clone());
    }
    args
}

// ---------------------------------------------------------------------------------------------
// scenarios

/// What one operation must result in.
enum Want {
    Value(Value),
    Threw,
    /// called back once with these contexts
    Answer(Value),
    /// never called back
    Refused,
    Together(Vec<Want>),
    /// the next keys of an iterator
    Keys(Vec<Key>, usize),
    Ignore,
}

#[derive(Default)]
struct Plan {
    ops: Vec<Value>,
    wants: Vec<Want>,
    hostile: u64,
    /// to be done over and over, looking at what is left instead of at what comes back
    over: bool,
}
impl Plan {
    fn push(&mut self, op: Value, want: Want) {
        self.ops.push(op);
        self.wants.push(want);
    }
    fn call(&mut self, on: &str, m: &str, args: Vec<Value>, want: Want) {
        self.push(json!({"op": "call", "on": on, "m": m, "args": args}), want)
    }
    fn bad_call(&mut self, rng: &mut Rng, on: &str, m: &str, kinds: &[Kind], args: &[Value]) {
        let args = spoilt(rng, kinds, args);
        self.hostile += 1;
        self.call(on, m, args, Want::Threw)
    }
    fn run(self, ctx: &mut Ctx) -> Res {
        if self.over {
            return self.run_over(ctx);
        }
        let results = run(&json!({"ops": self.ops}))?;
        ensure!(results.len() == self.wants.len(), "BROKEN: {} results for {} operations", results.len(), self.wants.len());
        for (i, (want, got)) in self.wants.iter().zip(results.iter()).enumerate() {
            meets(ctx, want, got).map_err(|e| {
                let mut op = self.ops[i].to_string();
                if op.len() > 500 {
                    let cut = (0..=500).rev().find(|c| op.is_char_boundary(*c)).unwrap();
                    op.truncate(cut);
                }
                format!("operation {} of {}, {}: {}", i + 1, self.ops.len(), op, e)
            })?;
        }
        ctx.count("calls_made", self.ops.len() as u64);
        ctx.count("wrong_arguments_refused", self.hostile);
        Ok(())
    }
}

const OVER_FIRST: [u64; 2] = [3, 9];
const OVER_AT_MOST: u64 = 576;

impl Plan {
    /// The same calls over and over. What the pools keep at hand may grow for a while, so more
    /// memory in use is wrong only if it goes on growing, however often the calls are made.
    fn run_over(mut self, ctx: &mut Ctx) -> Res {
        // now and then left off half way: what is done last is what may linger
        if ctx.rng.chance(1, 2) && !self.ops.is_empty() {
            let keep = ctx.rng.range(1, self.ops.len() as u64) as usize;
            self.ops.truncate(keep);
        }
        let mut marks: Vec<i64> = Vec::new();
        let mut done = 0u64;
        let mut times = 0;
        for step in 0.. {
            times = match OVER_FIRST.get(step) {
                Some(t) => *t,
                None => times * 4,
            };
            let results = run(&json!({"ops": [{"op": "over", "ops": self.ops, "n": times}]}))?;
            let live = |i: usize| results.get(0).and_then(|r| r["live"][i].as_i64()).ok_or_else(|| format!("BROKEN: {:?}", results));
            done += times;
            for (i, what) in ["databases", "values read", "database iterators"].iter().enumerate() {
                ensure!(
                    live(i)? == 0,
                    "after these calls, made {} times, and with everything collected, {} {} are still open: {}",
                    done, live(i)?, what, self.told()
                );
            }
            marks.push(live(3)?);
            let grows = step > 0 && marks[step] - marks[step - 1] >= times as i64 * 4;
            if step > 0 && !grows {
                break;
            }
            ensure!(
                times < OVER_AT_MOST,
                "these calls over and over leave more memory in use every time, {:?} bytes after {} times and more: {}",
                marks, OVER_FIRST[0], self.told()
            );
        }
        ctx.count("repetitions", done);
        ctx.count("calls_made", done * self.ops.len() as u64);
        ctx.count("wrong_arguments_refused", done * self.hostile);
        ctx.max("most_repetitions_of_one_piece_of_work", done);
        ctx.max("bytes_in_use_after_the_last_repetition", marks[marks.len() - 1].max(0) as u64);
        Ok(())
    }
    fn told(&self) -> String {
        let mut all = json!(self.ops).to_string();
        if all.len() > 1500 {
            let cut = (0..=1500).rev().find(|c| all.is_char_boundary(*c)).unwrap();
            all.truncate(cut);
        }
        all
    }
}

fn meets(ctx: &mut Ctx, want: &Want, got: &Value) -> Res {
    match want {
        Want::Ignore => Ok(()),
        Want::Value(v) => {
            ensure!(got.get("threw").is_none(), "threw {} instead of returning {}", got["threw"], v);
            ctx.count("values_compared", 1);
            same("value", v, &got["value"])
        }
        Want::Threw => {
            ensure!(got.get("threw").is_some(), "returned {} instead of throwing", got["value"]);
            Ok(())
        }
        Want::Answer(v) => {
            ensure!(got.get("threw").is_none(), "threw {} instead of asking", got["threw"]);
            ensure!(got["calls"] == 1, "called back {} times", got["calls"]);
            ensure!(got["early"] == 0, "called back before returning");
            ensure!(got["args"] == 2, "called back with {} arguments", got["args"]);
            ensure!(got["err"].is_null(), "called back with the error {}", got["err"]);
            ensure!(is_undefined(&got["returned"]), "returned {}", got["returned"]);
            ctx.count("answers_compared", 1);
            ctx.count("contexts_compared", v.as_array().map_or(0, |a| a.len() as u64));
            same("answer", v, &got["value"])
        }
        Want::Refused => {
            ensure!(got.get("threw").is_some(), "accepted, and called back with {} {}", got["err"], got["value"]);
            ensure!(got["calls"] == 0, "threw and called back {} times", got["calls"]);
            Ok(())
        }
        Want::Together(all) => {
            let rs = got["all"].as_array().ok_or_else(|| format!("BROKEN: {}", got))?;
            for (i, (w, g)) in all.iter().zip(rs.iter()).enumerate() {
                meets(ctx, w, g).map_err(|e| format!("question {} of {} at once: {}", i + 1, all.len(), e))?;
            }
            Ok(())
        }
        Want::Keys(keys, n) => {
            let rs = got["value"].as_array().ok_or_else(|| format!("threw {}", got["threw"]))?;
            ensure!(rs.len() == *n, "BROKEN: {} of {} steps", rs.len(), n);
            for (i, r) in rs.iter().enumerate() {
                let w = match keys.get(i) {
                    Some(k) => json!({"done": false, "value": {"phrase_id": k.0, "lang_set": langs_of(k.1)}}),
                    None => json!({"done": true}),
                };
                same(&format!("step {}", i + 1), &w, r)?;
            }
            ctx.count("keys_iterated", rs.len() as u64);
            Ok(())
        }
    }
}

pub fn c22_bindings(ctx: &mut Ctx) -> Res {
    std::fs::create_dir_all(&ctx.dir).map_err(|e| e.to_string())?;
    match ctx.rng.below(8) {
        0..=3 => store_case(ctx, false),
        4..=6 => question_case(ctx, false),
        _ => phrase_case(ctx, false),
    }
}
/// C32: the same scenarios, over and over in one process.
pub fn c32_bindings_release(ctx: &mut Ctx) -> Res {
    std::fs::create_dir_all(&ctx.dir).map_err(|e| e.to_string())?;
    match ctx.rng.below(8) {
        0..=3 => store_case(ctx, true),
        4..=6 => question_case(ctx, true),
        _ => phrase_case(ctx, true),
    }
}

fn outcome<T, E>(r: Result<T, E>, value: Value) -> Want {
    match r {
        Ok(_) => Want::Value(value),
        Err(_) => Want::Threw,
    }
}

/// One building call as it is made from JavaScript: method, arguments, what the arguments must be.
fn op_js(rng: &mut Rng, op: &Op) -> (&'static str, Vec<Value>, Vec<Kind>) {
    match op {
        Op::Insert(k, es) | Op::Append(k, es) => {
            let entries: Vec<Value> = es.iter().map(entry_js).map(|e| disguise(rng, e)).collect();
            let m = if let Op::Insert(..) = op { "insert" } else { "append" };
            let entries = disguise(rng, json!(entries));
            (m, vec![key_js(rng, k), entries], vec![key_kind(), List(Box::new(entry_kind()))])
        }
        Op::Compact { key, relev, score, id, hash, coords } => (
            "compactAppend",
            vec![key_js(rng, key), num(*relev), json!(score), json!(id), json!(hash), disguise(rng, json!(coords))],
            vec![key_kind(), Float, u8k(), u32k(), u8k(), List(Box::new(fixed(2)))],
        ),
    }
}

fn text(p: &std::path::Path) -> String {
    p.to_str().unwrap().to_string()
}

fn store_case(ctx: &mut Ctx, over: bool) -> Res {
    let (pools, ops) = super::storage::gen_ops(ctx, true);
    let (path, twin_path) = (ctx.fresh_path(), ctx.fresh_path());
    let mut plan = Plan { over, ..Plan::default() };
    let rng = &mut ctx.rng;
    if rng.chance(1, 8) {
        let w = wrong(rng, &Text, &Value::Null);
        plan.hostile += 1;
        plan.push(json!({"op": "new", "class": "GridStoreBuilder", "as": "bad", "args": [w]}), Want::Threw);
    }
    plan.push(json!({"op": "new", "class": "GridStoreBuilder", "as": "b", "args": [text(&path)]}), Want::Value(undefined()));
    let mut twin = GridStoreBuilder::new(&twin_path).map_err(|e| e.to_string())?;
    let mut model = Model::default();
    for op in &ops {
        let (m, args, kinds) = op_js(rng, op);
        if rng.chance(1, 3) {
            plan.bad_call(rng, "b", m, &kinds, &args);
        }
        plan.call("b", m, args, outcome(apply(&mut twin, op), undefined()));
        model.apply(op);
    }
    let mut renumbered = false;
    if rng.chance(1, 4) {
        let top = model.data.keys().map(|k| k.0).max().unwrap_or(0);
        if top < 100_000 {
            // sometimes too short to renumber everything
            let n = if rng.chance(1, 6) { top } else { top + 1 + rng.below(3) as u32 };
            let mut map: Vec<u32> = (0..n).map(|i| i.wrapping_mul(3).wrapping_add(7)).collect();
            if rng.chance(1, 2) {
                rng.shuffle(&mut map);
            }
            if rng.chance(1, 2) {
                plan.bad_call(rng, "b", "renumber", &[Words], &[words_js(&map)]);
            }
            plan.call("b", "renumber", vec![words_js(&map)], outcome(twin.renumber(&map), undefined()));
            renumbered = true;
            ctx.count("renumbered", 1);
        }
    }
    let rng = &mut ctx.rng;
    if rng.chance(1, 2) {
        let bounds = gen_bounds(rng, &pools.phrases);
        if rng.chance(1, 3) {
            plan.bad_call(rng, "b", "loadBinBoundaries", &[Words], &[words_js(&bounds)]);
        }
        plan.call("b", "loadBinBoundaries", vec![words_js(&bounds)], outcome(twin.load_bin_boundaries(bounds.clone()), undefined()));
    }
    plan.call("b", "finish", vec![], outcome(twin.finish(), undefined()));
    // a finished build takes nothing more
    for _ in 0..rng.below(3) {
        match rng.below(4) {
            0 => plan.call("b", "finish", vec![], Want::Threw),
            1 => plan.call("b", "renumber", vec![words_js(&[0, 1, 2])], Want::Threw),
            2 => plan.call("b", "loadBinBoundaries", vec![words_js(&[0, 1])], Want::Threw),
            _ => {
                let op = pools.op(rng, 2);
                let (m, args, _) = op_js(rng, &op);
                plan.call("b", m, args, Want::Threw);
            }
        }
    }
    let twin = open(&twin_path)?;
    // what was built, read through the bindings
    let plain = rng.chance(1, 2);
    let opts = json!({"zoom": rng.below(17), "type_id": rng.below(9), "coalesce_radius": rng.pick(&[0.0, 1.5, 400.25]),
        "bboxes": [[0, 0, 65535, 65535], [1, 2, 3, 4]], "max_score": rng.pick(&[0.0, 1.0, 0.3])});
    let args = if plain { json!([text(&path)]) } else { json!([text(&path), opts]) };
    if rng.chance(1, 3) {
        let bad = spoilt(rng, &[Text, store_opts_kind()], &[json!(text(&path)), opts]);
        // without options is a way to open it
        if bad.len() != 1 {
            plan.hostile += 1;
            plan.push(json!({"op": "new", "class": "GridStore", "as": "bad", "args": bad}), Want::Threw);
        }
    }
    if rng.chance(1, 6) {
        plan.push(json!({"op": "new", "class": "GridStore", "as": "bad", "args": [text(&path.join("nowhere"))]}), Want::Threw);
    }
    plan.push(json!({"op": "new", "class": "GridStore", "as": "s", "args": args}), Want::Value(undefined()));
    let keys: Vec<Key> = twin.keys().map(|k| k.map(|k| (k.phrase_id, k.lang_set)).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
    let js_keys: Vec<Value> = keys.iter().map(|k| json!({"phrase_id": k.0, "lang_set": langs_of(k.1)})).collect();
    plan.push(json!({"op": "keys", "on": "s"}), Want::Value(json!(js_keys)));
    let mut asked: Vec<Key> = keys.clone();
    rng.shuffle(&mut asked);
    asked.truncate(12);
    for _ in 0..3 {
        asked.push(pools.key(rng));
    }
    for k in &asked {
        let js = key_js(rng, k);
        if rng.chance(1, 5) {
            plan.bad_call(rng, "s", "get", &[key_kind()], &[js.clone()]);
        }
        let found = twin.get(&gk(k)).map_err(|e| e.to_string())?;
        let want = match found {
            Some(es) => json!(es.map(|e| entry_js(&e)).collect::<Vec<_>>()),
            None => undefined(),
        };
        plan.call("s", "get", vec![disguise(rng, js)], Want::Value(want));
    }
    // iterators that outlive the handle of their store, taken in turns
    let n = rng.range(1, 3) as usize;
    let mut at = vec![0usize; n];
    for i in 0..n {
        plan.push(json!({"op": "iterate", "on": "s", "as": format!("i{}", i)}), Want::Ignore);
    }
    for step in 0..rng.range(2, 6) {
        if step == 1 {
            plan.push(json!({"op": "drop", "h": "s"}), Want::Ignore);
            if rng.chance(1, 4) {
                plan.push(json!({"op": "gc"}), Want::Ignore);
            }
        }
        let (i, take) = (rng.idx(n), rng.range(1, 6) as usize);
        let here = keys.get(at[i]..).unwrap_or(&[]).iter().take(take).cloned().collect();
        plan.push(json!({"op": "next", "on": format!("i{}", i), "n": take}), Want::Keys(here, take));
        at[i] += take;
    }
    if rng.chance(1, 20) {
        let all = json!({"nonPrefix": 0, "anyPrefix": 1, "wordBoundaryPrefix": 2});
        plan.push(json!({"op": "const", "name": "ENDING_TYPE"}), Want::Value(all));
    }
    ctx.sign(&model.data);
    ctx.nontrivial = model.row_count() >= 2;
    let sample = plan.ops.iter().take(4).map(|o| o.to_string()).collect::<Vec<_>>().join(" ");
    ctx.sample(|| sample);
    plan.run(ctx)?;
    if over {
        return Ok(());
    }
    // and read by the library: the very same store
    let built = open(&path)?;
    ensure!(built.bin_boundaries == twin.bin_boundaries, "boundaries {:?} were stored as {:?}", twin.bin_boundaries, built.bin_boundaries);
    let dump = |s: &GridStore| -> Result<Vec<(Key, Vec<Row>)>, String> {
        s.iter()
            .map(|r| {
                let (k, es) = r.map_err(|e| e.to_string())?;
                Ok(((k.phrase_id, k.lang_set), es.iter().map(Row::returned).collect::<Result<_, _>>()?))
            })
            .collect()
    };
    let (a, b) = (dump(&twin)?, dump(&built)?);
    if let Some(i) = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
        fail!("built through the bindings a store holds {:?} instead of {:?}", b.get(i), a.get(i));
    }
    if !renumbered {
        let stored: Vec<Key> = model.data.keys().cloned().collect();
        ensure!(a.len() == stored.len(), "BROKEN: the twin holds {} keys, the model {}", a.len(), stored.len());
    }
    ctx.count("stores_built", 1);
    ctx.count("rows_compared", a.iter().map(|x| x.1.len() as u64).sum());
    Ok(())
}

// ----- questions

fn phrase_js(p: &MatchPhrase) -> Value {
    match p {
        MatchPhrase::Exact(n) => json!({ "Exact": n }),
        MatchPhrase::Range { start, end } => json!({"Range": {"start": start, "end": end}}),
    }
}
/// What is stored under a handle: the name of the index.
fn sub_js(rng: &mut Rng, s: &Sub) -> Value {
    let k = &s.match_keys[0];
    let mut o = Map::new();
    o.insert("store".into(), json!({"$": "handle", "h": format!("s{}", s.idx)}));
    o.insert("weight".into(), num(s.weight));
    o.insert("mask".into(), json!(s.mask));
    o.insert("id".into(), json!(k.id));
    o.insert("idx".into(), json!(s.idx));
    let langs = langs_js(rng, k.key.lang_set);
    let mut key = json!({"match_phrase": phrase_js(&k.key.match_phrase)});
    if !is_undefined(&langs) {
        key["lang_set"] = langs;
    }
    o.insert("match_key".into(), key);
    let mut non: Vec<u32> = s.non_overlapping_indexes.ones().map(|n| n as u32).collect();
    rng.shuffle(&mut non);
    o.insert("non_overlapping_indexes".into(), disguise(rng, json!(non)));
    if k.nearby_only || rng.chance(1, 2) {
        o.insert("nearby_only".into(), json!(k.nearby_only));
    }
    let phrase: String = (0..k.phrase_length).map(|_| rng.pick(&['a', 'b', ' ', 'z', '-', '7'])).collect();
    o.insert("phrase".into(), json!(phrase));
    // callers leave more in it than is needed
    if rng.chance(1, 4) {
        o.insert("edit_multiplier".into(), json!(0.5));
        o.insert("prefix".into(), json!({"x": [1, 2]}));
    }
    Value::Object(o)
}
fn opts_js(rng: &mut Rng, o: &MatchOpts) -> Value {
    let mut m = Map::new();
    m.insert("zoom".into(), json!(o.zoom));
    match o.bbox {
        Some(b) => {
            m.insert("bbox".into(), disguise(rng, json!(b)));
        }
        None if rng.chance(1, 3) => {
            let v = nothing(rng);
            m.insert("bbox".into(), v);
        }
        None => (),
    }
    match o.proximity {
        Some(p) => {
            m.insert("proximity".into(), disguise(rng, json!(p)));
        }
        None if rng.chance(1, 3) => {
            let v = nothing(rng);
            m.insert("proximity".into(), v);
        }
        None => (),
    }
    if rng.chance(1, 6) {
        m.insert("language".into(), json!(["en"]));
    }
    Value::Object(m)
}

fn question_case(ctx: &mut Ctx, over: bool) -> Res {
    let plain = ctx.rng.chance(1, 3);
    let sh = Shape { max_indexes: 3, max_phrases: 4, max_rows: 8, max_subs: 6, plain, proximity: true, limit: 2000, wide: false, slow: false, big: 0, deep: false };
    // now and then a long question, or many at once
    let sh = if !plain && ctx.rng.chance(1, 20) { Shape { max_rows: 2, max_subs: 60, wide: true, ..sh } } else { sh };
    let mut w: World = gen_world(ctx, sh)?;
    // one key in each, as the bindings take them
    w.subs = w
        .subs
        .iter()
        .flat_map(|s| {
            s.match_keys.iter().map(move |k| PhrasematchSubquery {
                store: s.store.clone(),
                idx: s.idx,
                non_overlapping_indexes: s.non_overlapping_indexes.clone(),
                weight: s.weight,
                mask: s.mask,
                match_keys: vec![k.clone()],
            })
        })
        .collect();
    let mut plan = Plan { over, ..Plan::default() };
    let rng = &mut ctx.rng;
    for ix in &w.indexes {
        let s = &ix.store;
        let o = json!({"zoom": s.zoom, "type_id": s.type_id, "coalesce_radius": num(s.coalesce_radius),
            "bboxes": s.bboxes, "max_score": num(s.max_score)});
        plan.push(
            json!({"op": "new", "class": "GridStore", "as": format!("s{}", ix.idx), "args": [text(&s.path), disguise(rng, o)]}),
            Want::Value(undefined()),
        );
    }
    let mut asks = Vec::new();
    let mut wants = Vec::new();
    let mut bad = 0;
    let mut found = 0;
    let n = if rng.chance(1, 30) { rng.range(20, 60) } else { rng.range(1, 4) };
    for _ in 0..n {
        // a question of some of them
        let mut subs: Vec<Sub> = w.subs.clone();
        if rng.chance(1, 3) && !subs.is_empty() {
            let keep = rng.range(0, subs.len() as u64) as usize;
            subs.truncate(keep);
        }
        let f = if plain { "coalesce" } else { "stackAndCoalesce" };
        let mut opts = w.opts.clone();
        if rng.chance(1, 4) {
            opts.proximity = None;
        }
        // a question of one is asked at its own zoom
        if plain && subs.len() == 1 {
            opts = opts.adjust_to_zoom(subs[0].store.zoom);
        }
        let js_subs: Vec<Value> = subs.iter().map(|s| sub_js(rng, s)).collect();
        let js_opts = opts_js(rng, &opts);
        let kinds = [List(Box::new(match_kind())), opts_kind()];
        let (spoil, forget) = (rng.chance(1, 2), rng.chance(1, 8));
        if rng.chance(1, 3) {
            let (args, nocallback) = match rng.below(8) {
                // everything but something to call back
                0 => {
                    let c = wrong(rng, &Call, &Value::Null);
                    (vec![json!(js_subs), js_opts.clone(), c], true)
                }
                1 => (vec![json!(js_subs), js_opts.clone()], true),
                _ => (spoilt(rng, &kinds, &[json!(js_subs), js_opts.clone()]), false),
            };
            // the callback takes the place of what is missing
            asks.push(json!({"op": "ask", "f": f, "args": args, "nocallback": nocallback}));
            wants.push(Want::Refused);
            bad += 1;
        }
        let refused = asks.len();
        let answer = if plain {
            coalesce(subs.clone(), &opts)
        } else {
            stack_and_coalesce(&subs, &opts)
        }
        .map_err(|e| e.to_string())?;
        found = found.max(answer.len());
        let js_subs: Vec<Value> = js_subs.into_iter().map(|s| disguise(rng, s)).collect();
        asks.push(json!({"op": "ask", "f": f, "args": [js_subs, js_opts], "spoil": spoil, "forget": forget}));
        wants.push(Want::Answer(json!(answer.iter().map(context_js).collect::<Vec<_>>())));
        // a question refused while this one is being answered
        if refused > 0 && rng.chance(1, 2) {
            asks.swap(refused - 1, refused);
            wants.swap(refused - 1, refused);
        }
    }
    plan.hostile += bad;
    // one after the other, or all at once
    if rng.chance(1, 2) {
        for (a, want) in asks.into_iter().zip(wants) {
            let mut a = a;
            a["forget"] = json!(false);
            plan.push(a, want);
        }
    } else {
        // handles forgotten while being asked are gone for those that come after
        let last = asks.len() - 1;
        for (i, a) in asks.iter_mut().enumerate() {
            if i < last {
                a["forget"] = json!(false);
            }
        }
        ctx.max("questions_at_once", asks.len() as u64);
        plan.push(json!({"op": "together", "asks": asks}), Want::Together(wants));
    }
    let rng = &mut ctx.rng;
    if plan.ops.iter().all(|o| !o.to_string().contains("\"forget\":true")) && rng.chance(1, 3) {
        let js: Vec<Value> = w.subs.iter().map(|s| sub_js(rng, s)).collect();
        if rng.chance(1, 2) {
            let args = spoilt(rng, &[List(Box::new(match_kind()))], &[json!(js)]);
            plan.hostile += 1;
            plan.push(json!({"op": "fn", "f": "stackable", "args": args}), Want::Threw);
        }
        plan.push(json!({"op": "fn", "f": "stackable", "args": [js]}), Want::Value(undefined()));
    }
    ctx.max("contexts_in_one_answer", found as u64);
    ctx.nontrivial = found > 0;
    let sample = plan.ops.last().map(|o| o.to_string()).unwrap_or_default();
    ctx.sample(|| sample);
    plan.run(ctx)
}

// ----- phrase sets

fn gen_words(rng: &mut Rng) -> Vec<String> {
    (0..rng.range(1, 4))
        .map(|_| rng.pick(&["main", "st", "a", "", "\u{e9}t\u{e9}", "\u{6771}\u{4eac}", "\u{1f600}", "100", "refuse-me"]).to_string())
        .collect()
}
fn ending(n: u64) -> fp::EndingType {
    match n {
        0 => fp::EndingType::NonPrefix,
        1 => fp::EndingType::AnyPrefix,
        _ => fp::EndingType::WordBoundaryPrefix,
    }
}
fn match_js(m: &fp::FuzzyMatchResult) -> Value {
    json!({"phrase": m.phrase, "edit_distance": m.edit_distance, "ending_type": m.ending_type as u8, "phrase_id_range": [m.phrase_id_range.0, m.phrase_id_range.1]})
}
fn buffer_js(words: &[u32]) -> Value {
    let bytes: Vec<u8> = words.iter().flat_map(|w| w.to_ne_bytes().to_vec()).collect();
    json!({"$": "buffer", "bytes": bytes})
}
fn either<E>(r: Result<Value, E>) -> Want {
    match r {
        Ok(v) => Want::Value(v),
        Err(_) => Want::Threw,
    }
}

fn phrase_case(ctx: &mut Ctx, over: bool) -> Res {
    let (path, twin_path) = (ctx.fresh_path(), ctx.fresh_path());
    let mut plan = Plan { over, ..Plan::default() };
    let rng = &mut ctx.rng;
    let words_kind = List(Box::new(Text));
    plan.push(json!({"op": "new", "class": "FuzzyPhraseSetBuilder", "as": "b", "args": [text(&path)]}), Want::Value(undefined()));
    let mut twin = fp::FuzzyPhraseSetBuilder::new(&twin_path).map_err(|e| e.to_string())?;
    for _ in 0..rng.below(12) {
        let p = gen_words(rng);
        if rng.chance(1, 3) {
            plan.bad_call(rng, "b", "insert", &[words_kind.clone()], &[json!(p)]);
        }
        let r = twin.insert(&p).map(|id| json!(id));
        let js = disguise(rng, json!(p));
        plan.call("b", "insert", vec![js], either(r));
    }
    // many phrases
    let many = match if over { 499 } else { rng.below(500) } {
        0 => 70_000,
        1..=3 => 17_000,
        4..=15 => 300,
        _ => 0,
    };
    if many > 0 {
        let ids: Vec<u32> = (0..many)
            .map(|i| twin.insert(&["w".to_string(), i.to_string()]).map_err(|e| e.to_string()))
            .collect::<Result<_, _>>()?;
        plan.push(json!({"op": "many", "on": "b", "n": many}), Want::Value(json!(ids.iter().map(|i| *i as f64).fold(0.0, |a: f64, i| (a * 31.0 + i) % 1_000_003.0) as u64)));
    }
    if rng.chance(1, 2) {
        let reps: Vec<(String, String)> = (0..rng.below(4)).map(|_| (gen_words(rng)[0].clone(), gen_words(rng)[0].clone())).collect();
        let js: Vec<Value> = reps.iter().map(|(f, t)| json!({"from": f, "to": t})).collect();
        if rng.chance(1, 2) {
            plan.bad_call(rng, "b", "loadWordReplacements", &[List(Box::new(Record(vec![("from", Text), ("to", Text)])))], &[json!(js)]);
        }
        let r = twin.load_word_replacements(reps.into_iter().map(|(from, to)| fp::WordReplacement { from, to }).collect());
        plan.call("b", "loadWordReplacements", vec![json!(js)], outcome(r, undefined()));
    }
    let map = twin.finish().map_err(|e| e.to_string())?;
    plan.call("b", "finish", vec![], Want::Value(buffer_js(&map)));
    for _ in 0..rng.below(3) {
        match rng.below(3) {
            0 => plan.call("b", "finish", vec![], Want::Threw),
            1 => plan.call("b", "insert", vec![json!(["main"])], Want::Threw),
            _ => plan.call("b", "loadWordReplacements", vec![json!([])], Want::Threw),
        }
    }
    let set = fp::FuzzyPhraseSet::from_path(&twin_path).map_err(|e| e.to_string())?;
    if rng.chance(1, 6) {
        plan.push(json!({"op": "new", "class": "FuzzyPhraseSet", "as": "bad", "args": [text(&path.join("nowhere"))]}), Want::Threw);
    }
    plan.push(json!({"op": "new", "class": "FuzzyPhraseSet", "as": "s", "args": [text(&path)]}), Want::Value(undefined()));
    let end_kind = Whole(2);
    for _ in 0..rng.range(4, 14) {
        let p = gen_words(rng);
        let (d, e, t) = (rng.pick(&[0u8, 1, 2, 127, 128, 255]), rng.pick(&[0u8, 1, 3, 127, 128, 254]), rng.below(3));
        let phrase = disguise(rng, json!(p));
        let (m, args, kinds, want): (&str, Vec<Value>, Vec<Kind>, Want) = match rng.below(6) {
            0 => ("contains", vec![phrase, json!(t)], vec![words_kind.clone(), end_kind.clone()], either(set.contains(&p, ending(t)).map(|b| json!(b)))),
            1 => (
                "fuzzyMatch",
                vec![phrase, json!(d), json!(e), json!(t)],
                vec![words_kind.clone(), u8k(), u8k(), end_kind.clone()],
                either(set.fuzzy_match(&p, d, e, ending(t)).map(|r| json!(r.iter().map(match_js).collect::<Vec<_>>()))),
            ),
            2 => (
                "fuzzyMatchWindows",
                vec![phrase, json!(d), json!(e), json!(t)],
                vec![words_kind.clone(), u8k(), u8k(), end_kind.clone()],
                either(set.fuzzy_match_windows(&p, d, e, ending(t)).map(|r| {
                    json!(r
                        .iter()
                        .map(|m| json!({"phrase": m.phrase, "edit_distance": m.edit_distance, "start_position": m.start_position,
                            "ending_type": m.ending_type as u8, "phrase_id_range": [m.phrase_id_range.0, m.phrase_id_range.1]}))
                        .collect::<Vec<_>>())
                })),
            ),
            3 => {
                let many: Vec<(Vec<String>, u64)> = (0..rng.below(4)).map(|_| (gen_words(rng), rng.below(3))).collect();
                let asked: Vec<(Vec<String>, fp::EndingType)> = many.iter().map(|(p, t)| (p.clone(), ending(*t))).collect();
                (
                    "fuzzyMatchMulti",
                    vec![json!(many), json!(d), json!(e)],
                    vec![List(Box::new(Tuple(vec![words_kind.clone(), end_kind.clone()]))), u8k(), u8k()],
                    either(set.fuzzy_match_multi(&asked, d, e).map(|rs| {
                        json!(rs.iter().map(|r| json!(r.iter().map(match_js).collect::<Vec<_>>())).collect::<Vec<_>>())
                    })),
                )
            }
            4 => {
                let id = if many > 0 && rng.chance(1, 2) { rng.below(many) as u32 } else { rng.pick(&[0u32, 1, 2, 5, 100, 0xdead, u32::max_value()]) };
                (
                    "getByPhraseId",
                    vec![json!(id)],
                    vec![u32k()],
                    either(set.get_by_phrase_id(id).map(|r| r.map_or(undefined(), |p| json!(p)))),
                )
            }
            _ => {
                let size = rng.pick(&[0u64, 1, 2, 3, 100, 1 << 40]);
                (
                    "getPrefixBins",
                    vec![json!(size)],
                    vec![Whole(1 << 53)],
                    either(set.get_prefix_bins(size as usize).map(|bins| {
                        let mut ids: Vec<u32> = bins.iter().map(|b| b.first.value() as u32).collect();
                        if let Some(b) = bins.last() {
                            ids.push(b.last.value() as u32 + 1);
                        }
                        buffer_js(&ids)
                    })),
                )
            }
        };
        if rng.chance(1, 3) {
            plan.bad_call(rng, "s", m, &kinds, &args);
        }
        plan.call("s", m, args, want);
    }
    ctx.sign(&plan.ops.iter().skip(1).map(|o| o.to_string()).collect::<Vec<_>>());
    ctx.nontrivial = map.len() > 1;
    plan.run(ctx)?;
    if over {
        return Ok(());
    }
    let read = |p: &std::path::Path| std::fs::read(p.join("phrases")).map_err(|e| e.to_string());
    ensure!(read(&path)? == read(&twin_path)?, "the phrases or replacements reached the builder changed");
    ctx.count("phrase_sets", 1);
    ctx.max("phrases_of_a_set", map.len() as u64);
    Ok(())
}
