use crate::util::{Ctx, Res};

#[cfg(feature = "extras")]
pub mod bindings;
pub mod coalesce;
pub mod disk;
#[cfg(feature = "extras")]
pub mod dump;
#[cfg(feature = "format")]
pub mod format;
#[cfg(feature = "helpers")]
pub mod helpers;
pub mod matching;
pub mod opts;
pub mod safety;
pub mod stack;
pub mod storage;

pub struct Spec {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    /// seconds of processor time after which a single case counts as not terminating
    pub cpu_limit: f64,
    pub rayon_threads: u32,
    /// fewer distinct non-trivial cases than this means the run observed too little to conclude
    pub min_distinct: u64,
    pub rule: &'static str,
}

macro_rules! specs {
    ($($(#[$attr:meta])* $id:literal $run:path, $quick:literal, $thorough:literal, $rule:literal;)*) => {
        pub const SPECS: &[Spec] = &[$($(#[$attr])* Spec {
            id: $id, run: $run, quick: $quick, thorough: $thorough, cpu_limit: 60.0,
            rayon_threads: 2, min_distinct: $quick / 20, rule: $rule,
        }),*];
    };
}

specs! {
    "C01" storage::c01_round_trip, 360000, 7200000, "random insert/append/compact_append histories over colliding key and value pools; non-trivial: at least two rows stored; distinct: by stored content and boundaries";
    "C02" storage::c02_order, 360000, 7200000, "random build histories; non-trivial: at least two adjacent pairs of rows compared; distinct: by stored content";
    "C03" storage::c03_keys, 360000, 7200000, "random build histories with language sets of every byte length, with and without prefix boundaries; non-trivial: at least two keys; distinct: by stored content and boundaries";
    "C04" matching::c04_content, 300000, 6000000, "random stores, six random match keys, boxes and proximity points each; non-trivial: some answer has two or more rows; distinct: by content and queries";
    "C05" matching::c05_annotations, 300000, 6000000, "random stores and queries; non-trivial: a row was annotated for a query with proximity; distinct: by content and queries";
    "C06" matching::c06_best_first, 300000, 6000000, "random stores and queries without proximity, six caps each; non-trivial: some answer has three or more rows; distinct: by content and queries";
    "C07" matching::c07_bins, 240000, 3600000, "the same content built with and without random ascending prefix boundaries, all aligned ranges and some others queried on both; non-trivial: an aligned range has matches; distinct: by content and boundaries";
    "C08" storage::c08_renumber, 400000, 9000000, "random builds and mappings (permutations, shifts, sparse, colliding, short); non-trivial: more than one key moved or an impossible mapping; distinct: by content and mapping";
    "C09" matching::c09_proximity_order, 300000, 6000000, "random stores, exact queries on single-record phrases with a proximity point; non-trivial: at least two adjacent pairs compared; distinct: by content and queries";
    "C10" opts::c10_adjust, 1200000, 24000000, "random boxes and points at zooms 0 to 16, each adjusted to all 17 zooms; non-trivial: has a box or a point; distinct: by options";
    "C11" opts::c11_nearby, 900000, 18000000, "random boxes and points at zooms 0 to 16, some hundreds of tiles around every edge probed; non-trivial: has a point, or a box without one; distinct: by options";
    #[cfg(feature = "format")] "C12" format::c12_format, 80000, 1800000, "random records with parts pushed across every address where pointers or lengths grow; non-trivial: more than two parts; distinct: by content and layout";
    "C13" coalesce::c13_sound, 120000, 2400000, "random indexes at several zooms around shared places, random subqueries, coalesce and stack_and_coalesce; non-trivial: some context is returned; distinct: by content and question";
    "C14" coalesce::c14_shape, 120000, 2400000, "as C13; non-trivial: two or more contexts; distinct: by content and question";
    "C15" coalesce::c15_single, 200000, 4000000, "random indexes and one subquery, up to hundreds of features; non-trivial: two or more features match; distinct: by content and question";
    "C16" coalesce::c16_complete, 150000, 3600000, "small random worlds against brute force (stack_and_coalesce), pairs of subqueries (coalesce), and full stacks of up to five; non-trivial: something stacks; distinct: by content and question";
    "C17" stack::c17_stackable, 150000, 3000000, "random sets of up to 60 subqueries over up to 6 types; non-trivial: some stack of two; distinct: by subqueries";
    "C18" stack::c18_collapse, 600000, 12000000, "random lists of subqueries with few distinct (weight, index, mask); non-trivial: something merges and something does not; distinct: by list";
    "C19" coalesce::c19_deterministic, 1200, 20000, "random worlds asked again on 1, 3 and 8 threads and by six threads at once with random delays in the store; non-trivial: a non-empty answer; distinct: by content and question";
    "C20" safety::c20_memory, 30000, 400000, "random stores; iterators interleaved, moved, dropped half way and outliving their store, and one case in four the workload of another property; non-trivial: an iterator of two or more rows read to its end; distinct: by content";
    "C23" stack::c23_queue, 900000, 15000000, "random pushes and pops on queues of capacity 0 to 40; non-trivial: more pushed than fits; distinct: by operations";
    "C25" coalesce::c25_quotas, 30000, 500000, "questions with hundreds of low-information lookups; non-trivial: some are carried out and some are not; distinct: by question";
    "C21" storage::c21_faults, 60000, 900000, "random builds repeated with each write failing in turn, failing opens and reads, missing and damaged stores; non-trivial: more than one write, or more than one key written at once; distinct: by content and boundaries";
    #[cfg(feature = "extras")] "C22" bindings::c22_bindings, 12000, 300000, "random building calls, questions and phrase sets made through node and directly, with wrong values in between; non-trivial: two rows stored, a non-empty answer, or two phrases; distinct: by content and question";
    #[cfg(feature = "extras")] "C32" bindings::c32_bindings_release, 1000, 30000, "the scenarios of C22 (calls, questions, phrase sets, wrong values in between), each made 12 times over in one node process, and up to 768 times if memory grows meanwhile; non-trivial: two rows stored, a non-empty answer, or two phrases; distinct: by content and question";
    #[cfg(feature = "extras")] "C24" dump::c24_written_out, 60000, 700000, "random stores dumped, loaded, compressed and downloaded, random questions recorded and read back; non-trivial: two rows, or a non-empty answer; distinct: by content and question";
    "C27" safety::c27_released, 60000, 1000000, "random stores built, opened, read in part and dropped, failing and abandoned builds, failing opens and reads, and random questions, each done 10 times over, and up to 682 times if memory grows meanwhile; non-trivial: something was read or answered; distinct: by content and question";
    "C28" coalesce::c28_only_what_is_asked, 60000, 1200000, "random questions, asked again of stores to which rows that aren't asked for were added or from which they were removed, or with subqueries split or in another order; non-trivial: something was changed and the answer is not empty; distinct: by content and question";
    "C29" disk::c29_form, 120000, 2400000, "stores written by the library and read by an independent decoder of their form, and stores written by an independent encoder and read by the library; non-trivial: two rows; distinct: by content and boundaries";
    #[cfg(feature = "helpers")] "C30" helpers::c30_keys, 200000, 4000000, "random keys of both kinds and match keys around them; non-trivial: something matches; distinct: by keys and match keys";
    #[cfg(feature = "helpers")] "C31" helpers::c31_grouping, 200000, 4000000, "random sequences of keys, among them zeros of both signs and NaN, read to the end or in part; non-trivial: two groups; distinct: by sequence";
    "C26" storage::c26_build_independence, 180000, 3600000, "the same rows written three ways (grouped inserts; shuffled, chunked, duplicated appends; replaced inserts); non-trivial: more than two rows; distinct: by stored content";
}

pub fn spec(id: &str) -> Option<&'static Spec> {
    SPECS.iter().find(|s| s.id == id)
}
