//! Stand-in for fuzzy-phrase. It searches nothing: it answers with what it was asked, so that a
//! caller can see whether arguments and results get through unchanged.
pub mod glue {
    use failure::{format_err, Error};
    use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
    use std::path::{Path, PathBuf};

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum EndingType {
        NonPrefix = 0,
        AnyPrefix = 1,
        WordBoundaryPrefix = 2,
    }
    impl Serialize for EndingType {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_u8(*self as u8)
        }
    }
    impl<'de> Deserialize<'de> for EndingType {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            match u8::deserialize(d)? {
                0 => Ok(EndingType::NonPrefix),
                1 => Ok(EndingType::AnyPrefix),
                2 => Ok(EndingType::WordBoundaryPrefix),
                n => Err(de::Error::custom(format!("{} is no ending type", n))),
            }
        }
    }

    #[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
    pub struct WordReplacement {
        pub from: String,
        pub to: String,
    }
    #[derive(Serialize, Debug, Clone, PartialEq, Eq)]
    pub struct FuzzyMatchResult {
        pub phrase: Vec<String>,
        pub edit_distance: u8,
        pub ending_type: EndingType,
        pub phrase_id_range: (u32, u32),
    }
    #[derive(Serialize, Debug, Clone, PartialEq, Eq)]
    pub struct FuzzyWindowResult {
        pub phrase: Vec<String>,
        pub edit_distance: u8,
        pub start_position: usize,
        pub ending_type: EndingType,
        pub phrase_id_range: (u32, u32),
    }

    /// What a phrase is known by: its number of words, and its number of bytes.
    fn ids<T: AsRef<str>>(phrase: &[T]) -> (u32, u32) {
        (phrase.len() as u32, phrase.iter().map(|w| w.as_ref().len() as u32).sum())
    }
    fn owned<T: AsRef<str>>(phrase: &[T]) -> Vec<String> {
        phrase.iter().map(|w| w.as_ref().to_string()).collect()
    }
    /// Asked for this word, everything fails.
    fn refuse<T: AsRef<str>>(phrase: &[T]) -> Result<(), Error> {
        match phrase.iter().any(|w| w.as_ref() == "refuse-me") {
            true => Err(format_err!("refused as asked")),
            false => Ok(()),
        }
    }

    #[derive(Default)]
    pub struct FuzzyPhraseSetBuilder {
        directory: PathBuf,
        phrases: Vec<Vec<String>>,
        replacements: Vec<WordReplacement>,
    }
    impl FuzzyPhraseSetBuilder {
        pub fn new<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
            let directory = path.as_ref().to_owned();
            if directory.exists() && !directory.is_dir() {
                return Err(format_err!("not a directory"));
            }
            std::fs::create_dir_all(&directory)?;
            Ok(FuzzyPhraseSetBuilder { directory, ..Default::default() })
        }
        pub fn insert<T: AsRef<str>>(&mut self, phrase: &[T]) -> Result<u32, Error> {
            refuse(phrase)?;
            self.phrases.push(owned(phrase));
            Ok(self.phrases.len() as u32 - 1)
        }
        pub fn load_word_replacements(&mut self, r: Vec<WordReplacement>) -> Result<(), Error> {
            if r.iter().any(|r| r.from == "refuse-me") {
                return Err(format_err!("refused as asked"));
            }
            self.replacements = r;
            Ok(())
        }
        /// Writes down what it was given and returns, for each phrase, its number of bytes.
        pub fn finish(self) -> Result<Vec<u32>, Error> {
            let mut text = String::new();
            for p in &self.phrases {
                text.push_str(&p.join("\u{1}"));
                text.push('\u{2}');
            }
            text.push('\u{3}');
            for r in &self.replacements {
                text.push_str(&format!("{}\u{1}{}\u{2}", r.from, r.to));
            }
            std::fs::write(self.directory.join("phrases"), text)?;
            Ok(self.phrases.iter().map(|p| ids(p).1).collect())
        }
    }

    #[derive(Clone, Copy, Debug)]
    pub struct Output(u64);
    impl Output {
        pub fn value(self) -> u64 {
            self.0
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct PrefixBin {
        pub first: Output,
        pub last: Output,
        pub size: usize,
    }

    pub struct FuzzyPhraseSet {
        phrases: Vec<Vec<String>>,
    }
    impl FuzzyPhraseSet {
        pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
            let text = std::fs::read_to_string(path.as_ref().join("phrases"))?;
            let part = text.split('\u{3}').next().unwrap_or("");
            let phrases = part
                .split_terminator('\u{2}')
                .map(|p| if p.is_empty() { vec![] } else { p.split('\u{1}').map(|w| w.to_string()).collect() })
                .collect();
            Ok(FuzzyPhraseSet { phrases })
        }
        /// Is it among the phrases (or, asked for a prefix, the start of one)?
        pub fn contains<T: AsRef<str>>(&self, phrase: &[T], ending_type: EndingType) -> Result<bool, Error> {
            refuse(phrase)?;
            let p = owned(phrase);
            Ok(self.phrases.iter().any(|q| match ending_type {
                EndingType::NonPrefix => *q == p,
                EndingType::AnyPrefix => q.join(" ").starts_with(&p.join(" ")),
                EndingType::WordBoundaryPrefix => q.starts_with(&p),
            }))
        }
        pub fn fuzzy_match<T: AsRef<str>>(
            &self, phrase: &[T], max_word_dist: u8, max_phrase_dist: u8, ending_type: EndingType,
        ) -> Result<Vec<FuzzyMatchResult>, Error> {
            refuse(phrase)?;
            Ok([max_word_dist, max_phrase_dist]
                .iter()
                .map(|d| FuzzyMatchResult { phrase: owned(phrase), edit_distance: *d, ending_type, phrase_id_range: ids(phrase) })
                .collect())
        }
        pub fn fuzzy_match_windows<T: AsRef<str>>(
            &self, phrase: &[T], max_word_dist: u8, max_phrase_dist: u8, ending_type: EndingType,
        ) -> Result<Vec<FuzzyWindowResult>, Error> {
            refuse(phrase)?;
            Ok((0..phrase.len())
                .map(|i| FuzzyWindowResult {
                    phrase: owned(&phrase[i..]),
                    edit_distance: if i % 2 == 0 { max_word_dist } else { max_phrase_dist },
                    start_position: i,
                    ending_type,
                    phrase_id_range: ids(&phrase[i..]),
                })
                .collect())
        }
        pub fn fuzzy_match_multi<T: AsRef<str>, U: AsRef<[T]>>(
            &self, phrases: &[(U, EndingType)], max_word_dist: u8, max_phrase_dist: u8,
        ) -> Result<Vec<Vec<FuzzyMatchResult>>, Error> {
            phrases.iter().map(|(p, e)| self.fuzzy_match(p.as_ref(), max_word_dist, max_phrase_dist, *e)).collect()
        }
        pub fn get_by_phrase_id(&self, id: u32) -> Result<Option<Vec<String>>, Error> {
            if id == 0xdead {
                return Err(format_err!("refused as asked"));
            }
            Ok(self.phrases.get(id as usize).cloned())
        }
        /// All phrases, so many at a time.
        pub fn get_prefix_bins(&self, max_bin_size: usize) -> Result<Vec<PrefixBin>, Error> {
            if max_bin_size == 0 {
                return Err(format_err!("refused as asked"));
            }
            let n = self.phrases.len();
            Ok((0..n)
                .step_by(max_bin_size)
                .map(|first| {
                    let last = first.saturating_add(max_bin_size - 1).min(n - 1);
                    PrefixBin { first: Output(first as u64), last: Output(last as u64), size: last + 1 - first }
                })
                .collect())
        }
    }
}
