#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Tag(pub String, pub String);

/// Insertion-ordered map; a repeated key keeps its place and takes the new
/// value (as `linked_hash_map` does not: it moves; eucalypt never repeats).
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct Hash(pub Vec<(Yaml, Yaml)>);

impl FromIterator<(Yaml, Yaml)> for Hash {
    fn from_iter<T: IntoIterator<Item = (Yaml, Yaml)>>(iter: T) -> Self {
        let mut v: Vec<(Yaml, Yaml)> = Vec::new();
        let mut idx: std::collections::HashMap<Yaml, usize> = Default::default();
        for (k, val) in iter {
            if let Some(i) = idx.get(&k) {
                v[*i].1 = val;
            } else {
                idx.insert(k.clone(), v.len());
                v.push((k, val));
            }
        }
        Hash(v)
    }
}

#[derive(Clone, PartialEq, PartialOrd, Debug, Eq, Ord, Hash)]
pub enum Yaml {
    Real(Option<Tag>, String),
    Integer(Option<Tag>, i64),
    String(Option<Tag>, String),
    Boolean(Option<Tag>, bool),
    Array(Option<Tag>, Vec<Yaml>),
    Hash(Option<Tag>, Hash),
    Alias(usize),
    Null(Option<Tag>),
    BadValue,
}
