use std::fmt;

pub type ClockIndex = usize;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Inequality {
    /// `<=`
    LE(i32),
    /// `<`
    LS(i32),
}

impl Inequality {
    pub fn bound(&self) -> i32 {
        match self {
            Inequality::LE(b) | Inequality::LS(b) => *b,
        }
    }
    pub fn is_strict(&self) -> bool {
        matches!(self, Inequality::LS(_))
    }
}

impl fmt::Display for Inequality {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Inequality::LE(b) => write!(f, "<={b}"),
            Inequality::LS(b) => write!(f, "<{b}"),
        }
    }
}

/// Encoded as `2 * bound + (non-strict ? 1 : 0)`; `INF` is unbounded.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RawInequality(pub(crate) i64);

pub const RAW_INF: RawInequality = RawInequality(i64::MAX);
pub const LE_ZERO: RawInequality = RawInequality(1);
pub const LS_ZERO: RawInequality = RawInequality(0);

impl RawInequality {
    pub fn from_inequality(ineq: &Inequality) -> Self {
        match ineq {
            Inequality::LE(b) => RawInequality(*b as i64 * 2 + 1),
            Inequality::LS(b) => RawInequality(*b as i64 * 2),
        }
    }
    pub fn is_inf(&self) -> bool {
        *self == RAW_INF
    }
    pub fn is_strict(&self) -> bool {
        self.0 & 1 == 0
    }
    pub fn bound(&self) -> i32 {
        (self.0 >> 1) as i32
    }
    pub fn as_inequality(&self) -> Inequality {
        if self.is_strict() {
            Inequality::LS(self.bound())
        } else {
            Inequality::LE(self.bound())
        }
    }
    pub(crate) fn plus(self, o: Self) -> Self {
        if self.is_inf() || o.is_inf() {
            RAW_INF
        } else {
            // bounds add; the sum is non-strict only if both are
            RawInequality((self.0 & !1) + (o.0 & !1) + (self.0 & o.0 & 1))
        }
    }
    /// not (x - y < c)  is  y - x <= -c ; not (x - y <= c)  is  y - x < -c
    pub(crate) fn negated(self) -> Self {
        debug_assert!(!self.is_inf());
        RawInequality(1 - self.0)
    }
}

impl From<Inequality> for RawInequality {
    fn from(i: Inequality) -> Self {
        RawInequality::from_inequality(&i)
    }
}

/// `i - j <=? c`
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Constraint {
    pub i: ClockIndex,
    pub j: ClockIndex,
    ineq: RawInequality,
}

impl Constraint {
    pub fn new(i: ClockIndex, j: ClockIndex, ineq: RawInequality) -> Self {
        Self { i, j, ineq }
    }
    pub fn ineq(&self) -> Inequality {
        self.ineq.as_inequality()
    }
    pub fn raw_ineq(&self) -> RawInequality {
        self.ineq
    }
    pub fn raw(&self) -> RawInequality {
        self.ineq
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Conjunction {
    pub constraints: Vec<Constraint>,
}

impl Conjunction {
    pub fn new(constraints: Vec<Constraint>) -> Self {
        Self { constraints }
    }
    pub fn iter(&self) -> std::slice::Iter<'_, Constraint> {
        self.constraints.iter()
    }
}

impl<'a> IntoIterator for &'a Conjunction {
    type Item = &'a Constraint;
    type IntoIter = std::slice::Iter<'a, Constraint>;
    fn into_iter(self) -> Self::IntoIter {
        self.constraints.iter()
    }
}

impl IntoIterator for Conjunction {
    type Item = Constraint;
    type IntoIter = std::vec::IntoIter<Constraint>;
    fn into_iter(self) -> Self::IntoIter {
        self.constraints.into_iter()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Disjunction {
    pub conjunctions: Vec<Conjunction>,
}

impl Disjunction {
    pub fn new(conjunctions: Vec<Conjunction>) -> Self {
        Self { conjunctions }
    }
    pub fn iter(&self) -> std::slice::Iter<'_, Conjunction> {
        self.conjunctions.iter()
    }
}

impl<'a> IntoIterator for &'a Disjunction {
    type Item = &'a Conjunction;
    type IntoIter = std::slice::Iter<'a, Conjunction>;
    fn into_iter(self) -> Self::IntoIter {
        self.conjunctions.iter()
    }
}

impl IntoIterator for Disjunction {
    type Item = Conjunction;
    type IntoIter = std::vec::IntoIter<Conjunction>;
    fn into_iter(self) -> Self::IntoIter {
        self.conjunctions.into_iter()
    }
}
