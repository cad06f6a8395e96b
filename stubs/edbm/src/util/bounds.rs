use super::constraints::ClockIndex;

pub type Bound = i32;

/// Maximal constants per clock, used for extrapolation. `None` means the clock is never compared.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bounds {
    lower: Vec<Option<Bound>>,
    upper: Vec<Option<Bound>>,
}

impl Bounds {
    pub fn new(dim: ClockIndex) -> Self {
        let mut lower = vec![None; dim];
        let mut upper = vec![None; dim];
        if dim > 0 {
            lower[0] = Some(0);
            upper[0] = Some(0);
        }
        Self { lower, upper }
    }

    pub fn dim(&self) -> ClockIndex {
        self.lower.len()
    }

    pub fn add_lower(&mut self, clock: ClockIndex, bound: Bound) {
        let b = &mut self.lower[clock];
        *b = Some(b.map_or(bound, |o| o.max(bound)));
    }

    pub fn add_upper(&mut self, clock: ClockIndex, bound: Bound) {
        let b = &mut self.upper[clock];
        *b = Some(b.map_or(bound, |o| o.max(bound)));
    }

    pub fn set_lower(&mut self, clock: ClockIndex, bound: Bound) {
        self.lower[clock] = Some(bound);
    }

    pub fn set_upper(&mut self, clock: ClockIndex, bound: Bound) {
        self.upper[clock] = Some(bound);
    }

    pub fn add_bounds(&mut self, other: &Self) {
        assert_eq!(self.dim(), other.dim());
        for i in 0..self.dim() {
            if let Some(b) = other.lower[i] {
                self.add_lower(i, b);
            }
            if let Some(b) = other.upper[i] {
                self.add_upper(i, b);
            }
        }
    }

    pub fn get_lower(&self, clock: ClockIndex) -> Option<Bound> {
        self.lower[clock]
    }

    pub fn get_upper(&self, clock: ClockIndex) -> Option<Bound> {
        self.upper[clock]
    }
}
