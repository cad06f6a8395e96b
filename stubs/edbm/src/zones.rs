use crate::util::bounds::Bounds;
use crate::util::constraints::*;
use std::fmt;
use std::ops::{Add, AddAssign, BitAnd, BitOr, Not, Sub};

/// A non-empty, canonical (closed) difference bound matrix.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Dbm {
    dim: usize,
    m: Vec<RawInequality>,
}

impl Dbm {
    #[inline]
    fn at(&self, i: usize, j: usize) -> RawInequality {
        self.m[i * self.dim + j]
    }
    #[inline]
    fn set(&mut self, i: usize, j: usize, r: RawInequality) {
        self.m[i * self.dim + j] = r;
    }
    fn universe(dim: usize) -> Dbm {
        let mut d = Dbm {
            dim,
            m: vec![RAW_INF; dim * dim],
        };
        for i in 0..dim {
            d.set(0, i, LE_ZERO);
            d.set(i, i, LE_ZERO);
        }
        d
    }
    fn zero(dim: usize) -> Dbm {
        Dbm {
            dim,
            m: vec![LE_ZERO; dim * dim],
        }
    }
    /// Full closure; false if empty.
    fn close(&mut self) -> bool {
        let n = self.dim;
        for k in 0..n {
            for i in 0..n {
                let ik = self.at(i, k);
                if ik.is_inf() {
                    continue;
                }
                for j in 0..n {
                    let s = ik.plus(self.at(k, j));
                    if s < self.at(i, j) {
                        self.set(i, j, s);
                    }
                }
            }
            if self.at(k, k) < LE_ZERO {
                return false;
            }
        }
        (0..n).all(|i| self.at(i, i) >= LE_ZERO)
    }
    /// Tighten one constraint and restore canonicity; false if empty.
    fn constrain(&mut self, i: usize, j: usize, r: RawInequality) -> bool {
        if i == j {
            return r >= LE_ZERO;
        }
        if r >= self.at(i, j) {
            return true;
        }
        if r.plus(self.at(j, i)) < LE_ZERO {
            return false;
        }
        self.set(i, j, r);
        let n = self.dim;
        for a in 0..n {
            let ai = self.at(a, i);
            if ai.is_inf() {
                continue;
            }
            let aij = ai.plus(r);
            for b in 0..n {
                let s = aij.plus(self.at(j, b));
                if s < self.at(a, b) {
                    self.set(a, b, s);
                }
            }
        }
        true
    }
    fn intersect(&self, o: &Dbm) -> Option<Dbm> {
        let mut r = self.clone();
        let mut changed = false;
        for k in 0..r.m.len() {
            if o.m[k] < r.m[k] {
                r.m[k] = o.m[k];
                changed = true;
            }
        }
        if changed && !r.close() {
            return None;
        }
        Some(r)
    }
    fn subset_eq(&self, o: &Dbm) -> bool {
        self.m.iter().zip(&o.m).all(|(a, b)| a <= b)
    }
    fn up(&mut self) {
        for i in 1..self.dim {
            self.set(i, 0, RAW_INF);
        }
    }
    fn down(&mut self) {
        for i in 1..self.dim {
            let mut v = LE_ZERO;
            for j in 1..self.dim {
                v = v.min(self.at(j, i));
            }
            self.set(0, i, v);
        }
    }
    fn free(&mut self, x: usize) {
        for i in 0..self.dim {
            if i != x {
                self.set(x, i, RAW_INF);
                let v = self.at(i, 0);
                self.set(i, x, v);
            }
        }
        self.set(0, x, LE_ZERO);
    }
    fn update(&mut self, x: usize, val: i32) {
        let p = RawInequality::from_inequality(&Inequality::LE(val));
        let n = RawInequality::from_inequality(&Inequality::LE(-val));
        for i in 0..self.dim {
            if i != x {
                let v = p.plus(self.at(0, i));
                self.set(x, i, v);
                let v = n.plus(self.at(i, 0));
                self.set(i, x, v);
            }
        }
        self.set(x, x, LE_ZERO);
    }
    /// Classical maximal-bounds extrapolation.
    fn extrapolate(&mut self, b: &Bounds) -> bool {
        let n = self.dim;
        let max: Vec<Option<i32>> = (0..n)
            .map(|i| {
                if i == 0 {
                    Some(0)
                } else {
                    b.get_lower(i).max(b.get_upper(i))
                }
            })
            .collect();
        let mut r = self.clone();
        for i in 0..n {
            for j in 0..n {
                if i == j {
                    continue;
                }
                let v = self.at(i, j);
                if !v.is_inf() && i != 0 {
                    let over = match max[i] {
                        None => true,
                        Some(m) => v > RawInequality::from_inequality(&Inequality::LE(m)),
                    };
                    if over {
                        r.set(i, j, RAW_INF);
                        continue;
                    }
                }
                if j != 0 {
                    match max[j] {
                        None => {
                            let nv = if i == 0 { LE_ZERO } else { r.at(i, j) };
                            if i == 0 {
                                r.set(i, j, nv.max(v));
                            } else if !v.is_inf() {
                                r.set(i, j, RAW_INF);
                            }
                        }
                        Some(m) => {
                            let low = RawInequality::from_inequality(&Inequality::LS(-m));
                            if v < low {
                                r.set(i, j, low);
                            }
                        }
                    }
                }
            }
        }
        if r == *self {
            return true;
        }
        *self = r;
        self.close()
    }
    fn subtract(&self, o: &Dbm) -> Vec<Dbm> {
        if self.intersect(o).is_none() {
            return vec![self.clone()];
        }
        let mut out = vec![];
        let mut rest = self.clone();
        for c in o.minimal() {
            let r = c.raw();
            if rest.at(c.i, c.j) <= r {
                continue;
            }
            let mut piece = rest.clone();
            if piece.constrain(c.j, c.i, r.negated()) {
                out.push(piece);
            }
            if !rest.constrain(c.i, c.j, r) {
                break;
            }
        }
        out
    }
    /// Whether every point is in one of the zones.
    fn covered(&self, zones: &[&Dbm]) -> bool {
        let touching: Vec<&Dbm> = zones.iter().copied().filter(|z| self.intersect(z).is_some()).collect();
        if touching.iter().any(|z| self.subset_eq(z)) {
            return true;
        }
        let Some((first, rest)) = touching.split_first() else { return false };
        self.subtract(first).iter().all(|piece| piece.covered(rest))
    }
    /// The union of two zones, if it is a zone.
    fn convex_union(&self, o: &Dbm) -> Option<Dbm> {
        let mut hull = self.clone();
        for i in 0..self.dim {
            for j in 0..self.dim {
                hull.set(i, j, self.at(i, j).max(o.at(i, j)));
            }
        }
        // What is in the hull and not in the one has to be in the other
        for i in 0..self.dim {
            for j in 0..self.dim {
                let r = self.at(i, j);
                if r < hull.at(i, j) {
                    let mut piece = hull.clone();
                    if piece.constrain(j, i, r.negated()) && !piece.subset_eq(o) {
                        return None;
                    }
                }
            }
        }
        Some(hull)
    }
    /// A minimal set of constraints describing the zone, the implicit `0 - x <= 0` left out.
    fn minimal(&self) -> Vec<Constraint> {
        let n = self.dim;
        // zero-cycle equivalence classes
        let mut repr = vec![usize::MAX; n];
        for i in 0..n {
            if repr[i] != usize::MAX {
                continue;
            }
            repr[i] = i;
            for j in i + 1..n {
                if repr[j] == usize::MAX && self.at(i, j).plus(self.at(j, i)) == LE_ZERO {
                    repr[j] = i;
                }
            }
        }
        let mut out = vec![];
        let reps: Vec<usize> = (0..n).filter(|&i| repr[i] == i).collect();
        for &c in &reps {
            let class: Vec<usize> = (0..n).filter(|&i| repr[i] == c).collect();
            if class.len() > 1 {
                for k in 0..class.len() {
                    let (i, j) = (class[k], class[(k + 1) % class.len()]);
                    out.push(Constraint::new(i, j, self.at(i, j)));
                }
            }
        }
        for &i in &reps {
            for &j in &reps {
                if i == j || self.at(i, j).is_inf() {
                    continue;
                }
                if i == 0 && self.at(i, j) >= LE_ZERO {
                    continue;
                }
                let redundant = reps.iter().any(|&k| {
                    k != i && k != j && self.at(i, k).plus(self.at(k, j)) <= self.at(i, j)
                });
                if !redundant {
                    out.push(Constraint::new(i, j, self.at(i, j)));
                }
            }
        }
        // 0 - x <= 0 holds in every zone
        out.retain(|c| !(c.i == 0 && c.raw() >= LE_ZERO));
        out
    }
    fn can_delay_indefinitely(&self) -> bool {
        (1..self.dim).all(|i| self.at(i, 0).is_inf())
    }
}

/// A union of zones. No zone in the list is empty.
#[derive(Clone)]
pub struct OwnedFederation {
    dim: usize,
    zones: Vec<Dbm>,
}

impl OwnedFederation {
    pub fn universe(dim: ClockIndex) -> Self {
        Self {
            dim,
            zones: vec![Dbm::universe(dim)],
        }
    }
    pub fn empty(dim: ClockIndex) -> Self {
        Self { dim, zones: vec![] }
    }
    /// All clocks are zero.
    pub fn zero(dim: ClockIndex) -> Self {
        Self {
            dim,
            zones: vec![Dbm::zero(dim)],
        }
    }
    /// The delay future of zero.
    pub fn init(dim: ClockIndex) -> Self {
        Self::zero(dim).up()
    }
    pub fn from_disjunction(disj: &Disjunction, dim: ClockIndex) -> Self {
        let mut out = Self::empty(dim);
        for conj in disj.iter() {
            let mut z = Dbm::universe(dim);
            let mut ok = true;
            for c in conj.iter() {
                ok = ok && z.constrain(c.i, c.j, c.raw());
            }
            if ok {
                out.push(z);
            }
        }
        out
    }

    pub fn dim(&self) -> ClockIndex {
        self.dim
    }
    pub fn size(&self) -> usize {
        self.zones.len()
    }
    pub fn is_empty(&self) -> bool {
        self.zones.is_empty()
    }
    pub fn set_empty(mut self) -> Self {
        self.zones.clear();
        self
    }
    pub fn is_universe(&self) -> bool {
        Self::universe(self.dim).subset_eq(self)
    }

    fn push(&mut self, z: Dbm) {
        if self.zones.iter().any(|o| z.subset_eq(o)) {
            return;
        }
        self.zones.retain(|o| !o.subset_eq(&z));
        self.zones.push(z);
    }
    fn map(self, mut f: impl FnMut(&mut Dbm) -> bool) -> Self {
        let mut out = Self::empty(self.dim);
        for mut z in self.zones {
            if f(&mut z) {
                out.push(z);
            }
        }
        out
    }

    pub fn constrain(
        self,
        i: ClockIndex,
        j: ClockIndex,
        ineq: impl Into<RawInequality>,
    ) -> Self {
        let r = ineq.into();
        self.map(|z| z.constrain(i, j, r))
    }
    pub fn constrain_eq(self, clock: ClockIndex, val: i32) -> Self {
        self.constrain(clock, 0, Inequality::LE(val))
            .constrain(0, clock, Inequality::LE(-val))
    }
    pub fn constrain_many(self, constraints: Vec<Constraint>) -> Self {
        self.map(|z| constraints.iter().all(|c| z.constrain(c.i, c.j, c.raw())))
    }

    pub fn intersection(&self, other: &Self) -> Self {
        assert_eq!(self.dim, other.dim);
        let mut out = Self::empty(self.dim);
        for a in &self.zones {
            for b in &other.zones {
                if let Some(z) = a.intersect(b) {
                    out.push(z);
                }
            }
        }
        out
    }
    pub fn has_intersection(&self, other: &Self) -> bool {
        assert_eq!(self.dim, other.dim);
        self.zones
            .iter()
            .any(|a| other.zones.iter().any(|b| a.intersect(b).is_some()))
    }
    pub fn union(mut self, other: &Self) -> Self {
        assert_eq!(self.dim, other.dim);
        for z in &other.zones {
            self.push(z.clone());
        }
        self
    }
    pub fn subtraction(&self, other: &Self) -> Self {
        assert_eq!(self.dim, other.dim);
        let mut cur = self.zones.clone();
        for b in &other.zones {
            let mut f = Self::empty(self.dim);
            for a in &cur {
                for z in a.subtract(b) {
                    f.push(z);
                }
            }
            cur = f.zones;
            if cur.is_empty() {
                break;
            }
        }
        Self {
            dim: self.dim,
            zones: cur,
        }
    }
    pub fn inverse(&self) -> Self {
        Self::universe(self.dim).subtraction(self)
    }
    pub fn subset_eq(&self, other: &Self) -> bool {
        assert_eq!(self.dim, other.dim);
        let others: Vec<&Dbm> = other.zones.iter().collect();
        self.zones.iter().all(|a| a.covered(&others))
    }
    pub fn superset_eq(&self, other: &Self) -> bool {
        other.subset_eq(self)
    }
    pub fn equals(&self, other: &Self) -> bool {
        self.subset_eq(other) && other.subset_eq(self)
    }

    pub fn up(self) -> Self {
        self.map(|z| {
            z.up();
            true
        })
    }
    pub fn down(self) -> Self {
        self.map(|z| {
            z.down();
            true
        })
    }
    pub fn free_clock(self, clock: ClockIndex) -> Self {
        self.map(|z| {
            z.free(clock);
            true
        })
    }
    pub fn update_clock_val(self, clock: ClockIndex, val: i32) -> Self {
        self.map(|z| {
            z.update(clock, val);
            true
        })
    }
    pub fn extrapolate_max_bounds(self, bounds: &Bounds) -> Self {
        assert_eq!(self.dim, bounds.dim());
        self.map(|z| z.extrapolate(bounds))
    }
    /// The valuations that can reach `self` by delaying without entering `avoid` on the way.
    pub fn predt(&self, avoid: &Self) -> Self {
        assert_eq!(self.dim, avoid.dim);
        let mut out = Self::empty(self.dim);
        let single = |z: &Dbm| Self {
            dim: self.dim,
            zones: vec![z.clone()],
        };
        for b in &self.zones {
            let b = single(b);
            let mut acc = b.clone().down();
            for g in &avoid.zones {
                let g = single(g);
                let g_down = g.clone().down();
                let part = b
                    .clone()
                    .down()
                    .subtraction(&g_down)
                    .union(&b.intersection(&g_down).subtraction(&g).down().subtraction(&g));
                acc = acc.intersection(&part);
            }
            out = out.union(&acc);
        }
        out
    }
    pub fn can_delay_indefinitely(&self) -> bool {
        self.zones.iter().any(|z| z.can_delay_indefinitely())
    }
    pub fn expensive_reduce(self) -> Self {
        // Join two zones whose union is convex
        let mut todo = self.zones;
        let mut zones: Vec<Dbm> = vec![];
        if todo.len() > 24 {
            // The first one is the one that was added last; the others have been joined before
            let mut last = todo.remove(0);
            loop {
                todo.retain(|z| !z.subset_eq(&last));
                match todo.iter().enumerate().find_map(|(k, o)| o.convex_union(&last).map(|h| (k, h))) {
                    Some((k, hull)) => {
                        todo.remove(k);
                        last = hull;
                    }
                    None => break,
                }
            }
            zones = todo;
            zones.push(last);
            return Self {
                dim: self.dim,
                zones,
            };
        }
        todo.reverse();
        while let Some(z) = todo.pop() {
            let joined = zones.iter().enumerate().find_map(|(k, o)| o.convex_union(&z).map(|h| (k, h)));
            match joined {
                Some((k, hull)) => {
                    zones.remove(k);
                    todo.push(hull);
                }
                None => zones.push(z),
            }
        }
        // Merely an optimization: not worth it for many zones
        let mut i = 0;
        while i < zones.len() && zones.len() <= 16 {
            let rest: Vec<&Dbm> = zones.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, z)| z).collect();
            if zones[i].covered(&rest) {
                zones.remove(i);
            } else {
                i += 1;
            }
        }
        Self {
            dim: self.dim,
            zones,
        }
    }
    pub fn reduce(self) -> Self {
        self
    }
    pub fn minimal_constraints(&self) -> Disjunction {
        Disjunction::new(
            self.zones
                .iter()
                .map(|z| Conjunction::new(z.minimal()))
                .collect(),
        )
    }
    /// The largest constants each clock is compared to in the description of the federation.
    pub fn get_bounds(&self) -> Bounds {
        let mut b = Bounds::new(self.dim);
        for z in &self.zones {
            for i in 1..self.dim {
                let up = z.at(i, 0);
                if !up.is_inf() {
                    b.add_upper(i, up.bound());
                }
                let low = z.at(0, i);
                if !low.is_inf() {
                    b.add_lower(i, -low.bound());
                }
            }
        }
        b
    }
}

impl PartialEq for OwnedFederation {
    fn eq(&self, other: &Self) -> bool {
        self.dim == other.dim && self.equals(other)
    }
}

impl Add for OwnedFederation {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        self.union(&o)
    }
}
impl Add<&OwnedFederation> for OwnedFederation {
    type Output = Self;
    fn add(self, o: &Self) -> Self {
        self.union(o)
    }
}
impl AddAssign for OwnedFederation {
    fn add_assign(&mut self, o: Self) {
        for z in o.zones {
            self.push(z);
        }
    }
}
impl AddAssign<&OwnedFederation> for OwnedFederation {
    fn add_assign(&mut self, o: &Self) {
        for z in &o.zones {
            self.push(z.clone());
        }
    }
}
impl BitOr for OwnedFederation {
    type Output = Self;
    fn bitor(self, o: Self) -> Self {
        self.union(&o)
    }
}
impl BitAnd for OwnedFederation {
    type Output = Self;
    fn bitand(self, o: Self) -> Self {
        self.intersection(&o)
    }
}
impl Sub for OwnedFederation {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        self.subtraction(&o)
    }
}
impl Sub<&OwnedFederation> for OwnedFederation {
    type Output = Self;
    fn sub(self, o: &Self) -> Self {
        self.subtraction(o)
    }
}
impl Not for OwnedFederation {
    type Output = Self;
    fn not(self) -> Self {
        self.inverse()
    }
}
impl Not for &OwnedFederation {
    type Output = OwnedFederation;
    fn not(self) -> OwnedFederation {
        self.inverse()
    }
}

impl fmt::Display for OwnedFederation {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.zones.is_empty() {
            return write!(f, "false");
        }
        for (k, c) in self.minimal_constraints().iter().enumerate() {
            if k > 0 {
                write!(f, " || ")?;
            }
            if c.constraints.is_empty() {
                write!(f, "true")?;
            }
            for (n, c) in c.iter().enumerate() {
                if n > 0 {
                    write!(f, " && ")?;
                }
                write!(f, "c{}-c{}{}", c.i, c.j, c.ineq())?;
            }
        }
        Ok(())
    }
}
impl fmt::Debug for OwnedFederation {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self}")
    }
}
