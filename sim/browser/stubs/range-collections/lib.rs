//! Sets of u64 as sorted, disjoint, non-empty half-open ranges: what the browser package uses of range-collections
use std::ops::{Bound, Range};
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Ranges(Vec<Range<u64>>);
/// the parameter only names the storage
pub type RangeSet<A> = <A as Storage>::Set;
pub trait Storage {
    type Set;
}
impl<const N: usize> Storage for [u64; N] {
    type Set = Ranges;
}
pub type RangeSet2 = Ranges;
pub trait AbstractRangeSet {}
impl AbstractRangeSet for Ranges {}
impl Ranges {
    pub fn empty() -> Self {
        Ranges(vec![])
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn union_with(&mut self, o: &Ranges) {
        let mut v: Vec<Range<u64>> = self.0.iter().chain(o.0.iter()).cloned().collect();
        v.sort_by_key(|r| r.start);
        let mut res: Vec<Range<u64>> = vec![];
        for r in v {
            match res.last_mut() {
                Some(l) if r.start <= l.end => l.end = l.end.max(r.end),
                _ => res.push(r),
            }
        }
        self.0 = res;
    }
    pub fn is_disjoint(&self, o: &Ranges) -> bool {
        !self.0.iter().any(|a| o.0.iter().any(|b| a.start < b.end && b.start < a.end))
    }
    pub fn difference(&self, o: &Ranges) -> Ranges {
        let mut cur = self.0.clone();
        for b in &o.0 {
            let mut next = vec![];
            for a in cur {
                if a.end <= b.start || b.end <= a.start {
                    next.push(a);
                    continue;
                }
                if a.start < b.start {
                    next.push(a.start..b.start);
                }
                if b.end < a.end {
                    next.push(b.end..a.end);
                }
            }
            cur = next;
        }
        Ranges(cur)
    }
    pub fn iter(&self) -> Iter<'_> {
        Iter(self.0.iter())
    }
}
impl From<Range<u64>> for Ranges {
    fn from(r: Range<u64>) -> Self {
        Ranges(if r.start < r.end { vec![r] } else { vec![] })
    }
}
pub struct Iter<'a>(std::slice::Iter<'a, Range<u64>>);
impl<'a> Iterator for Iter<'a> {
    type Item = (Bound<&'a u64>, Bound<&'a u64>);
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|r| (Bound::Included(&r.start), Bound::Excluded(&r.end)))
    }
}
