//! Item sources with every lawful (and hostile) way of delivering items.

use crate::rng::Rng;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hint {
    Exact,
    Zero,
    Unknown,
    /// `(0, Some(usize::MAX))`
    HugeUpper,
    /// Lower bound below the number of items, upper above it.
    Loose,
    /// Lower bound exact, upper absent.
    NoUpper,
    /// Lower bound exact, upper vastly larger.
    ExactHuge,
}
pub const HINTS: [Hint; 7] = [
    Hint::Exact,
    Hint::Zero,
    Hint::Unknown,
    Hint::HugeUpper,
    Hint::Loose,
    Hint::NoUpper,
    Hint::ExactHuge,
];

/// What the source observed.
#[derive(Debug, Default)]
pub struct Watch {
    pub delivered: Cell<usize>,
    /// Items delivered after the first end.
    pub late: Cell<usize>,
    /// `next` calls after the first end.
    pub after_end: Cell<usize>,
    pub ended: Cell<bool>,
}

#[derive(Debug)]
pub struct Source<T> {
    items: std::vec::IntoIter<T>,
    hint: Hint,
    /// Items offered after the first end of the source.
    late: std::vec::IntoIter<T>,
    /// Panic instead of delivering the item with this index.
    panic_at: Option<usize>,
    pos: usize,
    /// Number of `None`s returned before late items are offered.
    gap: usize,
    pub watch: Rc<Watch>,
}

impl<T> Source<T> {
    pub fn new(items: Vec<T>, hint: Hint) -> Self {
        Source {
            items: items.into_iter(),
            hint,
            late: Vec::new().into_iter(),
            panic_at: None,
            pos: 0,
            gap: 1,
            watch: Rc::new(Watch::default()),
        }
    }
    pub fn random_hint(items: Vec<T>, rng: &mut Rng) -> Self {
        let h = *rng.pick(&HINTS);
        Self::new(items, h)
    }
    /// Offers `late` after `gap` ends.
    pub fn resume(mut self, late: Vec<T>, gap: usize) -> Self {
        self.late = late.into_iter();
        self.gap = gap.max(1);
        self
    }
    pub fn panic_at(mut self, at: usize) -> Self {
        self.panic_at = Some(at);
        self
    }
}

impl<T> Iterator for Source<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.panic_at == Some(self.pos) {
            self.panic_at = None;
            std::panic::panic_any(crate::run::PLANNED);
        }
        if let Some(x) = self.items.next() {
            self.pos += 1;
            self.watch.delivered.set(self.watch.delivered.get() + 1);
            return Some(x);
        }
        if !self.watch.ended.get() {
            self.watch.ended.set(true);
            self.gap -= 1;
            return None;
        }
        self.watch.after_end.set(self.watch.after_end.get() + 1);
        if self.gap > 0 {
            self.gap -= 1;
            return None;
        }
        let x = self.late.next();
        if x.is_some() {
            self.watch.late.set(self.watch.late.get() + 1);
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            Hint::Exact => (n, Some(n)),
            Hint::Zero => (0, Some(n)),
            Hint::Unknown => (0, None),
            Hint::HugeUpper => (0, Some(usize::MAX)),
            Hint::Loose => (n / 2, Some(n.saturating_mul(3) + 5)),
            Hint::NoUpper => (n, None),
            Hint::ExactHuge => (n, Some(usize::MAX)),
        }
    }
}
