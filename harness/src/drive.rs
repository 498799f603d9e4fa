//! Driving iterators through mixed programs of steps, skips and stops.

use crate::ensure;
use crate::rng::Rng;
use crate::run::{Obs, Res};

/// An iterator and the items it should give, one operation at a time. Only
/// this much is compiled for every iterator; the programs are shared.
trait Driven {
    fn hint(&self) -> (usize, Option<usize>);
    /// The exact length, if the iterator promises one.
    fn len(&self) -> Option<usize>;
    /// Whether an item came, which has been compared with the one at `at`.
    fn next(&mut self, at: usize, o: &mut Obs) -> Res<bool>;
    fn nth(&mut self, k: usize, to: usize, o: &mut Obs) -> Res<bool>;
    fn skip(&mut self, k: usize, to: usize, o: &mut Obs) -> Res<bool>;
    /// The bounds of what is taken, and how much came.
    fn take(&mut self, k: usize, at: usize, o: &mut Obs) -> Res<((usize, Option<usize>), usize)>;
    fn take_count(&mut self, k: usize) -> usize;
    fn stop(&mut self, stop: usize, at: usize, o: &mut Obs) -> Res<usize>;
    fn count(&mut self) -> usize;
    fn last(&mut self, at: usize, o: &mut Obs) -> Res<bool>;
    fn steps(&mut self, k: usize, at: usize, left: usize, o: &mut Obs) -> Res;
    fn collect(&mut self, at: usize, o: &mut Obs) -> Res<usize>;
    fn for_each(&mut self, at: usize, o: &mut Obs) -> Res<usize>;
}

struct It<'a, I, T, F> {
    it: Option<I>,
    want: &'a [T],
    same: F,
    len: Option<fn(&I) -> usize>,
}

impl<'a, I: Iterator, T, F: FnMut(I::Item, &T, &mut Obs) -> Res> It<'a, I, T, F> {
    fn it(&mut self) -> &mut I {
        self.it.as_mut().expect("not consumed")
    }

    fn check(&mut self, v: Option<I::Item>, at: usize, o: &mut Obs) -> Res<bool> {
        match (v, self.want.get(at)) {
            (Some(v), Some(w)) => (self.same)(v, w, o).map(|()| true),
            (Some(_), None) => Err("an item too many".into()),
            (None, _) => Ok(false),
        }
    }
}

impl<'a, I: Iterator, T, F: FnMut(I::Item, &T, &mut Obs) -> Res> Driven for It<'a, I, T, F> {
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.as_ref().expect("not consumed").size_hint()
    }
    fn len(&self) -> Option<usize> {
        self.len.map(|len| len(self.it.as_ref().expect("not consumed")))
    }
    fn next(&mut self, at: usize, o: &mut Obs) -> Res<bool> {
        let v = self.it().next();
        self.check(v, at, o)
    }
    fn nth(&mut self, k: usize, to: usize, o: &mut Obs) -> Res<bool> {
        let v = self.it().nth(k);
        self.check(v, to, o)
    }
    fn skip(&mut self, k: usize, to: usize, o: &mut Obs) -> Res<bool> {
        let v = self.it().by_ref().skip(k).next();
        self.check(v, to, o)
    }
    fn take(&mut self, k: usize, at: usize, o: &mut Obs) -> Res<((usize, Option<usize>), usize)> {
        let mut it = self.it.take().expect("not consumed");
        let mut s = it.by_ref().take(k);
        let h = s.size_hint();
        let mut j = 0;
        let mut res = Ok(());
        for v in &mut s {
            res = self.check(Some(v), at + j, o).map(|_| ());
            if res.is_err() {
                break;
            }
            j += 1;
        }
        self.it = Some(it);
        res.map(|()| (h, j)).map_err(|e| format!("item {j}: {e}"))
    }
    fn take_count(&mut self, k: usize) -> usize {
        self.it().by_ref().take(k).count()
    }
    fn stop(&mut self, stop: usize, at: usize, o: &mut Obs) -> Res<usize> {
        let mut it = self.it.take().expect("not consumed");
        let mut j = 0;
        let mut bad = Ok(());
        let _ = it.by_ref().try_for_each(|v| {
            bad = self.check(Some(v), at + j, o).map(|_| ());
            j += 1;
            if j > stop || bad.is_err() { Err(()) } else { Ok(()) }
        });
        self.it = Some(it);
        bad.map(|()| j).map_err(|e| format!("item {j}: {e}"))
    }
    fn count(&mut self) -> usize {
        self.it.take().expect("not consumed").count()
    }
    fn last(&mut self, at: usize, o: &mut Obs) -> Res<bool> {
        let v = self.it.take().expect("not consumed").last();
        self.check(v, at, o)
    }
    fn steps(&mut self, k: usize, at: usize, left: usize, o: &mut Obs) -> Res {
        let mut it = self.it.take().expect("not consumed").step_by(k);
        let expect = left.div_ceil(k);
        for j in 0..=expect {
            let h = it.size_hint();
            ensure!(h == (expect - j, Some(expect - j)), "size hint is {h:?} at {j} of {expect}");
            let v = it.next();
            ensure!(v.is_some() == (j < expect), "{j} of {expect} is {}", if v.is_some() { "there" } else { "missing" });
            self.check(v, at + j * k, o).map_err(|e| format!("item {j}: {e}"))?;
        }
        Ok(())
    }
    fn collect(&mut self, at: usize, o: &mut Obs) -> Res<usize> {
        let all: Vec<I::Item> = self.it.take().expect("not consumed").collect();
        let n = all.len();
        for (j, v) in all.into_iter().enumerate() {
            self.check(Some(v), at + j, o).map_err(|e| format!("item {j}: {e}"))?;
        }
        Ok(n)
    }
    fn for_each(&mut self, at: usize, o: &mut Obs) -> Res<usize> {
        let mut j = 0;
        let mut bad = Ok(());
        self.it.take().expect("not consumed").for_each(|v| {
            if bad.is_ok() {
                bad = self.check(Some(v), at + j, o).map(|_| ());
            }
            j += 1;
        });
        bad.map(|()| j)
    }
}

fn hint(it: &dyn Driven, left: usize, after: &str) -> Res {
    let h = it.hint();
    ensure!(h == (left, Some(left)), "size hint is {h:?} with {left} items left (after {after})");
    if let Some(len) = it.len() {
        ensure!(len == left, "len() is {len} with {left} items left (after {after})");
    }
    Ok(())
}

/// Drives the iterator `it` over exactly `want`, comparing every yielded item
/// and the reported bounds after every operation.
pub fn drive<I: Iterator, T>(
    it: I,
    want: &[T],
    rng: &mut Rng,
    o: &mut Obs,
    same: impl FnMut(I::Item, &T, &mut Obs) -> Res,
) -> Res {
    program(&mut It { it: Some(it), want, same, len: None }, want.len(), rng, o)
}

/// [`drive`] for an iterator that also promises an exact length.
pub fn drive_exact<I: ExactSizeIterator, T>(
    it: I,
    want: &[T],
    rng: &mut Rng,
    o: &mut Obs,
    same: impl FnMut(I::Item, &T, &mut Obs) -> Res,
) -> Res {
    program(&mut It { it: Some(it), want, same, len: Some(I::len) }, want.len(), rng, o)
}

fn program(it: &mut dyn Driven, n: usize, rng: &mut Rng, o: &mut Obs) -> Res {
    let mut at = 0;
    hint(it, n, "creation")?;
    let max = rng.range(0, 24);
    for _ in 0..max {
        let left = n - at;
        o.add("iterator_operations", 1);
        match rng.below(7) {
            0 | 1 => {
                let got = it.next(at, o).map_err(|e| format!("next at {at} of {n}: {e}"))?;
                ensure!(got == (left > 0), "next ends at {at} of {n}");
                at += usize::from(got);
                hint(it, n - at, "next")?;
            }
            2 => {
                let k = match rng.below(8) {
                    0 => left,
                    1 => left + rng.below(9),
                    2 => left.saturating_sub(1),
                    3 => *rng.pick(&[1023, 1024, 63, 64, 7, 8]),
                    // Counts that overflow when scaled by a width or a bit count.
                    4 => match rng.below(3) {
                        0 => *rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2]),
                        _ => (usize::MAX / rng.range(2, 9)).saturating_add(rng.below(4)),
                    },
                    _ => rng.below(10),
                };
                let to = at.saturating_add(k);
                let got = it.nth(k, to, o).map_err(|e| format!("nth({k}) at {at} of {n}: {e}"))?;
                ensure!(got == (to < n), "nth({k}) is None with {left} items left");
                at = if got { to + 1 } else { n };
                hint(it, n - at, "nth")?;
            }
            3 => {
                // Stop early.
                let k = rng.below(left + 3);
                let m = k.min(left);
                let (h, got) = it.take(k, at, o).map_err(|e| format!("take({k}) at {at} of {n}: {e}"))?;
                ensure!(h == (m, Some(m)), "size hint of take({k}) is {h:?} with {left} items left");
                ensure!(got == m, "take({k}) gives {got} with {left} items left");
                at += m;
                hint(it, n - at, "take")?;
            }
            4 => {
                let k = rng.below(left + 3);
                let got = it.take_count(k);
                ensure!(got == k.min(left), "take({k}).count() is {got} with {left} left");
                at += got;
                hint(it, n - at, "count")?;
            }
            5 => {
                // Advance by steps, consuming from the same iterator.
                let k = rng.range(1, 9);
                for _ in 0..rng.range(1, 5) {
                    let to = at + k - 1;
                    let got = it.skip(k - 1, to, o).map_err(|e| format!("skip({}) at {at} of {n}: {e}", k - 1))?;
                    ensure!(got == (to < n), "skip({}) at {at} of {n} ends wrongly", k - 1);
                    at = if got { to + 1 } else { n };
                    hint(it, n - at, "skip")?;
                }
            }
            _ => {
                // Stop inside a fold.
                let stop = rng.below(left + 2);
                let got = it.stop(stop, at, o).map_err(|e| format!("try_for_each at {at} of {n}: {e}"))?;
                ensure!(got == left.min(stop + 1), "try_for_each saw {got} of {left} items, stop {stop}");
                at += got;
                hint(it, n - at, "try_for_each")?;
            }
        }
    }
    let left = n - at;
    o.add("iterators_driven", 1);
    match rng.below(5) {
        0 => {
            let got = it.count();
            ensure!(got == left, "count() is {got} with {left} items left");
        }
        1 => {
            let got = it.last(n.wrapping_sub(1), o).map_err(|e| format!("last(): {e}"))?;
            ensure!(got == (left > 0), "last() is wrong with {left} items left");
        }
        2 => {
            let k = rng.range(1, 11);
            it.steps(k, at, left, o).map_err(|e| format!("step_by({k}) at {at} of {n}: {e}"))?;
        }
        3 => {
            let got = it.collect(at, o).map_err(|e| format!("collecting from {at} of {n}: {e}"))?;
            ensure!(got == left, "collecting the rest gives {got} of {left}");
        }
        _ => {
            let got = it.for_each(at, o).map_err(|e| format!("for_each from {at} of {n}: {e}"))?;
            ensure!(got == left, "for_each from {at} of {n} sees {got}");
        }
    }
    Ok(())
}
