//! Iterators whose size hints are correct but say more or less, as the iterators of user matrices do.
pub struct Hinted<I> {
    it: I,
    kind: i64,
}
pub fn hinted<I: Iterator>(it: I, kind: i64) -> Hinted<I> {
    Hinted { it, kind: kind.rem_euclid(5) }
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (l, u) = self.it.size_hint();
        match self.kind {
            0 => (l, u),
            1 => (0, u),
            2 => (0, None),
            3 => (l, None),
            _ => (l / 2, u.map(|x| 2 * x)),
        }
    }
}
