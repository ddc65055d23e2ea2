use proptest::prelude::*;

/// histories shorter than `max`, and one in sixty up to `times` as long
pub fn now_and_then_longer<S>(op: S, max: usize, times: usize) -> BoxedStrategy<Vec<S::Value>>
where
    S: Strategy + 'static,
    S::Value: 'static,
{
    let op = std::sync::Arc::new(op);
    prop_oneof![60 => prop::collection::vec(op.clone(), 1..max), 1 => prop::collection::vec(op, max..max * times)].boxed()
}
