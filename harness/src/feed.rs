//! What a streaming sequence needs around it when the producer is a test.
use parcom_sequence_core::{LoadInfo, SequenceBuffer, SequenceBuilder, SequenceControl, SequenceLoader, SequenceSource};
use std::marker::PhantomData;

/// a source that is never asked: the producer is outside of the sequence
pub struct NoSource<T>(PhantomData<T>);
impl<T: 'static> SequenceSource for NoSource<T> {
    type Item = T;
    type Error = ();
    type Next<'a, C>
        = std::future::Ready<C::Result>
    where
        C: 'a + SequenceControl<Item = T, Error = ()>;
    fn next<'a, C>(&'a mut self, control: C, _: usize) -> Self::Next<'a, C>
    where
        C: 'a + SequenceControl<Item = T, Error = ()>,
    {
        std::future::ready(control.finish())
    }
}
pub struct NoLoader<T>(pub PhantomData<T>);
impl<T: 'static> SequenceLoader for NoLoader<T> {
    type Length = usize;
    type Segment = [T];
    type Error = ();
    type Load<'a> = std::future::Ready<Result<LoadInfo, ()>>;
    fn force_commit(&mut self) {}
    fn load(&mut self) -> Self::Load<'_> {
        std::future::ready(Ok(LoadInfo::done(0)))
    }
}
pub struct With<B>(PhantomData<B>);
impl<T: 'static, B: SequenceBuffer<Segment = [T], Length = usize>> SequenceBuilder<NoSource<T>> for With<B> {
    type Length = usize;
    type Segment = [T];
    type Buffer = B;
    type Loader = NoLoader<T>;
    fn build(&self, _: NoSource<T>) -> (B, NoLoader<T>) {
        unreachable!()
    }
}
