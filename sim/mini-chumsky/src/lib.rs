//! A stand-in for the part of `chumsky` that /repo/aftermath-core/parser uses.
//! The pinned chumsky is a git dependency that this sandbox cannot fetch. This
//! is written from its documented behaviour; it keeps no error details.
use std::marker::PhantomData;
use std::rc::Rc;

type Ph<T> = PhantomData<fn() -> T>;

pub mod util {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum MaybeRef<'a, T> {
        Ref(&'a T),
        Val(T),
    }
    impl<T> MaybeRef<'_, T> {
        pub fn into_inner(self) -> T
        where
            T: Clone,
        {
            match self {
                MaybeRef::Ref(x) => x.clone(),
                MaybeRef::Val(x) => x,
            }
        }
    }
    impl<T> std::ops::Deref for MaybeRef<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            match self {
                MaybeRef::Ref(x) => x,
                MaybeRef::Val(x) => x,
            }
        }
    }
}

pub mod span {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct SimpleSpan<T = usize> {
        pub start: T,
        pub end: T,
    }
    impl<T> SimpleSpan<T> {
        pub fn new(start: T, end: T) -> Self {
            SimpleSpan { start, end }
        }
        pub fn into_range(self) -> std::ops::Range<T> {
            self.start..self.end
        }
    }
}

pub mod input {
    use super::*;
    use crate::extra::ParserExtra;
    use crate::span::SimpleSpan;
    use crate::util::MaybeRef;

    pub trait Input<'a>: 'a + Sized {
        type Token: 'a;
        type Span: Clone;
        fn token(&self, at: usize) -> Option<&'a Self::Token>;
        fn span(range: std::ops::Range<usize>) -> Self::Span;
    }
    impl<'a, T: 'a> Input<'a> for &'a [T] {
        type Token = T;
        type Span = SimpleSpan<usize>;
        fn token(&self, at: usize) -> Option<&'a T> {
            self.get(at)
        }
        fn span(range: std::ops::Range<usize>) -> SimpleSpan<usize> {
            SimpleSpan::new(range.start, range.end)
        }
    }
    pub trait ValueInput<'a>: Input<'a> {}
    impl<'a, I: Input<'a>> ValueInput<'a> for I where I::Token: Clone {}
    pub trait BorrowInput<'a>: Input<'a> {}
    impl<'a, I: Input<'a>> BorrowInput<'a> for I {}

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Marker(pub(crate) usize);
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Offset(pub(crate) usize);

    pub struct InputRef<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> {
        pub(crate) input: &'parse I,
        pub(crate) at: usize,
        pub(crate) phantom: PhantomData<(&'a (), E)>,
    }
    impl<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> InputRef<'a, 'parse, I, E> {
        pub fn save(&self) -> Marker {
            Marker(self.at)
        }
        pub fn rewind(&mut self, m: Marker) {
            self.at = m.0;
        }
        pub fn offset(&self) -> Offset {
            Offset(self.at)
        }
        pub fn span_since(&self, before: Offset) -> I::Span {
            I::span(before.0..self.at)
        }
        pub fn span_from(&self, range: std::ops::Range<Offset>) -> I::Span {
            I::span(range.start.0..range.end.0)
        }
        pub fn peek_maybe(&self) -> Option<MaybeRef<'a, I::Token>> {
            self.input.token(self.at).map(MaybeRef::Ref)
        }
        pub fn next_maybe(&mut self) -> Option<MaybeRef<'a, I::Token>> {
            self.next_ref().map(MaybeRef::Ref)
        }
        pub fn peek(&self) -> Option<I::Token>
        where
            I::Token: Clone,
        {
            self.input.token(self.at).cloned()
        }
        pub fn next(&mut self) -> Option<I::Token>
        where
            I::Token: Clone,
        {
            self.next_ref().cloned()
        }
        pub fn next_ref(&mut self) -> Option<&'a I::Token> {
            let t = self.input.token(self.at);
            if t.is_some() {
                self.at += 1;
            }
            t
        }
        pub fn skip(&mut self) {
            let _ = self.next_ref();
        }
        fn failure(&self) -> E::Error {
            use crate::error::Error;
            E::Error::expected_found(None, None, I::span(self.at..self.at))
        }
        pub fn parse<O, P: Parser<'a, I, O, E> + ?Sized>(&mut self, p: &P) -> Result<O, E::Error> {
            p.go_emit(self).map_err(|()| self.failure())
        }
        pub fn check<O, P: Parser<'a, I, O, E> + ?Sized>(&mut self, p: &P) -> Result<(), E::Error> {
            p.go_check(self).map_err(|()| self.failure())
        }
    }
}

pub mod error {
    use crate::input::Input;
    use crate::util::MaybeRef;
    pub trait Error<'a, I: Input<'a>>: Sized {
        fn expected_found<E: IntoIterator<Item = Option<MaybeRef<'a, I::Token>>>>(
            expected: E,
            found: Option<MaybeRef<'a, I::Token>>,
            span: I::Span,
        ) -> Self;
        fn merge(self, _other: Self) -> Self {
            self
        }
    }
}

pub mod extra {
    use super::Ph;
    use crate::error::Error;
    use crate::input::Input;
    use std::marker::PhantomData;
    pub trait ParserExtra<'a, I: Input<'a>>: 'a {
        type Error: Error<'a, I> + 'a;
        type State: 'a;
        type Context: 'a;
    }
    pub struct Full<E, S, C>(#[allow(dead_code)] Ph<(E, S, C)>);
    impl<E, S, C> Default for Full<E, S, C> {
        fn default() -> Self {
            Full(PhantomData)
        }
    }
    impl<'a, I: Input<'a>, E: Error<'a, I> + 'a, S: 'a, C: 'a> ParserExtra<'a, I> for Full<E, S, C> {
        type Error = E;
        type State = S;
        type Context = C;
    }
}

use extra::ParserExtra;
use input::{Input, InputRef};

pub struct ParseResult<T, E> {
    output: Option<T>,
    errs: Vec<E>,
}
impl<T, E> ParseResult<T, E> {
    pub fn into_output_errors(self) -> (Option<T>, Vec<E>) {
        (self.output, self.errs)
    }
    pub fn has_output(&self) -> bool {
        self.output.is_some()
    }
    pub fn has_errors(&self) -> bool {
        !self.errs.is_empty()
    }
    pub fn output(&self) -> Option<&T> {
        self.output.as_ref()
    }
    pub fn into_output(self) -> Option<T> {
        self.output
    }
    pub fn into_errors(self) -> Vec<E> {
        self.errs
    }
    pub fn errors(&self) -> impl Iterator<Item = &E> {
        self.errs.iter()
    }
    pub fn into_result(self) -> Result<T, Vec<E>> {
        match self.output {
            Some(o) if self.errs.is_empty() => Ok(o),
            _ => Err(self.errs),
        }
    }
}

/// Counts the parsers that are called, so that a simulation can bound a parse.
pub mod meter {
    use std::cell::Cell;
    thread_local! {
        static USED: Cell<u64> = const { Cell::new(0) };
        static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    }
    pub const EXCEEDED: &str = "parser step limit exceeded";
    /// Starts counting; the parse panics with `EXCEEDED` beyond the limit.
    pub fn start(limit: u64) {
        USED.with(|u| u.set(0));
        LIMIT.with(|l| l.set(limit));
    }
    pub fn used() -> u64 {
        USED.with(|u| u.get())
    }
    #[inline]
    pub(crate) fn tick() {
        let n = USED.with(|u| {
            u.set(u.get() + 1);
            u.get()
        });
        if n > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            panic!("{EXCEEDED}");
        }
    }
}

pub trait Parser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    #[doc(hidden)]
    fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()>;
    #[doc(hidden)]
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()>;

    fn parse(&self, input: I) -> ParseResult<O, E::Error>
    where
        Self: Sized,
    {
        use error::Error;
        let mut inp = InputRef {
            input: &input,
            at: 0,
            phantom: PhantomData,
        };
        let r = self.go_emit(&mut inp);
        let at = inp.at;
        let fail = || E::Error::expected_found(None, None, I::span(at..at));
        match r {
            Ok(o) if inp.peek_maybe().is_none() => ParseResult {
                output: Some(o),
                errs: vec![],
            },
            _ => ParseResult {
                output: None,
                errs: vec![fail()],
            },
        }
    }
    fn map<U, F: Fn(O) -> U>(self, mapper: F) -> combinator::Map<Self, O, F>
    where
        Self: Sized,
    {
        combinator::Map(self, mapper, PhantomData)
    }
    fn map_with_span<U, F: Fn(O, I::Span) -> U>(self, mapper: F) -> combinator::MapWithSpan<Self, O, F>
    where
        Self: Sized,
    {
        combinator::MapWithSpan(self, mapper, PhantomData)
    }
    fn then<U, B: Parser<'a, I, U, E>>(self, other: B) -> combinator::Then<Self, B, O, U, E>
    where
        Self: Sized,
    {
        combinator::Then(self, other, PhantomData)
    }
    fn or<B: Parser<'a, I, O, E>>(self, other: B) -> combinator::Or<Self, B>
    where
        Self: Sized,
    {
        combinator::Or(self, other)
    }
    fn or_not(self) -> combinator::OrNot<Self>
    where
        Self: Sized,
    {
        combinator::OrNot(self)
    }
    fn repeated(self) -> combinator::Repeated<Self, O, I, E>
    where
        Self: Sized,
    {
        combinator::Repeated(self, 0, usize::MAX, PhantomData)
    }
    fn ignored(self) -> combinator::Ignored<Self, O>
    where
        Self: Sized,
    {
        combinator::Ignored(self, PhantomData)
    }
    fn to<U: Clone>(self, to: U) -> combinator::To<Self, O, U>
    where
        Self: Sized,
    {
        combinator::To(self, to, PhantomData)
    }
    fn filter<F: Fn(&O) -> bool>(self, filter: F) -> combinator::Filter<Self, F>
    where
        Self: Sized,
    {
        combinator::Filter(self, filter)
    }
    fn try_map<U, F: Fn(O, I::Span) -> Result<U, E::Error>>(self, f: F) -> combinator::TryMap<Self, O, F>
    where
        Self: Sized,
    {
        combinator::TryMap(self, f, PhantomData)
    }
    fn map_err<F: Fn(E::Error) -> E::Error>(self, f: F) -> combinator::MapErr<Self, F>
    where
        Self: Sized,
    {
        combinator::MapErr(self, f)
    }
    fn ignore_then<U, B: Parser<'a, I, U, E>>(self, other: B) -> combinator::IgnoreThen<Self, B, O, E>
    where
        Self: Sized,
    {
        combinator::IgnoreThen(self, other, PhantomData)
    }
    fn then_ignore<U, B: Parser<'a, I, U, E>>(self, other: B) -> combinator::ThenIgnore<Self, B, U, E>
    where
        Self: Sized,
    {
        combinator::ThenIgnore(self, other, PhantomData)
    }
    fn delimited_by<U, V, B: Parser<'a, I, U, E>, C: Parser<'a, I, V, E>>(
        self,
        start: B,
        end: C,
    ) -> combinator::DelimitedBy<Self, B, C, U, V>
    where
        Self: Sized,
    {
        combinator::DelimitedBy(self, start, end, PhantomData)
    }
    fn padded_by<U, B: Parser<'a, I, U, E>>(self, padding: B) -> combinator::PaddedBy<Self, B, U>
    where
        Self: Sized,
    {
        combinator::PaddedBy(self, padding, PhantomData)
    }
    fn and_is<U, B: Parser<'a, I, U, E>>(self, other: B) -> combinator::AndIs<Self, B, U>
    where
        Self: Sized,
    {
        combinator::AndIs(self, other, PhantomData)
    }
    fn not(self) -> combinator::Not<Self, O>
    where
        Self: Sized,
    {
        combinator::Not(self, PhantomData)
    }
    fn rewind(self) -> combinator::Rewind<Self>
    where
        Self: Sized,
    {
        combinator::Rewind(self)
    }
    fn separated_by<U, B: Parser<'a, I, U, E>>(
        self,
        separator: B,
    ) -> combinator::SeparatedBy<Self, B, O, U, I, E>
    where
        Self: Sized,
    {
        combinator::SeparatedBy {
            item: self,
            separator,
            at_least: 0,
            at_most: usize::MAX,
            leading: false,
            trailing: false,
            phantom: PhantomData,
        }
    }
    fn foldl<B, U, F>(self, other: B, f: F) -> combinator::Foldl<Self, B, F, U, E>
    where
        F: Fn(O, U) -> O,
        B: IterParser<'a, I, U, E>,
        Self: Sized,
    {
        combinator::Foldl(self, other, f, PhantomData)
    }
    fn with_ctx<Ctx>(self, ctx: Ctx) -> combinator::WithCtx<Self, Ctx>
    where
        Self: Sized,
    {
        combinator::WithCtx(self, ctx)
    }
    fn boxed<'b>(self) -> Boxed<'a, 'b, I, O, E>
    where
        Self: Sized + 'a + 'b,
    {
        Boxed { inner: Rc::new(self) }
    }
}

/// A parser that can be iterated over.
pub trait IterParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    #[doc(hidden)]
    fn each(&self, inp: &mut InputRef<'a, '_, I, E>, emit: bool, sink: &mut dyn FnMut(O)) -> Result<(), ()>;
    fn collect<C: container::Container<O>>(self) -> combinator::Collect<Self, O, C>
    where
        Self: Sized,
    {
        combinator::Collect(self, PhantomData)
    }
    fn count(self) -> combinator::Count<Self, O>
    where
        Self: Sized,
    {
        combinator::Count(self, PhantomData)
    }
    fn foldr<B, U, F>(self, other: B, f: F) -> combinator::Foldr<Self, B, F, O, E>
    where
        F: Fn(O, U) -> U,
        B: Parser<'a, I, U, E>,
        Self: Sized,
    {
        combinator::Foldr(self, other, f, PhantomData)
    }
}

pub mod container {
    pub trait Container<T>: Default {
        fn push(&mut self, item: T);
    }
    impl<T> Container<T> for Vec<T> {
        fn push(&mut self, item: T) {
            Vec::push(self, item)
        }
    }
    impl Container<char> for String {
        fn push(&mut self, item: char) {
            String::push(self, item)
        }
    }
}

pub struct Boxed<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    inner: Rc<dyn Parser<'a, I, O, E> + 'b>,
}
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Clone for Boxed<'a, 'b, I, O, E> {
    fn clone(&self) -> Self {
        Boxed {
            inner: self.inner.clone(),
        }
    }
}
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Parser<'a, I, O, E> for Boxed<'a, 'b, I, O, E> {
    fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
        meter::tick();
        self.inner.go_emit(inp)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
        meter::tick();
        self.inner.go_check(inp)
    }
}
impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, T: Parser<'a, I, O, E>> Parser<'a, I, O, E> for &T {
    fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
        (**self).go_emit(inp)
    }
    fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
        (**self).go_check(inp)
    }
}

pub mod combinator {
    use super::*;
    use crate::container::Container;

    macro_rules! copyable {
        ($name:ident<$($p:ident),*> where $($q:ident),*; $($f:tt),*) => {
            impl<$($p),*> Clone for $name<$($p),*> where $($q: Clone),* {
                fn clone(&self) -> Self { $name($(self.$f.clone()),*) }
            }
            impl<$($p),*> Copy for $name<$($p),*> where $($q: Copy),* {}
        };
    }

    pub struct Map<A, OA, F>(pub(crate) A, pub(crate) F, pub(crate) Ph<OA>);
    copyable!(Map<A, OA, F> where A, F; 0, 1, 2);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA, F: Fn(OA) -> O>
        Parser<'a, I, O, E> for Map<A, OA, F>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            Ok((self.1)(self.0.go_emit(inp)?))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.go_check(inp)
        }
    }

    pub struct MapWithSpan<A, OA, F>(pub(crate) A, pub(crate) F, pub(crate) Ph<OA>);
    copyable!(MapWithSpan<A, OA, F> where A, F; 0, 1, 2);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA, F: Fn(OA, I::Span) -> O>
        Parser<'a, I, O, E> for MapWithSpan<A, OA, F>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.offset();
            let v = self.0.go_emit(inp)?;
            Ok((self.1)(v, inp.span_since(before)))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.go_check(inp)
        }
    }

    pub struct Then<A, B, OA, OB, E>(pub(crate) A, pub(crate) B, pub(crate) Ph<(OA, OB, E)>);
    copyable!(Then<A, B, OA, OB, E> where A, B; 0, 1, 2);
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA, B: Parser<'a, I, OB, E>, OB>
        Parser<'a, I, (OA, OB), E> for Then<A, B, OA, OB, E>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(OA, OB), ()> {
            let a = self.0.go_emit(inp)?;
            let b = self.1.go_emit(inp)?;
            Ok((a, b))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.go_check(inp)?;
            self.1.go_check(inp)
        }
    }

    pub struct Or<A, B>(pub(crate) A, pub(crate) B);
    copyable!(Or<A, B> where A, B; 0, 1);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, O, E>>
        Parser<'a, I, O, E> for Or<A, B>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            self.0.go_emit(inp).or_else(|()| {
                inp.rewind(before);
                self.1.go_emit(inp)
            })
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            self.0.go_check(inp).or_else(|()| {
                inp.rewind(before);
                self.1.go_check(inp)
            })
        }
    }

    pub struct OrNot<A>(pub(crate) A);
    copyable!(OrNot<A> where A; 0);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, Option<O>, E>
        for OrNot<A>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<Option<O>, ()> {
            let before = inp.save();
            match self.0.go_emit(inp) {
                Ok(v) => Ok(Some(v)),
                Err(()) => {
                    inp.rewind(before);
                    Ok(None)
                }
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            if self.0.go_check(inp).is_err() {
                inp.rewind(before);
            }
            Ok(())
        }
    }

    pub struct Repeated<A, OA, I, E>(
        pub(crate) A,
        pub(crate) usize,
        pub(crate) usize,
        pub(crate) Ph<(OA, I, E)>,
    );
    copyable!(Repeated<A, OA, I, E> where A; 0, 1, 2, 3);
    impl<A, OA, I, E> Repeated<A, OA, I, E> {
        pub fn at_least(self, n: usize) -> Self {
            Repeated(self.0, n, self.2, PhantomData)
        }
        pub fn at_most(self, n: usize) -> Self {
            Repeated(self.0, self.1, n, PhantomData)
        }
        pub fn exactly(self, n: usize) -> Self {
            Repeated(self.0, n, n, PhantomData)
        }
    }
    impl<'a, I: Input<'a>, OA, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>> IterParser<'a, I, OA, E>
        for Repeated<A, OA, I, E>
    {
        fn each(
            &self,
            inp: &mut InputRef<'a, '_, I, E>,
            emit: bool,
            sink: &mut dyn FnMut(OA),
        ) -> Result<(), ()> {
            let mut n = 0;
            loop {
                if n >= self.2 {
                    return Ok(());
                }
                let before = inp.save();
                let ok = if emit {
                    self.0.go_emit(inp).map(&mut *sink)
                } else {
                    self.0.go_check(inp)
                };
                if ok.is_err() {
                    inp.rewind(before);
                    return if n >= self.1 { Ok(()) } else { Err(()) };
                }
                if inp.save() == before {
                    panic!("a repeated parser makes no progress");
                }
                n += 1;
            }
        }
    }
    impl<'a, I: Input<'a>, OA, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>> Parser<'a, I, (), E>
        for Repeated<A, OA, I, E>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.each(inp, false, &mut |_| {})
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.each(inp, false, &mut |_| {})
        }
    }

    pub struct Collect<A, O, C>(pub(crate) A, pub(crate) Ph<(O, C)>);
    copyable!(Collect<A, O, C> where A; 0, 1);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: IterParser<'a, I, O, E>, C: Container<O>>
        Parser<'a, I, C, E> for Collect<A, O, C>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<C, ()> {
            let mut c = C::default();
            self.0.each(inp, true, &mut |v| c.push(v))?;
            Ok(c)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.each(inp, false, &mut |_| {})
        }
    }

    pub struct Count<A, O>(pub(crate) A, pub(crate) Ph<O>);
    copyable!(Count<A, O> where A; 0, 1);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: IterParser<'a, I, O, E>> Parser<'a, I, usize, E>
        for Count<A, O>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<usize, ()> {
            let mut n = 0;
            self.0.each(inp, true, &mut |_| n += 1)?;
            Ok(n)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.each(inp, false, &mut |_| {})
        }
    }

    pub struct Foldl<A, B, F, U, E>(pub(crate) A, pub(crate) B, pub(crate) F, pub(crate) Ph<(U, E)>);
    copyable!(Foldl<A, B, F, U, E> where A, B, F; 0, 1, 2, 3);
    impl<'a, I: Input<'a>, O, U, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: IterParser<'a, I, U, E>, F>
        Parser<'a, I, O, E> for Foldl<A, B, F, U, E>
    where
        F: Fn(O, U) -> O,
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let mut acc = Some(self.0.go_emit(inp)?);
            self.1
                .each(inp, true, &mut |v| acc = Some((self.2)(acc.take().unwrap(), v)))?;
            Ok(acc.unwrap())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.go_check(inp)?;
            self.1.each(inp, false, &mut |_| {})
        }
    }

    pub struct Foldr<A, B, F, O, E>(pub(crate) A, pub(crate) B, pub(crate) F, pub(crate) Ph<(O, E)>);
    copyable!(Foldr<A, B, F, O, E> where A, B, F; 0, 1, 2, 3);
    impl<'a, I: Input<'a>, O, U, E: ParserExtra<'a, I>, A: IterParser<'a, I, O, E>, B: Parser<'a, I, U, E>, F>
        Parser<'a, I, U, E> for Foldr<A, B, F, O, E>
    where
        F: Fn(O, U) -> U,
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, ()> {
            let mut all = vec![];
            self.0.each(inp, true, &mut |v| all.push(v))?;
            let last = self.1.go_emit(inp)?;
            Ok(all.into_iter().rev().fold(last, |acc, v| (self.2)(v, acc)))
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.each(inp, false, &mut |_| {})?;
            self.1.go_check(inp)
        }
    }

    pub struct SeparatedBy<A, B, O, U, I, E> {
        pub(crate) item: A,
        pub(crate) separator: B,
        pub(crate) at_least: usize,
        pub(crate) at_most: usize,
        pub(crate) leading: bool,
        pub(crate) trailing: bool,
        pub(crate) phantom: Ph<(O, U, I, E)>,
    }
    impl<A: Clone, B: Clone, O, U, I, E> Clone for SeparatedBy<A, B, O, U, I, E> {
        fn clone(&self) -> Self {
            SeparatedBy {
                item: self.item.clone(),
                separator: self.separator.clone(),
                phantom: PhantomData,
                ..*self
            }
        }
    }
    impl<A: Copy, B: Copy, O, U, I, E> Copy for SeparatedBy<A, B, O, U, I, E> {}
    impl<A, B, O, U, I, E> SeparatedBy<A, B, O, U, I, E> {
        pub fn at_least(self, at_least: usize) -> Self {
            SeparatedBy { at_least, ..self }
        }
        pub fn at_most(self, at_most: usize) -> Self {
            SeparatedBy { at_most, ..self }
        }
        pub fn exactly(self, n: usize) -> Self {
            SeparatedBy { at_least: n, at_most: n, ..self }
        }
        pub fn allow_leading(self) -> Self {
            SeparatedBy { leading: true, ..self }
        }
        pub fn allow_trailing(self) -> Self {
            SeparatedBy { trailing: true, ..self }
        }
    }
    impl<'a, I: Input<'a>, O, U, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, U, E>>
        IterParser<'a, I, O, E> for SeparatedBy<A, B, O, U, I, E>
    {
        fn each(
            &self,
            inp: &mut InputRef<'a, '_, I, E>,
            emit: bool,
            sink: &mut dyn FnMut(O),
        ) -> Result<(), ()> {
            if self.leading {
                let before = inp.save();
                if self.separator.go_check(inp).is_err() {
                    inp.rewind(before);
                }
            }
            let mut n = 0;
            while n < self.at_most {
                let before_separator = inp.save();
                if n > 0 && self.separator.go_check(inp).is_err() {
                    inp.rewind(before_separator);
                    break;
                }
                let before_item = inp.save();
                let ok = if emit {
                    self.item.go_emit(inp).map(&mut *sink)
                } else {
                    self.item.go_check(inp)
                };
                if ok.is_err() {
                    inp.rewind(before_separator);
                    let _ = before_item;
                    break;
                }
                n += 1;
            }
            if n < self.at_least {
                return Err(());
            }
            if self.trailing && n > 0 {
                let before = inp.save();
                if self.separator.go_check(inp).is_err() {
                    inp.rewind(before);
                }
            }
            Ok(())
        }
    }
    impl<'a, I: Input<'a>, O, U, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, U, E>>
        Parser<'a, I, (), E> for SeparatedBy<A, B, O, U, I, E>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.each(inp, false, &mut |_| {})
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.each(inp, false, &mut |_| {})
        }
    }

    pub struct Ignored<A, O>(pub(crate) A, pub(crate) Ph<O>);
    copyable!(Ignored<A, O> where A; 0, 1);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, (), E>
        for Ignored<A, O>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.go_check(inp)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.go_check(inp)
        }
    }

    pub struct To<A, O, U>(pub(crate) A, pub(crate) U, pub(crate) Ph<O>);
    copyable!(To<A, O, U> where A, U; 0, 1, 2);
    impl<'a, I: Input<'a>, O, U: Clone, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, U, E>
        for To<A, O, U>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, ()> {
            self.0.go_check(inp)?;
            Ok(self.1.clone())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.go_check(inp)
        }
    }

    pub struct Filter<A, F>(pub(crate) A, pub(crate) F);
    copyable!(Filter<A, F> where A, F; 0, 1);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, F: Fn(&O) -> bool>
        Parser<'a, I, O, E> for Filter<A, F>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let v = self.0.go_emit(inp)?;
            if (self.1)(&v) {
                Ok(v)
            } else {
                Err(())
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_emit(inp).map(|_| ())
        }
    }

    pub struct TryMap<A, OA, F>(pub(crate) A, pub(crate) F, pub(crate) Ph<OA>);
    copyable!(TryMap<A, OA, F> where A, F; 0, 1, 2);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, OA, F> Parser<'a, I, O, E>
        for TryMap<A, OA, F>
    where
        F: Fn(OA, I::Span) -> Result<O, E::Error>,
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.offset();
            let v = self.0.go_emit(inp)?;
            (self.1)(v, inp.span_since(before)).map_err(|_| ())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_emit(inp).map(|_| ())
        }
    }

    /// Errors carry nothing here, so there is nothing to map.
    pub struct MapErr<A, F>(pub(crate) A, pub(crate) F);
    copyable!(MapErr<A, F> where A, F; 0, 1);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, F> Parser<'a, I, O, E>
        for MapErr<A, F>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            self.0.go_emit(inp)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.go_check(inp)
        }
    }

    pub struct IgnoreThen<A, B, OA, E>(pub(crate) A, pub(crate) B, pub(crate) Ph<(OA, E)>);
    copyable!(IgnoreThen<A, B, OA, E> where A, B; 0, 1, 2);
    impl<'a, I: Input<'a>, O, OA, E: ParserExtra<'a, I>, A: Parser<'a, I, OA, E>, B: Parser<'a, I, O, E>>
        Parser<'a, I, O, E> for IgnoreThen<A, B, OA, E>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            self.0.go_check(inp)?;
            self.1.go_emit(inp)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.go_check(inp)?;
            self.1.go_check(inp)
        }
    }

    pub struct ThenIgnore<A, B, OB, E>(pub(crate) A, pub(crate) B, pub(crate) Ph<(OB, E)>);
    copyable!(ThenIgnore<A, B, OB, E> where A, B; 0, 1, 2);
    impl<'a, I: Input<'a>, O, OB, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, OB, E>>
        Parser<'a, I, O, E> for ThenIgnore<A, B, OB, E>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let v = self.0.go_emit(inp)?;
            self.1.go_check(inp)?;
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.go_check(inp)?;
            self.1.go_check(inp)
        }
    }

    pub struct DelimitedBy<A, B, C, OB, OC>(
        pub(crate) A,
        pub(crate) B,
        pub(crate) C,
        pub(crate) Ph<(OB, OC)>,
    );
    copyable!(DelimitedBy<A, B, C, OB, OC> where A, B, C; 0, 1, 2, 3);
    impl<'a, I: Input<'a>, O, OB, OC, E: ParserExtra<'a, I>, A, B, C> Parser<'a, I, O, E>
        for DelimitedBy<A, B, C, OB, OC>
    where
        A: Parser<'a, I, O, E>,
        B: Parser<'a, I, OB, E>,
        C: Parser<'a, I, OC, E>,
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            self.1.go_check(inp)?;
            let v = self.0.go_emit(inp)?;
            self.2.go_check(inp)?;
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.1.go_check(inp)?;
            self.0.go_check(inp)?;
            self.2.go_check(inp)
        }
    }

    pub struct PaddedBy<A, B, OB>(pub(crate) A, pub(crate) B, pub(crate) Ph<OB>);
    copyable!(PaddedBy<A, B, OB> where A, B; 0, 1, 2);
    impl<'a, I: Input<'a>, O, OB, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, OB, E>>
        Parser<'a, I, O, E> for PaddedBy<A, B, OB>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            self.1.go_check(inp)?;
            let v = self.0.go_emit(inp)?;
            self.1.go_check(inp)?;
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.1.go_check(inp)?;
            self.0.go_check(inp)?;
            self.1.go_check(inp)
        }
    }

    pub struct AndIs<A, B, OB>(pub(crate) A, pub(crate) B, pub(crate) Ph<OB>);
    copyable!(AndIs<A, B, OB> where A, B; 0, 1, 2);
    impl<'a, I: Input<'a>, O, OB, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, OB, E>>
        Parser<'a, I, O, E> for AndIs<A, B, OB>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            let v = self.0.go_emit(inp)?;
            let after = inp.save();
            inp.rewind(before);
            self.1.go_check(inp)?;
            inp.rewind(after);
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_emit(inp).map(|_| ())
        }
    }

    pub struct Not<A, O>(pub(crate) A, pub(crate) Ph<O>);
    copyable!(Not<A, O> where A; 0, 1);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, (), E>
        for Not<A, O>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            let matched = self.0.go_check(inp).is_ok();
            inp.rewind(before);
            if matched {
                Err(())
            } else {
                Ok(())
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_emit(inp)
        }
    }

    pub struct Rewind<A>(pub(crate) A);
    copyable!(Rewind<A> where A; 0);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, O, E>
        for Rewind<A>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            let v = self.0.go_emit(inp)?;
            inp.rewind(before);
            Ok(v)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            self.0.go_check(inp)?;
            inp.rewind(before);
            Ok(())
        }
    }

    pub struct WithCtx<A, Ctx>(pub(crate) A, pub(crate) Ctx);
    copyable!(WithCtx<A, Ctx> where A, Ctx; 0, 1);
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, Ctx> Parser<'a, I, O, E>
        for WithCtx<A, Ctx>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let _ = &self.1;
            self.0.go_emit(inp)
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.0.go_check(inp)
        }
    }
}

pub mod primitive {
    use super::*;
    use crate::input::{BorrowInput, ValueInput};

    pub struct End<I, E>(Ph<(I, E)>);
    impl<I, E> Clone for End<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<I, E> Copy for End<I, E> {}
    pub const fn end<'a, I: Input<'a>, E: ParserExtra<'a, I>>() -> End<I, E> {
        End(PhantomData)
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, (), E> for End<I, E> {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            if inp.peek_maybe().is_none() {
                Ok(())
            } else {
                Err(())
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_emit(inp)
        }
    }

    pub struct Empty<I, E>(Ph<(I, E)>);
    impl<I, E> Clone for Empty<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<I, E> Copy for Empty<I, E> {}
    pub const fn empty<'a, I: Input<'a>, E: ParserExtra<'a, I>>() -> Empty<I, E> {
        Empty(PhantomData)
    }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, (), E> for Empty<I, E> {
        fn go_emit(&self, _: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            Ok(())
        }
        fn go_check(&self, _: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            Ok(())
        }
    }

    pub struct Any<I, E>(Ph<(I, E)>);
    impl<I, E> Clone for Any<I, E> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<I, E> Copy for Any<I, E> {}
    pub const fn any<'a, I: Input<'a>, E: ParserExtra<'a, I>>() -> Any<I, E> {
        Any(PhantomData)
    }
    impl<'a, I: ValueInput<'a>, E: ParserExtra<'a, I>> Parser<'a, I, I::Token, E> for Any<I, E>
    where
        I::Token: Clone,
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<I::Token, ()> {
            inp.next().ok_or(())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            inp.next_ref().map(|_| ()).ok_or(())
        }
    }

    pub struct OneOf<T, I, E>(T, bool, Ph<(I, E)>);
    impl<T: Clone, I, E> Clone for OneOf<T, I, E> {
        fn clone(&self) -> Self {
            OneOf(self.0.clone(), self.1, PhantomData)
        }
    }
    impl<T: Copy, I, E> Copy for OneOf<T, I, E> {}
    pub const fn one_of<'a, T, I, E>(seq: T) -> OneOf<T, I, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: OrderedSeq<I::Token>,
    {
        OneOf(seq, true, PhantomData)
    }
    pub const fn none_of<'a, T, I, E>(seq: T) -> OneOf<T, I, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: OrderedSeq<I::Token>,
    {
        OneOf(seq, false, PhantomData)
    }
    impl<'a, T, I: ValueInput<'a>, E: ParserExtra<'a, I>> Parser<'a, I, I::Token, E> for OneOf<T, I, E>
    where
        I::Token: PartialEq + Clone,
        T: OrderedSeq<I::Token>,
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<I::Token, ()> {
            match inp.next() {
                Some(t) if self.0.tokens().any(|w| *w == t) == self.1 => Ok(t),
                _ => Err(()),
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_emit(inp).map(|_| ())
        }
    }

    /// A single token or a sequence of them.
    pub trait OrderedSeq<T> {
        fn tokens(&self) -> std::slice::Iter<'_, T>;
    }
    impl<T> OrderedSeq<T> for T {
        fn tokens(&self) -> std::slice::Iter<'_, T> {
            std::slice::from_ref(self).iter()
        }
    }
    impl<T, const N: usize> OrderedSeq<T> for [T; N] {
        fn tokens(&self) -> std::slice::Iter<'_, T> {
            self.iter()
        }
    }
    impl<T> OrderedSeq<T> for &[T] {
        fn tokens(&self) -> std::slice::Iter<'_, T> {
            self.iter()
        }
    }
    impl<T> OrderedSeq<T> for Vec<T> {
        fn tokens(&self) -> std::slice::Iter<'_, T> {
            self.iter()
        }
    }

    pub struct Just<T, I, E>(T, Ph<(I, E)>);
    impl<T: Clone, I, E> Clone for Just<T, I, E> {
        fn clone(&self) -> Self {
            Just(self.0.clone(), PhantomData)
        }
    }
    impl<T: Copy, I, E> Copy for Just<T, I, E> {}
    pub const fn just<'a, T, I, E>(seq: T) -> Just<T, I, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        I::Token: PartialEq,
        T: OrderedSeq<I::Token> + Clone,
    {
        Just(seq, PhantomData)
    }
    impl<'a, T, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, T, E> for Just<T, I, E>
    where
        I::Token: PartialEq,
        T: OrderedSeq<I::Token> + Clone,
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<T, ()> {
            self.go_check(inp)?;
            Ok(self.0.clone())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            for want in self.0.tokens() {
                match inp.next_ref() {
                    Some(t) if t == want => {}
                    _ => return Err(()),
                }
            }
            Ok(())
        }
    }

    pub struct Select<F, I, O, E>(F, Ph<(I, O, E)>);
    impl<F: Clone, I, O, E> Clone for Select<F, I, O, E> {
        fn clone(&self) -> Self {
            Select(self.0.clone(), PhantomData)
        }
    }
    impl<F: Copy, I, O, E> Copy for Select<F, I, O, E> {}
    pub const fn select<'a, F, I, O, E>(filter: F) -> Select<F, I, O, E>
    where
        I: Input<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        Select(filter, PhantomData)
    }
    impl<'a, I: ValueInput<'a>, O, E: ParserExtra<'a, I>, F> Parser<'a, I, O, E> for Select<F, I, O, E>
    where
        I::Token: Clone,
        F: Fn(I::Token, I::Span) -> Option<O>,
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.offset();
            match inp.next() {
                Some(t) => (self.0)(t, inp.span_since(before)).ok_or(()),
                None => Err(()),
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_emit(inp).map(|_| ())
        }
    }

    pub struct SelectRef<F, I, O, E>(F, Ph<(I, O, E)>);
    impl<F: Clone, I, O, E> Clone for SelectRef<F, I, O, E> {
        fn clone(&self) -> Self {
            SelectRef(self.0.clone(), PhantomData)
        }
    }
    impl<F: Copy, I, O, E> Copy for SelectRef<F, I, O, E> {}
    pub const fn select_ref<'a, F, I, O, E>(filter: F) -> SelectRef<F, I, O, E>
    where
        I: BorrowInput<'a>,
        E: ParserExtra<'a, I>,
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        SelectRef(filter, PhantomData)
    }
    impl<'a, I: BorrowInput<'a>, O, E: ParserExtra<'a, I>, F> Parser<'a, I, O, E> for SelectRef<F, I, O, E>
    where
        F: Fn(&'a I::Token, I::Span) -> Option<O>,
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.offset();
            match inp.next_ref() {
                Some(t) => (self.0)(t, inp.span_since(before)).ok_or(()),
                None => Err(()),
            }
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            self.go_emit(inp).map(|_| ())
        }
    }

    #[derive(Clone, Copy)]
    pub struct Choice<T>(T);
    pub const fn choice<T>(parsers: T) -> Choice<T> {
        Choice(parsers)
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, O, E>
        for Choice<Vec<A>>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            for p in &self.0 {
                inp.rewind(before);
                if let Ok(v) = p.go_emit(inp) {
                    return Ok(v);
                }
            }
            inp.rewind(before);
            Err(())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            for p in &self.0 {
                inp.rewind(before);
                if p.go_check(inp).is_ok() {
                    return Ok(());
                }
            }
            inp.rewind(before);
            Err(())
        }
    }
    macro_rules! choice_tuple {
        ($($p:ident $i:tt),*) => {
            impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, $($p: Parser<'a, I, O, E>),*> Parser<'a, I, O, E>
                for Choice<($($p,)*)>
            {
                fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
                    let before = inp.save();
                    $(
                        if let Ok(v) = (self.0).$i.go_emit(inp) {
                            return Ok(v);
                        }
                        inp.rewind(before);
                    )*
                    Err(())
                }
                fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
                    let before = inp.save();
                    $(
                        if (self.0).$i.go_check(inp).is_ok() {
                            return Ok(());
                        }
                        inp.rewind(before);
                    )*
                    Err(())
                }
            }
        };
    }
    choice_tuple!(A 0);
    choice_tuple!(A 0, B 1);
    choice_tuple!(A 0, B 1, C 2);
    choice_tuple!(A 0, B 1, C 2, D 3);
    choice_tuple!(A 0, B 1, C 2, D 3, F 4);
    choice_tuple!(A 0, B 1, C 2, D 3, F 4, G 5);
    choice_tuple!(A 0, B 1, C 2, D 3, F 4, G 5, H 6);
    choice_tuple!(A 0, B 1, C 2, D 3, F 4, G 5, H 6, J 7);

    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, const N: usize>
        Parser<'a, I, O, E> for Choice<[A; N]>
    {
        fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
            let before = inp.save();
            for p in &self.0 {
                inp.rewind(before);
                if let Ok(v) = p.go_emit(inp) {
                    return Ok(v);
                }
            }
            inp.rewind(before);
            Err(())
        }
        fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
            let before = inp.save();
            for p in &self.0 {
                inp.rewind(before);
                if p.go_check(inp).is_ok() {
                    return Ok(());
                }
            }
            inp.rewind(before);
            Err(())
        }
    }
}

pub mod extension {
    pub mod v1 {
        use crate::*;
        pub trait ExtParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
            fn parse(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>;
            fn check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> {
                self.parse(inp).map(|_| ())
            }
        }
        #[derive(Clone, Copy)]
        pub struct Ext<T: ?Sized>(pub T);
        impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: ExtParser<'a, I, O, E>> Parser<'a, I, O, E>
            for Ext<P>
        {
            fn go_emit(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, ()> {
                meter::tick();
                self.0.parse(inp).map_err(|_| ())
            }
            fn go_check(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), ()> {
                meter::tick();
                self.0.check(inp).map_err(|_| ())
            }
        }
    }
}

pub mod cache {
    pub trait Cached {
        type Parser<'src>;
        fn make_parser<'src>(self) -> Self::Parser<'src>;
    }
    pub struct Cache<C: Cached> {
        parser: C::Parser<'static>,
    }
    impl<C: Cached> Cache<C> {
        pub fn new(cacher: C) -> Self {
            Cache {
                parser: cacher.make_parser(),
            }
        }
        pub fn get<'src>(&self) -> &C::Parser<'src> {
            // As in chumsky: make_parser works for any lifetime, so the parser
            // it made cannot depend on the one it was instantiated with.
            unsafe { &*(&self.parser as *const C::Parser<'static>).cast() }
        }
    }
    impl<C: Cached + Default> Default for Cache<C> {
        fn default() -> Self {
            Self::new(C::default())
        }
    }
}

pub mod prelude {
    pub use crate::error::Error as _;
    pub use crate::extra;
    pub use crate::input::{Input, InputRef};
    pub use crate::primitive::{any, choice, empty, end, just, none_of, one_of};
    pub use crate::span::SimpleSpan;
    pub use crate::{select, select_ref, Boxed, IterParser, ParseResult, Parser};
}

#[macro_export]
macro_rules! select {
    ($($p:pat $(if $guard:expr)? $(=> $out:expr)?),+ $(,)?) => ({
        $crate::primitive::select(
            move |x, _span| match x {
                $($p $(if $guard)? => ::core::option::Option::Some({ () $(;$out)? })),+,
                _ => ::core::option::Option::None,
            }
        )
    });
}
#[macro_export]
macro_rules! select_ref {
    ($($p:pat $(if $guard:expr)? $(=> $out:expr)?),+ $(,)?) => ({
        $crate::primitive::select_ref(
            move |x, _span| match x {
                $($p $(if $guard)? => ::core::option::Option::Some({ () $(;$out)? })),+,
                _ => ::core::option::Option::None,
            }
        )
    });
}
