verus! {
/// set.rs: Debug and Display.
pub mod fmt {
use super::*;
use super::repr::*;
use super::ty::*;
use super::set::{EnumSet, repr_has};
use super::setiter::*;
use super::piter::card_view;
broadcast use repr_has;
/// core::fmt: what has been written so far and whether a write has failed.
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;
#[verifier::external_body]
pub struct Formatter { _p: () }
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<char>;
    pub uninterp spec fn failed(&self) -> bool;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures
            final(self).failed() == (old(self).failed() || r is Err),
            r is Ok ==> final(self).out() == old(self).out() + s@,
    { unimplemented!() }
}
@for D in (Debug) (Display)
/// A variant's own %D%: it writes its text, or reports the writer's error.
pub trait %D%: Sized {
    spec fn text_%D%(self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
        ensures
            final(f).failed() == (old(f).failed() || r is Err),
            r is Ok ==> final(f).out() == old(f).out() + self.text_%D%();
}
pub open spec fn join_%D%<T: %D%>(v: Seq<T>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() }
    else if v.len() == 1 { v[0].text_%D%() }
    else { join_%D%(v.drop_last()) + " | "@ + v.last().text_%D%() }
}
pub proof fn join_%D%_push<T: %D%>(v: Seq<T>, x: T)
    ensures join_%D%(v.push(x)) == if v.len() == 0 { x.text_%D%() } else { join_%D%(v) + " | "@ + x.text_%D%() },
{
    assert(v.push(x).drop_last() =~= v);
}
@endfor
pub open spec fn debug_text<T: EnumSetType + Debug>(s: EnumSet<T>, v: Seq<T>, a: Seq<char>, b: Seq<char>) -> bool {
    listing(s, v) && b == a + "EnumSet("@ + join_Debug(v) + ")"@
}
pub open spec fn display_text<T: EnumSetType + Display>(s: EnumSet<T>, v: Seq<T>, a: Seq<char>, b: Seq<char>) -> bool {
    listing(s, v) && b == a + join_Display(v)
}
@props C17
@for D p post in (Debug,debug,"EnumSet("@ + join_Debug(done) + ")"@) (Display,display,join_Display(done))
impl<T: EnumSetType + %D%> EnumSet<T> {
@fn enumset/src/set.rs | impl<T: EnumSetType + %D%> %D% for EnumSet<T> | fmt | pub | as=fmt_%p% | path=EnumSet::
@rewrite maybe sig Formatter < '_ > ==> Formatter
@rewrite maybe sig core :: fmt :: Result ==> FmtResult
@rewrite for v in self . iter ( ) { ==> let mut it_ = self.iter(); let ghost mut done: Seq<T> = Seq::empty(); let ghost start = f.out(); proof { assert(start + join_%D%(done) =~= start); } loop invariant !f.failed(), split(*self, done, it_), is_first == (done.len() == 0), f.out() =~= start + join_%D%(done), decreases card(it_, T::Repr::width() as int) { let ghost a_ = it_; let v = match it_.next() { None => { proof { split_next(*self, done, a_, it_, None); } break; } Some(v) => v }; proof { T::laws(); a_.only_members(); split_next(*self, done, a_, it_, Some(v)); card_step(a_, it_, v.disc(), T::Repr::width() as int); join_%D%_push(done, v); done = done.push(v); } 
@spec
requires self.wf(), !old(f).failed(),
ensures
    (r is Err) == final(f).failed(),
    r is Ok ==> exists|v: Seq<T>| %p%_text(*self, v, old(f).out(), final(f).out()),
@before Ok(())
proof {
    assert(f.out() =~= old(f).out() + %post%);
    assert(%p%_text(*self, done, old(f).out(), f.out()));
}
@end
}
@endfor
}
}
