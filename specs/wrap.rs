verus! {
pub trait WrapIoResult: Sized {
    spec fn wrapped(self, r: Self) -> bool;
    fn wrap_err<M>(self, msg: M) -> (r: Self) ensures self.wrapped(r);
}
impl<T> WrapIoResult for io::Result<T> {
    open spec fn wrapped(self, r: Self) -> bool {
        match self { Ok(v) => r == Ok::<T, io::Error>(v), Err(e) => r is Err && r->Err_0.k == e.k }
    }
//@fn file=lib.rs impl="WrapIoResult for Result" fn=wrap_err props=C01,C02,C03 id=wrap_err nopub=1
//@sig fn wrap_err<M>(self, msg: M) -> (r: Self)
//@end
}
} // verus!
