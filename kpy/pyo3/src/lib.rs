//! Stand-in for the parts of pyo3 that a binding module needs.
#![allow(unused)]
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
pub use pymacros::{pyfunction, pymodule, wrap_pyfunction};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct PyErr(pub u8);
pub type PyResult<T> = Result<T, PyErr>;
impl PyErr {
    pub fn new<E: exceptions::Exc, A>(_: A) -> PyErr {
        PyErr(E::CODE)
    }
}
pub mod exceptions {
    use super::PyErr;
    pub trait Exc {
        const CODE: u8;
    }
    macro_rules! exc {
        ($($t:ident = $c:literal),*) => {$(
            pub struct $t;
            impl Exc for $t {
                const CODE: u8 = $c;
            }
            impl $t {
                pub fn new_err<A>(_: A) -> PyErr {
                    PyErr($c)
                }
            }
        )*};
    }
    exc!(PyAssertionError = 1, PyValueError = 2, PyTypeError = 3, PyIndexError = 4, PyRuntimeError = 5, PyException = 6, PyOverflowError = 7, PyBufferError = 8, PyArithmeticError = 9);
}
#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);
impl<'py> Python<'py> {
    pub fn new() -> Self {
        Python(PhantomData)
    }
    pub fn detach<T, F: FnOnce() -> T>(self, f: F) -> T {
        f()
    }
    pub fn allow_threads<T, F: FnOnce() -> T>(self, f: F) -> T {
        f()
    }
    pub fn check_signals(self) -> PyResult<()> {
        Ok(())
    }
}
pub struct Bound<'py, T>(pub T, PhantomData<&'py ()>);
impl<'py, T> Bound<'py, T> {
    pub fn wrap(t: T) -> Self {
        Bound(t, PhantomData)
    }
    pub fn py(&self) -> Python<'py> {
        Python::new()
    }
}
pub struct Registered {
    pub id: u64,
}
/// a number for a name
pub const fn id_of(name: &str) -> u64 {
    let b = name.as_bytes();
    let mut h = 0xcbf29ce484222325u64;
    let mut i = 0;
    while i < b.len() {
        h = (h ^ b[i] as u64).wrapping_mul(0x100000001b3);
        i += 1;
    }
    h
}
pub mod types {
    use super::*;
    pub struct PyModule {
        pub names: RefCell<[u64; 40]>,
        pub count: Cell<usize>,
    }
    impl PyModule {
        pub fn empty() -> Self {
            PyModule { names: RefCell::new([0; 40]), count: Cell::new(0) }
        }
    }
    pub trait PyModuleMethods {
        fn add_function(&self, f: Registered) -> PyResult<()>;
        fn add<V>(&self, _name: &str, _v: V) -> PyResult<()> {
            Ok(())
        }
    }
    impl<'py> PyModuleMethods for Bound<'py, PyModule> {
        fn add_function(&self, f: Registered) -> PyResult<()> {
            let n = self.0.count.get();
            self.0.names.borrow_mut()[n] = f.id;
            self.0.count.set(n + 1);
            Ok(())
        }
    }
}
pub mod prelude {
    pub use crate::types::{PyModule, PyModuleMethods};
    pub use crate::{Bound, PyErr, PyResult, Python, pyfunction, pymodule, wrap_pyfunction};
}

/// A Python value handed to an extension function.
pub enum Val<'py> {
    Gone,
    Dims(&'py [usize]),
    A64(&'py [f64], bool),
    A32(&'py [f32], bool),
    L64(&'py [(&'py [f64], bool)]),
    L32(&'py [(&'py [f32], bool)]),
    O64(&'py mut [f64], bool),
    O32(&'py mut [f32], bool),
    OB(&'py mut [bool], bool),
    Flag(bool),
    Num(f64),
}
pub struct Args<'py> {
    pub list: [Val<'py>; 8],
    pub next: usize,
}
impl<'py> Args<'py> {
    pub fn take(&mut self) -> Val<'py> {
        let i = self.next;
        self.next += 1;
        if i < 8 { std::mem::replace(&mut self.list[i], Val::Gone) } else { Val::Gone }
    }
}
pub const TYPE_ERROR: PyErr = PyErr(3);
pub trait FromArg<'py>: Sized {
    fn from_arg(a: &mut Args<'py>) -> PyResult<Self>;
}
impl<'py> FromArg<'py> for Python<'py> {
    fn from_arg(_: &mut Args<'py>) -> PyResult<Self> {
        Ok(Python::new())
    }
}
impl<'py> FromArg<'py> for bool {
    fn from_arg(a: &mut Args<'py>) -> PyResult<Self> {
        match a.take() {
            Val::Flag(b) => Ok(b),
            _ => Err(TYPE_ERROR),
        }
    }
}
impl<'py> FromArg<'py> for f64 {
    fn from_arg(a: &mut Args<'py>) -> PyResult<Self> {
        match a.take() {
            Val::Num(b) => Ok(b),
            _ => Err(TYPE_ERROR),
        }
    }
}
impl<'py> FromArg<'py> for f32 {
    fn from_arg(a: &mut Args<'py>) -> PyResult<Self> {
        match a.take() {
            Val::Num(b) => Ok(b as f32),
            _ => Err(TYPE_ERROR),
        }
    }
}
/// what a Python list can hold
pub trait Item<'py>: Sized {
    fn list(v: Val<'py>) -> PyResult<Vec<Self>>;
}
impl<'py, T: Item<'py>> FromArg<'py> for Vec<T> {
    fn from_arg(a: &mut Args<'py>) -> PyResult<Self> {
        T::list(a.take())
    }
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl<'py> Item<'py> for $t {
            fn list(v: Val<'py>) -> PyResult<Vec<Self>> {
                match v {
                    Val::Dims(d) => {
                        let mut v = Vec::with_capacity(16);
                        for x in d {
                            match <$t>::try_from(*x) {
                                Ok(x) => v.push(x),
                                Err(_) => return Err(PyErr(7)),
                            }
                        }
                        Ok(v)
                    }
                    _ => Err(TYPE_ERROR),
                }
            }
        }
    )*};
}
ints!(usize, u64, u32, u16, i64, i32, isize);
pub trait IntoUnit {
    fn unit(self) -> PyResult<()>;
}
impl<T> IntoUnit for PyResult<T> {
    fn unit(self) -> PyResult<()> {
        match self {
            Ok(_) => Ok(()),
            Err(e) => Err(e),
        }
    }
}
impl IntoUnit for () {
    fn unit(self) -> PyResult<()> {
        Ok(())
    }
}
