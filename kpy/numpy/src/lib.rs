//! Stand-in for the borrowed one-dimensional arrays of the numpy crate.
#![allow(unused)]
use pyo3::{Args, FromArg, Item, PyErr, PyResult, TYPE_ERROR, Val};

#[derive(Clone, Copy, Debug)]
pub struct NotContiguousError;
impl From<NotContiguousError> for PyErr {
    fn from(_: NotContiguousError) -> PyErr {
        PyErr(3)
    }
}
pub mod borrow {
    use super::*;
    pub struct PyReadonlyArray1<'py, T> {
        pub(crate) s: &'py [T],
        pub(crate) contiguous: bool,
    }
    pub struct PyReadwriteArray1<'py, T> {
        pub(crate) s: &'py mut [T],
        pub(crate) contiguous: bool,
    }
    impl<'py, T> PyReadonlyArray1<'py, T> {
        pub fn as_slice(&self) -> Result<&[T], NotContiguousError> {
            if self.contiguous { Ok(self.s) } else { Err(NotContiguousError) }
        }
        pub fn len(&self) -> usize {
            self.s.len()
        }
        pub fn is_empty(&self) -> bool {
            self.s.is_empty()
        }
        pub fn is_contiguous(&self) -> bool {
            self.contiguous
        }
        pub fn is_c_contiguous(&self) -> bool {
            self.contiguous
        }
        pub fn shape(&self) -> [usize; 1] {
            [self.s.len()]
        }
        pub fn get(&self, i: usize) -> Option<&T> {
            self.s.get(i)
        }
        pub fn to_vec(&self) -> Result<Vec<T>, NotContiguousError>
        where
            T: Clone,
        {
            if self.contiguous { Ok(self.s.to_vec()) } else { Err(NotContiguousError) }
        }
    }
    impl<'py, T> PyReadwriteArray1<'py, T> {
        pub fn as_slice(&self) -> Result<&[T], NotContiguousError> {
            if self.contiguous { Ok(self.s) } else { Err(NotContiguousError) }
        }
        pub fn as_slice_mut(&mut self) -> Result<&mut [T], NotContiguousError> {
            if self.contiguous { Ok(self.s) } else { Err(NotContiguousError) }
        }
        pub fn len(&self) -> usize {
            self.s.len()
        }
        pub fn is_empty(&self) -> bool {
            self.s.is_empty()
        }
        pub fn is_contiguous(&self) -> bool {
            self.contiguous
        }
        pub fn shape(&self) -> [usize; 1] {
            [self.s.len()]
        }
    }
}
pub use borrow::{PyReadonlyArray1, PyReadwriteArray1};
macro_rules! imp {
    ($t:ty, $a:ident, $l:ident, $o:ident) => {
        impl<'py> FromArg<'py> for PyReadonlyArray1<'py, $t> {
            fn from_arg(a: &mut Args<'py>) -> PyResult<Self> {
                match a.take() {
                    Val::$a(s, contiguous) => Ok(PyReadonlyArray1 { s, contiguous }),
                    _ => Err(TYPE_ERROR),
                }
            }
        }
        impl<'py> Item<'py> for PyReadonlyArray1<'py, $t> {
            fn list(v: Val<'py>) -> PyResult<Vec<Self>> {
                match v {
                    Val::$l(l) => {
                        let mut v = Vec::with_capacity(16);
                        for &(s, contiguous) in l {
                            v.push(PyReadonlyArray1 { s, contiguous });
                        }
                        Ok(v)
                    }
                    _ => Err(TYPE_ERROR),
                }
            }
        }
        impl<'py> FromArg<'py> for PyReadwriteArray1<'py, $t> {
            fn from_arg(a: &mut Args<'py>) -> PyResult<Self> {
                match a.take() {
                    Val::$o(s, contiguous) => Ok(PyReadwriteArray1 { s, contiguous }),
                    _ => Err(TYPE_ERROR),
                }
            }
        }
    };
}
imp!(f64, A64, L64, O64);
imp!(f32, A32, L32, O32);
impl<'py> FromArg<'py> for PyReadwriteArray1<'py, bool> {
    fn from_arg(a: &mut Args<'py>) -> PyResult<Self> {
        match a.take() {
            Val::OB(s, contiguous) => Ok(PyReadwriteArray1 { s, contiguous }),
            _ => Err(TYPE_ERROR),
        }
    }
}
