//! Stand-in for the few pyo3 items src/execgraph.rs uses: a capsule is a function pointer and a context.
use std::ffi::c_void;
use std::os::raw::{c_char, c_int};

#[derive(Debug, Clone)]
pub struct PyObject {
    pub raw: ffi::PyObject,
}
impl PyObject {
    pub fn capsule(ptr: *mut c_void, ctx: *mut c_void) -> PyObject {
        PyObject { raw: ffi::PyObject { ptr, ctx } }
    }
}
unsafe impl Send for PyObject {}
unsafe impl Sync for PyObject {}
pub trait AsPyPointer {
    fn as_ptr(&self) -> *mut ffi::PyObject;
}
impl AsPyPointer for PyObject {
    fn as_ptr(&self) -> *mut ffi::PyObject {
        &self.raw as *const _ as *mut _
    }
}
#[allow(non_snake_case)]
pub mod ffi {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct PyObject {
        pub ptr: *mut c_void,
        pub ctx: *mut c_void,
    }
    pub unsafe fn PyCapsule_CheckExact(_p: *mut PyObject) -> c_int {
        1
    }
    pub unsafe fn PyCapsule_IsValid(_p: *mut PyObject, _n: *const c_char) -> c_int {
        1
    }
    pub unsafe fn PyCapsule_GetPointer(p: *mut PyObject, _n: *const c_char) -> *mut c_void {
        (*p).ptr
    }
    pub unsafe fn PyCapsule_GetContext(p: *mut PyObject) -> *mut c_void {
        (*p).ctx
    }
}
