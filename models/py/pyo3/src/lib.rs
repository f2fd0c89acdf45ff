//! Stand-in for the pyo3 items src/pylib.rs and src/execgraph.rs use: objects are Rust values, the interpreter is not there.
use std::ffi::{c_void, OsString};
use std::fmt;
use std::marker::PhantomData;
use std::os::raw::{c_char, c_int};
use std::path::PathBuf;
use std::rc::Rc;

#[derive(Clone)]
pub enum Val {
    None,
    Str(String),
    Strs(Vec<OsString>),
    Bytes(Vec<u8>),
    Json(serde_json::Value),
    Call(Rc<dyn Fn() -> PyResult<Val>>),
}
#[derive(Clone)]
pub struct PyObject {
    pub raw: ffi::PyObject,
    pub val: Val,
}
pub type Py<T> = PyObjectOf<T>;
pub struct PyObjectOf<T>(pub PyObject, PhantomData<T>);
impl fmt::Debug for PyObject {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("PyObject")
    }
}
impl PyObject {
    pub fn of(val: Val) -> PyObject {
        PyObject { raw: ffi::PyObject { ptr: std::ptr::null_mut(), ctx: std::ptr::null_mut() }, val }
    }
    pub fn capsule(ptr: *mut c_void, ctx: *mut c_void) -> PyObject {
        PyObject { raw: ffi::PyObject { ptr, ctx }, val: Val::None }
    }
    pub fn call<A>(&self, _py: Python<'_>, _args: A, _kwargs: Option<&types::PyDict>) -> PyResult<PyObject> {
        match &self.val {
            Val::Call(f) => f().map(PyObject::of),
            _ => Err(exceptions::PyTypeError::new_err("not callable")),
        }
    }
    pub fn call0(&self, py: Python<'_>) -> PyResult<PyObject> {
        self.call(py, (), None)
    }
    pub fn call1<A>(&self, py: Python<'_>, args: A) -> PyResult<PyObject> {
        self.call(py, args, None)
    }
    pub fn extract<T: FromVal>(&self, _py: Python<'_>) -> PyResult<T> {
        T::from_val(&self.val)
    }
    pub unsafe fn from_owned_ptr(_py: Python<'_>, p: *mut ffi::PyObject) -> PyObject {
        PyObject { raw: (*p).clone(), val: Val::None }
    }
    pub fn is_none(&self, _py: Python<'_>) -> bool {
        matches!(self.val, Val::None)
    }
}
unsafe impl Send for PyObject {}
unsafe impl Sync for PyObject {}
pub trait FromVal: Sized {
    fn from_val(v: &Val) -> PyResult<Self>;
}
impl FromVal for String {
    fn from_val(v: &Val) -> PyResult<String> {
        match v {
            Val::Str(s) => Ok(s.clone()),
            _ => Err(exceptions::PyTypeError::new_err("not a string")),
        }
    }
}
impl FromVal for Vec<u8> {
    fn from_val(v: &Val) -> PyResult<Vec<u8>> {
        match v {
            Val::Bytes(s) => Ok(s.clone()),
            _ => Err(exceptions::PyTypeError::new_err("not bytes")),
        }
    }
}
pub trait AsPyPointer {
    fn as_ptr(&self) -> *mut ffi::PyObject;
}
impl AsPyPointer for PyObject {
    fn as_ptr(&self) -> *mut ffi::PyObject {
        &self.raw as *const _ as *mut _
    }
}
#[derive(Clone, Copy)]
pub struct Python<'p>(PhantomData<&'p ()>);
impl fmt::Debug for Python<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Python")
    }
}
impl<'p> Python<'p> {
    pub fn with_gil<R>(f: impl FnOnce(Python<'_>) -> R) -> R {
        f(Python(PhantomData))
    }
    pub fn allow_threads<T>(self, f: impl FnOnce() -> T) -> T {
        f()
    }
    pub fn check_signals(self) -> PyResult<()> {
        Ok(())
    }
}
pub trait IntoPy {
    fn into_py(self, py: Python<'_>) -> PyObject;
}
impl IntoPy for String {
    fn into_py(self, _: Python<'_>) -> PyObject {
        PyObject::of(Val::Str(self))
    }
}
impl IntoPy for PathBuf {
    fn into_py(self, _: Python<'_>) -> PyObject {
        PyObject::of(Val::Str(self.to_string_lossy().into()))
    }
}
impl IntoPy for Vec<OsString> {
    fn into_py(self, _: Python<'_>) -> PyObject {
        PyObject::of(Val::Strs(self))
    }
}
impl<T: IntoPy> IntoPy for Option<T> {
    fn into_py(self, py: Python<'_>) -> PyObject {
        match self {
            Some(x) => x.into_py(py),
            None => PyObject::of(Val::None),
        }
    }
}
#[derive(Clone)]
pub struct PyErr {
    pub kind: &'static str,
    pub text: String,
}
pub type PyResult<T> = Result<T, PyErr>;
impl fmt::Debug for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}: {}", self.kind, self.text)
    }
}
impl fmt::Display for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}: {}", self.kind, self.text)
    }
}
impl std::error::Error for PyErr {}
macro_rules! from_err {
    ($($k:literal $t:ty;)*) => { $(impl From<$t> for PyErr {
        fn from(e: $t) -> PyErr {
            PyErr { kind: $k, text: e.to_string() }
        }
    })* };
}
from_err! {
    "OSError" std::io::Error;
    "ValueError" std::num::TryFromIntError;
    "ValueError" std::num::ParseIntError;
    "ValueError" std::string::FromUtf8Error;
    "ValueError" std::str::Utf8Error;
}
pub mod exceptions {
    use super::PyErr;
    pub trait Text {
        fn text(self) -> String;
    }
    impl<T: ToString> Text for T {
        fn text(self) -> String {
            self.to_string()
        }
    }
    macro_rules! exc {
        ($($n:ident $k:literal)*) => { $(pub struct $n;
            impl $n {
                pub fn new_err<T: Text>(t: T) -> PyErr {
                    PyErr { kind: $k, text: t.text() }
                }
            })* };
    }
    exc!(PyIOError "OSError" PyOSError "OSError" PyIndexError "IndexError" PyRuntimeError "RuntimeError" PyValueError "ValueError" PyTypeError "TypeError"
        PyKeyError "KeyError" PyException "Exception" PyOverflowError "OverflowError");
}
pub mod types {
    use super::*;
    pub struct PyBytes(pub PyObject);
    impl PyBytes {
        pub fn new<'p>(_py: Python<'p>, b: &[u8]) -> &'p PyBytes {
            Box::leak(Box::new(PyBytes(PyObject::of(Val::Bytes(b.to_vec())))))
        }
        pub fn extract<T: FromVal>(&self) -> PyResult<T> {
            T::from_val(&self.0.val)
        }
        pub fn as_bytes(&self) -> &[u8] {
            match &self.0.val {
                Val::Bytes(b) => b,
                _ => &[],
            }
        }
    }
    impl fmt::Debug for PyBytes {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("PyBytes")
        }
    }
    pub struct PyDict;
    pub struct PyTuple(pub Vec<PyObject>);
    impl PyTuple {
        pub fn new<'p>(_py: Python<'p>, x: impl IntoIterator<Item = impl Into<PyObject>>) -> &'p PyTuple {
            Box::leak(Box::new(PyTuple(x.into_iter().map(|o| o.into()).collect())))
        }
    }
    impl From<&PyObject> for PyObject {
        fn from(o: &PyObject) -> PyObject {
            o.clone()
        }
    }
    pub struct PyAny(pub Val);
    impl fmt::Debug for PyAny {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("PyAny")
        }
    }
    pub struct PyModule;
    impl PyModule {
        pub fn add_class<T>(&self) -> PyResult<()> {
            Ok(())
        }
        pub fn add_function(&self, _f: PyCFunction) -> PyResult<()> {
            Ok(())
        }
        pub fn add<T>(&self, _n: &str, _v: T) -> PyResult<()> {
            Ok(())
        }
    }
    pub struct PyCFunction;
}
pub use types::{PyAny, PyModule};
pub mod prelude {
    pub use crate::types::{PyAny, PyModule};
    pub use crate::{wrap_pyfunction, IntoPy, PyErr, PyObject, PyResult, Python};
    pub use vpyo3_macros::{pyclass, pyfunction, pymethods, pymodule};
}
pub use vpyo3_macros::{pyclass, pyfunction, pymethods, pymodule};
#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:path) => {{
        let _ = $f as *const ();
        Ok::<_, $crate::PyErr>($crate::types::PyCFunction)
    }};
    ($f:path, $m:expr) => {{
        let _ = &$f;
        let _ = &$m;
        Ok::<_, $crate::PyErr>($crate::types::PyCFunction)
    }};
}
#[allow(non_snake_case)]
pub mod ffi {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct PyObject {
        pub ptr: *mut c_void,
        pub ctx: *mut c_void,
    }
    pub unsafe fn PyCapsule_New(ptr: *mut c_void, _n: *const c_char, _d: Option<unsafe extern "C" fn(*mut PyObject)>) -> *mut PyObject {
        Box::leak(Box::new(PyObject { ptr, ctx: std::ptr::null_mut() }))
    }
    pub unsafe fn PyCapsule_CheckExact(_p: *mut PyObject) -> c_int {
        1
    }
    pub unsafe fn PyCapsule_IsValid(_p: *mut PyObject, _n: *const c_char) -> c_int {
        1
    }
    pub unsafe fn PyCapsule_GetPointer(p: *mut PyObject, _n: *const c_char) -> *mut c_void {
        (*p).ptr
    }
    pub unsafe fn PyCapsule_GetContext(p: *mut PyObject) -> *mut c_void {
        (*p).ctx
    }
}
