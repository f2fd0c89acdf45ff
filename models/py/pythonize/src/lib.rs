//! Stand-in: a Python value is a JSON value.
use pyo3::{PyAny, PyErr, PyObject, Python, Val};
#[derive(Debug)]
pub struct PythonizeError(String);
impl From<PythonizeError> for PyErr {
    fn from(e: PythonizeError) -> PyErr {
        PyErr { kind: "ValueError", text: e.0 }
    }
}
impl std::fmt::Display for PythonizeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
pub fn pythonize<T: serde::Serialize + ?Sized>(_py: Python<'_>, v: &T) -> Result<PyObject, PythonizeError> {
    serde_json::to_value(v).map(|v| PyObject::of(Val::Json(v))).map_err(|e| PythonizeError(e.to_string()))
}
pub fn depythonize<T: serde::de::DeserializeOwned>(v: &PyAny) -> Result<T, PythonizeError> {
    match &v.0 {
        Val::Json(v) => serde_json::from_value(v.clone()).map_err(|e| PythonizeError(e.to_string())),
        _ => Err(PythonizeError("unsupported type".into())),
    }
}
