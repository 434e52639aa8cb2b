//! As pyhost, with the control of the rand shim exposed as module `_shim`.
use pyo3::ffi;
use pyo3::prelude::*;
use std::ffi::{CString, c_char, c_int};
extern crate gufo_snmp;
unsafe extern "C" {
    fn PyInit__fast() -> *mut ffi::PyObject;
    fn Py_BytesMain(argc: c_int, argv: *mut *mut c_char) -> c_int;
}
unsafe extern "C" fn init() -> *mut ffi::PyObject {
    unsafe { PyInit__fast() }
}
#[pyfunction]
fn push(v: u64) {
    rand::shim_push(v)
}
#[pyfunction]
fn clear() {
    rand::shim_clear()
}
#[pyfunction]
fn seed(v: u64) {
    rand::shim_seed(v)
}
#[pymodule]
fn _shim(m: &Bound<'_, PyModule>) -> PyResult<()> {
    m.add_function(wrap_pyfunction!(push, m)?)?;
    m.add_function(wrap_pyfunction!(clear, m)?)?;
    m.add_function(wrap_pyfunction!(seed, m)?)?;
    Ok(())
}
fn main() {
    let _keep = gufo_snmp::buf::Buffer::default();
    unsafe {
        ffi::PyImport_AppendInittab(c"_fast".as_ptr(), Some(init));
    }
    pyo3::append_to_inittab!(_shim);
    let args: Vec<CString> = std::env::args().map(|a| CString::new(a).unwrap()).collect();
    let mut ptrs: Vec<*mut c_char> = args.iter().map(|a| a.as_ptr() as *mut c_char).collect();
    let rc = unsafe { Py_BytesMain(ptrs.len() as c_int, ptrs.as_mut_ptr()) };
    std::process::exit(rc);
}
