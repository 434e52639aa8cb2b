//! Python interpreter with the real extension compiled in.
use pyo3::ffi;
use std::ffi::{CString, c_char, c_int};
extern crate gufo_snmp;
unsafe extern "C" {
    fn PyInit__fast() -> *mut ffi::PyObject;
    fn Py_BytesMain(argc: c_int, argv: *mut *mut c_char) -> c_int;
}
unsafe extern "C" fn init() -> *mut ffi::PyObject {
    unsafe { PyInit__fast() }
}
fn main() {
    // Keeps the library linked in
    let _keep = gufo_snmp::buf::Buffer::default();
    unsafe {
        ffi::PyImport_AppendInittab(c"_fast".as_ptr(), Some(init));
    }
    let args: Vec<CString> = std::env::args().map(|a| CString::new(a).unwrap()).collect();
    let mut ptrs: Vec<*mut c_char> = args.iter().map(|a| a.as_ptr() as *mut c_char).collect();
    let rc = unsafe { Py_BytesMain(ptrs.len() as c_int, ptrs.as_mut_ptr()) };
    std::process::exit(rc);
}
