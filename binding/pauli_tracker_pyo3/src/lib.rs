use std::sync::Mutex;

pub use serde_json;

use pyo3::{types::PyModule, PyResult, Python};

pub mod frames {
    crate::serde!(PartialOrderGraph);

    #[pyo3::pyclass(subclass)]
    #[derive(Clone)]
    pub struct PartialOrderGraph(pub Vec<Vec<(usize, Vec<usize>)>>);

    #[pyo3::pymethods]
    impl PartialOrderGraph {
        #[new]
        fn __new__(graph: Vec<Vec<(usize, Vec<usize>)>>) -> Self {
            Self(graph)
        }
        fn into_py_graph(&self) -> Vec<Vec<(usize, Vec<usize>)>> {
            self.0.clone()
        }
        fn take_into_py_graph(&mut self) -> Vec<Vec<(usize, Vec<usize>)>> {
            std::mem::take(&mut self.0)
        }
    }
}

pub struct Module<'l> {
    pub pymodule: &'l PyModule,
    pub path: String,
}

/// Python's sys.modules
pub static MODULES: Mutex<Vec<(String, &'static PyModule)>> = Mutex::new(vec![]);

impl<'l> Module<'l> {
    pub fn new(_: Python<'l>, name: &str, parent_path: String) -> PyResult<Self> {
        Ok(Self { pymodule: PyModule::new_leaked(name), path: format!("{parent_path}.{name}") })
    }
    pub fn add_submodule(&self, _: Python<'_>, module: Module<'_>) -> PyResult<()> {
        self.pymodule.add_submodule(module.pymodule)?;
        let m: &'static PyModule = unsafe { &*(module.pymodule as *const PyModule) };
        MODULES.lock().unwrap().push((module.path.clone(), m));
        Ok(())
    }
}

#[macro_export]
macro_rules! serde {
    ($class:ident) => {
        impl ::pyo3::Serializes for $class {
            fn to_text(&self) -> Result<String, String> {
                $crate::serde_json::to_string(&self.0).map_err(|e| e.to_string())
            }
            fn from_text(text: &str) -> Result<Self, String> {
                $crate::serde_json::from_str(text).map(Self).map_err(|e| e.to_string())
            }
        }
    };
    ($class:ident, plain) => {
        impl ::pyo3::Serializes for $class {
            fn to_text(&self) -> Result<String, String> {
                $crate::serde_json::to_string(self).map_err(|e| e.to_string())
            }
            fn from_text(text: &str) -> Result<Self, String> {
                $crate::serde_json::from_str(text).map_err(|e| e.to_string())
            }
        }
    };
}
#[macro_export]
macro_rules! transform {
    () => {
        "Transform the object into the corresponding Python object, cloning it."
    };
}
#[macro_export]
macro_rules! take_transform {
    () => {
        "Transform the object into the corresponding Python object, leaving it empty."
    };
}
