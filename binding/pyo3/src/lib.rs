//! Stands in for pyo3: values are dynamic and calls go by name, positional and keyword arguments,
//! defaults and conversions as pyo3 does them; there is no interpreter.

use std::{
    any::Any,
    fmt,
    marker::PhantomData,
    ops::{Deref, DerefMut},
    sync::{Arc, RwLock, RwLockReadGuard, RwLockWriteGuard},
};

pub use pyo3_macros_standin::{pyclass, pyfunction, pymethods, pymodule};

pub mod prelude {
    pub use crate::{
        pyclass, pyfunction, pymethods, pymodule, types::PyModule, wrap_pyfunction, FromPyObject,
        IntoPy, PyAny, PyErr, PyObject, PyRef, PyRefMut, PyResult, Python, ToPyObject,
    };
}

// --------------------------------------------------------------------------------- values

pub type Function = Arc<dyn Fn(Args) -> PyResult<PyAny> + Send + Sync>;
type Cell = Arc<RwLock<Box<dyn Any + Send + Sync>>>;

#[derive(Clone)]
pub struct Instance {
    class: &'static str,
    cell: Cell,
    get: fn(&PyAny, &str) -> Option<PyAny>,
    call: fn(&PyAny, &str, Args) -> Option<PyResult<PyAny>>,
}

/// an object of another package
pub trait Foreign: Send + Sync {
    fn call_method(&self, name: &str, args: Args) -> Option<PyResult<PyAny>>;
}

#[derive(Clone)]
pub enum PyAny {
    None,
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    List(Vec<PyAny>),
    Tuple(Vec<PyAny>),
    Function(Function),
    Instance(Instance),
    Foreign(Arc<dyn Foreign>),
}

impl fmt::Debug for PyAny {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            PyAny::None => write!(f, "None"),
            PyAny::Bool(b) => write!(f, "{b}"),
            PyAny::Int(i) => write!(f, "{i}"),
            PyAny::Float(x) => write!(f, "{x:?}"),
            PyAny::Str(s) => write!(f, "{s:?}"),
            PyAny::List(l) => write!(f, "{l:?}"),
            PyAny::Tuple(l) => write!(f, "tuple{l:?}"),
            PyAny::Function(_) => write!(f, "<function>"),
            PyAny::Instance(i) => write!(f, "<{}>", i.class),
            PyAny::Foreign(_) => write!(f, "<foreign>"),
        }
    }
}

impl PyAny {
    pub fn instance<T: PyClass>(val: T) -> Self {
        PyAny::Instance(Instance {
            class: T::NAME,
            cell: Arc::new(RwLock::new(Box::new(val))),
            get: |ob, name| {
                let r = PyRef::<T>::borrow(ob).ok()?;
                r.field(name)
            },
            call: T::method,
        })
    }
    pub fn is_instance_of<T: PyClass>(&self) -> bool {
        matches!(self, PyAny::Instance(i) if i.cell.read().unwrap().is::<T>())
    }
    pub fn extract<'s, D: FromPyObject<'s>>(&'s self) -> PyResult<D> {
        D::extract(self)
    }
    fn lookup(&self, name: &str, args: Args) -> Option<PyResult<PyAny>> {
        match self {
            PyAny::Instance(i) => (i.call)(self, name, args),
            PyAny::Foreign(o) => o.call_method(name, args),
            _ => None,
        }
    }
    pub fn invoke(&self, name: &str, args: Args) -> PyResult<PyAny> {
        self.lookup(name, args).unwrap_or_else(|| {
            Err(PyErr::of("AttributeError", format!("{self:?} has no attribute {name}")))
        })
    }
    pub fn attribute(&self, name: &str) -> PyResult<PyAny> {
        if let PyAny::Instance(i) = self {
            if let Some(v) = (i.get)(self, name) {
                return Ok(v);
            }
            if let Some(v) = (i.call)(self, &format!("get {name}"), Args::default()) {
                return v;
            }
        }
        Err(PyErr::of("AttributeError", format!("{self:?} has no attribute {name}")))
    }
    // pyo3 keeps such values until the interpreter ends the call; here they live on
    fn keep<'l>(self) -> &'l PyAny {
        Box::leak(Box::new(self))
    }
    pub fn getattr(&self, name: &str) -> PyResult<&PyAny> {
        self.attribute(name).map(PyAny::keep)
    }
    pub fn call_method(
        &self,
        name: &str,
        args: impl IntoArgs,
        _kwargs: Option<&types::PyDict>,
    ) -> PyResult<&PyAny> {
        self.invoke(name, args.into_args()).map(PyAny::keep)
    }
    pub fn call_method0(&self, name: &str) -> PyResult<&PyAny> {
        self.call_method(name, (), None)
    }
    pub fn call_method1(&self, name: &str, args: impl IntoArgs) -> PyResult<&PyAny> {
        self.call_method(name, args, None)
    }
    pub fn call(&self, args: impl IntoArgs, _kwargs: Option<&types::PyDict>) -> PyResult<&PyAny> {
        self.apply(args.into_args()).map(PyAny::keep)
    }
    pub fn call0(&self) -> PyResult<&PyAny> {
        self.call((), None)
    }
    pub fn call1(&self, args: impl IntoArgs) -> PyResult<&PyAny> {
        self.call(args, None)
    }
    pub fn apply(&self, args: Args) -> PyResult<PyAny> {
        match self {
            PyAny::Function(f) => f(args),
            _ => Err(PyErr::of("TypeError", format!("{self:?} is not callable"))),
        }
    }
    pub fn is_none(&self) -> bool {
        matches!(self, PyAny::None)
    }
    pub fn is_callable(&self) -> bool {
        matches!(self, PyAny::Function(_))
    }
}

/// a reference to an object, independent of the interpreter's lock
#[derive(Clone, Debug)]
pub struct PyObject(pub PyAny);

impl PyObject {
    pub fn call(
        &self,
        _: Python<'_>,
        args: impl IntoArgs,
        _kwargs: Option<&types::PyDict>,
    ) -> PyResult<PyObject> {
        self.0.apply(args.into_args()).map(PyObject)
    }
    pub fn call0(&self, py: Python<'_>) -> PyResult<PyObject> {
        self.call(py, (), None)
    }
    pub fn call1(&self, py: Python<'_>, args: impl IntoArgs) -> PyResult<PyObject> {
        self.call(py, args, None)
    }
    pub fn extract<'s, D: FromPyObject<'s>>(&'s self, _: Python<'s>) -> PyResult<D> {
        D::extract(&self.0)
    }
    pub fn clone_ref(&self, _: Python<'_>) -> PyObject {
        self.clone()
    }
    pub fn as_ref<'s>(&'s self, _: Python<'s>) -> &'s PyAny {
        &self.0
    }
    pub fn is_none(&self, _: Python<'_>) -> bool {
        self.0.is_none()
    }
}

pub struct PyRef<'l, T: PyClass>(RwLockReadGuard<'l, Box<dyn Any + Send + Sync>>, PhantomData<T>);
pub struct PyRefMut<'l, T: PyClass>(
    RwLockWriteGuard<'l, Box<dyn Any + Send + Sync>>,
    PhantomData<T>,
);

impl<'l, T: PyClass> PyRef<'l, T> {
    pub fn borrow(ob: &'l PyAny) -> PyResult<Self> {
        match ob {
            PyAny::Instance(i) => {
                let guard = i
                    .cell
                    .try_read()
                    .map_err(|_| PyErr::of("RuntimeError", "already mutably borrowed"))?;
                if !guard.is::<T>() {
                    return Err(PyErr::of("TypeError", format!("{ob:?} is no {}", T::NAME)));
                }
                Ok(PyRef(guard, PhantomData))
            },
            _ => Err(PyErr::of("TypeError", format!("{ob:?} is no {}", T::NAME))),
        }
    }
}
impl<'l, T: PyClass> PyRefMut<'l, T> {
    pub fn borrow(ob: &'l PyAny) -> PyResult<Self> {
        match ob {
            PyAny::Instance(i) => {
                let guard = i
                    .cell
                    .try_write()
                    .map_err(|_| PyErr::of("RuntimeError", "already borrowed"))?;
                if !guard.is::<T>() {
                    return Err(PyErr::of("TypeError", format!("{ob:?} is no {}", T::NAME)));
                }
                Ok(PyRefMut(guard, PhantomData))
            },
            _ => Err(PyErr::of("TypeError", format!("{ob:?} is no {}", T::NAME))),
        }
    }
}
impl<T: PyClass> Deref for PyRef<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.downcast_ref().unwrap()
    }
}
impl<T: PyClass> Deref for PyRefMut<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.downcast_ref().unwrap()
    }
}
impl<T: PyClass> DerefMut for PyRefMut<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.downcast_mut().unwrap()
    }
}

// --------------------------------------------------------------------------------- classes

pub trait PyClass: Any + Send + Sync + Sized {
    const NAME: &'static str;
    fn field(&self, name: &str) -> Option<PyAny>;
    fn construct(args: Args) -> PyResult<PyAny>;
    fn method(ob: &PyAny, name: &str, args: Args) -> Option<PyResult<PyAny>>;
}
pub trait PyMethods {
    fn construct(args: Args) -> PyResult<PyAny>;
    fn method(ob: &PyAny, name: &str, args: Args) -> Option<PyResult<PyAny>>;
}

/// what pauli_tracker_pyo3's `serde!` gives a class
pub trait Serializes: Sized {
    fn to_text(&self) -> Result<String, String>;
    fn from_text(text: &str) -> Result<Self, String>;
}

/// tells at compile time whether a class has it
pub struct Probe<T>(PhantomData<T>);

impl<T> Probe<T> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(PhantomData)
    }
}

pub trait WithSerde {
    fn serde(&self, ob: &PyAny, name: &str, args: &Args) -> Option<PyResult<PyAny>>;
}

impl<T: PyClass + Serializes> WithSerde for Probe<T> {
    fn serde(&self, ob: &PyAny, name: &str, args: &Args) -> Option<PyResult<PyAny>> {
        let bad = |e: String| PyErr::of("ValueError", e);
        match name {
            "serialize_to_string" => Some(
                PyRef::<T>::borrow(ob).and_then(|r| r.to_text().map(PyAny::Str).map_err(bad)),
            ),
            "deserialize_from_string" => match args.positional.first() {
                Some(PyAny::Str(s)) => Some(T::from_text(s).map(PyAny::instance).map_err(bad)),
                _ => Some(Err(missing("string"))),
            },
            _ => None,
        }
    }
}

pub trait WithoutSerde {
    fn serde(&self, ob: &PyAny, name: &str, args: &Args) -> Option<PyResult<PyAny>>;
}

impl<T> WithoutSerde for &Probe<T> {
    fn serde(&self, _: &PyAny, _: &str, _: &Args) -> Option<PyResult<PyAny>> {
        None
    }
}

pub fn no_constructor() -> PyErr {
    PyErr::of("TypeError", "no constructor defined")
}

// ---------------------------------------------------------------------------------- errors

pub type PyResult<T> = Result<T, PyErr>;

#[derive(Clone, Debug)]
pub struct PyErr {
    pub kind: &'static str,
    pub message: String,
}

impl fmt::Display for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}: {}", self.kind, self.message)
    }
}
impl std::error::Error for PyErr {}

impl PyErr {
    pub fn of(kind: &'static str, message: impl Into<String>) -> Self {
        Self { kind, message: message.into() }
    }
    pub fn new<E: exceptions::Exception, M: ToString>(message: M) -> Self {
        E::new_err(message)
    }
    pub fn warn(_: Python<'_>, category: &PyAny, message: &str, _level: i32) -> PyResult<()> {
        WARNINGS.with(|w| w.borrow_mut().push((format!("{category:?}"), message.to_string())));
        Ok(())
    }
}

thread_local! {
    pub static WARNINGS: std::cell::RefCell<Vec<(String, String)>> = const { std::cell::RefCell::new(vec![]) };
}

pub mod exceptions {
    use super::PyErr;
    pub trait Exception {
        const NAME: &'static str;
        fn new_err(message: impl ToString) -> PyErr {
            PyErr { kind: Self::NAME, message: message.to_string() }
        }
    }
    macro_rules! exceptions {
        ($($name:ident $text:literal,)*) => {$(
            pub struct $name;
            impl Exception for $name {
                const NAME: &'static str = $text;
            }
            impl $name {
                pub fn new_err(message: impl ToString) -> PyErr {
                    <Self as Exception>::new_err(message)
                }
            }
        )*};
    }
    exceptions!(
        PyException "Exception",
        PyValueError "ValueError",
        PyTypeError "TypeError",
        PyRuntimeError "RuntimeError",
        PyAttributeError "AttributeError",
        PyNotImplementedError "NotImplementedError",
        PyIndexError "IndexError",
        PyKeyError "KeyError",
        PyOverflowError "OverflowError",
        PyWarning "Warning",
        PyUserWarning "UserWarning",
        PyRuntimeWarning "RuntimeWarning",
        PyDeprecationWarning "DeprecationWarning",
    );
}

// ------------------------------------------------------------------------------- interpreter

#[derive(Clone, Copy)]
pub struct Python<'l>(PhantomData<&'l ()>);

impl<'l> Python<'l> {
    pub fn assume() -> Self {
        Python(PhantomData)
    }
    pub fn with_gil<R>(f: impl for<'p> FnOnce(Python<'p>) -> R) -> R {
        f(Python(PhantomData))
    }
    pub fn get_type<E: exceptions::Exception>(self) -> &'l PyAny {
        PyAny::Str(E::NAME.to_string()).keep()
    }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R {
        f()
    }
}

// --------------------------------------------------------------------------------- arguments

#[derive(Clone, Default, Debug)]
pub struct Args {
    pub positional: Vec<PyAny>,
    pub keywords: Vec<(String, PyAny)>,
}

impl Args {
    pub fn of(positional: Vec<PyAny>) -> Self {
        Self { positional, keywords: vec![] }
    }
    pub fn bind(self, names: &[&str]) -> PyResult<Vec<Option<PyAny>>> {
        if self.positional.len() > names.len() {
            return Err(PyErr::of("TypeError", "too many positional arguments"));
        }
        let mut res: Vec<Option<PyAny>> = self.positional.into_iter().map(Some).collect();
        res.resize_with(names.len(), || None);
        for (k, v) in self.keywords {
            let Some(i) = names.iter().position(|n| *n == k) else {
                return Err(PyErr::of("TypeError", format!("unexpected keyword argument {k}")));
            };
            if res[i].is_some() {
                return Err(PyErr::of("TypeError", format!("multiple values for argument {k}")));
            }
            res[i] = Some(v);
        }
        Ok(res)
    }
}

pub fn missing(name: &str) -> PyErr {
    PyErr::of("TypeError", format!("missing a required argument: {name}"))
}
pub fn required(val: Option<PyAny>, name: &str) -> PyResult<PyAny> {
    val.ok_or_else(|| missing(name))
}

pub trait IntoArgs {
    fn into_args(self) -> Args;
}
impl IntoArgs for () {
    fn into_args(self) -> Args {
        Args::default()
    }
}
impl IntoArgs for Args {
    fn into_args(self) -> Args {
        self
    }
}
macro_rules! tuples {
    ($(($($t:ident $i:tt),*),)*) => {$(
        impl<$($t: IntoPyAny),*> IntoArgs for ($($t,)*) {
            fn into_args(self) -> Args {
                Args::of(vec![$(self.$i.into_any()),*])
            }
        }
        impl<$($t: IntoPyAny),*> IntoPyAny for ($($t,)*) {
            fn into_any(self) -> PyAny {
                PyAny::Tuple(vec![$(self.$i.into_any()),*])
            }
        }
        impl<'s, $($t: FromPyObject<'s>),*> FromPyObject<'s> for ($($t,)*) {
            fn extract(ob: &'s PyAny) -> PyResult<Self> {
                let count = [$(stringify!($t)),*].len();
                match ob {
                    PyAny::Tuple(v) if v.len() == count => Ok(($($t::extract(&v[$i])?,)*)),
                    _ => Err(PyErr::of("TypeError", format!("{ob:?} is no tuple of {count}"))),
                }
            }
        }
    )*};
}
tuples!(
    (A 0),
    (A 0, B 1),
    (A 0, B 1, C 2),
    (A 0, B 1, C 2, D 3),
    (A 0, B 1, C 2, D 3, E 4),
    (A 0, B 1, C 2, D 3, E 4, F 5),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7),
);

// ------------------------------------------------------------------------------- conversions

pub trait FromPyObject<'s>: Sized {
    fn extract(ob: &'s PyAny) -> PyResult<Self>;
}

impl<'s, T: PyClass> FromPyObject<'s> for PyRef<'s, T> {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        PyRef::borrow(ob)
    }
}
impl<'s, T: PyClass> FromPyObject<'s> for PyRefMut<'s, T> {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        PyRefMut::borrow(ob)
    }
}
impl<'s> FromPyObject<'s> for &'s PyAny {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        Ok(ob)
    }
}
impl<'s> FromPyObject<'s> for PyObject {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        Ok(PyObject(ob.clone()))
    }
}
impl<'s, T: FromPyObject<'s>> FromPyObject<'s> for Option<T> {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        match ob {
            PyAny::None => Ok(None),
            _ => T::extract(ob).map(Some),
        }
    }
}
impl<'s, T: FromPyObject<'s>> FromPyObject<'s> for Vec<T> {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        match ob {
            PyAny::List(v) | PyAny::Tuple(v) => v.iter().map(T::extract).collect(),
            _ => Err(PyErr::of("TypeError", format!("{ob:?} is no sequence"))),
        }
    }
}
impl<'s> FromPyObject<'s> for bool {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        match ob {
            PyAny::Bool(b) => Ok(*b),
            _ => Err(PyErr::of("TypeError", format!("{ob:?} is no bool"))),
        }
    }
}
impl<'s> FromPyObject<'s> for String {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        match ob {
            PyAny::Str(s) => Ok(s.clone()),
            _ => Err(PyErr::of("TypeError", format!("{ob:?} is no str"))),
        }
    }
}
impl<'s> FromPyObject<'s> for f64 {
    fn extract(ob: &'s PyAny) -> PyResult<Self> {
        match ob {
            PyAny::Float(x) => Ok(*x),
            PyAny::Int(x) => Ok(*x as f64),
            PyAny::Bool(b) => Ok(f64::from(*b)),
            _ => Err(PyErr::of("TypeError", format!("{ob:?} is no float"))),
        }
    }
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl<'s> FromPyObject<'s> for $t {
            fn extract(ob: &'s PyAny) -> PyResult<Self> {
                match ob {
                    PyAny::Int(x) => <$t>::try_from(*x)
                        .map_err(|_| PyErr::of("OverflowError", format!("{x} is out of range"))),
                    PyAny::Bool(b) => Ok(*b as $t),
                    _ => Err(PyErr::of("TypeError", format!("{ob:?} is no int"))),
                }
            }
        }
        impl IntoPyAny for $t {
            fn into_any(self) -> PyAny {
                PyAny::Int(self as i128)
            }
        }
    )*};
}
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

/// pyo3's `IntoPy<PyObject>`
pub trait IntoPyAny {
    fn into_any(self) -> PyAny;
}
pub trait IntoPy<T> {
    fn into_py(self, py: Python<'_>) -> T;
}
impl<T: IntoPyAny> IntoPy<PyObject> for T {
    fn into_py(self, _: Python<'_>) -> PyObject {
        PyObject(self.into_any())
    }
}
pub trait ToPyObject {
    fn to_object(&self, py: Python<'_>) -> PyObject;
}
impl<T: IntoPyAny + Clone> ToPyObject for T {
    fn to_object(&self, _: Python<'_>) -> PyObject {
        PyObject(self.clone().into_any())
    }
}
impl IntoPyAny for PyAny {
    fn into_any(self) -> PyAny {
        self
    }
}
impl IntoPyAny for PyObject {
    fn into_any(self) -> PyAny {
        self.0
    }
}
impl IntoPyAny for () {
    fn into_any(self) -> PyAny {
        PyAny::None
    }
}
impl IntoPyAny for bool {
    fn into_any(self) -> PyAny {
        PyAny::Bool(self)
    }
}
impl IntoPyAny for f64 {
    fn into_any(self) -> PyAny {
        PyAny::Float(self)
    }
}
impl IntoPyAny for String {
    fn into_any(self) -> PyAny {
        PyAny::Str(self)
    }
}
impl IntoPyAny for &str {
    fn into_any(self) -> PyAny {
        PyAny::Str(self.to_string())
    }
}
impl<T: IntoPyAny> IntoPyAny for Vec<T> {
    fn into_any(self) -> PyAny {
        PyAny::List(self.into_iter().map(T::into_any).collect())
    }
}
impl<T: IntoPyAny> IntoPyAny for Option<T> {
    fn into_any(self) -> PyAny {
        self.map_or(PyAny::None, T::into_any)
    }
}

pub trait IntoResult {
    fn into_result(self) -> PyResult<PyAny>;
}
impl<T: IntoPyAny> IntoResult for T {
    fn into_result(self) -> PyResult<PyAny> {
        Ok(self.into_any())
    }
}
impl<T: IntoPyAny> IntoResult for PyResult<T> {
    fn into_result(self) -> PyResult<PyAny> {
        self.map(T::into_any)
    }
}

// ----------------------------------------------------------------------------------- modules

pub mod types {
    use std::sync::{Arc, Mutex};

    use super::{Args, PyAny, PyClass, PyErr, PyResult};

    pub struct PyDict(());

    pub struct PyModule {
        pub name: String,
        pub items: Mutex<Vec<(String, PyAny)>>,
        pub modules: Mutex<Vec<&'static PyModule>>,
    }

    /// what wrap_pyfunction makes
    pub struct PyCFunction {
        pub name: &'static str,
        pub call: fn(Args) -> PyResult<PyAny>,
    }

    impl PyModule {
        pub fn new_leaked(name: &str) -> &'static PyModule {
            Box::leak(Box::new(PyModule {
                name: name.to_string(),
                items: Mutex::default(),
                modules: Mutex::default(),
            }))
        }
        pub fn new<'p>(_: super::Python<'p>, name: &str) -> PyResult<&'p PyModule> {
            Ok(Self::new_leaked(name))
        }
        pub fn add_class<T: PyClass>(&self) -> PyResult<()> {
            let make = Arc::new(|args: Args| T::construct(args));
            self.items.lock().unwrap().push((T::NAME.to_string(), PyAny::Function(make)));
            Ok(())
        }
        pub fn add_function(&self, f: PyCFunction) -> PyResult<()> {
            let call = f.call;
            let item = PyAny::Function(Arc::new(move |args: Args| call(args)));
            self.items.lock().unwrap().push((f.name.to_string(), item));
            Ok(())
        }
        pub fn add_submodule(&self, m: &PyModule) -> PyResult<()> {
            // modules live as long as the program, see new_leaked
            let m: &'static PyModule = unsafe { &*(m as *const PyModule) };
            self.modules.lock().unwrap().push(m);
            Ok(())
        }
        pub fn item(&self, name: &str) -> PyResult<PyAny> {
            let items = self.items.lock().unwrap();
            let found = items.iter().rev().find(|i| i.0 == name).map(|i| i.1.clone());
            found.ok_or_else(|| PyErr::of("AttributeError", format!("{} has no {name}", self.name)))
        }
    }
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($function:path, $module:expr) => {{
        use $function as wrapped_pyfunction;
        let _ = &$module;
        $crate::PyResult::Ok($crate::types::PyCFunction {
            name: wrapped_pyfunction::NAME,
            call: wrapped_pyfunction::call,
        })
    }};
    ($function:path) => {
        |module: &_| $crate::wrap_pyfunction!($function, module)
    };
}
