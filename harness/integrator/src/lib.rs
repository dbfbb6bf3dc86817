//! Stand-in (its build script needs the network): only the error type the mod manager's own error refers to.
pub mod error {
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("integrator") } }
    impl std::error::Error for Error {}
}
