//! Makes shuttle (and what it needs) available as an rlib for the programs generated by checks/c20.py.
pub use shuttle;
