//! Reference models of the calendars, shared by the `cal` and `full` checkers.
pub mod algebra;
pub mod markets;
pub mod rules;
pub mod tables;
pub mod year;
