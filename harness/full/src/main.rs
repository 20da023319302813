//! Properties C01-C07 (dates) and C22-C39 (interpolation, curves, bonds, errors, threads, texts).
mod bond;
mod curve;
mod dates;
mod errors;
#[cfg(feature = "exact")]
mod exact;
mod fl;
mod interp;
mod interp_ref;
mod model;
mod print;
mod threads;

fn main() {
    let mut props = dates::properties();
    props.extend(interp::properties());
    props.extend(curve::properties());
    props.extend(bond::properties());
    props.extend(errors::properties());
    props.extend(threads::properties());
    props.extend(print::properties());
    #[cfg(feature = "exact")]
    exact::extend(&mut props);
    engine::main_with(props);
}
