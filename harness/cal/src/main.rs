//! Properties of the `calendar` crate: C08-C12 (calendar algebra) and C13-C21 (market calendars).

fn main() {
    if std::env::args().nth(1).as_deref() == Some("extras") {
        cal::markets::print_extras();
        return;
    }
    let mut props = cal::algebra::properties();
    props.extend(cal::markets::properties());
    engine::main_with(props);
}
