mod backend;
mod model;
mod props;
mod region;
mod systems;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("nested-request") {
        return props::server::nested_request();
    }
    pbt::driver::run(props::all());
}
